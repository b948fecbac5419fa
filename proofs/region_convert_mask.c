//@ source src/region.c
//@ function region_convert
//@ stub compute_bounds_mask compute_bounds_polygon bounds_round region_create_mask region_create_special region_get_mask_offset allocate_polygon clone_polygon
//@ assume the conversion of a polygon to a rectangle is the business of unit region_convert (its loop is not reached); memset and memcpy are the standard ones; bounds are whole numbers after rounding, of at most 1000000 in size
//@ union region_container : mask
//@ nodfcc
//@ cases 3
//@ solver --cvc5 --slice-formula | --sat-solver cadical
//@ cbmc --unwind 6
//@ fallback --unwind 6
//@ timeout 120
//@@prelude
#define memset g_memset
#define memcpy g_memcpy
//@@harness
static region_container *g_r, *g_made; static region_bounds g_b, g_rb; static int g_calls, g_drawn, g_x, g_y, g_w, g_h, g_len, g_set; static char *g_d;
region_bounds compute_bounds_mask(const region_mask *m) { ENSURE(0, "not needed"); return g_b; }
region_bounds compute_bounds_polygon(const region_polygon *p) { ENSURE(g_r->type == POLYGON && p == &g_r->data.polygon && !g_calls, "the bounds of the polygon"); g_calls = 1; return g_b; }
region_bounds bounds_round(region_bounds b) { ENSURE(g_calls == 1 && b.left == g_b.left && b.right == g_b.right && b.top == g_b.top && b.bottom == g_b.bottom, "are rounded outwards"); g_calls = 2; return g_rb; }
region_container *region_create_special(int code) { ENSURE(0, "not asked for"); return 0; }
region_polygon allocate_polygon(int n) { region_polygon p; ENSURE(0, "not asked for"); return p; }
region_polygon clone_polygon(const region_polygon s) { ENSURE(0, "not asked for"); return s; }
region_container *region_create_mask(int x, int y, int w, int h) {
  ENSURE(w > 0 && h > 0 && !g_made, "one mask that is not empty");
  g_made = malloc(sizeof(region_container)); g_made->type = MASK; g_made->data.mask.x = x; g_made->data.mask.y = y; g_made->data.mask.width = w; g_made->data.mask.height = h; g_made->data.mask.data = g_d;
  return g_made;
}
void region_get_mask_offset(const region_container *r, char *m, int x, int y, int w, int h) { ENSURE(r == g_r && g_made && m == g_d && x == g_x && y == g_y && w == g_w && h == g_h && !g_drawn, "the polygon is drawn into all of its mask"); g_drawn = 1; }
void *g_memset(void *d, int c, __SIZE_TYPE__ n) { ENSURE(g_r->type == RECTANGLE && d == g_d && (char) c && n == g_len && !g_set, "every pixel of the rectangle is set"); g_set = 1; return d; }
void *g_memcpy(void *d, const void *s, __SIZE_TYPE__ n) { ENSURE(g_r->type == MASK && d == g_d && s == g_r->data.mask.data && n == g_len && !g_set, "every pixel of the mask is copied"); g_set = 1; return d; }
#ifdef BOUNDED
#define LIM 3
static float pos(void) { int v = nondet_int(); ASSUME(v >= -LIM && v <= LIM); return v; }
#else
static float pos(void) { float v = nondet_float(); ASSUME(v >= -1000000 && v <= 1000000); return v; }
#endif
static float num(void) { float v = nondet_float(); ASSUME(v >= -1e30f && v <= 1e30f); return v; }
int main(void) {
  region_container c;
  g_r = &c; g_calls = g_drawn = g_set = 0; g_made = 0; __flags = 0; g_d = malloc(1); g_len = nondet_int();
#if CASE == 0   /* rectangles: whole pixels of position and size */
  c.type = RECTANGLE; float x = pos(), y = pos(), w = pos(), h = pos();
  c.data.rectangle.x = x; c.data.rectangle.y = y; c.data.rectangle.width = w; c.data.rectangle.height = h;
  g_x = (int) x; g_y = (int) y; g_w = (int) w; g_h = (int) h; ASSUME(g_w > 0 && g_h > 0);
#elif CASE == 1   /* masks */
  c.type = MASK; g_x = c.data.mask.x = nondet_int(); g_y = c.data.mask.y = nondet_int(); g_w = c.data.mask.width = nondet_int(); g_h = c.data.mask.height = nondet_int(); c.data.mask.data = malloc(1);
  ASSUME(g_w > 0 && g_h > 0);
#else           /* polygons */
  float l = pos(), t = pos(), r = pos(), b = pos();
  c.type = POLYGON; g_b.left = num(); g_b.top = num(); g_b.right = num(); g_b.bottom = num();
  g_rb.left = l; g_rb.top = t; g_rb.right = r; g_rb.bottom = b;
  g_x = (int) l; g_y = (int) t; g_w = (int) (r - l + 1); g_h = (int) (b - t + 1); ASSUME(g_w > 0 && g_h > 0);   /* the number of columns and rows: case 3 of unit region_overlap */
#endif
#ifdef BOUNDED
  ASSUME(g_w <= 7 && g_h <= 7);
#endif
  ASSUME(!__builtin_mul_overflow(g_w, g_h, &g_len));   /* the number of pixels fits an int */
  region_container *o = region_convert(&c, MASK);
  ENSURE(o && o == g_made && o->type == MASK && o->data.mask.data == g_d, "a mask of its own");
  ENSURE(o->data.mask.x == g_x && o->data.mask.y == g_y && o->data.mask.width == g_w && o->data.mask.height == g_h, "that covers the region");
  ENSURE(c.type == POLYGON ? g_drawn && !g_set : g_set && !g_drawn, "and has its pixels");
  REACH("mask");
}
