//@ source src/region.c
//@ function region_compute_bounds region_create_bounds region_contains_point region_get_mask region_set_flags region_clear_flags
//@ stub compute_bounds_polygon compute_bounds_mask point_in_polygon point_in_mask region_get_mask_offset
//@ assume bounds, membership and masks are replaced by their contracts (units region_bounds, region_points, region_mask)
//@ solver --cvc5 --slice-formula | --sat-solver cadical
//@ nodfcc
//@ cases 4
//@ cbmc --unwind 8
//@ fallback --unwind 8
//@ timeout 120
//@@prelude
//@@harness
static int g_calls; static region_container *g_r; static float g_v[4]; static int g_ret; static char *g_m; static int g_i[4];
static region_bounds g_res;
region_bounds compute_bounds_polygon(const region_polygon *p) { ENSURE(p == &g_r->data.polygon && g_r->type == POLYGON && !g_calls, "the bounds of the polygon"); g_calls++; return g_res; }
region_bounds compute_bounds_mask(const region_mask *p) { ENSURE(p == &g_r->data.mask && g_r->type == MASK && !g_calls, "the bounds of the mask"); g_calls++; return g_res; }
int point_in_polygon(const region_polygon *p, float x, float y) { ENSURE(p == &g_r->data.polygon && g_r->type == POLYGON && x == g_v[0] && y == g_v[1] && !g_calls, "the point and the polygon"); g_calls++; return g_ret; }
int point_in_mask(const region_mask *p, float x, float y) { ENSURE(p == &g_r->data.mask && g_r->type == MASK && x == g_v[0] && y == g_v[1] && !g_calls, "the point and the mask"); g_calls++; return g_ret; }
void region_get_mask_offset(const region_container *r, char *m, int x, int y, int w, int h) { ENSURE(r == g_r && m == g_m && x == 0 && y == 0 && w == g_i[2] && h == g_i[3] && !g_calls, "the window starts at the origin"); g_calls++; }
static float num(void) { float v = nondet_float(); ASSUME(v >= -1e30f && v <= 1e30f); return v; }
int main(void) {
  g_calls = 0; g_ret = nondet_int();
  for (int k = 0; k < 4; k++) { g_i[k] = nondet_int(); g_v[k] = num(); }
  static region_container c; g_r = &c;
#if CASE == 0   /* bounds of a rectangle */
  c.type = RECTANGLE; __flags = 0;
  c.data.rectangle.x = g_v[0]; c.data.rectangle.y = g_v[1]; c.data.rectangle.width = g_v[2]; c.data.rectangle.height = g_v[3];
  region_bounds b = region_compute_bounds(&c);
  ENSURE(b.left == g_v[0] && b.top == g_v[1], "the first column and row of the rectangle");
  ENSURE(b.right == g_v[0] + g_v[2] - 1, "its last column");
  ENSURE(b.bottom == g_v[1] + g_v[3] - 1, "its last row");
  REACH("rectangle");
#elif CASE == 1   /* points of a rectangle */
  c.type = RECTANGLE;
  float x = num(), y = num(), w = num(), h = num();
  c.data.rectangle.x = x; c.data.rectangle.y = y; c.data.rectangle.width = w; c.data.rectangle.height = h;
  int r = region_contains_point(&c, g_v[0], g_v[1]);
  ENSURE(r == (g_v[0] >= x && g_v[0] <= w + x && g_v[1] >= y && g_v[1] <= h + y), "a rectangle contains the points between its edges");
  REACH("rectangle");
#elif CASE == 2   /* other regions */
  int any = nondet_bool();
  c.type = nondet_int(); ASSUME(c.type >= EMPTY && c.type <= MASK && c.type != RECTANGLE);
  __flags = 0;
  g_res.left = num(); g_res.top = num(); g_res.right = num(); g_res.bottom = num();
  if (any) {
    region_bounds b = region_compute_bounds(&c);
    if (c.type > RECTANGLE) { ENSURE(g_calls == 1 && b.left == g_res.left && b.top == g_res.top && b.right == g_res.right && b.bottom == g_res.bottom, "the bounds of the points or pixels"); REACH("bounds"); }
    else ENSURE(b.left == region_no_bounds.left && b.right == region_no_bounds.right && b.top == region_no_bounds.top && b.bottom == region_no_bounds.bottom, "no bounds");
  } else {
    int r = region_contains_point(&c, g_v[0], g_v[1]);
    if (c.type > RECTANGLE) { ENSURE(g_calls == 1 && r == g_ret, "the answer of the polygon or mask"); REACH("point"); }
    else ENSURE(r == 0, "other regions contain no points");
  }
#else
  g_m = malloc(1);
  region_get_mask(&c, g_m, g_i[2], g_i[3]);
  ENSURE(g_calls == 1, "the mask is drawn");
  int f = __flags, r = region_set_flags(g_i[0]); ENSURE(__flags == (f | g_i[0]) && r == __flags, "flags are set");
  r = region_clear_flags(g_i[1]); ENSURE(__flags == ((f | g_i[0]) & ~g_i[1]) && r == __flags, "and cleared");
  REACH("flags");
#endif
}
