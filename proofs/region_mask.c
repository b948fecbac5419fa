//@ source src/region.c
//@ function region_get_mask_offset region_get_mask
//@ stub region_convert offset_polygon region_release rasterize_polygon free_polygon
//@ loop region_get_mask_offset 0 of 2 : LC_R
//@ after region_get_mask_offset 0 : AF_R
//@ loop region_get_mask_offset 1 of 2 : LC_C
//@ ghost region_get_mask_offset 1 : GH_C
//@ assume positions and sizes are at most 1000000000 in size; conversion, offset, drawing and release of polygons are replaced by their contracts (units region_convert, region_objects, region_draw)
//@ op region_get_mask_offset : (i + oy) | * | width : g_row_w
//@ op region_get_mask_offset : (i + gy) | * | (r->data.mask).width : g_row_m
//@ op region_get_mask_offset : width | * | height : g_area
//@ assume products of a row and a width are known by the lemmas row_fits and row_apart (unit arith)
//@ union region_container : mask
//@ cases 2
//@ split 12
//@ solver --sat-solver cadical
//@ cbmc --unwind 12
//@ fallback --unwind 5
//@ timeout 150
//@@prelude
#define GH_C CUT(i + oy >= 0 && i + oy < g_h && i + gy >= 0 && i + gy < g_mh, "the row lies in the window and in the mask"); CUT(j + ox >= 0 && j + ox < g_w, "the column lies in the window"); CUT(j + gx >= 0 && j + gx < g_mw, "and in the mask"); __CPROVER_assume(IMP(g_in && i + gy == g_si && j + gx == g_sj, (r->data.mask).data[j + gx + g_srow] == g_v));
#define memset g_memset
/* g_v is the value of the pixel at row g_si and column g_sj of the mask, whose row starts at g_srow */
extern int g_len, g_mlen, g_wi, g_wj, g_k, g_s, g_in, g_si, g_sj, g_srow; extern char *g_m, g_v; extern __SIZE_TYPE__ g_zeroed;
int g_area(int a, int b); int g_row_w(int a, int b); int g_row_m(int a, int b);
extern int g_p, g_krow; extern int g_h, g_w, g_mh, g_mw;
#define AF_R ENSURE(g_zeroed == g_len, "the whole window is cleared first");
#define PIX(a, b) (g_m[g_k] == ((g_in && (g_wi - oy < (a) || (g_wi - oy == (a) && g_wj - ox < (b)))) ? g_v : 0))
#define LC_R __CPROVER_assigns(i, j, g_p, __CPROVER_object_whole(mask)) \
  __CPROVER_loop_invariant(0 <= i && IMP(th > 0, i <= th) && IMP(th <= 0, i == 0) && PIX(i, 0)) __CPROVER_decreases(th - i)
#define LC_C __CPROVER_assigns(j, g_p, __CPROVER_object_whole(mask)) \
  __CPROVER_loop_invariant(0 <= j && IMP(tw > 0, j <= tw) && IMP(tw <= 0, j == 0) && PIX(i, j)) __CPROVER_decreases(tw - j)
//@@harness
int g_len, g_mlen, g_wi, g_wj, g_k, g_s, g_in, g_si, g_sj, g_srow; char *g_m, g_v; __SIZE_TYPE__ g_zeroed;
int g_p, g_krow, g_h, g_w, g_mh, g_mw; static region_container *g_r, *g_t; static int g_conv, g_off, g_rel, g_drawn, g_fr, g_x, g_y; static float g_px[1], g_py[1], g_tx[1];
void *g_memset(void *d, int c, __SIZE_TYPE__ n) {
  ENSURE(d == g_m && c == 0 && !g_zeroed, "the window is cleared");
  g_zeroed = n;
#ifdef BOUNDED
  for (int i = 0; i < 4; i++) if (i < n) g_m[i] = 0;
#else
  g_m[g_k] = 0;
#endif
  return d;
}
region_container *region_convert(const region_container *r, region_type t) { ENSURE(r == g_r && r->type == RECTANGLE && t == POLYGON && !g_conv, "a rectangle becomes a polygon"); g_conv = 1; g_t = malloc(sizeof(region_container)); g_t->type = POLYGON; g_t->data.polygon.count = 4; g_t->data.polygon.x = g_tx; g_t->data.polygon.y = g_py; return g_t; }
region_polygon offset_polygon(const region_polygon p, float x, float y) {
  ENSURE(!g_off && !g_rel && p.x == (g_r->type == RECTANGLE ? g_tx : g_px) && p.y == g_py && p.count == (g_r->type == RECTANGLE ? 4 : 7), "the points of the region are moved");
  ENSURE(x == (float) -g_x && y == (float) -g_y, "by the position of the window");
  g_off = 1;
  region_polygon q = { p.count, g_px + 1, g_py + 1 };
  return q;
}
void region_release(region_container **r) { ENSURE(*r == g_t && g_conv && g_off && !g_rel, "the temporary polygon is released"); g_rel = 1; *r = 0; }
int rasterize_polygon(const region_polygon p, char *m, int w, int h) { ENSURE(g_off && p.x == g_px + 1 && p.y == g_py + 1 && m == g_m && w == g_w && h == g_h && !g_drawn && !g_fr, "the moved polygon is drawn into the window"); g_drawn = 1; return 0; }
void free_polygon(region_polygon *p) { ENSURE(g_drawn && !g_fr && p->x == g_px + 1, "and released"); g_fr = 1; }
/* the contracts of the products: row_fits and row_apart */
int g_area(int a, int b) { ENSURE(a == g_w && b == g_h, "the size of the window"); return g_len; }
int g_row_w(int a, int b) {
  ENSURE(b == g_w && a >= 0 && a < g_h, "a row of the window");
  g_p = nondet_int();
  ASSUME(g_p >= 0 && g_p <= g_len - g_w && IMP(a == g_wi, g_p == g_krow) && IMP(a < g_wi, g_p <= g_krow - g_w) && IMP(a > g_wi, g_p >= g_krow + g_w));
  return g_p;
}
int g_row_m(int a, int b) {
  ENSURE(b == g_mw && a >= 0 && a < g_mh, "a row of the mask");
  g_p = nondet_int();
  ASSUME(g_p >= 0 && g_p <= g_mlen - g_mw && IMP(g_in && a == g_si, g_p == g_srow));
  return g_p;
}
#define B 1000000000
static int pos(void) { int v = nondet_int(); ASSUME(v >= -B && v <= B); return v; }
static int size(void) { int v = nondet_int(); ASSUME(v >= 1 && v <= B); return v; }
int main(void) {
  region_container c;
  g_r = &c; g_zeroed = 0; g_conv = g_off = g_rel = g_drawn = g_fr = 0;
  int whole = CASE && nondet_bool();   /* region_get_mask is the window at 0, 0 */
  g_x = whole ? 0 : pos(); g_y = whole ? 0 : pos(); g_w = size(); g_h = size();
#if CASE == 0   /* mask */
  int mx = pos(), my = pos(), mw = size(), mh = size(); g_mw = mw; g_mh = mh;
#ifdef BOUNDED
  ASSUME(g_w <= 2 && g_h <= 2 && mw <= 2 && mh <= 2 && g_x >= -3 && g_x <= 3 && g_y >= -3 && g_y <= 3 && mx >= -3 && mx <= 3 && my >= -3 && my <= 3);
  g_len = g_w * g_h; g_mlen = mw * mh;
#else
  g_len = nondet_int(); g_mlen = nondet_int(); ASSUME(g_len >= g_w && g_len >= g_h && g_mlen >= mw && g_mlen >= mh);   /* the products */
#endif
  region_mask mm; mm.x = mx; mm.y = my; mm.width = mw; mm.height = mh; c.type = MASK;
#ifdef BOUNDED
  static char src[4], dst[4]; for (int k = 0; k < 4; k++) src[k] = nondet_char();
  mm.data = src; c.data.mask = mm; g_m = dst;
#else
  mm.data = malloc(g_mlen); c.data.mask = mm; g_m = malloc(g_len);
#endif
  g_wi = nondet_int(); g_wj = nondet_int(); ASSUME(0 <= g_wi && g_wi < g_h && 0 <= g_wj && g_wj < g_w);
#ifdef BOUNDED
  g_k = g_wj + g_wi * g_w;
#else
  g_krow = nondet_int(); ASSUME(g_krow >= 0 && g_krow <= g_len - g_w);   /* g_wi * g_w, row_fits */
  g_k = g_wj + g_krow;
#endif
  long sj = (long) g_x + g_wj - mx, si = (long) g_y + g_wi - my;
  g_in = sj >= 0 && si >= 0 && sj < mw && si < mh;
  g_si = g_in ? si : 0; g_sj = g_in ? sj : 0;
#ifdef BOUNDED
  g_srow = g_si * mw;
#else
  g_srow = nondet_int(); ASSUME(g_srow >= 0 && g_srow <= g_mlen - mw);   /* g_si * mw, row_fits */
#endif
  g_v = g_in ? c.data.mask.data[g_srow + (int) sj] : 0;
  region_get_mask_offset(&c, g_m, g_x, g_y, g_w, g_h);
  ENSURE(g_m[g_k] == g_v, "a pixel of the window is the pixel of the mask at this place, or zero if there is none");
  ENSURE(g_zeroed == g_len && !g_drawn, "the window is cleared and nothing else is drawn");
  REACH("mask");
  if (g_in) REACH("inside");
#else
  c.type = nondet_bool() ? RECTANGLE : POLYGON;
  if (c.type == POLYGON) { c.data.polygon.count = 7; c.data.polygon.x = g_px; c.data.polygon.y = g_py; }
  g_m = malloc(1);
  if (whole) region_get_mask(&c, g_m, g_w, g_h); else region_get_mask_offset(&c, g_m, g_x, g_y, g_w, g_h);
  ENSURE(g_drawn && g_fr && g_conv == (c.type == RECTANGLE) && g_rel == g_conv, "the polygon is drawn and everything temporary is released");
  REACH("polygon");
#endif
}
