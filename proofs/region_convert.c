//@ source src/region.c
//@ function region_convert
//@ stub compute_bounds_mask compute_bounds_polygon bounds_round region_create_mask region_create_special region_get_mask_offset allocate_polygon clone_polygon
//@ loop region_convert 0 of 1 : LC_P
//@ ghost region_convert 0 : GH_P
//@ assume coordinates are finite numbers of at most 1e30; bounds, copies and the creation of regions are replaced by their contracts (units region_bounds, region_objects)
//@ union region_container : polygon
//@ cases 5
//@ solver --cvc5 --slice-formula | --sat-solver cadical
//@ cbmc --unwind 12
//@ fallback --unwind 6
//@ timeout 120
//@@prelude
extern int g_w, g_n, g_kt, g_kb, g_kl, g_kr; extern float g_px, g_py;
#define FIN(v) ((v) >= -1e30f && (v) <= 1e30f)
/* the precondition at point i; g_k* is the point at which the bound is met */
#define GH_P __CPROVER_assume(FIN(region->data.polygon.x[i]) && FIN(region->data.polygon.y[i]) && IMP(i == g_w, region->data.polygon.x[i] == g_px && region->data.polygon.y[i] == g_py)); if (region->data.polygon.y[i] <= top) g_kt = i; if (region->data.polygon.y[i] >= bottom) g_kb = i; if (region->data.polygon.x[i] <= left) g_kl = i; if (region->data.polygon.x[i] >= right) g_kr = i;
#define MET(k, n, v, e) ((n) == 0 || ((k) >= 0 && (k) < (n) && (v) == (e)))
#define LC_P __CPROVER_assigns(i, top, bottom, left, right, g_kt, g_kb, g_kl, g_kr) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n) \
  __CPROVER_loop_invariant(IMP(i == 0, top == 3.40282346638528859812e+38F && left == top && bottom == -top && right == -top)) \
  __CPROVER_loop_invariant(IMP(i > 0, FIN(top) && FIN(bottom) && FIN(left) && FIN(right))) \
  __CPROVER_loop_invariant(IMP(g_w < i, top <= g_py && bottom >= g_py && left <= g_px && right >= g_px)) \
  __CPROVER_loop_invariant(MET(g_kt, i, top, region->data.polygon.y[g_kt]) && MET(g_kb, i, bottom, region->data.polygon.y[g_kb]) && MET(g_kl, i, left, region->data.polygon.x[g_kl]) && MET(g_kr, i, right, region->data.polygon.x[g_kr])) \
  __CPROVER_decreases(g_n - i)
//@@harness
int g_w, g_n, g_kt, g_kb, g_kl, g_kr; float g_px, g_py;
static region_container *g_r; static region_bounds g_b; static int g_calls, g_code; static float *g_ax, *g_ay; static region_container *g_made;
region_bounds compute_bounds_mask(const region_mask *m) { ENSURE(g_r->type == MASK && m == &g_r->data.mask && !g_calls, "the bounds of the mask"); g_calls++; return g_b; }
region_bounds compute_bounds_polygon(const region_polygon *p) { ENSURE(0, "only needed to draw a mask"); return g_b; }
region_bounds bounds_round(region_bounds b) { ENSURE(0, "only needed to draw a mask"); return b; }
region_container *region_create_mask(int x, int y, int w, int h) { ENSURE(0, "a mask was not asked for"); return 0; }
void region_get_mask_offset(const region_container *r, char *m, int x, int y, int w, int h) { ENSURE(0, "a mask was not asked for"); }
region_container *region_create_special(int code) { ENSURE(!g_made, "one result"); g_made = malloc(sizeof(region_container)); g_made->type = SPECIAL; g_made->data.special = code; return g_made; }
region_polygon allocate_polygon(int n) { ENSURE(n == 4 && !g_ax, "four points"); region_polygon p; p.count = 4; g_ax = p.x = malloc(16); g_ay = p.y = malloc(16); return p; }
region_polygon clone_polygon(const region_polygon s) { ENSURE(g_r->type == POLYGON && s.count == g_n && s.x == g_r->data.polygon.x && s.y == g_r->data.polygon.y && !g_ax, "the points of the region"); region_polygon p; p.count = s.count; g_ax = p.x = malloc(4); g_ay = p.y = malloc(4); return p; }
static float num(void) { float v = nondet_float(); ASSUME(FIN(v)); return v; }
static int quad(region_container *o, float l, float t, float r, float b) {
  region_polygon p = o->data.polygon;
  return p.count == 4 && p.x[0] == l && p.x[1] == r && p.x[2] == r && p.x[3] == l && p.y[0] == t && p.y[1] == t && p.y[2] == b && p.y[3] == b;
}
int main(void) {
  region_container c;
  g_r = &c; g_calls = 0; g_ax = g_ay = 0; g_made = 0; __flags = 0;
  g_b.left = num(); g_b.top = num(); g_b.right = num(); g_b.bottom = num();
  float x = num(), y = num(), w = num(), h = num();
#if CASE == 0   /* a rectangle */
  c.type = RECTANGLE; c.data.rectangle.x = x; c.data.rectangle.y = y; c.data.rectangle.width = w; c.data.rectangle.height = h;
  region_container *o = region_convert(&c, RECTANGLE), *p = region_convert(&c, POLYGON);
  ENSURE(o != &c && o->type == RECTANGLE && o->data.rectangle.x == x && o->data.rectangle.y == y && o->data.rectangle.width == w && o->data.rectangle.height == h, "a rectangle is copied");
  float x2 = x + w - 1, y2 = y + h - 1;
  ENSURE(p->type == POLYGON && quad(p, x, y, x2, y2), "the corners are the first and the last pixels of the rectangle");
  REACH("rectangle");
#elif CASE == 1   /* a polygon */
  g_n = nondet_int(); g_w = nondet_int(); ASSUME(g_n >= 1 && g_n <= 500000000 && 0 <= g_w && g_w < g_n);
#ifdef BOUNDED
  ASSUME(g_n <= 3);
#endif
  c.type = POLYGON; float *ax = malloc(sizeof(float) * g_n), *ay = malloc(sizeof(float) * g_n);
  c.data.polygon.count = g_n; c.data.polygon.x = ax; c.data.polygon.y = ay;
  g_px = ax[g_w]; g_py = ay[g_w]; g_kt = g_kb = g_kl = g_kr = -1;
#ifdef BOUNDED
  for (int i = 0; i < g_n; i++) ASSUME(FIN(ax[i]) && FIN(ay[i]));
#endif
  region_container *o = region_convert(&c, RECTANGLE);
#ifdef BOUNDED
  g_kt = g_kb = g_kl = g_kr = 0;
  for (int i = 0; i < g_n; i++) { if (ay[i] <= ay[g_kt]) g_kt = i; if (ay[i] >= ay[g_kb]) g_kb = i; if (ax[i] <= ax[g_kl]) g_kl = i; if (ax[i] >= ax[g_kr]) g_kr = i; }
#endif
  ENSURE(g_kt >= 0 && g_kt < g_n && g_kb >= 0 && g_kb < g_n && g_kl >= 0 && g_kl < g_n && g_kr >= 0 && g_kr < g_n, "points at the bounds");
  float l = ax[g_kl], r = ax[g_kr], t = ay[g_kt], b = ay[g_kb];
  ENSURE(o->type == RECTANGLE && o->data.rectangle.x == l && o->data.rectangle.y == t, "the rectangle starts at the leftmost and the uppermost point");
  ENSURE(l <= g_px && g_px <= r && t <= g_py && g_py <= b, "no point lies outside");
  ENSURE(o->data.rectangle.width == r - l && o->data.rectangle.height == b - t, "and ends at the rightmost and the lowest one");
  REACH("box");
#elif CASE == 2
  g_n = nondet_int(); ASSUME(g_n >= 1 && g_n <= 500000000);
  c.type = POLYGON; c.data.polygon.count = g_n; c.data.polygon.x = malloc(4); c.data.polygon.y = malloc(4);
  region_container *o = region_convert(&c, POLYGON);
  ENSURE(o != &c && o->type == POLYGON && o->data.polygon.count == g_n && g_ax && o->data.polygon.x == g_ax && o->data.polygon.y == g_ay, "a polygon is copied");
  REACH("copy");
#elif CASE == 3   /* a mask */
  c.type = MASK;
  if (nondet_bool()) {
    region_container *o = region_convert(&c, RECTANGLE);
    ENSURE(g_calls == 1 && o->type == RECTANGLE && o->data.rectangle.x == g_b.left && o->data.rectangle.y == g_b.top, "the rectangle starts at the first row and column with pixels");
    ENSURE(o->data.rectangle.width == g_b.right - g_b.left + 1 && o->data.rectangle.height == g_b.bottom - g_b.top + 1, "and includes the last ones");
    REACH("rectangle");
  } else {
    region_container *o = region_convert(&c, POLYGON);
    ENSURE(g_calls == 1 && o->type == POLYGON && o->data.polygon.x == g_ax && quad(o, g_b.left, g_b.top, g_b.right, g_b.bottom), "the corners are the first and the last pixels");
    REACH("polygon");
  }
#else   /* special regions */
  c.type = nondet_int(); ASSUME(c.type >= EMPTY && c.type <= MASK);
  g_code = c.data.special;
  int t = nondet_int(); ASSUME(t == SPECIAL || c.type <= SPECIAL && (t == RECTANGLE || t == POLYGON || t == MASK));
  region_container *o = region_convert(&c, t);
  if (t == SPECIAL) { ENSURE(o && o == g_made && o->type == SPECIAL && o->data.special == (c.type == SPECIAL ? g_code : TRAX_DEFAULT_CODE), "the code, or the default one for a region with a shape"); REACH("special"); }
  else { ENSURE(!o && !g_made && !g_calls, "a special region has no shape"); REACH("none"); }
#endif
}
