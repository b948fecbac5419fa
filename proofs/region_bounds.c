//@ source src/region.c
//@ function compute_bounds_polygon compute_bounds_mask bounds_round bounds_intersection bounds_union region_create_bounds
//@ loop compute_bounds_polygon 0 of 1 : LC_P
//@ ghost compute_bounds_polygon 0 : GH_P
//@ loop compute_bounds_mask 0 of 2 : LC_R
//@ ghost compute_bounds_mask 0 : GH_R
//@ loop compute_bounds_mask 1 of 2 : LC_C
//@ ghost compute_bounds_mask 1 : GH_C
//@ assume products of a row and a width are known by the lemma row_fits (unit arith)
//@ assume coordinates are finite numbers; masks have at most 2147483647 pixels
//@ cases 3
//@ split 8
//@ solver --sat-solver cadical
//@ op compute_bounds_mask : i | * | mask->width : g_row
//@ cbmc --unwind 12
//@ fallback --unwind 5
//@ timeout 150
//@@prelude
extern int g_w, g_n, g_h, g_kt, g_kb, g_kl, g_kr, g_wi, g_wj, g_any, g_pv, g_len; extern float g_px, g_py; extern char *g_d;
#define FIN(v) ((v) >= -3.40282346638528859812e+38F && (v) <= 3.40282346638528859812e+38F)
/* the precondition at point i; g_k* is the point at which the bound is met */
#define GH_P __CPROVER_assume(FIN(polygon->x[i]) && FIN(polygon->y[i]) && IMP(i == g_w, polygon->x[i] == g_px && polygon->y[i] == g_py)); if (polygon->y[i] <= bounds.top) g_kt = i; if (polygon->y[i] >= bounds.bottom) g_kb = i; if (polygon->x[i] <= bounds.left) g_kl = i; if (polygon->x[i] >= bounds.right) g_kr = i;
#define MET(k, n, v, e) ((n) == 0 || ((k) >= 0 && (k) < (n) && (v) == (e)))
#define LC_P __CPROVER_assigns(i, bounds, g_kt, g_kb, g_kl, g_kr) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && FIN(bounds.top) && FIN(bounds.bottom) && FIN(bounds.left) && FIN(bounds.right)) \
  __CPROVER_loop_invariant(IMP(i == 0, bounds.top == 3.40282346638528859812e+38F && bounds.left == bounds.top && bounds.bottom == -bounds.top && bounds.right == -bounds.top)) \
  __CPROVER_loop_invariant(IMP(g_w < i, bounds.top <= g_py && bounds.bottom >= g_py && bounds.left <= g_px && bounds.right >= g_px)) \
  __CPROVER_loop_invariant(MET(g_kt, i, bounds.top, polygon->y[g_kt]) && MET(g_kb, i, bounds.bottom, polygon->y[g_kb]) && MET(g_kl, i, bounds.left, polygon->x[g_kl]) && MET(g_kr, i, bounds.right, polygon->x[g_kr])) \
  __CPROVER_decreases(g_n - i)
/* a mask of g_n columns and g_h rows; g_k* are rows and columns of pixels that are set, at which the bounds are met */
/* row g_ri of the mask starts at g_p = g_ri * g_n, of which row_fits is known */
#define GH_R g_ri = i; g_p = nondet_int(); __CPROVER_assume(g_p >= 0 && g_p <= g_len - g_n);
int g_row(int a, int b); extern int g_p, g_ri;
#define GH_C { int p = g_p; CUT(j + p >= 0 && j + p < g_len, "the pixel lies in the mask"); if (i == g_wi && j == g_wj) g_pv = g_d[j + p]; if (g_d[j + p]) { g_any = 1; if (!(bounds.top < i)) g_kt = i; if (!(bounds.bottom > i)) g_kb = i; if (!(bounds.left < j)) g_kl = j; if (!(bounds.right > j)) g_kr = j; } }
#define BOX (g_any ? bounds.top == (float) g_kt && bounds.bottom == (float) g_kb && bounds.left == (float) g_kl && bounds.right == (float) g_kr : bounds.top == 3.40282346638528859812e+38F && bounds.left == bounds.top && bounds.bottom == -bounds.top && bounds.right == -bounds.top)
#define INT_BOX (!g_any || (0 <= g_kt && g_kt < g_h && 0 <= g_kb && g_kb < g_h && 0 <= g_kl && g_kl < g_n && 0 <= g_kr && g_kr < g_n))
#define SEEN(a, b) IMP((g_wi < a || (g_wi == a && g_wj < b)) && g_pv, g_any && bounds.top <= g_wi && g_wi <= bounds.bottom && bounds.left <= g_wj && g_wj <= bounds.right)
#define LC_R __CPROVER_assigns(i, j, g_p, g_ri, bounds, g_any, g_pv, g_kt, g_kb, g_kl, g_kr) \
  __CPROVER_loop_invariant(0 <= i && i <= g_h && (g_any == 0 || g_any == 1) && INT_BOX && BOX && SEEN(i, 0)) __CPROVER_decreases(g_h - i)
#define LC_C __CPROVER_assigns(j, bounds, g_any, g_pv, g_kt, g_kb, g_kl, g_kr) \
  __CPROVER_loop_invariant(0 <= j && j <= g_n && (g_any == 0 || g_any == 1) && INT_BOX && BOX && SEEN(i, j)) __CPROVER_decreases(g_n - j)
//@@harness
int g_w, g_n, g_h, g_kt, g_kb, g_kl, g_kr, g_wi, g_wj, g_any, g_pv, g_len; float g_px, g_py; char *g_d; int g_p, g_ri;
int g_row(int a, int b) { ENSURE(a == g_ri && b == g_n && a >= 0 && a < g_h, "a row of the mask"); return g_p; }
static float fin(void) { float v = nondet_float(); ASSUME(FIN(v)); return v; }
static int in(float v, float a, float b) { return v >= a && v <= b; }
int main(void) {
#if CASE == 0   /* polygon */
  region_polygon p;
  g_n = nondet_int(); ASSUME(g_n >= 1 && g_n <= 500000000);
#ifdef BOUNDED
  ASSUME(g_n <= 4);
#endif
  p.count = g_n; p.x = malloc(sizeof(float) * g_n); p.y = malloc(sizeof(float) * g_n);
  g_w = nondet_int(); ASSUME(0 <= g_w && g_w < g_n); g_px = p.x[g_w]; g_py = p.y[g_w];
  g_kt = g_kb = g_kl = g_kr = -1;
#ifdef BOUNDED
  for (int i = 0; i < g_n; i++) ASSUME(FIN(p.x[i]) && FIN(p.y[i]));
#endif
  region_bounds b = compute_bounds_polygon(&p);
#ifdef BOUNDED
  for (int i = 0; i < g_n; i++) { if (p.y[i] == b.top) g_kt = i; if (p.y[i] == b.bottom) g_kb = i; if (p.x[i] == b.left) g_kl = i; if (p.x[i] == b.right) g_kr = i; }
#endif
  ENSURE(in(g_px, b.left, b.right) && in(g_py, b.top, b.bottom), "every point lies within the bounds");
  ENSURE(g_kt >= 0 && g_kt < g_n && b.top == p.y[g_kt] && g_kb >= 0 && g_kb < g_n && b.bottom == p.y[g_kb], "a point lies on the upper and on the lower bound");
  ENSURE(g_kl >= 0 && g_kl < g_n && b.left == p.x[g_kl] && g_kr >= 0 && g_kr < g_n && b.right == p.x[g_kr], "a point lies on the left and on the right bound");
  REACH("polygon");
#elif CASE == 1   /* mask */
  region_mask m;
  g_n = nondet_int(); g_h = nondet_int(); ASSUME(g_n >= 1 && g_h >= 1);
#ifdef BOUNDED
  ASSUME(g_n <= 3 && g_h <= 3);
  g_len = g_n * g_h;
#else
  g_len = nondet_int(); ASSUME(g_len >= g_n && g_len >= g_h);   /* g_n * g_h */
#endif
  m.width = g_n; m.height = g_h; m.x = nondet_int(); m.y = nondet_int();
  g_d = m.data = malloc(g_len);
  g_wi = nondet_int(); g_wj = nondet_int(); ASSUME(0 <= g_wi && g_wi < g_h && 0 <= g_wj && g_wj < g_n);
  g_any = g_pv = 0; g_kt = g_h; g_kl = g_n; g_kb = g_kr = -1;
#ifdef BOUNDED
  g_pv = g_d[g_wj + g_wi * g_n];
  for (int i = 0; i < 3 && i < g_h; i++) for (int j = 0; j < 3 && j < g_n; j++) if (g_d[j + i * g_n]) { g_any = 1; if (i < g_kt) g_kt = i; if (i > g_kb) g_kb = i; if (j < g_kl) g_kl = j; if (j > g_kr) g_kr = j; }
#endif
  region_bounds b = compute_bounds_mask(&m);
  if (g_any) {
    ENSURE(b.top == (float) g_kt + m.y && b.bottom == (float) g_kb + m.y && b.left == (float) g_kl + m.x && b.right == (float) g_kr + m.x, "the bounds are rows and columns of pixels that are set");
    REACH("pixels");
  }
  ENSURE(IMP(g_pv, g_any && (float) g_kt <= g_wi && g_wi <= (float) g_kb && (float) g_kl <= g_wj && g_wj <= (float) g_kr), "every pixel that is set lies within the bounds");
  REACH("mask");
#else
  region_bounds a = { fin(), fin(), fin(), fin() }, b = { fin(), fin(), fin(), fin() };
  float x = fin(), y = fin();
  region_bounds r = bounds_round(a);
  ENSURE(r.top <= a.top && r.left <= a.left && r.bottom >= a.bottom && r.right >= a.right && r.top == floor(r.top) && r.left == floor(r.left) && r.bottom == floor(r.bottom) && r.right == floor(r.right), "rounding goes outwards to whole numbers");
  ENSURE((r.top == a.top || r.top + 1 > a.top) && (r.left == a.left || r.left + 1 > a.left) && (r.bottom == a.bottom || r.bottom - 1 < a.bottom) && (r.right == a.right || r.right - 1 < a.right), "and not further than to the next one");
  region_bounds i = bounds_intersection(a, b);
  int ia = in(x, a.left, a.right) && in(y, a.top, a.bottom), ib = in(x, b.left, b.right) && in(y, b.top, b.bottom);
  ENSURE((in(x, i.left, i.right) && in(y, i.top, i.bottom)) == (ia && ib), "a point is in the intersection if it is in both");
  region_bounds u = bounds_union(a, b);
  ENSURE(IMP(ia || ib, in(x, u.left, u.right) && in(y, u.top, u.bottom)), "a point of either one is in the union");
  ENSURE((u.left == a.left || u.left == b.left) && (u.right == a.right || u.right == b.right) && (u.top == a.top || u.top == b.top) && (u.bottom == a.bottom || u.bottom == b.bottom), "the union is not larger than needed");
  region_bounds c = region_create_bounds(x, y, a.left, a.top);
  ENSURE(c.left == x && c.top == y && c.right == a.left && c.bottom == a.top, "left, top, right, bottom");
  REACH("bounds");
#endif
}
