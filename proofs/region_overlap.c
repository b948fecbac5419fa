//@ source src/region.c
//@ function region_compute_overlap bounds_intersection
//@ stub region_compute_bounds bounds_round region_create_mask region_get_mask_offset region_release
//@ loop region_compute_overlap 0 of 3 : LC_A
//@ ghost region_compute_overlap 0 : GH_A
//@ after region_compute_overlap 0 : AF_A
//@ loop region_compute_overlap 1 of 3 : LC_B
//@ ghost region_compute_overlap 1 : GH_B
//@ after region_compute_overlap 1 : AF_B
//@ loop region_compute_overlap 2 of 3 : LC_O
//@ ghost region_compute_overlap 2 : GH_O
//@ after region_compute_overlap 2 : AF_O
//@ assume bounds, masks of regions and release are replaced by their contracts (units region_bounds, region_mask, region_objects); limits are whole numbers of at most 1000000 in size, masks have at most 16777216 pixels
//@ assume products are replaced by their contract: the number of pixels of the area, at least 1 and at most 16777216 (where float is exact), and equal for equal factors; the quotient of two such numbers is not below 1e-10
//@ op region_compute_overlap : width | * | height : g_imul
//@ op region_compute_overlap : (b1.right - b1.left + 1) | * | (b1.bottom - b1.top + 1) : g_fmul
//@ op region_compute_overlap : (b2.right - b2.left + 1) | * | (b2.bottom - b2.top + 1) : g_fmul
//@ op region_compute_overlap : a1 | / | a2 : g_ratio
//@ op region_compute_overlap : a2 | / | a1 : g_ratio
//@ union region_container : mask
//@ cases 4
//@ split 8
//@ solver --cvc5 --slice-formula | --sat-solver cadical
//@ cbmc --unwind 16
//@ fallback --unwind 10
//@ timeout 250
//@@prelude
int g_imul(int, int); float g_fmul(float, float); double g_ratio(double, double);
extern int g_la, g_lb, g_lo, g_c1, g_c2, g_c3, g_mw, g_mh, g_br; extern char *g_m1, *g_m2; extern float g_e1, g_e2, g_eo;
/* g_c1, g_c2: pixels of the first and of the second region only; g_c3: of both */
#define LC_A __CPROVER_assigns(i, vol_1, g_c1) __CPROVER_loop_invariant(0 <= i && i <= g_la && vol_1 == g_c1 && 0 <= g_c1 && g_c1 <= i)
#define GH_A CUT(i < g_la, "a pixel of the first mask"); if (g_m1[i]) g_c1++;
#define AF_A CUT(i == g_la, "all pixels are counted");
#define LC_B __CPROVER_assigns(i, vol_2, g_c2) __CPROVER_loop_invariant(0 <= i && i <= g_lb && vol_2 == g_c2 && 0 <= g_c2 && g_c2 <= i)
#define GH_B CUT(i < g_lb, "a pixel of the second mask"); if (g_m2[i]) g_c2++;
#define AF_B CUT(i == g_lb, "all pixels are counted"); CUT(vol_1 == g_c1 && vol_2 == g_c2, "the pixels of each region are counted"); g_br = 1; g_e1 = (float) vol_1 / (float) (vol_1 + vol_2); g_e2 = (float) vol_2 / (float) (vol_1 + vol_2); g_eo = 0;
#define LC_O __CPROVER_assigns(i, vol_1, vol_2, mask_1, mask_2, mask_intersect, g_c1, g_c2, g_c3) \
  __CPROVER_loop_invariant(0 <= i && i <= g_lo && mask_1 == g_c1 && mask_2 == g_c2 && mask_intersect == g_c3) \
  __CPROVER_loop_invariant(0 <= g_c1 && 0 <= g_c2 && 0 <= g_c3 && g_c1 <= i && g_c2 <= i - g_c1 && g_c3 <= i - g_c1 - g_c2 && 0 <= vol_1 && vol_1 <= i && 0 <= vol_2 && vol_2 <= i)
#define GH_O CUT(i < g_lo, "a pixel of the masks"); if (g_m1[i] && g_m2[i]) g_c3++; else if (g_m1[i]) g_c1++; else if (g_m2[i]) g_c2++;
#define AF_O ENSURE(width == g_mw && height == g_mh, "the counted area is that of the masks"); CUT(i == g_lo, "all pixels are counted"); CUT(mask_1 == g_c1 && mask_2 == g_c2 && mask_intersect == g_c3, "the pixels of one region only and of both are counted"); g_br = 2; g_e1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect); g_e2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect); g_eo = (float) mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
//@@harness
#ifdef BOUNDED
#define BND 1
#else
#define BND 0
#endif
int g_la, g_lb, g_lo, g_c1, g_c2, g_c3, g_mw, g_mh, g_br; char *g_m1, *g_m2; float g_e1, g_e2, g_eo;
static const region_container *g_a, *g_b; static float g_b1[4], g_b2[4], g_f[4]; static int g_w, g_h, g_made, g_got, g_rel, g_box[8]; static region_container *g_t1, *g_t2; static region_bounds g_r1, g_r2;
static region_bounds mk(float *b) { region_bounds r; r.left = b[0]; r.top = b[1]; r.right = b[2]; r.bottom = b[3]; return r; }
/* the bounds of a region; rounding is applied to them once */
region_bounds region_compute_bounds(const region_container *r) { ENSURE(r == g_a || r == g_b, "the bounds of the regions"); return r == g_a ? g_r1 : g_r2; }
region_bounds bounds_round(region_bounds b) {
  int one = b.left == 0.25f;
  ENSURE(one ? b.right == g_r1.right && b.top == g_r1.top && b.bottom == g_r1.bottom : b.left == 0.5f && b.right == g_r2.right && b.top == g_r2.top && b.bottom == g_r2.bottom, "the bounds of the regions are rounded");
  if (one) return mk(g_b1);
  return mk(g_b2);
}
region_container *region_create_mask(int x, int y, int w, int h) {
  ENSURE(w > 0 && h > 0 && g_made < 2, "two masks that are not empty");
  region_container *r = malloc(sizeof(region_container));
  r->type = MASK; r->data.mask.x = x; r->data.mask.y = y; r->data.mask.width = w; r->data.mask.height = h;
  if (g_made == 0) { g_t1 = r; r->data.mask.data = g_m1; g_mw = w; g_mh = h; } else { g_t2 = r; r->data.mask.data = g_m2; }
  int k = g_made * 4; g_box[k] = x; g_box[k + 1] = y; g_box[k + 2] = w; g_box[k + 3] = h;
  g_made++;
  return r;
}
void region_get_mask_offset(const region_container *r, char *m, int x, int y, int w, int h) {
  ENSURE(g_made == 2 && (r == g_a && g_got == 0 && m == g_m1 || r == g_b && g_got == 1 && m == g_m2), "both regions are drawn, each into its mask");
  int k = g_got * 4;
  ENSURE(x == g_box[k] && y == g_box[k + 1] && w == g_box[k + 2] && h == g_box[k + 3], "into all of it");
  g_got++;
}
void region_release(region_container **r) { ENSURE(IMP(!BND, g_br) && (*r == g_t1 && g_rel == 0 || *r == g_t2 && g_rel == 1), "the masks are released at the end"); g_rel++; *r = 0; }
static float g_s[4];   /* width and height of the first and of the second region */
int g_imul(int a, int b) { ENSURE(a == g_w && b == g_h, "the number of pixels of both regions"); return g_lo; }
float g_fmul(float a, float b) {
  int one = a == g_s[0] && b == g_s[1];
  ENSURE(one || a == g_s[2] && b == g_s[3], "the number of pixels of a region");
  return one ? g_la : g_lb;
}
double g_ratio(double a, double b) {
  ENSURE(a >= 1 && a <= 16777216 && b >= 1 && b <= 16777216, "the ratio of two numbers of pixels");
  double r = nondet_double(); ASSUME(r >= 1e-8 && r <= 16777216); return r;
}
int main(void) {
  region_container a, b;
  g_a = &a; g_b = &b; g_made = g_got = g_rel = g_br = g_c1 = g_c2 = g_c3 = 0; g_e1 = g_e2 = g_eo = 0;
  a.type = nondet_int(); b.type = nondet_int(); ASSUME(a.type >= EMPTY && a.type <= MASK && b.type >= EMPTY && b.type <= MASK);
  __flags = 0;
#ifdef BOUNDED
#define LIM 1
#else
#define LIM 1000000
#endif
#if CASE == 3   /* sizes computed in float are the differences of the whole numbers */
  int p = nondet_int(), q = nondet_int(); ASSUME(p >= -LIM && p <= q && q <= LIM);
  float L = p, R = q;
  ENSURE((int) L == p && (int) R == q && (int) (R - (int) L) + 1 == q - p + 1 && (int) (R - L + 1) == q - p + 1, "the size is the number of columns or rows");
  REACH("sizes"); return 0;
#endif
  for (int k = 0; k < 4; k++) {
#ifdef BOUNDED
    int v1 = nondet_int(), v2 = nondet_int(), v3 = nondet_int(); ASSUME(v1 >= -LIM && v1 <= LIM && v2 >= -LIM && v2 <= LIM && v3 >= -LIM && v3 <= LIM);
    g_b1[k] = v1; g_b2[k] = v2; g_f[k] = v3;
#else
    g_b1[k] = nondet_float(); g_b2[k] = nondet_float(); g_f[k] = nondet_float(); ASSUME(g_b1[k] >= -LIM && g_b1[k] <= LIM && g_b2[k] >= -LIM && g_b2[k] <= LIM && g_f[k] == g_f[k]);
#endif
  }
  /* bounds before rounding are told apart by their left end */
  g_r1 = mk(g_b1); g_r2 = mk(g_b2); g_r1.left = 0.25f; g_r2.left = 0.5f;
  region_bounds f = mk(g_f);
#ifdef BOUNDED
  if (nondet_bool()) f = region_no_bounds;
#endif
  float l1 = MAX(g_b1[0], f.left), t1 = MAX(g_b1[1], f.top), r1 = MIN(g_b1[2], f.right), d1 = MIN(g_b1[3], f.bottom);
  float l2 = MAX(g_b2[0], f.left), t2 = MAX(g_b2[1], f.top), r2 = MIN(g_b2[2], f.right), d2 = MIN(g_b2[3], f.bottom);
  int shape = a.type > SPECIAL && b.type > SPECIAL, some = shape && l1 <= r1 && t1 <= d1 && l2 <= r2 && t2 <= d2;
  int apart = l1 > r2 || l2 > r1 || t1 > d2 || t2 > d1;
  ASSUME((some ? 1 + apart : 0) == CASE);
  /* the area of both regions; sizes of at least 1 follow from case 3 */
  int X = 0, Y = 0, W = 0, H = 0, W1 = 0, H1 = 0, W2 = 0, H2 = 0;
  g_la = g_lb = g_lo = 1;
  if (some) {
    X = MIN(l1, l2); Y = MIN(t1, t2); W = (int) (MAX(r1, r2) - X) + 1; H = (int) (MAX(d1, d2) - Y) + 1;
    W1 = r1 - l1 + 1; H1 = d1 - t1 + 1; W2 = r2 - l2 + 1; H2 = d2 - t2 + 1;
    ASSUME(W >= 1 && H >= 1 && W1 >= 1 && H1 >= 1 && W2 >= 1 && H2 >= 1);
#ifdef BOUNDED
    g_lo = W * H; g_la = W1 * H1; g_lb = W2 * H2;
#else
    g_s[0] = r1 - l1 + 1; g_s[1] = d1 - t1 + 1; g_s[2] = r2 - l2 + 1; g_s[3] = d2 - t2 + 1; g_w = W; g_h = H;
    g_la = nondet_int(); g_lb = nondet_int(); g_lo = nondet_int(); ASSUME(g_la >= 1 && g_la <= 16777216 && g_lb >= 1 && g_lb <= 16777216 && g_lo >= 1 && g_lo <= 16777216);
    ASSUME(IMP(g_s[0] == g_s[2] && g_s[1] == g_s[3], g_la == g_lb));
#endif
  }
  g_m1 = malloc(apart ? g_la : g_lo); g_m2 = malloc(apart ? g_lb : g_lo);
  region_overlap o = region_compute_overlap(&a, &b, f);
#ifdef BOUNDED
  if (g_made == 2) {
    int c1 = 0, c2 = 0, c3 = 0;
    if (!apart) { for (int i = 0; i < 9; i++) if (i < g_lo) { if (g_m1[i] && g_m2[i]) c3++; else if (g_m1[i]) c1++; else if (g_m2[i]) c2++; } }
    else { for (int i = 0; i < 9; i++) { if (i < g_la && g_m1[i]) c1++; if (i < g_lb && g_m2[i]) c2++; } }
    g_br = apart ? 1 : 2; g_c1 = c1; g_c2 = c2; g_c3 = c3;
    int n = c1 + c2 + c3;
    if (n) { g_e1 = (float) c1 / (float) n; g_e2 = (float) c2 / (float) n; g_eo = (float) c3 / (float) n; }
  }
#endif
  if (!some) { ENSURE(o.overlap == 0 && o.only1 == 0 && o.only2 == 0 && !g_made, "regions without a shape or outside of the limits do not overlap"); REACH("nothing"); return 0; }
  ENSURE(g_made == 2 && g_got == 2 && g_rel == 2, "both regions are drawn and the masks are released");
  ENSURE((g_br == 1) == apart, "regions are separate if their bounds have no pixel in common");
  if (apart) {
    ENSURE(g_box[0] == (int) l1 && g_box[1] == (int) t1 && g_box[2] == W1 && g_box[3] == H1, "the first mask covers the first region");
    ENSURE(g_box[4] == (int) l2 && g_box[5] == (int) t2 && g_box[6] == W2 && g_box[7] == H2, "the second mask covers the second region");
    REACH("apart");
  } else {
    for (int k = 0; k < 8; k += 4)
      ENSURE(g_box[k] == X && g_box[k + 1] == Y && g_box[k + 2] == W && g_box[k + 3] == H, "both masks cover both regions within the limits");
    REACH("shared");
  }
  if (g_c1 + g_c2 + g_c3 > 0) { ENSURE(o.overlap == g_eo && o.only1 == g_e1 && o.only2 == g_e2, "each part is its share of the pixels of both regions"); REACH("parts"); }
  else ENSURE(o.overlap == 0 && o.only1 == 0 && o.only2 == 0, "without pixels there is no overlap");
}
