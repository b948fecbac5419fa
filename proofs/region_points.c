//@ source src/region.c
//@ function point_in_polygon point_in_mask
//@ loop point_in_polygon 0 of 1 : LC_P
//@ ghost point_in_polygon 0 : GH_P
//@ op point_in_mask : ((int)floor(y) - mask->y) | * | mask->width : g_row
//@ op point_in_mask : ((int)floor(x) - mask->x) | + | ((int)floor(y) - mask->y) * mask->width : g_at
//@ op point_in_mask : (double) mask->x | + | mask->width : g_end
//@ op point_in_mask : (double) mask->y | + | mask->height : g_end
//@ assume the sum of two int values is exact in double (IEEE 754)
//@ assume products of a row and a width are known by the lemma row_fits (unit arith); coordinates are finite numbers; the crossing of an edge with the line is computed in float by the same formula in contract and code
//@ cases 3
//@ split 8
//@ solver --sat-solver cadical | --cvc5
//@ cbmc --unwind 12
//@ fallback --unwind 10
//@ timeout 220
//@@prelude
extern int g_c, g_n, g_j, g_up, g_down; extern float g_x, g_y;
double g_end(double, int); int g_row(int, int); int g_at(int, int); double g_floor(double);
#define floor g_floor
#define FIN(v) ((v) >= -1e30f && (v) <= 1e30f)
#define ABOVE(k) (polygon->y[k] > y)
#define CROSSING(a, b) ((polygon->x[b] - polygon->x[a]) * (y - polygon->y[a]) / (polygon->y[b] - polygon->y[a]) + polygon->x[a])
#define GH_P CUT(j == (i == 0 ? g_n - 1 : i - 1), "an edge from each point to the one before it, the last closes the polygon"); __CPROVER_assume(FIN(polygon->x[i]) && FIN(polygon->y[i]) && FIN(polygon->x[j]) && FIN(polygon->y[j])); __CPROVER_assume(IMP(g_up, !ABOVE(i) && !ABOVE(j)) && IMP(g_down, ABOVE(i) && ABOVE(j))); if (ABOVE(i) != ABOVE(j) && x < CROSSING(i, j)) g_c = !g_c;
#define LC_P __CPROVER_assigns(i, j, c, g_c) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && j == (i == 0 ? g_n - 1 : i - 1) && c == g_c && (c == 0 || c == 1) && IMP(g_up || g_down, !c)) __CPROVER_decreases(g_n - i)
//@@harness
int g_c, g_n, g_j, g_up, g_down; float g_x, g_y; static int g_h, g_w, g_i, g_k, g_p, g_len;
int g_row(int a, int b) { ENSURE(b == g_w && a == g_i, "the row of the point"); CUT(a == g_i && b == g_w, "used"); return g_p; }
static int g_pix;
static region_mask m;
/* the end of the mask: a sum of whole numbers that is exact in double */
double g_end(double a, int b) {
  int c = a == (double) m.x && b == m.width;
  ENSURE(c || a == (double) m.y && b == m.height, "the end of the mask");
  return c ? (double) ((long) m.x + m.width) : (double) ((long) m.y + m.height);
}

/* the sum that is used as the index of the pixel */
int g_at(int a, int b) { ENSURE(a == g_k && b == g_p, "the pixel in this column and row"); return g_pix; }
static int g_cx, g_cy;
/* the floor of v is the whole number k with k <= v < k + 1 */
double g_floor(double v) {
  if (v == (double) g_x) { ENSURE((double) g_cx <= v && v < (double) (g_cx + 1L), "the column of the point"); return g_cx; }
  ENSURE(v == (double) g_y && (double) g_cy <= v && v < (double) (g_cy + 1L), "the row of the point"); return g_cy;
}
static float num(void) { float v = nondet_float(); ASSUME(FIN(v)); return v; }
int main(void) {
  g_c = 0; g_x = num(); g_y = num();
#if CASE == 0   /* polygon */
#ifdef BOUNDED
  static float px[3][5] = { { 0, 3, 0 }, { 1, 3, 2, 0 }, { 0, 4, 4, 2, 0 } }, py[3][5] = { { 0, 0, 3 }, { 0, 1, 3, 2 }, { 0, 0, 4, 1, 4 } };
  static const int pn[3] = { 3, 4, 5 };
  for (int k = 0; k < 3; k++) for (int qx = -1; qx <= 4; qx++) for (int qy = -1; qy <= 4; qy++) {
    region_polygon p; p.count = pn[k]; p.x = px[k]; p.y = py[k];
    int in = 0;
    for (int i = 0; i < pn[k]; i++) { int j = i ? i - 1 : pn[k] - 1, yi = py[k][i], yj = py[k][j], xi = px[k][i], xj = px[k][j], d = yj - yi; if ((yi > qy) != (yj > qy) && (d > 0 ? (qx - xi) * d < (xj - xi) * (qy - yi) : (qx - xi) * d > (xj - xi) * (qy - yi))) in = !in; }
    int r = point_in_polygon(&p, qx, qy);
    ENSURE(r == in, "a point is inside if an odd number of edges crosses the row to the right of it");
  }
#else
  g_n = nondet_int(); ASSUME(g_n >= 1 && g_n <= 500000000);
  region_polygon p; p.count = g_n; p.x = malloc(sizeof(float) * g_n); p.y = malloc(sizeof(float) * g_n);
  g_up = nondet_bool(); g_down = !g_up && nondet_bool();   /* all points on one side of the row */
  int r = point_in_polygon(&p, g_x, g_y);
  ENSURE(r == g_c, "a point is inside if an odd number of edges crosses the row to the right of it");
  ENSURE(IMP(g_up || g_down, r == 0), "no point above or below of all points is inside");
  REACH("polygon");
#endif
#elif CASE == 1   /* a pixel of the mask */
  g_w = nondet_int(); g_h = nondet_int(); ASSUME(g_w >= 1 && g_h >= 1);
  m.width = g_w; m.height = g_h; m.x = nondet_int(); m.y = nondet_int();
#ifdef BOUNDED
  ASSUME(g_w <= 3 && g_h <= 3 && m.x >= -3 && m.x <= 3 && m.y >= -3 && m.y <= 3 && g_x >= -9 && g_x <= 9 && g_y >= -9 && g_y <= 9); g_len = g_w * g_h;
#else
  g_len = nondet_int(); ASSUME(g_len >= g_w && g_len >= g_h);
#endif
  m.data = malloc(g_len);
  g_i = nondet_int(); g_k = nondet_int(); ASSUME(0 <= g_i && g_i < g_h && 0 <= g_k && g_k < g_w);
#ifdef BOUNDED
  g_p = g_i * g_w;
#else
  g_p = nondet_int(); ASSUME(g_p >= 0 && g_p <= g_len - g_w);   /* row_fits */
#endif
  g_pix = g_k + g_p;
  /* the point lies on the pixel in row g_i and column g_k */
  ASSUME((long) m.x + g_k <= 2147483647 && (long) m.y + g_i <= 2147483647);
  int c = m.x + g_k, r = m.y + g_i;
  double dx = g_x, dy = g_y; g_cx = c; g_cy = r;
  ASSUME(dx >= (double) c && dx < (double) (c + 1L) && dy >= (double) r && dy < (double) (r + 1L));
  int in = point_in_mask(&m, g_x, g_y);
  ENSURE(in == (m.data[g_pix] != 0), "a point on a pixel is inside if the pixel is set");
  REACH("pixel");
#else           /* outside */
  m.width = nondet_int(); m.height = nondet_int(); m.x = nondet_int(); m.y = nondet_int(); m.data = 0; ASSUME(m.width >= 1 && m.height >= 1);
  g_w = m.width; g_i = -1; g_p = 0;
#ifdef BOUNDED
  ASSUME(m.width <= 3 && m.height <= 3 && m.x >= -3 && m.x <= 3 && m.y >= -3 && m.y <= 3);
#endif
  double l = m.x, t = m.y, r = (double) ((long) m.x + m.width), b = (double) ((long) m.y + m.height);
  ASSUME(g_x < l || g_y < t || g_x >= r || g_y >= b);
  ENSURE(point_in_mask(&m, g_x, g_y) == 0, "no point outside of the mask is inside, its data is not touched");
  REACH("outside");
#endif
}
