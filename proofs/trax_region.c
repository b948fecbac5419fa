//@ source src/trax.c
//@ function trax_region_release trax_region_create_special trax_region_create_polygon trax_region_create_rectangle trax_region_create_mask trax_region_bounds trax_region_clone trax_region_convert trax_region_overlap trax_region_get_bounds trax_region_contains trax_region_get_type trax_region_set_special trax_region_get_special trax_region_set_rectangle trax_region_get_rectangle trax_region_set_polygon_point trax_region_get_polygon_point trax_region_get_polygon_count trax_region_get_mask_header trax_region_write_mask_row trax_region_get_mask_row trax_region_encode trax_region_decode
//@ assume the region functions are replaced by their contracts (units region_objects, region_convert, region_overlap, region_points, region_string, region_parse)
//@ assume products of a row and a width are known by the lemma row_fits (unit arith)
//@ op trax_region_write_mask_row : ((region_container*) (region))->data.mask.width | * | row : g_row
//@ op trax_region_get_mask_row : ((region_container*) (region))->data.mask.width | * | row : g_row
//@ union region_container : polygon
//@ nodfcc
//@ cases 5
//@ cbmc --unwind 8
//@ fallback --unwind 8
//@ timeout 100
//@@prelude
int g_row(int a, int b);
//@@harness
static int g_p, g_pw, g_prow, g_ph; static region_container g_c, g_d, *g_res; static int g_calls, g_i[4], g_t; static float g_v[4]; static char *g_txt; static const char *g_in;
int g_row(int a, int b) { ENSURE(a == g_pw && b == g_prow && b >= 0 && b < g_ph, "a row of the mask"); return g_p; }
void region_release(region_container **r) { ENSURE(*r == &g_c && !g_calls, "the region is released"); g_calls++; *r = 0; }
region_container *region_create_special(int c) { ENSURE(c == g_i[0] && !g_calls, "the code"); g_calls++; return g_res; }
region_container *region_create_polygon(int n) { ENSURE(n == g_i[0] && !g_calls, "the number of points"); g_calls++; return g_res; }
region_container *region_create_rectangle(float x, float y, float w, float h) { ENSURE(x == g_v[0] && y == g_v[1] && w == g_v[2] && h == g_v[3] && !g_calls, "position and size"); g_calls++; return g_res; }
region_container *region_create_mask(int x, int y, int w, int h) { ENSURE(x == g_i[0] && y == g_i[1] && w == g_i[2] && h == g_i[3] && !g_calls, "position and size"); g_calls++; return g_res; }
region_container *region_convert(const region_container *r, region_type t) { ENSURE(r == &g_c && t == g_t && !g_calls, "the region is converted to the type"); g_calls++; return g_res; }
region_bounds region_compute_bounds(const region_container *r) { ENSURE(r == &g_c && !g_calls, "the bounds of the region"); g_calls++; region_bounds b; b.left = g_v[0]; b.top = g_v[1]; b.right = g_v[2]; b.bottom = g_v[3]; return b; }
region_overlap region_compute_overlap(const region_container *a, const region_container *b, region_bounds l) {
  ENSURE(a == &g_c && b == &g_d && l.left == g_v[0] && l.top == g_v[1] && l.right == g_v[2] && l.bottom == g_v[3] && !g_calls, "the overlap within the limits"); g_calls++;
  region_overlap o = { g_v[2], g_v[0], g_v[1] }; return o;
}
int region_contains_point(region_container *r, float x, float y) { ENSURE(r == &g_c && x == g_v[0] && y == g_v[1] && !g_calls, "the point"); g_calls++; return g_i[0]; }
char *region_string(region_container *r) { ENSURE(r == &g_c && !g_calls, "the text of the region"); g_calls++; return g_txt; }
int region_parse(const char *s, region_container **r) { ENSURE(s == g_in && !g_calls, "the text is read"); g_calls++; *r = g_i[0] ? g_res : 0; return g_i[0]; }
static region_type type(void) { int t = nondet_int(); ASSUME(t >= EMPTY && t <= MASK); return t; }
static int outer(region_type t) { return t == SPECIAL ? TRAX_REGION_SPECIAL : t == RECTANGLE ? TRAX_REGION_RECTANGLE : t == POLYGON ? TRAX_REGION_POLYGON : t == MASK ? TRAX_REGION_MASK : TRAX_REGION_EMPTY; }
int main(void) {
  static region_container made; g_res = &made; g_calls = 0;
  for (int k = 0; k < 4; k++) { g_i[k] = nondet_int(); g_v[k] = nondet_float(); ASSUME(g_v[k] == g_v[k]); }
  trax_region *c = (trax_region*) &g_c, *d = (trax_region*) &g_d, *r;
  trax_bounds b; b.left = g_v[0]; b.top = g_v[1]; b.right = g_v[2]; b.bottom = g_v[3];
#if CASE == 0   /* functions of the region module */
  g_c.type = type();
  ENSURE(trax_region_get_type(c) == outer(g_c.type) && trax_region_get_type(0) == TRAX_REGION_EMPTY, "the type");
  int k = nondet_int(); ASSUME(k >= 0 && k <= 12);
  if (k == 0) { r = c; trax_region_release(&r); ENSURE(r == 0, "and forgotten"); }
  else if (k == 1) { r = trax_region_create_special(g_i[0]); ENSURE(r == (trax_region*) g_res, "the region that was made"); }
  else if (k == 2) { ASSUME(g_i[0] > 2); r = trax_region_create_polygon(g_i[0]); ENSURE(r == (trax_region*) g_res, "the region that was made"); }
  else if (k == 3) { r = trax_region_create_rectangle(g_v[0], g_v[1], g_v[2], g_v[3]); ENSURE(r == (trax_region*) g_res, "the region that was made"); }
  else if (k == 4) { r = trax_region_create_mask(g_i[0], g_i[1], g_i[2], g_i[3]); ENSURE(r == (trax_region*) g_res, "the region that was made"); }
  else if (k == 5) { trax_bounds x = trax_region_bounds(c); ENSURE(x.left == b.left && x.top == b.top && x.right == b.right && x.bottom == b.bottom, "left, top, right, bottom"); }
  else if (k == 6) { g_t = g_c.type; r = trax_region_clone(c); ENSURE(r == (trax_region*) g_res, "the copy"); }
  else if (k == 7) { g_t = type(); r = trax_region_convert(c, outer(g_t)); ENSURE(r == (trax_region*) g_res, "the converted region"); }
  else if (k == 8) { g_t = RECTANGLE; r = trax_region_get_bounds(c); ENSURE(r == (trax_region*) g_res, "the rectangle around the region"); }
  else if (k == 9) { float o = trax_region_overlap(c, d, b); ENSURE(o == g_v[2], "the share of the pixels of both"); }
  else if (k == 10) { int i = trax_region_contains(c, g_v[0], g_v[1]); ENSURE(i == g_i[0], "the answer"); }
  else if (k == 11) { g_txt = (char*) &made; char *s = trax_region_encode(c); ENSURE(s == g_txt, "the text"); }
  else { g_in = (char*) &made; r = trax_region_decode(g_in); ENSURE(r == (trax_region*) (g_i[0] ? g_res : 0), "the region, or none if the text is no region"); }
  ENSURE(g_calls == 1, "one call");
  REACH("calls");
  int e = trax_region_clone(0) == 0 && trax_region_convert(0, g_i[1]) == 0 && trax_region_overlap(0, d, b) == 0 && trax_region_overlap(c, 0, b) == 0;
  ENSURE(e && g_calls == 1, "nothing is done without a region");
#elif CASE == 1
  g_c.type = SPECIAL;
  trax_region_set_special(c, g_i[0]);
  ENSURE(trax_region_get_special(c) == g_i[0] && g_c.type == SPECIAL, "the code");
  REACH("special");
#elif CASE == 2
  g_c.type = RECTANGLE;
  float x = 0, y = 0, w = 0, h = 0;
  trax_region_set_rectangle(c, g_v[0], g_v[1], g_v[2], g_v[3]);
  trax_region_get_rectangle(c, &x, &y, &w, &h);
  ENSURE(x == g_v[0] && y == g_v[1] && w == g_v[2] && h == g_v[3] && g_c.type == RECTANGLE, "position and size");
  trax_region_get_rectangle(c, 0, 0, 0, 0);
  REACH("rectangle");
#elif CASE == 3   /* a point is stored at its index only */
  int n = nondet_int(), i = nondet_int(), j = nondet_int(); ASSUME(n >= 1 && n <= 100000000 && i >= 0 && i < n && j >= 0 && j < n);
#ifdef BOUNDED
  ASSUME(n <= 5);
#endif
  g_c.type = POLYGON;
  region_polygon q; q.count = n; q.x = malloc(sizeof(float) * n); q.y = malloc(sizeof(float) * n); g_c.data.polygon = q;
  q.x[j] = g_v[2]; q.y[j] = g_v[3];
  trax_region_set_polygon_point(c, i, g_v[0], g_v[1]);
  float x = 0, y = 0;
  trax_region_get_polygon_point(c, j, &x, &y);
  ENSURE(x == g_v[i == j ? 0 : 2] && y == g_v[i == j ? 1 : 3], "the point that was set, other points are kept");
  ENSURE(trax_region_get_polygon_count(c) == n, "the number of points");
  trax_region_get_polygon_point(c, j, 0, 0);
  REACH("polygon");
#else
  g_pw = nondet_int(); g_ph = nondet_int(); g_prow = nondet_int(); int len = nondet_int(); g_p = nondet_int();
  ASSUME(g_pw >= 1 && g_ph >= 1 && g_prow >= 0 && g_prow < g_ph && len >= g_pw);
#ifdef BOUNDED
  ASSUME(g_pw <= 3 && g_ph <= 3); len = g_pw * g_ph; g_p = g_prow * g_pw;
#endif
  ASSUME(g_p >= 0 && g_p <= len - g_pw);
  g_c.type = MASK; region_mask m; m.x = g_i[0]; m.y = g_i[1]; m.width = g_pw; m.height = g_ph; m.data = malloc(len); g_c.data.mask = m;
  int x = 0, y = 0, w = 0, h = 0;
  trax_region_get_mask_header(c, &x, &y, &w, &h);
  ENSURE(x == g_i[0] && y == g_i[1] && w == g_pw && h == g_ph, "position and size");
  trax_region_get_mask_header(c, 0, 0, 0, 0);
  char *o = trax_region_write_mask_row(c, g_prow); const char *s = trax_region_get_mask_row(c, g_prow);
  ENSURE(o == m.data + g_p && s == o, "the row starts behind the rows before it");
  REACH("mask");
#endif
}
