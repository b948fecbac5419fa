//@ source src/region.c
//@ function region_create_special region_create_rectangle region_create_polygon region_create_mask __create_region region_release free_polygon allocate_polygon clone_polygon
//@ assume malloc succeeds; memset and memcpy are the standard ones
//@ op region_create_mask : sizeof(char) * width | * | height : g_area
//@ solver --sat-solver cadical | --cvc5
//@ assume the product of the sizes of a mask does not overflow (at most 2147483647 pixels)
//@ union region_container : polygon
//@ nodfcc
//@ cases 3
//@ cbmc --unwind 8
//@ fallback --unwind 8
//@ timeout 100
//@@prelude
__SIZE_TYPE__ g_area(__SIZE_TYPE__, int);
#define free g_free
#define memset g_memset
#define memcpy g_memcpy
//@@harness
static void *g_a, *g_b, *g_c; static int g_fa, g_fb, g_fc, g_n, g_w; static region_container *g_r; static float g_v[4]; static int g_i[4];
static int g_mw, g_mh, g_len;
__SIZE_TYPE__ g_area(__SIZE_TYPE__ a, int b) { ENSURE(a == g_mw && b == g_mh, "the number of pixels"); return g_len; }
void g_free(void *p) {
  if (!p) return;
  if (p == g_a && !g_fa) g_fa = 1; else if (p == g_b && !g_fb) g_fb = 1;
  else { ENSURE(p == g_c && !g_fc && (!g_a || g_fa) && (!g_b || g_fb), "everything is released once, the region last"); g_fc = 1; }
}
void *g_memset(void *d, int c, __SIZE_TYPE__ n) { ENSURE(__CPROVER_w_ok(d, n) && n == sizeof(float) * g_n && c == 0, "all points are cleared"); ((float*) d)[g_w] = 0; return d; }
void *g_memcpy(void *d, const void *s, __SIZE_TYPE__ n) { ENSURE(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n) && n == sizeof(float) * g_n, "all points are copied"); ((float*) d)[g_w] = ((const float*) s)[g_w]; return d; }
static float num(void) { float v = nondet_float(); ASSUME(v >= -1e30f && v <= 1e30f); return v; }
int main(void) {
  g_fa = g_fb = g_fc = g_a = g_b = g_c = 0;
  for (int k = 0; k < 4; k++) { g_i[k] = nondet_int(); g_v[k] = num(); }
  static region_container c; g_r = &c;
#if CASE == 0   /* special regions and rectangles */
  region_container *s = region_create_special(g_i[0]), *r = region_create_rectangle(g_v[0], g_v[1], g_v[2], g_v[3]);
  ENSURE(s->type == SPECIAL && s->data.special == g_i[0], "the code");
  ENSURE(r->type == RECTANGLE && r->data.rectangle.x == g_v[0] && r->data.rectangle.y == g_v[1] && r->data.rectangle.width == g_v[2] && r->data.rectangle.height == g_v[3], "position and size");
  g_c = s; region_release(&s); ENSURE(g_fc && !s, "released");
  g_fc = 0; g_c = r; region_release(&r); ENSURE(g_fc && !r, "released");
  REACH("plain");
#elif CASE == 1   /* polygons */
  g_n = nondet_int(); g_w = nondet_int(); ASSUME(g_n >= 1 && g_n <= 500000000 && 0 <= g_w && g_w < g_n);
  region_container *p = region_create_polygon(g_n);
  ENSURE(p->type == POLYGON && p->data.polygon.count == g_n && p->data.polygon.x != p->data.polygon.y && __CPROVER_w_ok(p->data.polygon.x, sizeof(float) * g_n) && __CPROVER_w_ok(p->data.polygon.y, sizeof(float) * g_n), "room for all points");
  region_polygon e = allocate_polygon(g_n);
  ENSURE(e.count == g_n && e.x[g_w] == 0 && e.y[g_w] == 0, "points are zero");
  e.x[g_w] = g_v[0]; e.y[g_w] = g_v[1];
  region_polygon k = clone_polygon(e);
  ENSURE(k.count == g_n && k.x != e.x && k.y != e.y && k.x[g_w] == g_v[0] && k.y[g_w] == g_v[1], "the copy has the same points and its own memory");
  g_a = k.x; g_b = k.y; free_polygon(&k); ENSURE(g_fa && g_fb && !g_fc && !k.x && !k.y && k.count == 0, "released");
  g_a = p->data.polygon.x; g_b = p->data.polygon.y; g_c = p; g_fa = g_fb = 0;
  region_release(&p); ENSURE(g_fa && g_fb && g_fc && !p, "released");
  REACH("polygon");
#elif CASE == 2   /* masks */
  int w = nondet_int(), h = nondet_int(), j = nondet_int(); ASSUME(w >= 1 && h >= 1);
  g_mw = w; g_mh = h; g_len = nondet_int(); ASSUME(g_len >= w && g_len >= h);
#ifdef BOUNDED
  ASSUME(w <= 3 && h <= 3); g_len = w * h;
#endif
  region_container *m = region_create_mask(g_i[0], g_i[1], w, h);
  ENSURE(m->type == MASK && m->data.mask.x == g_i[0] && m->data.mask.y == g_i[1] && m->data.mask.width == w && m->data.mask.height == h && __CPROVER_w_ok(m->data.mask.data, g_len), "room for all pixels");
  g_a = m->data.mask.data; g_c = m;
  region_release(&m); ENSURE(g_fa && g_fc && !m, "released");
  REACH("mask");
#endif
}
