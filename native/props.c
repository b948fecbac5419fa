/* C13 property sets, C14 typed values, C15 object and image lists, on the compiled sources. */
#include "oracle.h"
#include "trax.h"
typedef struct { char *k, *v; } kv;
typedef struct { kv e[400]; int n; } ref;
static int r_find(ref *r, const char *k) { for (int i = 0; i < r->n; i++) if (!strcmp(r->e[i].k, k)) return i; return -1; }
static void r_set(ref *r, const char *k, const char *v) {
  int i = r_find(r, k);
  if (i < 0) { i = r->n++; r->e[i].k = strdup(k); r->e[i].v = 0; }
  char *o = r->e[i].v; r->e[i].v = strdup(v); free(o);
}
static void r_clear(ref *r) { for (int i = 0; i < r->n; i++) { free(r->e[i].k); free(r->e[i].v); } r->n = 0; }
static ref *cur; static int seen[400], calls; static int obj;
static void each(const char *k, const char *v, const void *o) {
  CHECK(o == &obj, "the object is not passed on");
  int i = r_find(cur, k);
  CHECK(i >= 0, "a name is reported that was never set: %s", k);
  CHECK(!seen[i], "a name is reported twice: %s", k);
  CHECK(!strcmp(cur->e[i].v, v), "a wrong value is reported for %s", k);
  seen[i] = 1; calls++;
}
static void same(const trax_properties *p, ref *r, const char *who) {
  CHECK(trax_properties_count(p) == r->n, "%s: %d pairs instead of %d", who, trax_properties_count(p), r->n);
  cur = r; calls = 0; memset(seen, 0, sizeof seen);
  trax_properties_enumerate(p, each, &obj);
  CHECK(calls == r->n, "%s: %d pairs reported instead of %d", who, calls, r->n);
  for (int i = 0; i < r->n; i++) {
    char *v = trax_properties_get(p, r->e[i].k);
    CHECK(v && !strcmp(v, r->e[i].v), "%s: the value of %s is %s", who, r->e[i].k, v ? v : "missing");
    CHECK(trax_properties_has(p, r->e[i].k), "%s: %s is reported missing", who, r->e[i].k);
    free(v);
  }
}
static char *rkey(void) {
  static char b[2000];
  int k = R(6), n = 0;
  if (k == 0) sprintf(b, "trax.%d", R(5));
  else if (k == 1) { n = 1 + R(2); for (int i = 0; i < n; i++) b[i] = 'a' + R(3); b[n] = 0; }
  else if (k == 2) { n = 1 + R(3); for (int i = 0; i < n; i++) b[i] = 1 + R(255); b[n] = 0; }
  else if (k == 3) { n = R(1500); for (int i = 0; i < n; i++) b[i] = "xy"[R(2) && i > n - 3]; b[n] = 0; }
  else if (k == 4) { strcpy(b, P(50) ? "trax" : "traxx."); }
  else sprintf(b, "%c%c", 'a' + R(20), 'a' + 33 * 0 + R(20));   /* djb2: many names per bucket */
  return b;
}
static char *rval(void) {
  static char b[9000];
  int n = P(70) ? R(10) : P(80) ? R(200) : R(8000);
  int c = R(2);
  for (int i = 0; i < n; i++) b[i] = c ? 'a' + R(3) : 1 + R(255);
  b[n] = 0;
  return b;
}
static void maps(void) {
  while (more()) {
    d_reset();
    trax_properties *p[2] = { trax_properties_create(), trax_properties_create() };
    ref *r = calloc(2, sizeof(ref));
    int ops = P(80) ? R(40) : R(250);
    for (int o = 0; o < ops; o++) {
      int w = R(2), k = R(20);
      if (k < 11) {
        char *key = rkey(), *v = rval();
        if (P(30) && r[w].n) key = r[w].e[R(r[w].n)].k;
        char *kc = strdup(key);
        if (r_find(&r[w], kc) < 0 && r[w].n >= 190) { free(kc); continue; }
        d_add("set%d ", w); d_bytes(kc, strlen(kc)); d_add("="); d_bytes(v, strlen(v) > 40 ? 40 : strlen(v)); d_add("(%d) ", (int) strlen(v));
        trax_properties_set(p[w], kc, v);
        r_set(&r[w], kc, v);
        char *g = trax_properties_get(p[w], kc);
        CHECK(g && !strcmp(g, v), "what was set is not what is there");
        free(g); free(kc);
      } else if (k < 14) {
        char *key = rkey();
        d_add("get%d ", w); d_bytes(key, strlen(key));
        int i = r_find(&r[w], key);
        char *g = trax_properties_get(p[w], key);
        CHECK((g != 0) == (i >= 0) && !trax_properties_has(p[w], key) == (i < 0), "a name that was %sset is %sthere", i >= 0 ? "" : "never ", g ? "" : "not ");
        CHECK(!g || !strcmp(g, r[w].e[i].v), "wrong value");
        free(g);
      } else if (k < 16) {
        int over = P(50) ? R(4) : 0;
        if (r[0].n + r[1].n > 190) continue;
        d_add("append%d->%d over=%d ", w, 1 - w, over);
        trax_properties_append(p[w], p[1 - w], over);
        for (int i = 0; i < r[w].n; i++) if (over || r_find(&r[1 - w], r[w].e[i].k) < 0) r_set(&r[1 - w], r[w].e[i].k, r[w].e[i].v);
      } else if (k == 16 && P(20)) { d_add("clear%d ", w); trax_properties_clear(p[w]); r_clear(&r[w]); }
      else if (k == 17) {
        d_add("copy%d ", w);
        trax_properties *q = trax_properties_copy(p[w]);
        same(q, &r[w], "copy");
        static long uniq; char nk[40]; sprintf(nk, "copy %ld", uniq++);
        trax_properties_set(q, nk, "x");
        CHECK(!trax_properties_has(p[w], nk), "a copy shares its values with the original");
        trax_properties_release(&p[w]);
        CHECK(!p[w], "released but not cleared");
        p[w] = q;
        r_set(&r[w], nk, "x");
      } else same(p[w], &r[w], "set");
    }
    for (int w = 0; w < 2; w++) { same(p[w], &r[w], "set"); trax_properties_release(&p[w]); r_clear(&r[w]); }
    free(r);
    if (ops > 20) distinct++;
  }
}

static void typed(void) {
  while (more()) {
    d_reset();
    trax_properties *p = trax_properties_create();
    int iv = P(30) ? (int[]) { 0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 10, 16777217, -16777217 }[R(10)] : P(50) ? (int) (rnd() << 11 ^ rnd()) : RR(-1000, 1000);
    d_add("int %d ", iv);
    trax_properties_set_int(p, "i", iv);
    CHECK(trax_properties_get_int(p, "i", iv == 7 ? 8 : 7) == iv, "the integer comes back as %d", trax_properties_get_int(p, "i", 7));
    char e[64]; sprintf(e, "%d", iv);
    char *g = trax_properties_get(p, "i");
    CHECK(!strcmp(g, e), "the integer is stored as %s", g); free(g);
    CHECK(trax_properties_get_float(p, "i", 0.5f) == (float) iv, "the integer read as a number is %g", trax_properties_get_float(p, "i", 0.5f));
    float f;
    if (P(50)) f = (float) RR(-100000, 100000) / (float) (1 << R(10)); else { uint32_t u = rnd() << 11 ^ rnd(); memcpy(&f, &u, 4); }
    if (P(5)) f = FLT_MAX; if (P(5)) f = -FLT_MAX;
    if (f != f || isinf(f)) f = 1;
    d_add("float %.9g ", f);
    trax_properties_set_float(p, "f", f);
    float b = trax_properties_get_float(p, "f", f == 12345 ? 1 : 12345);
    CHECK(fabs((double) b - f) <= 5.0000001e-7 + fabs(f) * 6e-8, "the number comes back as %.9g", b);
    if (fabs(f) >= 16) CHECK(b == f, "the number comes back as %.9g", b);
    int def = RR(-9, 9); float fd = RR(-9, 9);
    CHECK(trax_properties_get_int(p, "none", def) == def && trax_properties_get_float(p, "none", fd) == fd, "not the default for a name that is not set");
    /* any text */
    static const char *piece[] = { "1", "2", "9", "0", "-", "+", ".", "e", "E", " ", "x", "inf", "nan", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "0x1f", "1e9", "1e10", ",", "abc", "\t", "4294967297" };
    char t[200] = "";
    for (int i = R(5); i > 0; i--) strcat(t, piece[R(25)]);
    d_add("text "); d_bytes(t, strlen(t));
    trax_properties_set(p, "t", t);
    char *end; double d = strtod(t, &end);
    int num = t[0] && end != t && !*end;
    int ri = trax_properties_get_int(p, "t", def);
    float rf = trax_properties_get_float(p, "t", fd);
    if (num) CHECK(rf == (float) d || (d != d && rf != rf), "the text read as a number is %g", rf); else CHECK(rf == fd, "text that is no number gives %g instead of the default", rf);
    if (num && d > -2147483649.0 && d < 2147483648.0) CHECK(ri == (int) d, "the text read as an integer is %d", ri);
    else CHECK(ri == def, "text that is no integer gives %d instead of the default", ri);
    g = trax_properties_get(p, "t"); CHECK(!strcmp(g, t), "reading changed the text"); free(g);
    trax_properties_release(&p);
    if (num) distinct++;
  }
}

static int px(const trax_region *r) { float x, y, w, h; trax_region_get_rectangle(r, &x, &y, &w, &h); return (int) x; }
static void lists(void) {
  while (more()) {
    d_reset();
    enum { N = 3 };
    trax_object_list *l[N]; int n[N], val[N][200], prop[N][200];
    for (int i = 0; i < N; i++) {
      n[i] = R(6); l[i] = trax_object_list_create(n[i]); d_add("create %d ", n[i]);
      for (int k = 0; k < n[i]; k++) val[i][k] = -1, prop[i][k] = -1;
    }
    int ops = R(40);
    for (int o = 0; o < ops; o++) {
      int w = R(N), k = R(8), i = n[w] ? RR(-1, n[w]) : RR(-2, 2), v = R(1000);
      if (P(2)) i = P(50) ? INT_MAX : INT_MIN;
      if (k == 0 && i >= 0 && i < n[w] && P(30)) {
        d_add("self%d[%d] ", w, i);
        trax_object_list_set(l[w], i, trax_object_list_get(l[w], i));
      } else if (k < 3) {
        trax_region *r = P(95) ? trax_region_create_rectangle(v, 1, 2, 3) : trax_region_create_special(5);
        if (trax_region_get_type(r) == TRAX_REGION_SPECIAL) v = -2;
        d_add("set%d[%d]=%d ", w, i, v);
        trax_object_list_set(l[w], i, r);
        if (v >= 0) trax_region_set_rectangle(r, 77777, 0, 0, 0);    /* the list has its own copy */
        trax_region_release(&r);
        if (i >= 0 && i < n[w]) val[w][i] = v;
      } else if (k < 5) {
        trax_properties *p = trax_object_list_properties(l[w], i);
        CHECK((p != 0) == (i >= 0 && i < n[w]), "properties of object %d of %d", i, n[w]);
        d_add("prop%d[%d]=%d ", w, i, v);
        if (p) { trax_properties_set_int(p, "v", v); trax_properties_set_int(p, "trax.v", v); prop[w][i] = v; }
      } else if (k == 5) {
        int s = R(N);
        if (n[w] + n[s] > 190) continue;
        int ns = n[s];
        d_add("append %d<-%d ", w, s);
        int c = trax_object_list_append(l[w], l[s]);
        for (int q = 0; q < ns; q++) { val[w][n[w] + q] = val[s][q]; prop[w][n[w] + q] = prop[s][q]; }
        n[w] += ns;
        CHECK(c == n[w], "appending gives %d objects instead of %d", c, n[w]);
      } else if (k == 6 && P(30)) {
        trax_object_list_release(&l[w]); CHECK(!l[w], "released but not cleared");
        n[w] = R(4); l[w] = trax_object_list_create(n[w]); d_add("recreate%d %d ", w, n[w]);
        for (int q = 0; q < n[w]; q++) val[w][q] = prop[w][q] = -1;
      }
      for (int x = 0; x < N; x++) {
        CHECK(trax_object_list_count(l[x]) == n[x], "list %d counts %d objects instead of %d", x, trax_object_list_count(l[x]), n[x]);
        for (int q = 0; q < n[x]; q++) {
          trax_region *r = trax_object_list_get(l[x], q);
          CHECK(r != 0, "object %d of list %d is missing", q, x);
          int ty = trax_region_get_type(r);
          if (val[x][q] < 0) CHECK(ty == TRAX_REGION_SPECIAL && trax_region_get_special(r) == (val[x][q] == -1 ? 0 : 5), "object %d of list %d has type %d", q, x, ty);
          else CHECK(ty == TRAX_REGION_RECTANGLE && px(r) == val[x][q], "object %d of list %d is %d instead of %d", q, x, px(r), val[x][q]);
          trax_properties *p = trax_object_list_properties(l[x], q);
          CHECK(p && trax_properties_get_int(p, "v", -1) == prop[x][q] && trax_properties_get_int(p, "trax.v", -1) == prop[x][q] && trax_properties_count(p) == 2 * (prop[x][q] >= 0), "the properties of object %d of list %d", q, x);
        }
        CHECK(!trax_object_list_get(l[x], -1) && !trax_object_list_get(l[x], n[x]) && !trax_object_list_properties(l[x], n[x]), "objects outside the list");
      }
    }
    for (int i = 0; i < N; i++) trax_object_list_release(&l[i]);
    if (ops > 10) distinct++;
    /* image lists */
    trax_image_list *im = trax_image_list_create();
    trax_image *ref[3] = { 0 };
    int ch[3] = { TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR };
    for (int o = R(10); o > 0; o--) {
      int c = R(3);
      if (!ref[c]) { char b[20]; sprintf(b, "img%d", o); ref[c] = trax_image_create_path(b); trax_image_list_set(im, ref[c], ch[c]); }
      for (int q = 0; q < 3; q++) CHECK(trax_image_list_get(im, ch[q]) == ref[q], "the image of channel %d is another one", q);
      if (P(10)) { trax_image_list_clear(im); memset(ref, 0, sizeof ref); for (int q = 0; q < 3; q++) CHECK(!trax_image_list_get(im, ch[q]), "cleared but still there"); }
    }
    trax_image_list_clear(im);
    trax_image_list_release(&im);
    CHECK(!im, "released but not cleared");
    int m = R(8);
    CHECK(trax_image_list_count(m) == (m & 1) + (m >> 1 & 1) + (m >> 2 & 1), "%d channels in %d", trax_image_list_count(m), m);
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  const char *m = argc > 1 ? argv[1] : "";
  if (!strcmp(m, "C13")) { maps(); return finish("random histories on two property sets against a reference map; nontrivial: more than 20 operations"); }
  if (!strcmp(m, "C14")) { typed(); return finish("random numbers stored and read back, random texts read as numbers; nontrivial: the text is a number"); }
  if (!strcmp(m, "C15")) { lists(); return finish("random histories on three object lists and an image list against reference arrays; nontrivial: more than 10 operations"); }
  return 2;
}
