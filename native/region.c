/* C07 text form, C08 copies, conversions and accessors, C09 bounds, C10 overlap, C11 masks of regions, C12 points; on the compiled sources. */
#include "oracle.h"
#include "trax.h"
#include "region.h"
trax_region *trax_region_get_bounds(const trax_region *);

typedef struct { int type, code, n, mx, my, mw, mh; float r[4], *x, *y; char *d; } model;

static int grid;   /* 1: small whole numbers only */
static float coord(void) {
  if (grid) return RR(-12, 30);
  int k = R(10);
  if (k < 3) return RR(-40, 200);
  if (k < 5) return RR(-400, 2000) / 4.0f;
  if (k < 7) return RR(-4000000, 20000000) / 10000.0f;
  if (k == 7) return ldexpf(rnd() / 4294967296.0f - 0.5f, RR(-20, 20));
  if (k == 8) return RR(-1000000, 1000000);
  return (rnd() / 4294967296.0f - 0.3f) * 1000;
}
static int icoord(void) { return P(90) ? RR(-20, 60) : (int) (rnd() % 200000) - 100000; }
static int convex, exact;   /* exact: all edges have heights that are powers of two, so that rounding does not depend on the origin */
static void m_free(model *m) { free(m->x); free(m->y); free(m->d); memset(m, 0, sizeof *m); }
static long cross(model *m, int a, int b, int c) { return (long) (m->x[b] - m->x[a]) * (long) (m->y[c] - m->y[a]) - (long) (m->y[b] - m->y[a]) * (long) (m->x[c] - m->x[a]); }
static void hull(model *m) {   /* the points become the corners of their convex hull; fails with fewer than three */
  int n = m->n, h[64], k = 0, s = 0;
  for (int i = 1; i < n; i++) if (m->x[i] < m->x[s] || (m->x[i] == m->x[s] && m->y[i] < m->y[s])) s = i;
  int p = s;
  do {
    h[k++] = p;
    int q = -1;
    for (int i = 0; i < n; i++) {
      if (m->x[i] == m->x[p] && m->y[i] == m->y[p]) continue;
      if (q < 0) { q = i; continue; }
      long c = cross(m, p, q, i);
      long dq = labs((long) (m->x[q] - m->x[p])) + labs((long) (m->y[q] - m->y[p])), di = labs((long) (m->x[i] - m->x[p])) + labs((long) (m->y[i] - m->y[p]));
      if (c > 0 || (c == 0 && di > dq)) q = i;
    }
    if (q < 0) break;
    p = q;
  } while (!(m->x[p] == m->x[s] && m->y[p] == m->y[s]) && k < 40);
  float x[64], y[64];
  for (int i = 0; i < k; i++) { x[i] = m->x[h[i]]; y[i] = m->y[h[i]]; }
  int rev = R(2), rot = R(k);
  for (int i = 0; i < k; i++) { int j = (rev ? k - 1 - i : i) + rot; m->x[i] = x[j % k]; m->y[i] = y[j % k]; }
  m->n = k;
}
static void m_make(model *m, int type) {
  memset(m, 0, sizeof *m);
  m->type = type;
  if (type == TRAX_REGION_SPECIAL) { m->code = P(50) ? RR(-3, 3) : (int) (rnd() << 16 ^ rnd()); d_add("special %d ", m->code); }
  if (type == TRAX_REGION_RECTANGLE) {
    m->r[0] = coord(); m->r[1] = coord(); m->r[2] = grid ? RR(1, 15) : fabsf(coord()); m->r[3] = grid ? RR(1, 15) : fabsf(coord());
    d_add("rectangle %.9g,%.9g,%.9g,%.9g ", m->r[0], m->r[1], m->r[2], m->r[3]);
  }
  if (type == TRAX_REGION_POLYGON) {
    do {
      free(m->x); free(m->y);
      m->n = P(90) ? RR(3, 9) : RR(3, 40);
      m->x = malloc(m->n * sizeof(float)); m->y = malloc(m->n * sizeof(float));
      for (int i = 0; i < m->n; i++) { m->x[i] = i && P(15) ? m->x[i - 1] : coord(); m->y[i] = i && P(15) ? m->y[i - 1] : coord(); }
      if (exact) { int y = RR(-12, 20), k = 1 << R(5); for (int i = 0; i < m->n; i++) m->y[i] = y + k * R(3); }
      if (convex) hull(m);
    } while (m->n < 3);
    d_add("polygon of %d ", m->n);
    for (int i = 0; i < m->n; i++) d_add("%.9g,%.9g ", m->x[i], m->y[i]);
  }
  if (type == TRAX_REGION_MASK) {
    m->mx = grid ? RR(-10, 20) : icoord(); m->my = grid ? RR(-10, 20) : icoord(); m->mw = P(80) ? RR(1, 9) : RR(1, 40); m->mh = P(80) ? RR(1, 9) : RR(1, 40);
    if (!grid && P(1) && P(10)) { if (P(50)) m->mw = RR(60000, 140000), m->mh = RR(1, 2); else m->mh = RR(60000, 140000), m->mw = RR(1, 2); }
    m->d = malloc(m->mw * m->mh);
    int k = R(4), v = R(2);
    for (int i = 0; i < m->mw * m->mh; i++) { if (k == 0) v = R(2); if (k == 1) v = P(10) ? !v : v; if (k == 2) v = P(3); m->d[i] = k == 3 ? v && 1 : v; }
    d_add("mask %d,%d %dx%d ", m->mx, m->my, m->mw, m->mh);
    for (int i = 0; i < m->mw * m->mh && i < 200; i++) d_add("%d", m->d[i]);
    d_add(" ");
  }
}
static trax_region *m_region(model *m) {
  trax_region *r = 0;
  if (m->type == TRAX_REGION_SPECIAL) { r = trax_region_create_special(m->code + 1u > INT_MAX ? m->code : m->code + 1); trax_region_set_special(r, m->code); }
  if (m->type == TRAX_REGION_RECTANGLE) { r = trax_region_create_rectangle(m->r[0], m->r[1], m->r[2], m->r[3]); }
  if (m->type == TRAX_REGION_POLYGON) { r = trax_region_create_polygon(m->n); for (int i = m->n - 1; i >= 0; i--) trax_region_set_polygon_point(r, i, m->x[i], m->y[i]); }
  if (m->type == TRAX_REGION_MASK) { r = trax_region_create_mask(m->mx, m->my, m->mw, m->mh); for (int i = m->mh - 1; i >= 0; i--) memcpy(trax_region_write_mask_row(r, i), m->d + i * m->mw, m->mw); }
  return r;
}
static int near4(float a, float b) { double e = fabs((double) a - b); return e <= 0.0000501 + fabs((double) a) * 0x1p-24; }
/* the region holds what the model says; lax: after the text form, numbers to four decimals */
static void same(trax_region *r, model *m, int lax, const char *what) {
  CHECK(r != 0, "%s: no region", what);
  CHECK(trax_region_get_type(r) == m->type, "%s: the type is %d instead of %d", what, trax_region_get_type(r), m->type);
  if (m->type == TRAX_REGION_SPECIAL) CHECK(trax_region_get_special(r) == m->code, "%s: the code is %d instead of %d", what, trax_region_get_special(r), m->code);
  if (m->type == TRAX_REGION_RECTANGLE) {
    float v[4];
    trax_region_get_rectangle(r, v, v + 1, v + 2, v + 3);
    for (int i = 0; i < 4; i++) CHECK(lax ? near4(m->r[i], v[i]) : m->r[i] == v[i], "%s: number %d of the rectangle is %.9g instead of %.9g", what, i, v[i], m->r[i]);
    float only = -1;
    trax_region_get_rectangle(r, 0, &only, 0, 0); CHECK(only == v[1], "%s: y alone", what);
  }
  if (m->type == TRAX_REGION_POLYGON) {
    CHECK(trax_region_get_polygon_count(r) == m->n, "%s: %d points instead of %d", what, trax_region_get_polygon_count(r), m->n);
    for (int i = 0; i < m->n; i++) {
      float x, y;
      trax_region_get_polygon_point(r, i, &x, &y);
      CHECK(lax ? near4(m->x[i], x) && near4(m->y[i], y) : x == m->x[i] && y == m->y[i], "%s: point %d is %.9g,%.9g", what, i, x, y);
    }
  }
  if (m->type == TRAX_REGION_MASK) {
    int x, y, w, h;
    trax_region_get_mask_header(r, &x, &y, &w, &h);
    CHECK(x == m->mx && y == m->my && w == m->mw && h == m->mh, "%s: the mask is %d,%d %dx%d", what, x, y, w, h);
    for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) CHECK(!trax_region_get_mask_row(r, i)[j] == !m->d[i * w + j], "%s: pixel %d,%d", what, j, i);
  }
}
static const int types[] = { TRAX_REGION_SPECIAL, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK };

/* C07 ------------------------------------------------------------------------------------------------------------- */
static int whole(double v) { return v > INT_MIN - 1.0 && v < INT_MAX + 1.0; }
/* what the documented notation says about n numbers behind a prefix; 0: refused */
static int expect(const char *pre, int n, double *v, model *m) {
  int nan = 0;
  memset(m, 0, sizeof *m);
  for (int i = 0; i < n; i++) nan |= isnan(v[i]);
  int t = !strcmp(pre, "special:") ? TRAX_REGION_SPECIAL : !strcmp(pre, "rect:") ? TRAX_REGION_RECTANGLE : !strcmp(pre, "poly:") ? TRAX_REGION_POLYGON : !strcmp(pre, "mask:") ? TRAX_REGION_MASK : 0;
  if (nan) { m->type = TRAX_REGION_SPECIAL; m->code = n == 4 && whole(-v[3]) ? (int) -v[3] : 0; return 1; }
  if (!t) t = n == 1 ? TRAX_REGION_SPECIAL : n == 4 ? TRAX_REGION_RECTANGLE : n >= 6 && n % 2 == 0 ? TRAX_REGION_POLYGON : 0;
  m->type = t;
  if (t == TRAX_REGION_SPECIAL) { if (n != 1 || !whole(v[0])) return 0; m->code = (int) v[0]; return 1; }
  if (t == TRAX_REGION_RECTANGLE) { if (n != 4) return 0; for (int i = 0; i < 4; i++) m->r[i] = v[i]; return 1; }
  if (t == TRAX_REGION_POLYGON) {
    if (n < 6 || n % 2) return 0;
    m->n = n / 2; m->x = malloc(n * 2); m->y = malloc(n * 2);
    for (int i = 0; i < n / 2; i++) { m->x[i] = v[2 * i]; m->y[i] = v[2 * i + 1]; }
    return 1;
  }
  if (t == TRAX_REGION_MASK) {
    if (n < 4) return 0;
    for (int i = 0; i < n; i++) if (!whole(v[i])) return 0;
    if ((int) v[2] < 1 || (int) v[3] < 1 || (long) (int) v[2] * (int) v[3] > INT_MAX) return 0;
    m->mx = v[0]; m->my = v[1]; m->mw = v[2]; m->mh = v[3];
    int l = m->mw * m->mh, p = 0;
    m->d = calloc(l, 1);
    for (int i = 4; i < n; i++) for (int c = (int) v[i]; c > 0 && p < l; c--) m->d[p++] = i & 1;
    return 1;
  }
  return 0;
}
static void text(void) {
  static const char *pre[] = { "", "", "", "rect:", "poly:", "mask:", "special:", "rec:", "m:", "s:", "polygon:", "x+y:" };
  while (more()) {
    d_reset();
    model m, e;
    int t = types[R(4)];
    m_make(&m, t);
    trax_region *r = m_region(&m);
    char *s = trax_region_encode(r);
    CHECK(s != 0, "no text");
    d_add("as %.200s", s);
    CHECK(!strncmp(s, "mask:", 5) == (t == TRAX_REGION_MASK), "the prefix");
    char *copy = malloc(strlen(s) + 1); strcpy(copy, s);
    trax_region *b = trax_region_decode(copy);
    CHECK(!strcmp(copy, s), "decoding changes the text");
    same(b, &m, 1, "decoded");
    same(r, &m, 0, "after encoding");
    char *s2 = trax_region_encode(b);
    CHECK(!strcmp(s, s2), "the text of the decoded region is %.200s", s2);
    trax_region_release(&b); CHECK(!b, "released");
    free(s2); free(copy); free(s);
    trax_region_release(&r);
    m_free(&m);
    /* texts of other programs */
    d_reset();
    const char *p = pre[R(12)];
    int n = P(60) ? R(8) + 1 : RR(1, 30), w = RR(1, 6), h = RR(1, 6), mask = !strcmp(p, "mask:") && P(80);
    double v[40];
    bytes x = { 0 };
    b_str(&x, p);
    for (int i = 0; i < n; i++) {
      int k = R(20);
      v[i] = k < 13 ? RR(-30, 60) : k < 16 ? RR(-9000, 90000) / 64.0 : k == 16 ? (int) (rnd() << 16 ^ rnd()) : k == 17 ? (rnd() % 2 ? 1 : -1) * (2147483647.0 + R(3)) : k == 18 ? ldexp(RR(-9, 9), RR(-30, 60)) : P(20) ? NAN : -5;
      if (mask) { if (i == 2) v[i] = P(97) ? w : v[i]; if (i == 3) v[i] = P(97) ? h : v[i]; if (i > 3) v[i] = P(5) ? RR(-4, 70) : R(7); if (i < 2 && isnan(v[i])) v[i] = 1; }
      if (i == 3 && !strcmp(p, "mask:") && v[2] * v[3] > 1e7 && v[2] * v[3] < 2147483648.0) v[i] = -1;   /* no huge masks that fit */
      char t[100];
      sprintf(t, "%s%s%.*g", i ? "," : "", P(5) ? " " : "", 17, v[i]);
      b_str(&x, t);
    }
    d_add("text %s", x.p);
    int ok = expect(p, n, v, &e);
    region_container *q = (region_container *) 1;
    int got = region_parse(x.p, &q);
    CHECK(got == ok, "%s", ok ? "refused" : "accepted");
    CHECK(ok || !q, "refused but there is a region");
    if (ok) { same((trax_region *) q, &e, 0, "parsed"); region_release(&q); distinct++; }
    m_free(&e); b_free(&x);
  }
  region_container *q = (region_container *) 1;
  CHECK(!region_parse("", &q) && !q && !trax_region_decode(0), "no text is no region");
}

/* C04 ------------------------------------------------------------------------------------------------------------- */
static void fuzz(void) {
  static const char *piece[] = { "rect:", "poly:", "mask:", "special:", "file:", ",", ",", ",", ",,", "1", "2", "-1", "0", "3.5", "nan", "NAN", "inf", "-inf", "1e300", "1e10", "2147483648", "-2147483649", "0x10", " ", "\t", "x", "-", "+", ".", "m", "7", "9", "20", "\xff", ":", "1e-300", "40000" };
  while (more()) {
    d_reset();
    bytes b = { 0 };
    b_str(&b, "");
    int k = R(3);
    if (k == 0) { char t[100]; sprintf(t, "mask:%d,%d,%d,%d", RR(-5, 5), RR(-5, 5), R(6), R(6)); b_str(&b, t); for (int i = R(12); i > 0; i--) { sprintf(t, ",%d", P(90) ? R(9) : (int) rnd()); b_str(&b, t); } }
    else for (int i = R(k == 1 ? 16 : 60); i > 0; i--) { b_str(&b, piece[R(37)]); if (P(50)) b_chr(&b, ','); }
    if (b.n && P(30)) b.p[R(b.n)] = 1 + R(255);
    /* masks of up to two gigabytes are accepted; do not try them */
    { const char *c = b.p; double v[4] = { 0 }; int n = 0; if ((c = strchr(c, ':'))) c++; for (; c && n < 4; n++) { v[n] = atof(c); if ((c = strchr(c, ','))) c++; } if (n == 4 && fabs(v[2]) * fabs(v[3]) > 1 << 24) { b_free(&b); continue; } }
    d_add("region text "); d_bytes(b.p, b.n);
    char *t = malloc(b.n + 1); memcpy(t, b.p, b.n + 1); t[b.n] = 0;
    trax_region *r = trax_region_decode(t);
    CHECK(!memcmp(t, b.p, b.n + 1), "the text was changed");
    if (r) {
      int ty = trax_region_get_type(r);
      CHECK(ty == TRAX_REGION_SPECIAL || ty == TRAX_REGION_RECTANGLE || ty == TRAX_REGION_POLYGON || ty == TRAX_REGION_MASK, "type %d", ty);
      if (ty == TRAX_REGION_MASK) { int x, y, w, h; trax_region_get_mask_header(r, &x, &y, &w, &h); CHECK(w > 0 && h > 0, "size %dx%d", w, h); unsigned s = 0; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) s += trax_region_get_mask_row(r, i)[j]; volatile unsigned z = s; (void) z; }
      if (ty == TRAX_REGION_POLYGON) CHECK(trax_region_get_polygon_count(r) >= 3, "%d points", trax_region_get_polygon_count(r));
      int big = 0;
      if (ty == TRAX_REGION_MASK) { int w, h; trax_region_get_mask_header(r, 0, 0, &w, &h); big = (long) w * h > 100000; }
      if (!big) { char *s = trax_region_encode(r); CHECK(s != 0, "no text"); free(s); trax_region *c = trax_region_clone(r); trax_region_release(&c); distinct++; }
      trax_region_release(&r);
    }
    free(t); b_free(&b);
  }
}

/* C08 ------------------------------------------------------------------------------------------------------------- */
static void scratch(trax_region *r, model *m) {   /* overwrites a region */
  if (m->type == TRAX_REGION_SPECIAL) trax_region_set_special(r, m->code ^ 1);
  if (m->type == TRAX_REGION_RECTANGLE) trax_region_set_rectangle(r, -1.5f, -2.5f, -3.5f, -4.5f);
  if (m->type == TRAX_REGION_POLYGON) for (int i = 0; i < m->n; i++) trax_region_set_polygon_point(r, i, -7.125f, -9.125f);
  if (m->type == TRAX_REGION_MASK) for (int i = 0; i < m->mh; i++) for (int j = 0; j < m->mw; j++) trax_region_write_mask_row(r, i)[j] = !m->d[i * m->mw + j];
}
static int box(model *m, double *b) {   /* left top right bottom of the points or of the pixels that are set */
  int any = 0;
  if (m->type == TRAX_REGION_POLYGON) for (int i = 0; i < m->n; i++) { double x = m->x[i], y = m->y[i]; if (!any || x < b[0]) b[0] = x; if (!any || x > b[2]) b[2] = x; if (!any || y < b[1]) b[1] = y; if (!any || y > b[3]) b[3] = y; any = 1; }
  if (m->type == TRAX_REGION_MASK) for (int i = 0; i < m->mh; i++) for (int j = 0; j < m->mw; j++) if (m->d[i * m->mw + j]) { double x = j + (double) m->mx, y = i + (double) m->my; if (!any || x < b[0]) b[0] = x; if (!any || x > b[2]) b[2] = x; if (!any || y < b[1]) b[1] = y; if (!any || y > b[3]) b[3] = y; any = 1; }
  return any;
}
static void copies(void) {
  while (more()) {
    d_reset();
    model m, e;
    memset(&e, 0, sizeof e);
    grid = P(50);
    m_make(&m, types[R(4)]);
    trax_region *r = m_region(&m);
    same(r, &m, 0, "created");
    trax_region *c = trax_region_clone(r);
    CHECK(c != r, "the copy is the region itself");
    same(c, &m, 0, "copy");
    int which = R(2);
    scratch(which ? c : r, &m);
    same(which ? r : c, &m, 0, which ? "the region after a change of its copy" : "the copy after a change of the region");
    trax_region_release(which ? &c : &r);
    CHECK(!(which ? c : r), "released");
    same(which ? r : c, &m, 0, "the other one after release");
    trax_region *k = which ? r : c, *v;
    CHECK(!trax_region_clone(0) && !trax_region_convert(0, TRAX_REGION_MASK), "no region");
    /* conversions */
    d_add("converted ");
    v = trax_region_convert(k, TRAX_REGION_SPECIAL);
    e.type = TRAX_REGION_SPECIAL; e.code = m.type == TRAX_REGION_SPECIAL ? m.code : 0; same(v, &e, 0, "to special"); trax_region_release(&v);
    v = trax_region_convert(k, m.type); same(v, &m, 0, "to the same type"); trax_region_release(&v);
    double b[4];
    if (m.type == TRAX_REGION_SPECIAL) {
      CHECK(!trax_region_convert(k, TRAX_REGION_RECTANGLE) && !trax_region_convert(k, TRAX_REGION_POLYGON) && !trax_region_convert(k, TRAX_REGION_MASK), "a special region has no shape");
    } else if (m.type == TRAX_REGION_RECTANGLE) {
      v = trax_region_convert(k, TRAX_REGION_POLYGON);
      CHECK(trax_region_get_polygon_count(v) == 4, "four corners");
      for (int i = 0; i < 4; i++) {
        float x, y; trax_region_get_polygon_point(v, i, &x, &y);
        CHECK(x == (i == 0 || i == 3 ? m.r[0] : m.r[0] + m.r[2] - 1) && y == (i < 2 ? m.r[1] : m.r[1] + m.r[3] - 1), "corner %d is %g,%g", i, x, y);
      }
      trax_region_release(&v);
      if (m.r[2] >= 1 && m.r[3] >= 1 && m.r[2] < 300 && m.r[3] < 300) {
        v = trax_region_convert(k, TRAX_REGION_MASK);
        int x, y, w, h; trax_region_get_mask_header(v, &x, &y, &w, &h);
        CHECK(x == (int) m.r[0] && y == (int) m.r[1] && w == (int) m.r[2] && h == (int) m.r[3], "mask %d,%d %dx%d", x, y, w, h);
        for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) CHECK(trax_region_get_mask_row(v, i)[j], "pixel %d,%d is not set", j, i);
        trax_region_release(&v);
      }
    } else if (box(&m, b)) {
      int mask = m.type == TRAX_REGION_MASK;
      float x, y, w, h;
      v = P(50) ? trax_region_convert(k, TRAX_REGION_RECTANGLE) : trax_region_get_bounds(k);
      trax_region_get_rectangle(v, &x, &y, &w, &h);
      CHECK(x == (float) b[0] && y == (float) b[1] && w == (float) ((float) b[2] - (float) b[0] + mask) && h == (float) ((float) b[3] - (float) b[1] + mask), "rectangle %.9g,%.9g,%.9g,%.9g, not %.9g,%.9g to %.9g,%.9g", x, y, w, h, b[0], b[1], b[2], b[3]);
      trax_region_release(&v);
      if (mask) {
        v = trax_region_convert(k, TRAX_REGION_POLYGON);
        for (int i = 0; i < 4; i++) { trax_region_get_polygon_point(v, i, &x, &y); CHECK(x == (i == 0 || i == 3 ? b[0] : b[2]) && y == (i < 2 ? b[1] : b[3]), "corner %d is %g,%g", i, x, y); }
        trax_region_release(&v);
      } else if (b[2] - b[0] < 500 && b[3] - b[1] < 500) {
        v = trax_region_convert(k, TRAX_REGION_MASK);
        int x, y, w, h; trax_region_get_mask_header(v, &x, &y, &w, &h);
        CHECK(x == floor(b[0]) && y == floor(b[1]) && w == ceil(b[2]) - floor(b[0]) + 1 && h == ceil(b[3]) - floor(b[1]) + 1, "mask %d,%d %dx%d", x, y, w, h);
        char *o = malloc(w * h);
        region_get_mask_offset((region_container *) k, o, x, y, w, h);
        for (int i = 0; i < h; i++) CHECK(!memcmp(o + i * w, trax_region_get_mask_row(v, i), w), "row %d is not the row of the polygon", i);
        free(o);
        trax_region_release(&v);
      }
    }
    same(k, &m, 0, "after conversion");
    trax_region_release(&k);
    if (m.type != TRAX_REGION_SPECIAL) distinct++;
    m_free(&m);
  }
}

/* C09 ------------------------------------------------------------------------------------------------------------- */
static void bounds(void) {
  while (more()) {
    d_reset();
    model m; double b[4];
    grid = P(50);
    m_make(&m, types[R(4)]);
    trax_region *r = m_region(&m);
    trax_bounds t = trax_region_bounds(r);
    if (m.type == TRAX_REGION_SPECIAL) CHECK(t.left == -FLT_MAX && t.top == -FLT_MAX && t.right == FLT_MAX && t.bottom == FLT_MAX || t.left == region_no_bounds.left && t.top == region_no_bounds.top && t.right == region_no_bounds.right && t.bottom == region_no_bounds.bottom, "not unbounded");
    if (m.type == TRAX_REGION_RECTANGLE) CHECK(t.left == m.r[0] && t.top == m.r[1] && t.right == m.r[0] + m.r[2] - 1 && t.bottom == m.r[1] + m.r[3] - 1, "bounds %.9g,%.9g to %.9g,%.9g", t.left, t.top, t.right, t.bottom);
    if (m.type >= TRAX_REGION_POLYGON && box(&m, b)) { CHECK(t.left == (float) b[0] && t.top == (float) b[1] && t.right == (float) b[2] && t.bottom == (float) b[3], "bounds %.9g,%.9g to %.9g,%.9g, not %.9g,%.9g to %.9g,%.9g", t.left, t.top, t.right, t.bottom, b[0], b[1], b[2], b[3]); distinct++; }
    same(r, &m, 0, "after");
    trax_region_release(&r);
    m_free(&m);
  }
}

/* C11 ------------------------------------------------------------------------------------------------------------- */
/* a pixel of a shape with whole coordinates: the mask itself, all of a rectangle, between the edges of a convex polygon.
   2 where an edge meets the pixel exactly and rounding of the crossing decides */
static int pixel(model *m, int x, int y) {
  if (m->type == TRAX_REGION_MASK) { long i = (long) y - m->my, j = (long) x - m->mx; return i >= 0 && j >= 0 && i < m->mh && j < m->mw && m->d[i * m->mw + j]; }
  if (m->type == TRAX_REGION_RECTANGLE) return x >= m->r[0] && y >= m->r[1] && x <= m->r[0] + m->r[2] - 1 && y <= m->r[1] + m->r[3] - 1;
  long lo = LONG_MAX, hi = LONG_MIN, lo1 = LONG_MAX, hi1 = LONG_MIN;   /* lo..hi with, lo1..hi1 without the pixel in front of an exact crossing */
  for (int i = 0, j = m->n - 1; i < m->n; j = i++) {
    long x1 = m->x[i], y1 = m->y[i], x2 = m->x[j], y2 = m->y[j];
    if ((y1 <= y && y2 >= y) || (y2 <= y && y1 >= y)) {
      long a = y1 == y2 ? x1 : x1 * (y2 - y1) + (y - y1) * (x2 - x1), d = y1 == y2 ? 1 : y2 - y1;
      if (d < 0) { a = -a; d = -d; }
      long f = a >= 0 ? a / d : -((-a + d - 1) / d);
      long g = y1 != y2 && y != y1 && y != y2 && a % d == 0 ? f - 1 : f;
      if (g < lo) lo = g;
      if (f > hi) hi = f;
      if (f < lo1) lo1 = f;
      if (g > hi1) hi1 = g;
      if (y1 == y2) { if (x2 < lo) lo = x2; if (x2 > hi) hi = x2; if (x2 < lo1) lo1 = x2; if (x2 > hi1) hi1 = x2; }
    }
  }
  return lo == LONG_MAX || x < lo || x > hi ? 0 : x >= lo1 && x <= hi1 ? 1 : 2;
}
static void masks(void) {
  while (more()) {
    d_reset();
    model m;
    int any = P(25);   /* any polygon and any rectangle: only the frame is known */
    grid = !any; convex = !any;
    m_make(&m, types[1 + R(3)]);
    if (any && m.type == TRAX_REGION_MASK) any = 0;
    trax_region *r = m_region(&m);
    int x = P(30) ? 0 : RR(-15, 35), y = P(30) ? 0 : RR(-15, 35), w = P(80) ? RR(1, 20) : RR(1, 60), h = P(80) ? RR(1, 20) : RR(1, 60);
    if (m.type == TRAX_REGION_MASK && P(50)) { x = m.mx + RR(-5, 5); y = m.my + RR(-5, 5); }
    d_add("in the window %d,%d %dx%d ", x, y, w, h);
    char *d = malloc(w * h);
    memset(d, 7, w * h);
    if (x || y || P(50)) region_get_mask_offset((region_container *) r, d, x, y, w, h);
    else region_get_mask((region_container *) r, d, w, h);
    if (!any) for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { int p = pixel(&m, x + j, y + i); CHECK(p == 2 || !d[i * w + j] == !p, "pixel %d,%d is %d", x + j, y + i, d[i * w + j]); }
    if (any) {
      double b[4];
      if (m.type == TRAX_REGION_RECTANGLE) { b[0] = m.r[0]; b[1] = m.r[1]; b[2] = m.r[0] + m.r[2] - 1; b[3] = m.r[1] + m.r[3] - 1; if (b[2] < b[0]) { double t = b[0]; b[0] = b[2]; b[2] = t; } if (b[3] < b[1]) { double t = b[1]; b[1] = b[3]; b[3] = t; } } else box(&m, b);
      int n = 0;
      for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { char p = d[i * w + j]; CHECK(p == 0 || p == 1, "pixel %d,%d is %d", x + j, y + i, p); n += p; if (p) CHECK(x + j >= floor(b[0]) - 1 && x + j <= ceil(b[2]) + 1 && y + i >= floor(b[1]) - 1 && y + i <= ceil(b[3]) + 1, "pixel %d,%d is set outside of the bounds", x + j, y + i); }
    }
    same(r, &m, 0, "after");
    for (int i = 0; i < w * h; i++) if (d[i]) { distinct++; break; }
    free(d);
    trax_region_release(&r);
    m_free(&m);
  }
}

/* C10 ------------------------------------------------------------------------------------------------------------- */
static void overlaps(void) {
  while (more()) {
    d_reset();
    model m[2];
    grid = 1; convex = P(60); exact = P(80);
    for (int i = 0; i < 2; i++) { m_make(&m[i], types[P(97) ? 1 + R(3) : 0]); d_add("; "); }
    if (P(20)) { m_free(&m[1]); m[1] = m[0]; }
    int twin = m[1].x == m[0].x && m[1].d == m[0].d && m[1].type == m[0].type && (m[0].x || m[0].d);
    trax_region *r[2] = { m_region(&m[0]), m_region(&m[1]) };
    trax_bounds f = trax_no_bounds;
    int bx = -1000, by = -1000, bw = 2000, bh = 2000;
    if (P(60)) { bx = RR(-15, 30); by = RR(-15, 30); bw = RR(1, 40); bh = RR(1, 40); f.left = bx; f.top = by; f.right = bx + bw - 1; f.bottom = by + bh - 1; d_add("bounds %d,%d %dx%d", bx, by, bw, bh); }
    else { bx = by = -40; bw = bh = 120; }
    int k = bw * bh, c[4] = { 0 }, shaped = 1;
    char *d[2];
    for (int i = 0; i < 2; i++) { d[i] = calloc(k, 1); if (m[i].type == TRAX_REGION_SPECIAL) shaped = 0; else region_get_mask_offset((region_container *) r[i], d[i], bx, by, bw, bh); }
    for (int i = 0; i < k; i++) c[!!d[0][i] + 2 * !!d[1][i]]++;
    int all = c[1] + c[2] + c[3];
    float o = trax_region_overlap(r[0], r[1], f), p = trax_region_overlap(r[1], r[0], f);
    CHECK(o == p, "overlap is %.9g one way and %.9g the other way", o, p);
    float want = shaped && all ? c[3] / (float) all : 0;
    CHECK(!exact || fabsf(o - want) <= 1e-6f, "overlap is %.9g, %d shared pixels of %d", o, c[3], all);
    region_bounds rb = region_create_bounds(f.left, f.top, f.right, f.bottom);
    region_overlap q = region_compute_overlap((region_container *) r[0], (region_container *) r[1], rb);
    CHECK(q.overlap == o, "the two functions differ");
    if (shaped && c[1] + c[3] && c[2] + c[3]) {
      CHECK(!exact || fabsf(q.only1 - c[1] / (float) all) <= 1e-6f && fabsf(q.only2 - c[2] / (float) all) <= 1e-6f, "the parts are %.9g and %.9g, not %d and %d of %d", q.only1, q.only2, c[1], c[2], all);
      distinct++;
    }
    CHECK(!(q.only1 < 0) && q.only1 <= 1 && q.only2 >= 0 && q.only2 <= 1 && q.overlap >= 0 && q.overlap <= 1, "a part is out of range: %g %g %g", q.overlap, q.only1, q.only2);
    CHECK(trax_region_overlap(0, r[1], f) == 0 && trax_region_overlap(r[0], 0, f) == 0, "no region overlaps nothing");
    if (shaped && exact && c[1] + c[3]) CHECK(trax_region_overlap(r[0], r[0], f) == 1, "a region does not overlap itself");
    same(r[0], &m[0], 0, "after"); same(r[1], &m[1], 0, "after");
    free(d[0]); free(d[1]);
    trax_region_release(&r[0]); trax_region_release(&r[1]);
    m_free(&m[0]); if (!twin) m_free(&m[1]);
  }
}

/* C12 ------------------------------------------------------------------------------------------------------------- */
static void points(void) {
  while (more()) {
    d_reset();
    model m;
    grid = P(70); convex = 0;
    m_make(&m, types[R(4)]);
    trax_region *r = m_region(&m);
    for (int k = 0; k < 20; k++) {
      int e = desc_n;
      float x = grid ? RR(-60, 140) / 4.0f : coord(), y = grid ? RR(-60, 140) / 4.0f : coord();
      if (m.type == TRAX_REGION_MASK && P(70)) { x = m.mx + RR(-8, 4 * m.mw + 8) / 4.0f; y = m.my + RR(-8, 4 * m.mh + 8) / 4.0f; }
      if (m.type == TRAX_REGION_RECTANGLE && P(60)) { if (R(2)) x = m.r[0] + (R(2) ? m.r[2] : 0); if (R(2)) y = m.r[1] + (R(2) ? m.r[3] : 0); }
      int in = 0, skip = 0;
      if (m.type == TRAX_REGION_RECTANGLE) in = x >= m.r[0] && y >= m.r[1] && x <= m.r[0] + m.r[2] && y <= m.r[1] + m.r[3];
      if (m.type == TRAX_REGION_MASK) { double fx = floor(x) - m.mx, fy = floor(y) - m.my; in = fx >= 0 && fy >= 0 && fx < m.mw && fy < m.mh && m.d[(int) fx + (int) fy * m.mw]; if (fabs(x) > 8000000 || fabs(y) > 8000000) skip = 1; }
      if (m.type == TRAX_REGION_POLYGON) {
        if (!grid) {   /* only far away points are certain */
          double b[4]; box(&m, b);
          skip = !(y < b[1] || y > b[3]);
        } else for (int i = 0, j = m.n - 1; i < m.n; j = i++) {   /* all in quarters, exactly */
          long x1 = m.x[i] * 4, y1 = m.y[i] * 4, x2 = m.x[j] * 4, y2 = m.y[j] * 4, px = x * 4, py = y * 4;
          if ((y1 > py) == (y2 > py)) continue;
          long s = (x2 - x1) * (py - y1) - (px - x1) * (y2 - y1);   /* sign of (crossing - px) * (y2 - y1) */
          if (s == 0) { skip = 1; break; }   /* on the edge */
          if ((s > 0) == (y2 > y1)) in = !in;
        }
      }
      d_add("point %.9g,%.9g", x, y);
      if (!skip) { int g = trax_region_contains(r, x, y); CHECK(!g == !in, "%s", g ? "said to be inside" : "said to be outside"); distinct += in; }
      desc_n = e; desc[e] = 0;
    }
    same(r, &m, 0, "after");
    trax_region_release(&r);
    m_free(&m);
  }
}

int main(int argc, char **argv) {
  start(argc, argv);
  const char *m = argc > 1 ? argv[1] : "";
  if (!strcmp(m, "C07")) { text(); return finish("random regions to text and back, and texts of numbers against the notation; nontrivial: accepted texts"); }
  if (!strcmp(m, "C04")) { fuzz(); return finish("region texts, mutated; nontrivial: decoded"); }
  if (!strcmp(m, "C08")) { copies(); return finish("random regions copied and converted; nontrivial: regions with a shape"); }
  if (!strcmp(m, "C09")) { bounds(); return finish("random regions; nontrivial: polygons and masks with pixels"); }
  if (!strcmp(m, "C10")) { overlaps(); return finish("random pairs of regions and bounds against counted pixels; nontrivial: both have pixels"); }
  if (!strcmp(m, "C11")) { masks(); return finish("random regions and windows against single pixels; nontrivial: pixels set"); }
  if (!strcmp(m, "C12")) { points(); return finish("random regions and points; nontrivial: inside"); }
  return 2;
}
