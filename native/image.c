/* C05 base64, C06 image text and rows, on the compiled sources. */
#include "oracle.h"
#include "trax.h"
#include "base64.h"
char *image_encode(trax_image *); trax_image *image_decode(char *);
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static char *ref_encode(const unsigned char *s, int n) {
  char *t = malloc((n + 2) / 3 * 4 + 1), *p = t;
  for (int i = 0; i < n; i += 3) {
    unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
    *p++ = al[v >> 18]; *p++ = al[v >> 12 & 63]; *p++ = i + 1 < n ? al[v >> 6 & 63] : '='; *p++ = i + 2 < n ? al[v & 63] : '=';
  }
  *p = 0;
  return t;
}
static int six(char c) { const char *p = c ? strchr(al, c) : 0; return p ? (int) (p - al) : -1; }

static void base64(void) {
  int exhaustive = 0;
  while (more()) {
    d_reset();
    int n;
    unsigned char *s;
    if (exhaustive < 65536 + 257) {   /* all inputs of at most two bytes first */
      n = exhaustive < 1 ? 0 : exhaustive < 257 ? 1 : 2;
      s = malloc(n);
      if (n == 1) s[0] = exhaustive - 1;
      if (n == 2) { s[0] = (exhaustive - 257) >> 8; s[1] = exhaustive - 257; }
      exhaustive++;
    } else {
      n = P(80) ? R(64) : R(5000);
      s = malloc(n);
      int k = R(3);
      for (int i = 0; i < n; i++) s[i] = k == 0 ? rnd() : k == 1 ? 0xff * R(2) : 0xff;
    }
    d_add("%d bytes ", n); d_bytes((char *) s, n);
    char *r = ref_encode(s, n);
    int len = base64encodelen(n);
    CHECK(len == (int) strlen(r) + 1, "the announced encoded length is %d, not %d", len, (int) strlen(r) + 1);
    char *t = malloc(len);
    memset(t, 1, len);
    int w = base64encode(t, s, n);
    CHECK(w == len, "%d characters written, %d announced", w, len);
    CHECK(!memcmp(t, r, len), "wrong text");
    int dl = base64decodelen(t);
    CHECK(dl == n + 1, "the announced decoded length is %d, not %d", dl, n + 1);
    unsigned char *o = malloc(dl);
    int k = base64decode(o, t);
    CHECK(k == n, "%d bytes come back", k);
    CHECK(!memcmp(o, s, n), "other bytes come back");
    free(o); free(t); free(r);
    /* any text */
    int m = P(90) ? R(40) : R(400);
    char *x = malloc(m + 1);
    for (int i = 0; i < m; i++) { x[i] = P(95) ? al[R(64)] : (char) rnd(); }
    x[m] = 0;
    if (P(30)) for (int i = 0; i < m; i++) if (!x[i]) x[i] = '=';
    d_reset(); d_add("text "); d_bytes(x, strlen(x));
    int q = 0;
    while (six(x[q]) >= 0) q++;
    int expect = q / 4 * 3 + (q % 4 == 3 ? 2 : q % 4 == 2 ? 1 : 0);
    dl = base64decodelen(x);
    CHECK(dl == expect + 1, "the announced decoded length of the text is %d, not %d", dl, expect + 1);
    o = malloc(dl);
    k = base64decode(o, x);
    CHECK(k == expect, "%d bytes decoded, expected %d", k, expect);
    for (int i = 0; i < expect; i++) {
      int g = i / 3 * 4, a = six(x[g]), b = g + 1 < q ? six(x[g + 1]) : 0, c = g + 2 < q ? six(x[g + 2]) : 0, d = g + 3 < q ? six(x[g + 3]) : 0;
      unsigned v = a << 18 | b << 12 | c << 6 | d;
      CHECK(o[i] == (v >> (16 - 8 * (i % 3)) & 255), "byte %d of the decoded text is wrong", i);
    }
    free(o); free(x); free(s);
    if (n > 3) distinct++;
  }
}

static char *rtext(int n) {
  char *s = malloc(n + 1);
  for (int i = 0; i < n; i++) { s[i] = P(70) ? " /.:;\\\"=ab%~-_"[R(14)] : (char) (1 + R(255)); }
  s[n] = 0;
  return s;
}
/* a text that announces another size than its data has, or an unknown format, is not an image */
static void refused(void) {
  static const char *bad[] = { "image:4294967297;1;gray8;AA==", "image:1;4294967297;gray8;AA==", "image:1;1;gray8;AAA=", "image:1;1;gray16;AA==", "image:1;1;rgb;AAA=", "image:0;1;gray8;",
    "image:-1;-1;gray8;AA==", "image:65536;65536;gray8;", "image:1431655766;1;rgb;AAA=", "image:1;1;gray9;AA==", "image:1;1;rgba;AAAA", "image:1;1;;AA==", "image:1;1", "image:1;1;gray8", "image:;;gray8;",
    "image:2;2;gray8;AAAA", "image:2;2;gray8;AAAAAAA=", "image:18446744073709551617;1;gray8;AA==", "image:2147483648;2;gray8;", "data:image/gif;AAAAAA==", "data:image/jpeg", "data:;AAAA", "image:1;x;gray8;AA==", "image:1 ;1;gray8;AA==" };
  for (int i = 0; i < (int) (sizeof bad / sizeof *bad); i++) {
    d_reset(); d_add("image text %s", bad[i]);
    char *t = strdup(bad[i]);
    trax_image *x = image_decode(t);
    CHECK(!x, "accepted as an image of type %d, %dx%d", x->type, x->width, x->height);
    free(t);
  }
}
static void images(void) {
  refused();
  while (more()) {
    d_reset();
    int kind = R(4), w = 0, h = 0, f = 0, n = 0;
    trax_image *a;
    char *s = 0;
    if (kind == 0) {
      s = rtext(P(90) ? R(30) : R(4000));
      d_add("path "); d_bytes(s, strlen(s));
      a = trax_image_create_path(s);
    } else if (kind == 1) {
      bytes b = { 0 };
      b_str(&b, "");
      static const char *sch[] = { "http", "https", "ftp", "git+ssh", "a", "file-x", "imag", "dat", "abcdefghijklmno", "x.y-z+w", "images", "files" };
      b_str(&b, sch[R(12)]); b_chr(&b, ':');
      s = rtext(R(40)); b_str(&b, s); free(s); s = b.p;
      d_add("url "); d_bytes(s, strlen(s));
      a = trax_image_create_url(s);
    } else if (kind == 2) {
      w = P(80) ? RR(1, 9) : RR(1, 300); h = P(80) ? RR(1, 9) : RR(1, 60);
      int fs[] = { TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB };
      f = fs[R(3)];
      int bpp = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
      n = w * h * bpp;
      s = malloc(n);
      for (int i = 0; i < n; i++) s[i] = rnd();
      d_add("memory image %dx%d format %d ", w, h, f);
      a = trax_image_create_memory(w, h, f);
      for (int y = h - 1; y >= 0; y--) memcpy(trax_image_write_memory_row(a, y), s + y * w * bpp, w * bpp);
      for (int y = 0; y < h; y++) {
        CHECK(!memcmp(trax_image_get_memory_row(a, y), s + y * w * bpp, w * bpp), "row %d of the image does not hold what was written to it", y);
        CHECK(trax_image_get_memory_row(a, y) == trax_image_write_memory_row(a, y), "reading and writing row %d are different places", y);
      }
    } else {
      n = RR(5, P(80) ? 40 : 3000);
      s = malloc(n);
      for (int i = 0; i < n; i++) s[i] = rnd();
      int png = R(2);
      memcpy(s, png ? "\x89PNG" : "\xff\xd8\xff\xe0", 4);
      f = png ? TRAX_IMAGE_BUFFER_PNG : TRAX_IMAGE_BUFFER_JPEG;
      d_add("buffer image "); d_bytes(s, n);
      a = trax_image_create_buffer(n, s);
    }
    char *t = image_encode(a);
    CHECK(t != 0, "no text");
    char *t0 = strdup(t);
    trax_image *b = image_decode(t);
    CHECK(b != 0, "the text of an image does not decode: %.80s", t0);
    CHECK(trax_image_get_type(b) == trax_image_get_type(a), "the type changed from %d to %d", trax_image_get_type(a), trax_image_get_type(b));
    for (int pass = 0; pass < 2; pass++) {
      trax_image *x = pass ? a : b;
      if (kind == 0) CHECK(trax_image_get_type(x) == TRAX_IMAGE_PATH && !strcmp(trax_image_get_path(x), s), "the path became %s", trax_image_get_path(x));
      if (kind == 1) CHECK(trax_image_get_type(x) == TRAX_IMAGE_URL && !strcmp(trax_image_get_url(x), s), "the url became %s", trax_image_get_url(x));
      if (kind == 2) {
        int w2, h2, f2;
        trax_image_get_memory_header(x, &w2, &h2, &f2);
        CHECK(w2 == w && h2 == h && f2 == f, "the header became %dx%d format %d", w2, h2, f2);
        int bpp = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
        for (int y = 0; y < h; y++) CHECK(!memcmp(trax_image_get_memory_row(x, y), s + y * w * bpp, w * bpp), "row %d changed", y);
      }
      if (kind == 3) {
        int l2, f2;
        const char *d = trax_image_get_buffer(x, &l2, &f2);
        CHECK(l2 == n && f2 == f, "length %d format %d came back, %d %d went in", l2, f2, n, f);
        CHECK(!memcmp(d, s, n), "the bytes changed");
      }
    }
    if (kind > 1) {   /* the name of the format is read in any case */
      char *t3 = strdup(t0);
      int semi = 0, stop = kind == 2 ? 3 : 1;
      for (char *q = strchr(t3, ':'); *q && semi < stop; q++) { if (*q == ';') semi++; else if (*q >= 'a' && *q <= 'z' && P(50)) *q -= 32; }
      d_add(" as %.40s", t3);
      trax_image *c = image_decode(t3);
      CHECK(c && c->type == b->type && c->width == b->width && c->height == b->height && c->format == b->format && !memcmp(c->data, s, n), "the name of the format in other case is not understood");
      trax_image_release(&c); free(t3);
    }
    /* the text is the documented notation and encoding is repeatable */
    char *t2 = image_encode(b);
    CHECK(!strcmp(t0, t2), "encoding the decoded image gives another text");
    char head[100];
    const char *fn = f == TRAX_IMAGE_MEMORY_RGB ? "rgb" : f == TRAX_IMAGE_MEMORY_GRAY8 ? "gray8" : "gray16";
    if (kind == 0) CHECK(!strncmp(t0, "file://", 7) && !strcmp(t0 + 7, s), "not a file address: %.80s", t0);
    if (kind == 1) CHECK(!strcmp(t0, s), "not the address");
    if (kind == 2) sprintf(head, "image:%d;%d;%s;", w, h, fn);
    if (kind == 3) sprintf(head, "data:%s;", f == TRAX_IMAGE_BUFFER_PNG ? "image/png" : "image/jpeg");
    if (kind > 1) {
      char *e = ref_encode((unsigned char *) s, n);
      CHECK(!strncmp(t0, head, strlen(head)) && !strcmp(t0 + strlen(head), e), "not the documented text: %.80s", t0);
      free(e);
    }
    free(t); free(t0); free(t2); free(s);
    trax_image_release(&a); trax_image_release(&b);
    CHECK(!a && !b, "released images are not cleared");
    if (kind > 1) distinct++;
  }
}

/* C04: any text as an image address */
static void fuzz(void) {
  static const char *piece[] = { "image:", "data:", "file:", "//", ";", "rgb", "gray8", "gray16", "RGB", "image/jpeg", "image/png", "0", "1", "-1", "2", "65536", "2147483647", "99999999999", "715827883", "AAAA", "AAA=", "AA==", "A", "=", "+/", " ", "\n", ":", "abc", "http", "\xff", "\x80", "46341", "1431655766" };
  while (more()) {
    d_reset();
    bytes b = { 0 };
    b_str(&b, "");
    if (P(60)) {
      int w = P(70) ? R(6) : (int) rnd(), h = P(70) ? R(6) : (int) rnd();
      char x[200];
      const char *f = piece[5 + R(4)];
      sprintf(x, P(80) ? "image:%d;%d;%s;" : "image:%u;%d;%s", w, h, f);
      b_str(&b, x);
      int want = (unsigned) w * (unsigned) h * (f[0] == 'g' ? f[4] == '8' ? 1 : 2 : 3);
      if (want < 0 || want > 200 || P(10)) want = R(50);
      int chars = (want * 4 + 2) / 3 + (P(20) ? R(5) - 2 : 0);
      for (int i = 0; i < chars; i++) b_chr(&b, al[R(64)]);
      while (b.n % 4 && P(70)) b_chr(&b, '=');
    } else for (int i = R(12); i > 0; i--) b_str(&b, piece[R(34)]);
    if (b.n && P(20)) b.p[R(b.n)] = 1 + R(255);
    d_add("image text "); d_bytes(b.p, b.n);
    char *t = malloc(b.n + 1); memcpy(t, b.p, b.n + 1); t[b.n] = 0;
    trax_image *im = image_decode(t);
    if (im) {
      int k = trax_image_get_type(im), w, h, f;
      CHECK(k == TRAX_IMAGE_PATH || k == TRAX_IMAGE_URL || k == TRAX_IMAGE_MEMORY || k == TRAX_IMAGE_BUFFER, "type %d", k);
      unsigned sum = 0;
      if (k == TRAX_IMAGE_MEMORY) {
        trax_image_get_memory_header(im, &w, &h, &f);
        CHECK(w > 0 && h > 0 && (f == TRAX_IMAGE_MEMORY_RGB || f == TRAX_IMAGE_MEMORY_GRAY8 || f == TRAX_IMAGE_MEMORY_GRAY16), "header %d %d %d", w, h, f);
        int bpp = f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1;
        CHECK((long) w * h * bpp <= b.n, "an image of %ld bytes from %d characters", (long) w * h * bpp, b.n);
        for (int y = 0; y < h; y++) { const char *r = trax_image_get_memory_row(im, y); for (int i = 0; i < w * bpp; i++) sum += r[i]; }
        distinct++;
      }
      if (k == TRAX_IMAGE_BUFFER) { const char *r = trax_image_get_buffer(im, &w, &f); CHECK(w >= 0 && w <= b.n, "length %d", w); for (int i = 0; i < w; i++) sum += r[i]; }
      if (k == TRAX_IMAGE_PATH) sum = strlen(trax_image_get_path(im));
      if (k == TRAX_IMAGE_URL) CHECK(strlen(trax_image_get_url(im)) == strlen(b.p), "url lost text");
      volatile unsigned v = sum; (void) v;
      char *e = image_encode(im);
      free(e);
      trax_image_release(&im);
    }
    free(t); b_free(&b);
  }
}

int main(int argc, char **argv) {
  start(argc, argv);
  const char *m = argc > 1 ? argv[1] : "";
  if (!strcmp(m, "C05")) { base64(); return finish("all inputs of at most two bytes, then random bytes and random texts, against a reference; nontrivial: more than three bytes"); }
  if (!strcmp(m, "C06")) { images(); return finish("random images encoded and decoded; nontrivial: images with data"); }
  if (!strcmp(m, "C04")) { fuzz(); return finish("image texts, mutated; nontrivial: decoded to a memory image"); }
  return 2;
}
