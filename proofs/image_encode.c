//@ source src/trax.c
//@ function image_encode
//@ stub base64encode base64encodelen
//@ assume sprintf and snprintf print literal characters, %d and %s as the C standard says; strlen and memcpy are the standard ones; malloc succeeds
//@ assume the data of a memory image is at most 1.4e9 bytes; the base64 functions are replaced by their contracts (unit base64)
//@ nodfcc
//@ cases 6
//@ cbmc --unwind 24
//@ fallback --unwind 24
//@ timeout 100
//@@prelude
#define sprintf g_sprintf
#define snprintf g_snprintf
#define strlen g_strlen
#define memcpy g_memcpy
//@@harness
#include <stdarg.h>
static char *g_data, g_dig[2]; static int g_n, g_num[2], g_len[2], g_w, g_enc, g_at, g_copied, g_el;
/* the decimal text of a number: 1 to 11 characters, of which the first one is marked with the number it belongs to */
static int dec(int v) { ENSURE(v == g_num[0] || v == g_num[1], "the size is printed"); return v == g_num[0] ? 0 : 1; }
static int fmt(char *out, const char *f, const char *s0, int d0, int d1, int kinds) {
  int n = 0, k = 0;
  for (int i = 0; f[i]; i++) {
    if (f[i] != '%') { if (out) out[n] = f[i]; n++; continue; }
    i++;
    if (f[i] == 'd') {
      int j = dec(k == 0 ? d0 : d1); k++;
      if (out) out[n] = g_dig[j];
      n += g_len[j];
    } else {
      ENSURE(f[i] == 's', "known directives");
      int q = 0;
      for (; s0[q]; q++) if (out) out[n + q] = s0[q];
      n += q;
    }
  }
  if (out) out[n] = 0;
  return n;
}
static int va_fmt(char *out, const char *f, va_list a) {
  int d[2], k = 0; const char *s = 0;
  for (int i = 0; f[i]; i++) if (f[i] == '%') { if (f[i + 1] == 'd') { ENSURE(k < 2, "two numbers"); d[k++] = va_arg(a, int); } else s = va_arg(a, const char*); }
  return fmt(out, f, s, d[0], d[1], k);
}
int g_snprintf(char *out, __SIZE_TYPE__ n, const char *f, ...) { va_list a; va_start(a, f); int r; if (!out || n == 0) r = va_fmt(0, f, a); else r = va_fmt(out, f, a); va_end(a); ENSURE(!out || n == 0 || (__SIZE_TYPE__) r < n, "the text fits"); return r; }
int g_sprintf(char *out, const char *f, ...) { va_list a; va_start(a, f); int r = va_fmt(out, f, a); va_end(a); return r; }
__SIZE_TYPE__ g_strlen(const char *s) { ENSURE(s == g_data, "the length of the text of the image"); return g_n; }
void *g_memcpy(void *d, const void *s, __SIZE_TYPE__ n) {
  ENSURE(s == g_data && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n) && !g_copied, "the data is copied inside of both buffers");
  g_copied = n;
  if (g_w < n) ((char*) d)[g_w] = g_data[g_w];
  if (n > 0) ((char*) d)[n - 1] = g_data[n - 1];
  return d;
}
int base64encodelen(int len) { ENSURE(len == g_n, "the length of the data"); return g_el; }
int base64encode(char *out, const unsigned char *d, int len) {
  ENSURE((char*) d == g_data && len == g_n && !g_enc && __CPROVER_w_ok(out, g_el), "all of the data is encoded into the rest of the buffer");
  g_enc = 1; g_at = __CPROVER_POINTER_OFFSET(out);
  out[0] = '~';   /* stands for the encoded text */
  return g_el;
}
static int lit(const char *r, const char *s) { int i = 0; for (; s[i]; i++) if (r[i] != s[i]) return -1; return i; }
int main(void) {
  g_enc = g_at = g_copied = 0; g_w = nondet_int(); ASSUME(g_w >= 0);
  for (int j = 0; j < 2; j++) { g_num[j] = nondet_int(); g_len[j] = nondet_int(); ASSUME(g_len[j] >= 1 && g_len[j] <= 11); g_dig[j] = 'A' + j; }
  g_el = nondet_int(); ASSUME(g_el >= 1 && g_el <= 1900000000);   /* the length of the base64 text of g_n bytes, with its end */
  trax_image im;
#if CASE < 2
  g_n = nondet_int(); ASSUME(g_n >= 0 && g_n <= 2000000000);
  g_data = malloc((__SIZE_TYPE__) g_n + 1); g_data[g_n] = 0;
  im.type = CASE == 0 ? TRAX_IMAGE_PATH : TRAX_IMAGE_URL; im.data = g_data; im.width = im.height = 0;
  int o = CASE == 0 ? 7 : 0;
  char *r = image_encode(&im);
  ENSURE(r && (g_w >= g_n || r[o + g_w] == g_data[g_w]) && r[o + g_n] == 0, "the whole text is carried over");
  ENSURE(CASE == 1 || lit(r, "file://") == 7, "paths become file addresses");
  ENSURE(im.data == g_data && g_data[g_n] == 0, "the image is not changed");
  REACH("text");
#elif CASE < 5
  im.type = TRAX_IMAGE_MEMORY; im.width = g_num[0]; im.height = g_num[1]; im.format = CASE == 2 ? TRAX_IMAGE_MEMORY_GRAY8 : CASE == 3 ? TRAX_IMAGE_MEMORY_GRAY16 : TRAX_IMAGE_MEMORY_RGB;
  const int bytes = CASE - 1;
  ASSUME(im.width >= 1 && im.height >= 1 && !__CPROVER_overflow_mult(im.width, im.height));
  ASSUME(!__CPROVER_overflow_mult(im.width * im.height, bytes));
  g_n = im.width * im.height * (bytes == 2 ? 2 : 1) * (bytes == 3 ? 3 : 1);
  ASSUME(g_n >= 1 && g_n <= 1400000000);
  g_data = malloc(g_n); im.data = g_data;
  char *r = image_encode(&im);
  const char *name = bytes == 1 ? "gray8;" : bytes == 2 ? "gray16;" : "rgb;";
  int at = lit(r, "image:");
  ENSURE(at == 6, "memory images start with image:");
  ENSURE(r[at] == 'A', "then the width");
  at += g_len[0];
  ENSURE(r[at++] == ';', "a semicolon");
  ENSURE(r[at] == (g_num[0] == g_num[1] ? 'A' : 'B'), "the height");
  at += g_len[g_num[0] == g_num[1] ? 0 : 1];
  ENSURE(r[at++] == ';', "a semicolon");
  int l = lit(r + at, name);
  ENSURE(l == (bytes == 1 ? 6 : bytes == 2 ? 7 : 4), "the format");
  ENSURE(g_enc && g_at == at + l && r[g_at] == '~', "and all of the data in base64");
  REACH("memory");
#else
  im.type = TRAX_IMAGE_BUFFER; im.width = g_n = nondet_int(); im.height = 1; im.format = nondet_int();
  ASSUME(im.format == TRAX_IMAGE_BUFFER_PNG || im.format == TRAX_IMAGE_BUFFER_JPEG);
  ASSUME(g_n >= 0 && g_n <= 1400000000);
  g_data = malloc(g_n); im.data = g_data;
  char *r = image_encode(&im);
  int l = lit(r, im.format == TRAX_IMAGE_BUFFER_PNG ? "data:image/png;" : "data:image/jpeg;");
  ENSURE(l > 0 && g_enc && g_at == l && r[l] == '~', "the format and all of the data in base64");
  REACH("buffer");
#endif
}
