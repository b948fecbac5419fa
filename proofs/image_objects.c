//@ source src/trax.c
//@ function trax_image_create_memory trax_image_create_buffer trax_image_create_path trax_image_create_url trax_image_release trax_image_get_type trax_image_get_path trax_image_get_url trax_image_get_memory_header trax_image_get_memory_row trax_image_write_memory_row trax_image_get_buffer verify_image_format
//@ assume strlen, strcpy and memcpy are the standard ones; malloc succeeds
//@ assume images have at most 2147483647 bytes of data; arithmetic: k * row + k <= k * h and k * row does not overflow for row < h when k * h does not
//@ nodfcc
//@ cases 6
//@ cbmc --unwind 6
//@ fallback --unwind 6
//@ timeout 100
//@ solver --sat-solver minisat2 | --sat-solver cadical | --z3
//@@prelude
#define strlen g_strlen
#define strcpy g_strcpy
#define memcpy g_memcpy
#define free g_free
//@@harness
static char *g_d; static int g_n, g_w, g_fd, g_fi; static trax_image *g_im;
__SIZE_TYPE__ g_strlen(const char *s) { ENSURE(s == g_d, "the text"); return g_n; }
static void copy(char *d, const char *s, __SIZE_TYPE__ n) {
  ENSURE(s == g_d && __CPROVER_w_ok(d, n) && n <= (__SIZE_TYPE__) g_n + 1, "the copy fits");
  if (g_w < n) d[g_w] = s[g_w];
}
char *g_strcpy(char *d, const char *s) { copy(d, s, (__SIZE_TYPE__) g_n + 1); return d; }
void *g_memcpy(void *d, const void *s, __SIZE_TYPE__ n) { copy(d, s, n); return d; }
void g_free(void *p) { if (!p) return; if (p == (void*) g_d) { ENSURE(!g_fd && !g_fi, "the data is released once"); g_fd = 1; } else { ENSURE(p == (void*) g_im && !g_fi && (g_fd || !g_d), "then the image"); g_fi = 1; } }
int main(void) {
  g_w = nondet_int(); g_n = nondet_int(); ASSUME(g_w >= 0 && g_n >= 0 && g_n <= 2000000000); g_fd = g_fi = 0;
#if CASE == 0   /* path and address */
  g_d = malloc((__SIZE_TYPE__) g_n + 1); g_d[g_n] = 0;
  int url = nondet_bool();
  trax_image *r = url ? trax_image_create_url(g_d) : trax_image_create_path(g_d);
  ENSURE(trax_image_get_type(r) == (url ? TRAX_IMAGE_URL : TRAX_IMAGE_PATH), "the type");
  const char *t = url ? trax_image_get_url(r) : trax_image_get_path(r);
  ENSURE(t != g_d && (g_w > g_n || t[g_w] == g_d[g_w]), "a copy of the whole text");
  REACH("text");
#elif CASE == 1   /* encoded picture */
  ASSUME(g_n > 4);
  g_d = malloc(g_n);
  int jpeg = (unsigned char) g_d[0] == 0xff && (unsigned char) g_d[1] == 0xd8 && (unsigned char) g_d[2] == 0xff && (unsigned char) g_d[3] == 0xe0;
  int png = (unsigned char) g_d[0] == 0x89 && g_d[1] == 'P' && g_d[2] == 'N' && g_d[3] == 'G';
  ASSUME(jpeg || png);
  trax_image *r = trax_image_create_buffer(g_n, g_d);
  int l = -1, f = -1;
  ENSURE(trax_image_get_type(r) == TRAX_IMAGE_BUFFER, "the type");
  const char *t = trax_image_get_buffer(r, &l, &f);
  ENSURE(l == g_n && f == (jpeg ? TRAX_IMAGE_BUFFER_JPEG : TRAX_IMAGE_BUFFER_PNG), "length and format");
  ENSURE(t != g_d && (g_w >= g_n || t[g_w] == g_d[g_w]), "a copy of the data");
  REACH("buffer");
#elif CASE < 5   /* memory, one format in each case */
  const int f = CASE == 2 ? TRAX_IMAGE_MEMORY_GRAY8 : CASE == 3 ? TRAX_IMAGE_MEMORY_GRAY16 : TRAX_IMAGE_MEMORY_RGB, bytes = CASE - 1;
  int w = nondet_int(), h = nondet_int();
  const int D = f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1, C = f == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
#ifdef BOUNDED
  ASSUME(w <= 30 && h <= 30);
#endif
  ASSUME(w >= 1 && h >= 1 && !__CPROVER_overflow_mult(w, h) && !__CPROVER_overflow_mult(w * h, bytes) && w * h * D * C >= 1);
  trax_image *r = trax_image_create_memory(w, h, f);
  int a = 0, b = 0, c = 0;
  trax_image_get_memory_header(r, &a, &b, &c);
  ENSURE(trax_image_get_type(r) == TRAX_IMAGE_MEMORY && a == w && b == h && c == f, "the header");
  int row = nondet_int();
  ASSUME(row >= 0 && row < h && !__CPROVER_overflow_mult(D * C, r->width) && !__CPROVER_overflow_mult(D * C * r->width, row));
  char *p = trax_image_write_memory_row(r, row);
  const char *q = trax_image_get_memory_row(r, row);
#ifdef BOUNDED
  ENSURE(p == q && p == r->data + bytes * w * row, "one row behind the other");
  ENSURE(__CPROVER_w_ok(p, bytes * w), "the row lies inside of the data");
#else
  ENSURE(__CPROVER_OBJECT_SIZE(r->data) == (__SIZE_TYPE__) (w * h * D * C), "room for all of the pixels");
  ENSURE(p == q && p == r->data + (D * C * r->width * row), "one row behind the other");
#endif
  REACH("memory");
#else
  g_im = malloc(sizeof(trax_image));
  if (nondet_bool()) g_d = malloc(1); else g_d = 0;
  g_im->data = g_d;
  trax_image *x = g_im;
  trax_image_release(&x);
  ENSURE(!x && g_fi && g_fd == (g_d != 0), "data and image are released");
  ENSURE(trax_image_get_type(0) == TRAX_IMAGE_EMPTY, "no image");
  REACH("release");
#endif
}
