//@ source src/trax.c
//@ function image_decode parse_uri strntok compare_prefix decode_memory_format decode_buffer_format trax_image_create_path trax_image_create_url
//@ stub base64decode base64decodelen
//@ assume strtol, strlen and strcpy are the standard ones, strcasecmp is the C locale's; malloc succeeds
//@ assume the base64 functions are replaced by their contracts (unit base64); texts are at most 2e9 characters
//@ nodfcc
//@ cases 3
//@ cbmc --unwind 49
//@ fallback --unwind 49
//@ timeout 100
//@@prelude
#define strtol g_strtol
#define strlen g_strlen
#define strcpy g_strcpy
#define strcasecmp g_strcasecmp
//@@harness
/* The text in pieces: the first 47 characters (g_t), what follows the first number (g_s[0]) and what follows the second
   one (g_s[1]), 47 characters of each. The text as a whole has g_n characters, any number of them. */
#define L 48
static char g_t[L], g_s[2][L]; static int g_n, g_w, g_colon, g_cut, g_nums, g_bl, g_dec, g_copied, g_lw; static long g_num[2]; static char g_b, g_far, *g_body; static void *g_out;
static int at(const char *p) { ENSURE(__CPROVER_same_object(p, g_t), "within the text"); int o = __CPROVER_POINTER_OFFSET(p); ENSURE(o >= 0 && o <= g_n, "within the text"); return o; }
/* the length of the text at p: the decoder cuts it at the colon unless it restores that */
__SIZE_TYPE__ g_strlen(const char *p) {
  int o = at(p);
  if (g_colon >= o && g_t[g_colon] == 0) return g_colon - o;
  return g_n - o;
}
char *g_strcpy(char *d, const char *s) {
  int l = g_strlen(s), o = at(s);
  ENSURE(__CPROVER_w_ok(d, (__SIZE_TYPE__) l + 1) && !g_copied, "the copy fits");
  g_copied = 1; g_lw = l;
  if (g_w < l) d[g_w] = (long) o + g_w < L - 1 ? g_t[o + g_w] : g_far;
  d[l] = 0;
  return d;
}
long g_strtol(const char *p, char **end, int base) {
  ENSURE(base == 10 && end && g_nums < 2 && p == (g_nums ? g_s[0] + 1 : g_t + g_colon + 1), "the two numbers, in order");
  *end = g_s[g_nums];
  return g_num[g_nums++];
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int g_strcasecmp(const char *a, const char *b) { for (int i = 0; i < 12; i++) { if (lower(a[i]) != b[i]) return 1; if (!b[i]) return 0; } return 1; }
int base64decodelen(const char *p) { ENSURE(p == g_body, "the data is the rest of the text"); return g_bl; }
int base64decode(unsigned char *out, const char *p) {
  ENSURE(p == g_body && __CPROVER_w_ok(out, g_bl) && !g_dec, "the data is decoded into a buffer of the announced size");
  g_dec = 1; g_out = out;
  if (g_w < g_bl) out[g_w] = g_b;
  return g_bl - 1;
}
static int is(const char *s) { int i = 0; for (; s[i]; i++) if (g_t[i] != s[i]) return 0; return 1; }
/* the place of the semicolon behind p; -1 if there is none within 32 characters */
static int semi(const char *p) { for (int i = 0; i < 32; i++) { if (p[i] == ';') return i; if (!p[i]) return -1; } return -1; }
static int named(const char *p, int e, const char *s) { int i = 0; for (; s[i]; i++) if (i >= e || lower(p[i]) != s[i]) return 0; return i == e; }
int main(void) {
  g_nums = g_dec = g_copied = 0; g_out = 0; g_colon = -1; g_body = 0;
  g_w = nondet_int(); ASSUME(g_w >= 0);
  g_n = nondet_int(); ASSUME(g_n >= 0 && g_n <= 2000000000);
  for (int i = 0; i < L; i++) { g_t[i] = nondet_char(); g_s[0][i] = nondet_char(); g_s[1][i] = nondet_char(); if (i < g_n) ASSUME(g_t[i] != 0); else if (i == g_n) g_t[i] = 0; }
  g_bl = nondet_int(); ASSUME(g_bl >= 1); g_b = nondet_char(); g_far = nondet_char();
  /* the scheme: lower case letters, plus, dot and dash up to a colon among the first 16 characters */
  for (int i = 0; i < 16; i++) {
    if (i >= g_n) break;
    if (g_t[i] == ':') { g_colon = i; break; }
    if (!(g_t[i] >= 'a' && g_t[i] <= 'z' || g_t[i] == '+' || g_t[i] == '.' || g_t[i] == '-')) break;
  }
#if CASE == 0   /* path or address */
  ASSUME(!(is("image:") && g_n >= 6) && !(is("data:") && g_n >= 5));
  int file = g_n >= 5 && is("file:");
  int from = file ? (g_n >= 7 && g_t[5] == '/' && g_t[6] == '/' ? 7 : 5) : 0;
  char x = (long) from + g_w < L - 1 ? g_t[from + g_w] : g_far;
  trax_image *r = image_decode(g_t);
  ENSURE(r && r->type == (g_colon < 0 || file ? TRAX_IMAGE_PATH : TRAX_IMAGE_URL), "addresses are kept, files and plain text are paths");
  ENSURE(g_copied && g_lw == g_n - from && (g_w >= g_lw || r->data[g_w] == x) && r->data[g_lw] == 0, "the whole text behind the scheme of a file, or all of it");
  ENSURE(!g_dec, "nothing is decoded");
  if (file) REACH("file"); else if (g_colon < 0) REACH("plain"); else REACH("url");
#elif CASE == 1   /* memory */
  ASSUME(g_n >= 6 && is("image:"));
  for (int i = 0; i < 2; i++) g_num[i] = nondet_long();
  int e = -1, f = 0, ok = g_s[0][0] == ';' && g_s[1][0] == ';';
  if (ok) e = semi(g_s[1] + 1);
  if (e < 0) ok = 0;
  else { g_body = g_s[1] + 1 + e + 1; f = named(g_s[1] + 1, e, "rgb") ? TRAX_IMAGE_MEMORY_RGB : named(g_s[1] + 1, e, "gray8") ? TRAX_IMAGE_MEMORY_GRAY8 : named(g_s[1] + 1, e, "gray16") ? TRAX_IMAGE_MEMORY_GRAY16 : 0; }
  trax_image *r = image_decode(g_t);
  if (r) {
    ENSURE(ok && f && r->type == TRAX_IMAGE_MEMORY && r->format == f, "a format that is known");
    ENSURE(r->width == g_num[0] && r->height == g_num[1] && r->width >= 1 && r->height >= 1, "width and height");
    ENSURE(g_dec && (void*) r->data == g_out && (g_w >= g_bl || r->data[g_w] == g_b), "the decoded data");
    REACH("memory");
  } else { REACH("refused"); }
  ENSURE(g_dec == (r != 0), "decoded exactly if there is an image");
  ENSURE(!g_copied, "no text image");
#elif CASE == 2   /* encoded picture */
  ASSUME(g_n >= 5 && is("data:"));
  int e = semi(g_t + 5), f = 0;
  if (e >= 0) { g_body = g_t + 5 + e + 1; f = named(g_t + 5, e, "image/jpeg") ? TRAX_IMAGE_BUFFER_JPEG : named(g_t + 5, e, "image/png") ? TRAX_IMAGE_BUFFER_PNG : 0; }
  trax_image *r = image_decode(g_t);
  ENSURE((r != 0) == (f != 0), "exactly the known formats");
  if (r) {
    ENSURE(r->type == TRAX_IMAGE_BUFFER && r->format == f && r->width == g_bl - 1 && r->height == 1, "format and length");
    ENSURE(g_dec && (void*) r->data == g_out && (g_w >= g_bl || r->data[g_w] == g_b), "the decoded data");
    REACH("buffer");
  } else { ENSURE(!g_dec, "nothing is decoded"); REACH("unknown"); }
  ENSURE(!g_copied, "no text image");
#endif
}
