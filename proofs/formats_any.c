//@ source src/trax.c
//@ function image_formats_decode region_formats_decode channels_decode
//@ loop image_formats_decode 0 of 1 : LCX(formats)
//@ loop region_formats_decode 0 of 1 : LCX(formats)
//@ loop channels_decode 0 of 1 : LCX(channels)
//@ assume strtok returns the nonempty tokens of the text one by one and at last NULL (ISO C); less than 2^30 tokens
//@ cases 3
//@ cbmc --unwind 14
//@ fallback --unwind 14
//@ timeout 100
//@@prelude
#define strtok g_strtok
#define strlen g_strlen
#define strcmp g_strcmp
struct gs { int left, sum, kind, calls, bad; }; extern struct gs g; extern char *g_t[5];
/* kind: 0 no token, 1 to 4 the names, 5 another text */
#define LCX(v) __CPROVER_assigns(v, pch, g) \
  __CPROVER_loop_invariant(g.left >= 0 && g.calls >= 1 && g.kind >= 0 && g.kind <= 5 && v == g.sum && !g.bad && g.left <= 1 << 30 && g.sum >= 0 && g.sum < 16 && IMP(g.kind == 0, g.left == 0)) \
  __CPROVER_loop_invariant(IMP(g.kind == 0, pch == 0) && IMP(g.kind == 1, pch == g_t[0]) && IMP(g.kind == 2, pch == g_t[1]) && IMP(g.kind == 3, pch == g_t[2]) && IMP(g.kind == 4, pch == g_t[3]) && IMP(g.kind == 5, pch == g_t[4])) __CPROVER_decreases(g.left + (g.kind != 0))
//@@harness
struct gs g; char *g_t[5]; static char *g_text;
#define T(b, i, c) (b)[i] == (c)
#if CASE == 0
#define DEC image_formats_decode
#define N1(b) (T(b, 0, 'p') && T(b, 1, 'a') && T(b, 2, 't') && T(b, 3, 'h') && !(b)[4])
#define N2(b) (T(b, 0, 'u') && T(b, 1, 'r') && T(b, 2, 'l') && !(b)[3])
#define N3(b) (T(b, 0, 'm') && T(b, 1, 'e') && T(b, 2, 'm') && T(b, 3, 'o') && T(b, 4, 'r') && T(b, 5, 'y') && !(b)[6])
#define N4(b) (T(b, 0, 'b') && T(b, 1, 'u') && T(b, 2, 'f') && T(b, 3, 'f') && T(b, 4, 'e') && T(b, 5, 'r') && !(b)[6])
#define BIT(k) ((k) == 1 ? TRAX_IMAGE_PATH : (k) == 2 ? TRAX_IMAGE_URL : (k) == 3 ? TRAX_IMAGE_MEMORY : TRAX_IMAGE_BUFFER)
#elif CASE == 1
#define DEC region_formats_decode
#define N1(b) (T(b, 0, 'r') && T(b, 1, 'e') && T(b, 2, 'c') && T(b, 3, 't') && T(b, 4, 'a') && T(b, 5, 'n') && T(b, 6, 'g') && T(b, 7, 'l') && T(b, 8, 'e') && !(b)[9])
#define N2(b) (T(b, 0, 'p') && T(b, 1, 'o') && T(b, 2, 'l') && T(b, 3, 'y') && T(b, 4, 'g') && T(b, 5, 'o') && T(b, 6, 'n') && !(b)[7])
#define N3(b) (T(b, 0, 'm') && T(b, 1, 'a') && T(b, 2, 's') && T(b, 3, 'k') && !(b)[4])
#define N4(b) N3(b)
#define BIT(k) ((k) == 1 ? TRAX_REGION_RECTANGLE : (k) == 2 ? TRAX_REGION_POLYGON : TRAX_REGION_MASK)
#else
#define DEC channels_decode
#define N1(b) (T(b, 0, 'c') && T(b, 1, 'o') && T(b, 2, 'l') && T(b, 3, 'o') && T(b, 4, 'r') && !(b)[5])
#define N2(b) (T(b, 0, 'd') && T(b, 1, 'e') && T(b, 2, 'p') && T(b, 3, 't') && T(b, 4, 'h') && !(b)[5])
#define N3(b) (T(b, 0, 'i') && T(b, 1, 'r') && !(b)[2])
#define N4(b) N3(b)
#define BIT(k) ((k) == 1 ? TRAX_CHANNEL_COLOR : (k) == 2 ? TRAX_CHANNEL_DEPTH : TRAX_CHANNEL_IR)
#endif
/* a token of kind 1 to 4 is that name, a token of kind 5 differs from all of them */
#define TOKEN(a) ((a) == g_t[0] || (a) == g_t[1] || (a) == g_t[2] || (a) == g_t[3] || (a) == g_t[4])
#define IS(b) (g.kind == 1 ? N1(b) : g.kind == 2 ? N2(b) : g.kind == 3 ? N3(b) : g.kind == 4 ? N4(b) : 0)
int g_strcmp(const char *a, const char *b) {
#ifdef BOUNDED
  if (!TOKEN(a)) { const char *x = a; a = b; b = x; }
#else
  FITS(TOKEN(a), "the token is the first argument of strcmp");
#endif
  ENSURE(a == g_t[g.kind - 1], "the token is compared");
  return !IS(b);
}
char *g_strtok(char *s, const char *d) {
  ENSURE(g.calls == 0 ? s == g_text : s == 0, "the text is cut from its start on");
  g.calls = 1;
  if (g.kind >= 1 && g.kind <= 4) g.sum |= BIT(g.kind);
  if (g.kind == 5) g.bad = 1;
  if (g.left == 0) { g.kind = 0; return 0; }
  g.left--;
  g.kind = nondet_int();
  ASSUME(g.kind >= 1 && g.kind <= 5);
  return g.kind == 1 ? g_t[0] : g.kind == 2 ? g_t[1] : g.kind == 3 ? g_t[2] : g.kind == 4 ? g_t[3] : g_t[4];
}
size_t g_strlen(const char *s) { size_t n = nondet_size(); ASSUME(n >= 1); return n; }
int main(void) {
  g.sum = g.kind = g.calls = g.bad = 0; g.left = nondet_int();
  ASSUME(g.left >= 0 && g.left < 1 << 30);
#ifdef BOUNDED
  ASSUME(g.left <= 3);
#endif
  g_text = malloc(1);
  for (int k = 0; k < 5; k++) g_t[k] = malloc(1);
  int r = DEC(g_text);
  if (r < 0) { ENSURE(r == -1 && g.kind == 5, "-1 for a name that is not known"); REACH("unknown"); }
  else { ENSURE(g.kind == 0 && r == g.sum && g.left == 0, "the formats that are named"); REACH("known"); }
}
