//@ source src/base64.c
//@ function base64encode base64encodelen base64decode base64decodelen
//@ loop base64encode 0 of 1 : LC_ENC
//@ loop base64decode 0 of 2 : LC_SCAN
//@ ghost base64encode 0 : SAME(p, encoded + 4 * g_g) g_g++;
//@ after base64encode 0 : SAME(p, encoded + 4 * g_g)
//@ ghost base64decode 1 : SAME(bufin, (const unsigned char*) bufcoded + 4 * g_g) SAME(bufout, bufplain + 3 * g_g) g_g++;
//@ after base64decode 1 : SAME(bufin, (const unsigned char*) bufcoded + 4 * g_g) SAME(bufout, bufplain + 3 * g_g)
//@ ghost base64decode 0 : g_m = bufin - (const unsigned char*) bufcoded;
//@ loop base64decode 1 of 2 : LC_DEC
//@ loop base64decodelen 0 of 1 : LC_LEN
//@ ghost base64decodelen 0 : g_m = len + 1;
//@ assume data is at most 1.4e9 bytes, text at most 2e9 characters
//@ cases 4
//@ timeout 240
//@ fallback --unwind 14
//@@prelude
void *malloc(__SIZE_TYPE__);
extern int g_w, g_n, g_m, g_g, g_i, g_full; extern unsigned char g_ev; extern const unsigned char g_six[256];
#define V(c) (g_six[(unsigned char) (c)] <= 63)
#define LC_ENC __CPROVER_assigns(i, p, g_g, __CPROVER_object_whole(encoded)) \
  __CPROVER_loop_invariant(0 <= g_g && g_g <= g_full && i == 3 * g_g && p == encoded + 4 * g_g) \
  __CPROVER_loop_invariant(IMP(g_i < 4 * g_g, encoded[g_i] == (char) g_ev)) \
  __CPROVER_decreases(g_full - g_g)
#define LC_SCAN __CPROVER_assigns(bufin, g_m) \
  __CPROVER_loop_invariant(0 <= g_m && g_m <= g_n && bufin == (const unsigned char*) bufcoded + g_m) \
  __CPROVER_decreases(g_n - g_m)
#define LC_DEC __CPROVER_assigns(bufin, bufout, nprbytes, g_g, __CPROVER_object_whole(bufplain)) \
  __CPROVER_loop_invariant(0 <= g_g && g_g <= 500000000 && g_m >= 0 && g_m <= g_n && nprbytes >= 0 && nprbytes == g_m - 4 * g_g && (nprbytes > 0 || g_g == 0)) \
  __CPROVER_loop_invariant(bufin == (const unsigned char*) bufcoded + 4 * g_g && bufout == bufplain + 3 * g_g) \
  __CPROVER_loop_invariant(IMP(g_i < 3 * g_g, bufplain[g_i] == g_ev)) \
  __CPROVER_decreases(nprbytes)
#define LC_LEN __CPROVER_assigns(len, g_m) __CPROVER_loop_invariant(len == g_m && g_m >= 0 && g_m <= g_n) __CPROVER_decreases(g_n - g_m)
//@@harness
int g_w, g_n, g_m, g_g, g_i, g_full; unsigned char g_ev;
/* RFC 4648, table 1 */
static const char alphabet[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#define O 64
#define OOOO O,O,O,O,O,O,O,O,O,O,O,O,O,O,O,O
const unsigned char g_six[256] = { OOOO, OOOO, O,O,O,O,O,O,O,O,O,O,O,62,O,O,O,63, 52,53,54,55,56,57,58,59,60,61,O,O,O,O,O,O,
  O,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14, 15,16,17,18,19,20,21,22,23,24,25,O,O,O,O,O,
  O,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40, 41,42,43,44,45,46,47,48,49,50,51,O,O,O,O,O, OOOO, OOOO, OOOO, OOOO, OOOO, OOOO, OOOO, OOOO };
#undef O
int main(void) {
  g_m = g_g = 0;
  unsigned char g_e[4], g_d[3];
  int k = nondet_int();
  ASSUME(k >= 0 && k < 4);
  g_w = nondet_int();
#if CASE == 0
  int len = nondet_int();
  ASSUME(len >= 0 && len <= 1400000000);
#ifdef BOUNDED
  ASSUME(len <= 10);
#endif
  int groups = nondet_int(), rest = nondet_int();
  ASSUME(groups >= 0 && groups <= 466666667 && rest >= 0 && rest < 3 && len == 3 * groups - rest);
  g_full = rest ? groups - 1 : groups;
  ENSURE(base64encodelen(len) == 4 * groups + 1, "the announced length is 4 characters per 3 bytes, and a terminator");
  unsigned char *s = malloc(len);
  char *t = malloc(base64encodelen(len));
  ASSUME(g_w >= 0 && g_w <= groups && (g_w < groups || groups == 0));
  unsigned char a = 3 * g_w < len ? s[3 * g_w] : 0, b = 3 * g_w + 1 < len ? s[3 * g_w + 1] : 0, c = 3 * g_w + 2 < len ? s[3 * g_w + 2] : 0;
  g_e[0] = alphabet[a >> 2]; g_e[1] = alphabet[(a & 3) << 4 | b >> 4];
  g_e[2] = 3 * g_w + 1 < len ? alphabet[(b & 15) << 2 | c >> 6] : '=';
  g_e[3] = 3 * g_w + 2 < len ? alphabet[c & 63] : '=';
  g_i = 4 * g_w + k; if (!groups) g_i = 0x7fffffff; g_ev = g_e[k];
  int r = base64encode(t, s, len);
  ENSURE(r == 4 * groups + 1, "exactly the announced length is written");
  ENSURE(t[r - 1] == 0, "terminated");
  if (groups) ENSURE(t[g_i] == (char) g_ev, "every character of the text");
  if (3 * g_w + 1 == len && len > 5) REACH("encode");
#elif CASE == 1
  g_n = nondet_int();
  int q4 = nondet_int(), r4 = nondet_int();
  ASSUME(q4 >= 0 && q4 < 500000000 && r4 >= 0 && r4 < 4);
  g_n = 4 * q4 + r4;
  int bytes = 3 * q4 + (r4 == 3 ? 2 : r4 == 2 ? 1 : 0);
#ifdef BOUNDED
  ASSUME(g_n <= 10);
#endif
  char *t = malloc(g_n + 1);
  ASSUME(!V(t[g_n]));
  unsigned char *o = malloc(bytes + 1);
  ASSUME(g_w >= 0 && g_w <= q4 + 1 && k >= 0 && k < 3 && (3 * g_w + k < bytes || bytes == 0 && g_w == 0));
  g_i = 3 * g_w + k;
  /* the bytes that the group stands for */
  unsigned char x0 = 4 * g_w < g_n ? g_six[(unsigned char) t[4 * g_w]] : 0, x1 = 4 * g_w + 1 < g_n ? g_six[(unsigned char) t[4 * g_w + 1]] : 0,
    x2 = 4 * g_w + 2 < g_n ? g_six[(unsigned char) t[4 * g_w + 2]] : 0, x3 = 4 * g_w + 3 < g_n ? g_six[(unsigned char) t[4 * g_w + 3]] : 0;
  ASSUME(x0 <= 63 && x1 <= 63 && x2 <= 63 && x3 <= 63);
  g_d[0] = x0 << 2 | x1 >> 4; g_d[1] = x1 << 4 | x2 >> 2; g_d[2] = x2 << 6 | x3;
  g_ev = g_d[k];
#ifdef BOUNDED
  for (int q = 0; q < g_n; q++) ASSUME(V(t[q]));
  g_m = g_n;
#endif
  int r = base64decode(o, t);
  ASSUME(g_m == g_n || V(t[g_m]));   /* t[g_n] is the first character that is not in the alphabet */
  ENSURE(g_m == g_n, "decoding goes up to the first foreign character");
  ENSURE(r == bytes, "three bytes per four characters");
  ENSURE(o[r] == 0, "terminated");
  if (g_i < r) ENSURE(o[g_i] == g_ev, "decoded bytes");
  if (g_n > 8 && r4 == 3 && 4 * g_w + 3 == g_n) REACH("decode");
#elif CASE == 2
  g_n = nondet_int();
  int q4 = nondet_int(), r4 = nondet_int();
  ASSUME(q4 >= 0 && q4 < 500000000 && r4 >= 0 && r4 < 4);
  g_n = 4 * q4 + r4;
  int bytes = 3 * q4 + (r4 == 3 ? 2 : r4 == 2 ? 1 : 0);
#ifdef BOUNDED
  ASSUME(g_n <= 10);
#endif
  char *t = malloc(g_n + 1);
  ASSUME(!V(t[g_n]));
#ifdef BOUNDED
  for (int q = 0; q < g_n; q++) ASSUME(V(t[q]));
#endif
  int r = base64decodelen(t);
#ifdef BOUNDED
  g_m = g_n;
#endif
  ASSUME(g_m == g_n || V(t[g_m]));
  ENSURE(r == bytes + 1, "the announced length is what decoding needs");
  REACH("decodelen");
#else
  /* round trip of one group, for all bytes: the two contracts above fit together */
  unsigned char s[3], x[4]; int n = nondet_int();
  ASSUME(n >= 1 && n <= 3);
  s[0] = nondet_uchar(); s[1] = n > 1 ? nondet_uchar() : 0; s[2] = n > 2 ? nondet_uchar() : 0;
  char e[4] = { alphabet[s[0] >> 2], alphabet[(s[0] & 3) << 4 | s[1] >> 4], n > 1 ? alphabet[(s[1] & 15) << 2 | s[2] >> 6] : '=', n > 2 ? alphabet[s[2] & 63] : '=' };
  int m = 0;
  while (m < 4 && V(e[m])) m++;
  ENSURE(m == n + 1 && m * 3 / 4 == n, "lemma: as many bytes come back");
  for (int i = 0; i < 4; i++) x[i] = i < m ? g_six[(unsigned char) e[i]] : 0;
  unsigned char d[3] = { x[0] << 2 | x[1] >> 4, x[1] << 4 | x[2] >> 2, x[2] << 6 | x[3] };
  ENSURE(d[0] == s[0] && (n < 2 || d[1] == s[1]) && (n < 3 || d[2] == s[2]), "lemma: the same bytes come back");
  REACH("lemma");
#endif
}
