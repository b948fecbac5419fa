//@ source src/strmap.c
//@ function get_pair hash
//@ loop get_pair 0 of 1 : LC_GP
//@ ghost get_pair 0 : SAME(pair, g_pairs + g.i) g.i++;
//@ after get_pair 0 : SAME(pair, g_pairs + g.i)
//@ loop hash 0 of 1 : LC_H
//@ ghost hash 0 : g.k++; SAME(str, g_s + g.k) g.h = g.h * 33 + g_s[g.k - 1];
//@ assume a bucket holds fewer than 2^26 pairs; strcmp compares two texts
//@ cases 2
//@ fallback --unwind 5
//@ timeout 120
//@@prelude
struct gs { unsigned i, k; unsigned long h; }; extern struct gs g; extern struct Pair *g_pairs; extern const char *g_s; extern unsigned g_n, g_hit, g_len;
#define LC_GP __CPROVER_assigns(pair, i, g) __CPROVER_loop_invariant(g.i == i && i <= n && pair == g_pairs + i && i <= g_hit) __CPROVER_decreases(n - i)
#define LC_H __CPROVER_assigns(str, c, hash, g) __CPROVER_loop_invariant(g.k <= g_len && str == g_s + g.k && hash == g.h) __CPROVER_decreases(g_len - g.k)
//@@harness
struct gs g; struct Pair *g_pairs; const char *g_s; unsigned g_n, g_hit, g_len;
static const char *g_key;
/* g_hit: the first pair whose name equals the key (g_n if there is none) */
int strcmp(const char *a, const char *b) {
  if (a == g_key) { const char *t = a; a = b; b = t; }
  ENSURE(b == g_key, "names are compared with the key");
#ifdef BOUNDED
  unsigned at = 0;
  while (at < g_n && g_pairs[at].key != a) at++;
  ENSURE(at < g_n, "names of the bucket are compared");
#else
  unsigned at = g.i - 1;
  ENSURE(at < g_n && a == g_pairs[at].key, "the name of each pair is compared");
#endif
  ASSUME(at <= g_hit);
  return at == g_hit ? 0 : nondet_bool() ? 1 : -1;
}
int main(void) {
  g.i = 0; g.k = 0; g.h = 5381;
#if CASE == 0
  Bucket b;
  g_n = nondet_uint(); g_hit = nondet_uint();
  ASSUME(g_n <= 1u << 26 && g_hit <= g_n);
#ifdef BOUNDED
  ASSUME(g_n <= 3);
#endif
  g_pairs = malloc(g_n * sizeof(Pair));
  b.count = g_n; b.pairs = g_pairs;
  if (g_n == 0 && nondet_bool()) b.pairs = 0;
  if (g_hit < g_n) ASSUME(g_pairs[g_hit].key != 0 && g_pairs[g_hit].value != 0);
#ifdef BOUNDED
  for (unsigned q = 0; q < g_n; q++) for (unsigned p = 0; p < q; p++) ASSUME(g_pairs[p].key != g_pairs[q].key);
#endif
  g_key = malloc(1);
  Pair *r = get_pair(&b, g_key);
  if (g_hit < g_n) { ENSURE(r == g_pairs + g_hit, "the pair with that name is found"); if (g_hit > 5) REACH("found"); }
  else { ENSURE(r == 0, "no pair with that name"); if (g_n > 5) REACH("not found"); }
  ENSURE(b.count == g_n, "the bucket is kept");
#else
  unsigned len = nondet_uint();
  ASSUME(len <= 1u << 30);
#ifdef BOUNDED
  ASSUME(len <= 3);
#endif
  char *s = malloc((size_t) len + 1);
  s[len] = 0;
  g_s = s; g_len = len;
#ifdef BOUNDED
  unsigned long e = 5381;
  for (unsigned q = 0; q < len; q++) { ASSUME(s[q] != 0); e = e * 33 + s[q]; }
  ENSURE(hash(s) == e, "the bucket is a function of the text of the name");
#else
  unsigned long r = hash(s);
  ASSUME(g.k == len || s[g.k] != 0);   /* len is the length of the text */
  ENSURE(g.k == len && r == g.h, "the bucket is a function of the text of the name, all of it");
  if (len > 4) REACH("hash");
#endif
#endif
}
