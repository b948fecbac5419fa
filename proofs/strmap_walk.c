//@ source src/strmap.c
//@ function sm_get_count sm_enum sm_delete
//@ loop sm_get_count 0 of 2 : LC_O(count)
//@ loop sm_get_count 1 of 2 : LC_I(count)
//@ loop sm_enum 0 of 2 : LC_O(g_dummy)
//@ loop sm_enum 1 of 2 : LC_I(g_dummy)
//@ loop sm_delete 0 of 2 : LC_O(g_dummy)
//@ loop sm_delete 1 of 2 : LC_I(g_dummy)
//@ ghost sm_get_count 0 : SAME(bucket, g_base + i) g_visit(bucket);
//@ ghost sm_get_count 1 : SAME(pair, g_pairs + j) g.j++;
//@ ghost sm_enum 0 : SAME(bucket, g_base + i) g_visit(bucket);
//@ ghost sm_enum 1 : SAME(pair, g_pairs + j)
//@ ghost sm_delete 0 : SAME(bucket, g_base + i) g_visit(bucket);
//@ ghost sm_delete 1 : SAME(pair, g_pairs + j)
//@ assume the buckets of a map hold arbitrary pairs; a bucket is materialised when it is visited; fewer than 2^26 pairs per bucket, fewer than 2^31 in all; names and values are separate allocations
//@ cases 3
//@ fallback --unwind 4
//@ timeout 200
//@@prelude
#define free g_free
struct gs { unsigned b, j, m, v, done; unsigned total; }; extern struct gs g; extern struct Bucket *g_base; extern struct Pair *g_pairs; extern unsigned g_n;
void g_visit(struct Bucket *); extern int g_dummy;
#define LC_O(c) __CPROVER_assigns(i, j, m, bucket, pair, c, g, __CPROVER_object_whole(g_base), __CPROVER_object_whole(g_pairs)) \
  __CPROVER_loop_invariant(i <= n && n == g_n && g.b == i && DONE(g.b) && bucket == g_base + i && g.j == g.m && g.v == 0 && OUTER(c)) __CPROVER_decreases(n - i)
#define LC_I(c) __CPROVER_assigns(j, pair, c, g.j, g.v) \
  __CPROVER_loop_invariant(j <= m && m == g.m && g.j == j && pair == g_pairs + j && g.v == 0 && DONE(g.b - 1) && INNER(c)) __CPROVER_decreases(m - j)
#if CASE == 2
#define DONE(k) (g.done == (k))
#else
#define DONE(k) 1
#endif
#if CASE == 0
#define OUTER(c) ((c) == g.total)
#define INNER(c) ((c) == g.total - m + j)
#else
#define OUTER(c) 1
#define INNER(c) 1
#endif
//@@harness
struct gs g; struct Bucket *g_base; struct Pair *g_pairs; unsigned g_n; int g_dummy; static StrMap *g_m; static int g_obj; static unsigned g_arr, g_maps, g_max;
/* a bucket that is visited for the first time holds any number of any pairs */
void g_visit(Bucket *b) {
  ENSURE(b == g_base + g.b && g.b < g_n, "the buckets are visited in order");
  ENSURE(g.j == g.m, "the bucket before has been dealt with");
#if CASE == 2
  ENSURE(g.b == 0 || g.done == g.b, "the pairs of the bucket before have been released");
#endif
  unsigned k = nondet_uint();
  ASSUME(k <= g_max);
  __CPROVER_havoc_object(g_pairs);
  g_base[g.b].count = k; g_base[g.b].pairs = g_pairs;
  g.b++; g.j = 0; g.m = k; g.v = 0;
  ASSUME(g.total < 0x7fffffffu - k);
  g.total += k;
}
static Pair *g_exp[5]; static unsigned g_total;
static void on_pair(const char *key, const char *value, const void *obj) {
  ENSURE(obj == &g_obj, "the object is passed on");
#ifdef BOUNDED
  ENSURE(g.j < g_total && key == g_exp[g.j]->key && value == g_exp[g.j]->value, "each pair is reported once, in order");
#else
  ENSURE(g.j < g.m, "no pair twice");
  ENSURE(key == g_pairs[g.j].key && value == g_pairs[g.j].value, "each pair is reported once, in order");
#endif
  g.j++;
#ifdef BOUNDED
  g.total++;
#endif
}
void g_free(void *p) {
#ifndef BOUNDED
  if (g.j < g.m) {
    if (g.v) { ENSURE(p == (g.v == 1 ? g_pairs[g.j].value : g_pairs[g.j].key), "the other half of the pair is released"); g.v = 0; g.j++; }
    else { ENSURE(p == g_pairs[g.j].key || p == g_pairs[g.j].value, "names and values are released"); g.v = p == g_pairs[g.j].key ? 1 : 2; }
  } else if (g.done < g.b) { ENSURE(p == g_pairs, "the pairs are released behind their texts"); g.done++; }
  else if (!g_arr) { ENSURE(p == g_base && g.b == g_n, "the buckets are released behind the pairs"); g_arr++; }
  else { ENSURE(p == g_m && !g_maps, "the map is released last"); g_maps++; }
#endif
}
int main(void) {
  StrMap *m = malloc(sizeof *m);
  g_m = m; g_arr = g_maps = 0;
  g.b = g.j = g.m = g.v = g.total = g.done = 0;
  g_n = nondet_uint();
  ASSUME(g_n < 1u << 26);
#ifdef BOUNDED
  ASSUME(g_n <= 2);
#endif
  m->count = g_n;
  m->buckets = malloc(g_n * sizeof(Bucket));
  g_base = m->buckets;
#ifdef BOUNDED
  unsigned total = 0;
  static Pair p0[2], p1[2];
  for (unsigned q = 0; q < g_n; q++) { unsigned k = nondet_uint(); ASSUME(k <= 2); g_base[q].count = k; g_base[q].pairs = q ? p1 : p0; for (unsigned x = 0; x < k; x++) g_exp[total + x] = g_base[q].pairs + x; total += k; }
  g_total = total;
#else
  g_max = nondet_uint(); ASSUME(g_max < 1u << 26);
  g_pairs = malloc(g_max * sizeof(Pair));
#endif
#if CASE == 0
  int c = sm_get_count(m);
#ifdef BOUNDED
  ENSURE(c == total, "the number of pairs");
#else
  ENSURE(g.b == g_n && g.j == g.m && c == g.total, "every pair is counted once");
  if (g_n > 3 && c > 3) REACH("count");
#endif
  ENSURE(sm_get_count(0) == 0, "no map, no pairs");
#elif CASE == 1
  int r = sm_enum(m, on_pair, &g_obj);
  ENSURE(r == 1, "done");
#ifdef BOUNDED
  ENSURE(g.total == total, "every pair is reported");
#else
  ENSURE(g.b == g_n && g.j == g.m, "every pair is reported");
  if (g_n > 3) REACH("enumerate");
#endif
#else
#ifndef BOUNDED
  sm_delete(m);
  ENSURE(g_arr == 1 && g_maps == 1 && g.done == g_n && g.j == g.m && !g.v, "everything is released once");
  if (g_n > 3) REACH("delete");
#endif
#endif
}
