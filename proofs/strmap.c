//@ source src/strmap.c
//@ function sm_put sm_get sm_exists sm_new
//@ stub get_pair hash
//@ assume get_pair and hash are replaced by their contracts (discharged in unit strmap_find); malloc and realloc succeed; strlen and strcpy are the C library's; texts are shorter than 2^30, a bucket holds fewer than 2^26 pairs; a map has 32 buckets, as trax_properties creates it (checked in unit properties)
//@ cases 5
//@ fallback --unwind 4
//@ timeout 120
//@@harness
static const char *g_key, *g_val; static unsigned g_kl, g_vl, g_ol, g_b; static char *g_old; static Bucket *g_bucket; static unsigned g_w, g_u; static _Bool g_found; static unsigned long g_h; static unsigned g_found_calls;
static unsigned text_len(const char *s) {
  if (s == g_key) return g_kl;
  if (s == g_val) return g_vl;
  ENSURE(s == g_old, "only the texts at hand are used");
  return g_ol;
}
size_t strlen(const char *s) { return text_len(s); }
/* g_b: an arbitrary position; the copy is checked and made there and at the terminator */
char *strcpy(char *d, const char *s) {
  unsigned n = text_len(s);
  ENSURE(__CPROVER_w_ok(d, (size_t) n + 1), "there is room for the text and its terminator");
  char c = g_b <= n ? s[g_b] : 0;
  __CPROVER_havoc_slice(d, (size_t) n + 1);
  ASSUME(d[n] == 0);
  if (g_b <= n) ASSUME(d[g_b] == c);
  return d;
}
void *realloc(void *p, size_t k) {
  void *r = malloc(k);
  if (p == g_old) return r;
  ENSURE(p == g_bucket->pairs && k >= g_bucket->count * sizeof(Pair), "the pairs are kept in the larger space");
  Pair *x = r;
  if (g_u < g_bucket->count) x[g_u] = g_bucket->pairs[g_u];
  return r;
}
void *memset(void *p, int c, size_t k) {
  ENSURE(c == 0 && k % sizeof(Bucket) == 0 && __CPROVER_w_ok(p, k), "a bucket array is cleared");
  Bucket *b = p; if (g_u < k / sizeof(Bucket)) { b[g_u].count = 0; b[g_u].pairs = 0; }
  return p;
}
void *calloc(size_t a, size_t b) { void *p = malloc(a * b); return memset(p, 0, a * b); }
char *strncpy(char *d, const char *s, size_t k) { ENSURE(k == text_len(s) + 1ul, "whole texts are copied"); return strcpy(d, s); }
void *memcpy(void *d, const void *s, size_t k) { ENSURE(k == text_len(s) + 1ul, "whole texts are copied"); return strcpy(d, s); }
static unsigned long hash(const char *s) { ENSURE(s == g_key, "the bucket of the key"); return g_h; }
static Pair *get_pair(Bucket *b, const char *key) {
  ENSURE(b == g_bucket && key == g_key, "the key is looked up in its bucket");
  return g_found ? b->pairs + g_w : (Pair*) 0;
}
int main(void) {
  if (CASE == 4) {
    unsigned cap = nondet_uint(), q = nondet_uint();
    ASSUME(cap > 0 && cap < 1u << 26 && q < cap);
    g_u = q;
    StrMap *m = sm_new(cap);
    ENSURE(m && m->count == cap && __CPROVER_rw_ok(m->buckets, cap * sizeof(Bucket)) && m->buckets[q].count == 0, "a new map is empty");
    REACH("new");
    return 0;
  }
  StrMap m;
  m.count = 32;
  m.buckets = malloc(m.count * sizeof(Bucket));
  Bucket *base = m.buckets; unsigned cap = m.count;
  g_h = nondet_long();
  g_bucket = m.buckets + g_h % m.count;
  unsigned n = nondet_uint(), u = nondet_uint(), q = nondet_uint();
  g_w = nondet_uint();
  ASSUME(n < 1u << 26 && (u < n || n == 0) && q < m.count);
#ifdef BOUNDED
  ASSUME(n <= 3);
#endif
  g_bucket->count = n;
  g_bucket->pairs = n ? malloc(n * sizeof(Pair)) : (Pair*) 0;
  g_found = nondet_bool();
  ASSUME(!g_found || g_w < n);
  g_kl = nondet_uint(); g_vl = nondet_uint(); g_ol = nondet_uint(); g_b = nondet_uint();
  unsigned ocap = nondet_uint();
  ASSUME(g_kl < 1u << 30 && g_vl < 1u << 30 && g_ol <= ocap && ocap < 1u << 30);
  char *key = malloc(g_kl + 1ul), *val = malloc(g_vl + 1ul), *okey = 0;
  key[g_kl] = 0; val[g_vl] = 0; g_key = key; g_val = val;
  g_old = malloc(ocap + 1ul); g_old[g_ol] = 0; okey = malloc(1);
  if (g_found) { g_bucket->pairs[g_w].key = okey; g_bucket->pairs[g_w].value = g_old; }
  g_u = u;
  Pair pu; if (n) pu = g_bucket->pairs[u];
  Bucket bq = m.buckets[q]; Bucket b0 = *g_bucket;
  char vb = g_b <= g_vl ? val[g_b] : 0, kb = g_b <= g_kl ? key[g_b] : 0, ob = g_b <= g_ol ? g_old[g_b] : 0;
  if (CASE == 0 || CASE == 1) {
    ASSUME(g_found == (CASE == 0));
    int r = sm_put(&m, key, val);
    ENSURE(r == 1, "setting succeeds");
    ENSURE(m.count == cap && m.buckets == base, "the map is kept");
    if (m.buckets + q != g_bucket) ENSURE(m.buckets[q].count == bq.count && m.buckets[q].pairs == bq.pairs, "other buckets are kept");
    Pair *p = g_found ? g_bucket->pairs + g_w : g_bucket->pairs + n;
    ENSURE(g_bucket->count == (g_found ? n : n + 1), "one pair more if the name is new, otherwise as many as before");
    ENSURE(__CPROVER_rw_ok(g_bucket->pairs, g_bucket->count * sizeof(Pair)), "room for the pairs");
    if (n && !(g_found && u == g_w)) ENSURE(g_bucket->pairs[u].key == pu.key && g_bucket->pairs[u].value == pu.value, "other pairs are kept");
    char *pv = p->value, *pk = p->key;
    ENSURE(pv != val && __CPROVER_rw_ok(pv, g_vl + 1ul) && (g_b > g_vl || pv[g_b] == vb), "the value is stored, byte for byte");
    if (g_found) { ENSURE(pk == okey, "the name is kept"); if (g_ol < g_vl) REACH("replace by longer"); if (g_ol > g_vl) REACH("replace by shorter"); }
    else { ENSURE(pk != key && pk != pv && __CPROVER_rw_ok(pk, g_kl + 1ul) && (g_b > g_kl || pk[g_b] == kb), "the name is stored, byte for byte"); if (n > 2) REACH("new name"); if (!n) REACH("first in bucket"); }
  } else if (CASE == 2) {
    int sz = sm_get(&m, key, 0, 0), ex = sm_exists(&m, key);
    ENSURE(sz == (g_found ? (int) g_ol + 1 : 0), "the size of the value, or nothing");
    ENSURE(ex == (g_found ? 1 : 0), "a name exists if it has been set");
    if (g_found) REACH("size"); else REACH("absent");
    ENSURE(sm_get(&m, 0, 0, 0) == 0 && sm_get(0, key, 0, 0) == 0 && sm_exists(0, key) == 0 && sm_put(0, key, val) == 0 && sm_put(&m, key, 0) == 0, "missing pieces are refused");
  } else {
    unsigned room = nondet_uint();
    ASSUME(room >= 1 && room < 1u << 30);
    char *out = malloc(room), o0 = out[0];
    int r = sm_get(&m, key, out, room);
    ENSURE(r == (g_found && g_ol < room ? 1 : 0), "the value is copied if there is room");
    if (r) { ENSURE((g_b > g_ol || out[g_b] == ob) && out[g_ol] == 0, "the value, byte for byte"); REACH("get"); }
    else { ENSURE(out[0] == o0, "nothing is written otherwise"); REACH("no room"); }
  }
  if (CASE >= 2) {
    ENSURE(g_bucket->count == n && g_bucket->pairs == b0.pairs && m.count == cap && m.buckets == base, "reading changes nothing");
    if (g_b <= g_ol) ENSURE(g_old[g_b] == ob, "reading changes no value");
  }
}
