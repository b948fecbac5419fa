//@ source src/trax.c
//@ function trax_properties_create trax_properties_clear trax_properties_release trax_properties_set trax_properties_get trax_properties_has trax_properties_count trax_properties_enumerate trax_properties_copy trax_properties_append copy_properties copy_property_overwrite copy_property_safe copy_property_external_overwrite copy_property_external_safe
//@ assume the sm_ functions are replaced by their contracts (discharged in units strmap, strmap_find, strmap_walk); malloc succeeds; strncmp is the C library's
//@ cases 4
//@ cbmc --unwind 8
//@ fallback --unwind 8
//@ timeout 120
//@@prelude
#define free g_free
//@@harness
typedef struct StrMap { int d; } SM;
static SM *g_map, *g_map2, *g_new; static int g_deleted, g_created, g_puts, g_len, g_has, g_count, g_freed, g_b, g_enums, g_pre; static const char *g_key, *g_val; static char g_vb; static const void *g_obj; static trax_properties *g_p; static sm_enum_func g_f;
void g_free(void *p) { if (p) { ENSURE(p == g_p && g_deleted == 1, "the set is released behind its map"); g_freed++; } }
StrMap *sm_new(unsigned cap) { ENSURE(cap == 32, "maps have 32 buckets"); g_created++; g_new = malloc(sizeof(SM)); return g_new; }
void sm_delete(StrMap *m) { ENSURE(m == g_map && g_deleted == 0, "the map is deleted once"); g_deleted++; }
int sm_put(StrMap *m, const char *k, const char *v) {
  ENSURE(m == g_map2, "the values go to the set that was named");
  ENSURE(k == g_key && v == g_val, "name and value are stored as they are");
  g_puts++;
  return 1;
}
int sm_get(const StrMap *m, const char *k, char *out, unsigned n) {
  ENSURE(m == g_map2 && k == g_key, "the name is looked up in the set");
  if (!g_has) return 0;
  if (!out && !n) return g_len + 1;
  if (!out || n <= (unsigned) g_len) return 0;
  ENSURE(__CPROVER_w_ok(out, (__SIZE_TYPE__) g_len + 1), "there is room for the value");
  out[g_len] = 0;
  if (g_b < g_len) out[g_b] = g_vb;
  return 1;
}
int sm_exists(const StrMap *m, const char *k) { ENSURE(m == g_map2 && k == g_key, "the name is looked up in the set"); return g_has; }
int sm_get_count(const StrMap *m) { ENSURE(m == g_map2, "the pairs of the set are counted"); return g_count; }
/* contract: the function is called once for every pair; here for an arbitrary one */
int sm_enum(const StrMap *m, sm_enum_func f, const void *obj) {
  ENSURE(m == g_map, "the pairs of the source");
  g_enums++;
  if (CASE == 3) { g_f = f; ENSURE(obj == g_obj, "the object is passed on"); return 1; }
  if (obj == g_p) f(g_key, g_val, obj);
  else { ENSURE(g_created == 1 && ((trax_properties*) obj)->map == g_new, "the pairs go to the new set"); g_map2 = g_new; g_has = 0; f(g_key, g_val, obj); }
  return 1;
}
static void cb(const char *k, const char *v, const void *o) { }
int main(void) {
  g_deleted = g_created = g_puts = g_freed = g_enums = 0;
  g_map = malloc(sizeof(SM)); g_map2 = g_map;
  char *key = malloc(8); key[7] = 0;
  g_key = key; g_val = malloc(1);
  g_has = nondet_int() & 1; g_len = nondet_int(); g_b = nondet_int(); g_count = nondet_int(); g_vb = nondet_char();
  ASSUME(g_len >= 0 && g_len < 0x7ffffff0 && g_b >= 0);
  trax_properties *p = malloc(sizeof *p);
  p->map = (StrMap*) g_map; g_p = p;
  if (CASE == 0) {
    trax_properties *q = trax_properties_create();
    ENSURE(q && q->map == (StrMap*) g_new && g_created == 1, "a new set is empty");
    trax_properties_clear(p);
    ENSURE(g_deleted == 1 && g_created == 2 && p->map == (StrMap*) g_new, "clearing leaves an empty set");
    trax_properties_clear(0);
    g_map = g_new; g_deleted = 0;
    trax_properties_release(&p);
    ENSURE(p == 0 && g_freed == 1 && g_deleted == 1, "releasing deletes the map and the set and clears the pointer");
    trax_properties_release(&p); trax_properties_release(0);
    ENSURE(g_freed == 1, "nothing happens the second time");
    REACH("life");
  } else if (CASE == 1) {
    trax_properties_set(p, g_key, g_val);
    ENSURE(g_puts == 1, "setting stores the pair");
    char *r = trax_properties_get(p, g_key);
    ENSURE((r != 0) == g_has, "a value if there is one");
    if (r) { ENSURE(__CPROVER_r_ok(r, (__SIZE_TYPE__) g_len + 1) && r[g_len] == 0 && (g_b >= g_len || r[g_b] == g_vb), "a copy of the value"); REACH("get"); }
    ENSURE(!trax_properties_has(p, g_key) == !g_has, "whether there is one");
    ENSURE(trax_properties_count(p) == g_count, "the number of pairs");
    ENSURE(g_puts == 1 && g_deleted == 0 && g_created == 0 && p->map == (StrMap*) g_map, "reading changes nothing");
    REACH("set");
  } else if (CASE == 2) {
    trax_properties *s = malloc(sizeof *s);
    s->map = (StrMap*) g_map; g_map2 = malloc(sizeof(SM)); p->map = (StrMap*) g_map2;
    int mode = nondet_int(), over = nondet_int();
    _Bool ext = key[0] == 't' && key[1] == 'r' && key[2] == 'a' && key[3] == 'x' && key[4] == '.';
    if (mode == 0) {
      trax_properties_append(s, p, over);
      ENSURE(g_enums == 1 && g_puts == (over || !g_has ? 1 : 0), "every pair is copied, values that are already there are kept unless they are to be overwritten");
      if (over) REACH("append over"); else REACH("append");
    } else if (mode == 1) {
      trax_properties *q = trax_properties_copy(s);
      ENSURE(g_enums == 1 && g_puts == 1 && q != s && q->map == (StrMap*) g_new, "a copy holds every pair");
      REACH("copy");
    } else {
      copy_properties(s, p, over & 3);
      ENSURE(g_enums == 1 && g_puts == (((over & COPY_OVERWRITE) || !g_has) && ((over & COPY_ALL) || !ext) ? 1 : 0), "reserved names are left out when only external ones are wanted");
      if (ext) REACH("reserved"); else REACH("external");
    }
    ENSURE(g_deleted == 0 && s->map == (StrMap*) g_map, "the source is kept");
  } else {
    g_obj = malloc(1);
    trax_properties_enumerate(p, cb, g_obj);
    ENSURE(g_enums == 1 && g_f == cb, "the function of the caller is called for every pair");
    trax_properties_enumerate(0, cb, g_obj); trax_properties_enumerate(p, 0, g_obj);
    ENSURE(g_enums == 1, "nothing to enumerate");
    REACH("enumerate");
  }
}
