//@ source src/trax.c
//@ function trax_object_list_create trax_object_list_release trax_object_list_set trax_object_list_get trax_object_list_properties trax_object_list_count trax_object_list_append trax_image_list_create trax_image_list_clear trax_image_list_release trax_image_list_get trax_image_list_set trax_image_list_count
//@ stub trax_region_create_special trax_properties_create trax_region_release trax_properties_release trax_region_clone copy_properties trax_image_release
//@ loop trax_object_list_create 0 of 1 : LC_CREATE
//@ loop trax_object_list_release 0 of 1 : LC_REL
//@ loop trax_object_list_append 0 of 1 : LC_APP
//@ assume region, property and image functions are replaced by their contracts (units properties, clone); malloc and realloc succeed; lists have at most 2^26 objects; the regions and property sets of a list are separate
//@ cases 7
//@ cbmc --unwind 34
//@ fallback --unwind 5 --unwindset main.0:33,trax_image_list_count.0:33
//@ timeout 150
//@@prelude
#define free g_free
#define realloc g_realloc
struct gs { int c, p, r, q, k, y; }; extern struct gs g; extern int g_w, g_o; extern char *g_R, *g_P, *g_B, *g_Q; extern int g_n, g_m;
/* the region made for object i is g_R + i, its properties g_P + i (abstract addresses) */
#define LC_CREATE __CPROVER_assigns(i, g, __CPROVER_object_whole(list->regions), __CPROVER_object_whole(list->properties)) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && g.c == i && g.p == i && IMP(g_w < i, (char*) list->regions[g_w] == g_R + g_w && (char*) list->properties[g_w] == g_P + g_w)) __CPROVER_decreases(count - i)
#define LC_REL __CPROVER_assigns(i, g, __CPROVER_object_whole((*list)->regions), __CPROVER_object_whole((*list)->properties)) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && g.r == i && g.q == i) __CPROVER_decreases((*list)->size - i)
#define LC_APP __CPROVER_assigns(i, g, __CPROVER_object_whole(list->regions), __CPROVER_object_whole(list->properties)) \
  __CPROVER_loop_invariant(0 <= i && i <= g_m && g.k == i && g.p == i && g.y == i) \
  __CPROVER_loop_invariant(IMP(g_w >= g_o && g_w < g_o + i, (char*) list->regions[g_w] == g_R + (g_w - g_o) && (char*) list->properties[g_w] == g_P + (g_w - g_o))) \
  __CPROVER_loop_invariant(IMP(g_w < g_o, (char*) list->regions[g_w] == g_B && (char*) list->properties[g_w] == g_Q)) __CPROVER_decreases(g_m - i)
//@@harness
struct gs g; int g_w, g_o, g_n, g_m; char *g_R, *g_P, *g_B, *g_Q; static trax_object_list *g_l, *g_s; static void *g_rr, *g_pp; static int g_fr, g_fp, g_fl, g_set, g_rel, g_chan; static trax_image *g_im[3]; static const trax_region *g_arg;
void g_free(void *p) {
  if (p == g_rr && !g_fr) g_fr = 1; else if (p == g_pp && !g_fp) g_fp = 1;
  else { ENSURE(p == g_l && g_fr && g_fp && !g_fl, "everything is freed once, the list last"); g_fl = 1; }
}
void *g_realloc(void *p, size_t k) {
  void **r = malloc(k);
  ENSURE(k / sizeof(void*) >= g_o, "the list grows");
  if (g_w < g_o) { r[g_w] = p == g_rr ? (void*) g_B : (void*) g_Q; ENSURE(p == g_rr || p == g_pp, "the arrays of the list grow"); }
  return r;
}
trax_region *trax_region_create_special(int code) { ENSURE(code == 0, "new objects are empty"); return (trax_region*) (g_R + g.c++); }
trax_properties *trax_properties_create() { return (trax_properties*) (g_P + g.p++); }
void trax_region_release(trax_region **r) {
  if (CASE == 1) { ENSURE(g.r < g_n && r == &g_l->regions[g.r], "the region of each object is released once"); g.r++; }
  else { ENSURE(CASE == 2 && r == &g_l->regions[g_w] && (char*) *r == g_B && !g_rel, "the old region is released"); g_rel++; }
  *r = 0;
}
void trax_properties_release(trax_properties **p) { ENSURE(CASE == 1 && p == &g_l->properties[g.q], "the properties of each object are released once"); g.q++; *p = 0; }
trax_region *trax_region_clone(const trax_region *r) {
  if (CASE == 2) { ENSURE(r == g_arg && !g_rel, "the region that was given is copied before the old one is released"); g_set++; return (trax_region*) g_R; }
  ENSURE((CASE == 4 || CASE == 6) && g.k < g_m && r == g_s->regions[g.k], "the region of each object is copied");
  if (g_s == g_l && g.k == g_w) ENSURE((char*) r == g_B, "the region of each object is copied");
  return (trax_region*) (g_R + g.k++);
}
void copy_properties(const trax_properties *s, trax_properties *d, int flags) {
  ENSURE((CASE == 4 || CASE == 6) && g.y < g_m && s == g_s->properties[g.y] && (char*) d == g_P + g.y && (flags & COPY_ALL), "the properties of each object are copied, all of them");
  g.y++;
}
void trax_image_release(trax_image **im) { ENSURE(*im != 0, "an image that is there"); *im = 0; g_rel++; }
static void mk(trax_object_list *l, int n) {
  l->size = n;
  l->regions = malloc(n * sizeof(void*)); l->properties = malloc(n * sizeof(void*));
}
int main(void) {
  g.c = g.p = g.r = g.q = g.k = g.y = 0; g_fr = g_fp = g_fl = g_set = g_rel = 0;
  g_R = malloc(1); g_P = malloc(1); g_B = malloc(1); g_Q = malloc(1);
  g_n = nondet_int(); g_w = nondet_int(); g_o = nondet_int();
  ASSUME(g_n >= 0 && g_n <= 1 << 26);
#ifdef BOUNDED
  ASSUME(g_n <= 3);
#if CASE == 6
  g_n = 2;
#endif
#endif
  int n = g_n;
#if CASE == 0
  ASSUME(g_w >= 0 && (g_w < n || n == 0));
  trax_object_list *l = trax_object_list_create(n);
  ENSURE(l->size == n && trax_object_list_count(l) == n && g.c == n && g.p == n, "a list of that many objects");
  ENSURE(__CPROVER_rw_ok(l->regions, n * sizeof(void*)) && __CPROVER_rw_ok(l->properties, n * sizeof(void*)), "room for them");
  if (n) ENSURE((char*) l->regions[g_w] == g_R + g_w && (char*) l->properties[g_w] == g_P + g_w, "each with a region and properties of its own");
  if (n > 5) REACH("create");
#elif CASE == 5
  trax_image_list *l = trax_image_list_create();
  int c = nondet_int(), d = nondet_int();
  ASSUME((c == TRAX_CHANNEL_COLOR || c == TRAX_CHANNEL_DEPTH || c == TRAX_CHANNEL_IR) && (d == TRAX_CHANNEL_COLOR || d == TRAX_CHANNEL_DEPTH || d == TRAX_CHANNEL_IR));
  ENSURE(trax_image_list_get(l, c) == 0, "a new list is empty");
  trax_image *a = (trax_image*) g_R, *b = (trax_image*) g_P;
  trax_image_list_set(l, a, c);
  ENSURE(trax_image_list_get(l, c) == a && (c == d || trax_image_list_get(l, d) == 0), "an image is set for its channel only");
  trax_image_list_set(l, b, d);
  ENSURE(trax_image_list_get(l, d) == b && (c == d || trax_image_list_get(l, c) == a), "an image is set for its channel only");
  trax_image_list_clear(l);
  ENSURE(g_rel == (c == d ? 1 : 2) && trax_image_list_get(l, c) == 0 && trax_image_list_get(l, d) == 0, "clearing releases every image once");
  int bits = nondet_int(), s = 0;
  for (int k = 0; k < 32; k++) s += (unsigned) bits >> k & 1;
  ASSUME(bits >= 0);
  ENSURE(trax_image_list_count(bits) == s, "the number of channels");
  REACH("image list");
#else
  trax_object_list *l = malloc(sizeof *l);
  mk(l, n);
  g_l = l; g_rr = l->regions; g_pp = l->properties;
#if CASE == 1
  ASSUME(g_w >= 0 && (g_w < n || n == 0));
  if (n) { l->regions[g_w] = (trax_region*) g_B; l->properties[g_w] = (trax_properties*) g_Q; }
  trax_object_list_release(&l);
  ENSURE(l == 0 && g.r == n && g.q == n && g_fr && g_fp && g_fl, "everything is released once");
  trax_object_list_release(&l); trax_object_list_release(0);
  if (n > 5) REACH("release");
#elif CASE == 2
  int i = nondet_int(), u = nondet_int();
  ASSUME(u >= 0 && (u < n || n == 0));
  g_w = i >= 0 && i < n ? i : -1;
  if (g_w >= 0) l->regions[i] = (trax_region*) g_B;
  void *o = n ? l->regions[u] : 0; void *op = n ? l->properties[u] : 0;
  g_arg = (trax_region*) malloc(1);
  if (g_w >= 0 && nondet_bool()) g_arg = l->regions[i];
  trax_object_list_set(l, i, (trax_region*) g_arg);
  if (g_w >= 0) { ENSURE(g_rel == 1 && g_set == 1 && (char*) l->regions[i] == g_R, "the object gets a copy of the region"); REACH("set"); }
  else { ENSURE(g_rel == 0 && g_set == 0, "nothing happens for an index outside the list"); REACH("set outside"); }
  if (n && u != i) ENSURE(l->regions[u] == o, "the other objects are kept");
  if (n) ENSURE(l->properties[u] == op, "properties are kept");
  ENSURE(l->size == n && l->regions == g_rr && l->properties == g_pp, "the list is kept");
#elif CASE == 3
  int i = nondet_int();
  _Bool in = i >= 0 && i < n;
  trax_region *r = trax_object_list_get(l, i); trax_properties *p = trax_object_list_properties(l, i);
  if (in) { ENSURE(r == l->regions[i] && p == l->properties[i], "region and properties of the object"); REACH("get"); }
  else { ENSURE(r == 0 && p == 0, "nothing outside the list"); REACH("get outside"); }
  ENSURE(trax_object_list_count(l) == n, "the number of objects");
#else
  g_o = n;
  trax_object_list *s = malloc(sizeof *s);
  _Bool self = CASE == 6;
  int m = self ? n : nondet_int();
  ASSUME(m >= 0 && m <= 1 << 26 && g_w >= 0 && (g_w < n + m || n + m == 0));
#ifdef BOUNDED
  ASSUME(m <= 2 && n <= 2);
#endif
  g_m = m;
  if (self) s = l; else mk(s, m);
  g_s = s;
  if (g_w < n) { l->regions[g_w] = (trax_region*) g_B; l->properties[g_w] = (trax_properties*) g_Q; }
  int r = trax_object_list_append(l, s);
  ENSURE(r == n + m && l->size == n + m && (self || s->size == m), "as many objects as both lists together");
  ENSURE(__CPROVER_rw_ok(l->regions, (n + m) * sizeof(void*)) && __CPROVER_rw_ok(l->properties, (n + m) * sizeof(void*)), "room for them");
  if (g_w < n) { ENSURE((char*) l->regions[g_w] == g_B && (char*) l->properties[g_w] == g_Q, "the objects of the list are kept"); if (n > 3) REACH("append keeps"); }
  else if (g_w < n + m) { ENSURE((char*) l->regions[g_w] == g_R + (g_w - n) && (char*) l->properties[g_w] == g_P + (g_w - n), "copies of the objects follow in order"); if (m > 3) REACH("append"); }
#endif
#endif
}
