//@ source src/trax.c
//@ function trax_server_reply_sot trax_server_reply_mot
//@ stub write_message list_create list_append_direct list_destroy region_string trax_object_list_get trax_object_list_properties trax_object_list_count set_error clear_error
//@ loop trax_server_reply_mot 0 of 1 : LC_OBJ
//@ assume message, list and region functions are replaced by their contracts (units write_message, string_list, lists, region_string); every region has a text (true for the four region types); less than 2^30 objects
//@ cases 2
//@ fallback --unwind 5
//@ cbmc --unwind 16
//@ timeout 100
//@@prelude
#define set_error(h, ...) g_set_error(h)
struct gs { int sent, list, n, str, cur, err, clear; };
extern struct gs g; extern int g_n;
#define LC_OBJ __CPROVER_assigns(i, data, arguments, g) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && g.sent == i && !g.list && !g.str && !g.err && g.clear == 1) __CPROVER_decreases(g_n - i)
//@@harness
struct gs g; int g_n;
static trax_handle *g_s; static trax_object_list *g_ol; static char *g_args, *g_str, *g_R, *g_P, *g_user; static void *g_stream; static int g_sot;
string_list *list_create(int n) { ENSURE(!g.list && n > 0, "one list of arguments at a time"); g.list = 1; g.n = 0; return (string_list*) g_args; }
void list_destroy(string_list **l) { ENSURE(*l == (string_list*) g_args && g.list, "the arguments are released once"); g.list = 0; *l = 0; }
void list_append_direct(string_list *l, char *s) { ENSURE(l == (string_list*) g_args && g.list && g.str && s == g_str + g.cur, "the text of the region becomes the argument"); g.n++; g.str = 0; }
trax_region *trax_object_list_get(trax_object_list *l, int i) { ENSURE(l == g_ol && i >= 0 && i < g_n, "an object of the list"); return (trax_region*) (g_R + i); }
trax_properties *trax_object_list_properties(trax_object_list *l, int i) { ENSURE(l == g_ol && i >= 0 && i < g_n, "an object of the list"); return (trax_properties*) (g_P + i); }
int trax_object_list_count(const trax_object_list *l) { ENSURE(l == g_ol, "the list of the caller"); return g_n; }
char *region_string(region_container *r) { ENSURE(!g.str && (char*) r == g_R + g.sent, "the regions are sent in order"); g.str = 1; g.cur = g.sent; return g_str + g.cur; }
void g_set_error(trax_handle *h) { ENSURE(h == g_s, "the error belongs to the session"); g.err++; }
void clear_error(trax_handle *h) { ENSURE(h == g_s, "the error belongs to the session"); g.clear++; }
void write_message(message_stream *s, trax_logging *log, int type, const string_list *a, trax_properties *p) {
  ENSURE(s == g_stream && log == &g_s->logging && type == TRAX_STATE, "states go to the stream of the server");
  ENSURE(!(g_s->flags & TRAX_FLAG_TERMINATED), "nothing is sent when the session is over");
  ENSURE((char*) a == g_args && g.list && g.n == 1 && g.cur == g.sent && !g.str, "a state has the region of its object");
  ENSURE((char*) p == (g_sot ? g_user : g_P + g.sent), "a state has the properties of its object");
  g.sent++;
}
int main(void) {
  trax_handle s; trax_metadata m;
  g.sent = g.list = g.n = g.str = g.cur = g.err = g.clear = 0;
  g_args = malloc(1); g_str = malloc(1); g_R = malloc(1); g_P = malloc(1); g_stream = malloc(1); g_ol = malloc(1); g_user = nondet_bool() ? malloc(1) : 0;
  s.flags = nondet_int(); s.version = nondet_int(); s.objects = nondet_int(); s.metadata = &m; s.stream = g_stream; s.error = 0; s.logging.callback = 0;
  m.flags = nondet_int();
  ASSUME((s.flags & TRAX_FLAG_VALID) && (s.flags & TRAX_FLAG_SERVER));
  g_n = nondet_int();
  ASSUME(g_n >= 0 && g_n < 1 << 30);
#ifdef BOUNDED
  ASSUME(g_n <= 3);
#endif
  g_s = &s;
  int fl = s.flags, ver = s.version, o = s.objects, r, dead = fl & TRAX_FLAG_TERMINATED, bad;
#if CASE == 0
  g_sot = 1;
  r = trax_server_reply_sot(&s, (trax_region*) g_R, (trax_properties*) g_user);
  bad = dead || ver >= 4;
  if (!bad) { ENSURE(g.sent == 1, "one state"); REACH("reply"); }
#else
  g_sot = 0;
  r = trax_server_reply_mot(&s, g_ol);
  bad = dead || (!(m.flags & TRAX_METADATA_MULTI_OBJECT) && g_n != 1) || g_n != o;
  if (!bad) { ENSURE(g.sent == g_n, "one state for each object"); REACH("reply"); if (g_n > 4) REACH("many"); }
#endif
  if (bad) { ENSURE(r == TRAX_ERROR && g.sent == 0 && g.err == 1, "a reply that does not fit the session is refused"); REACH("refused"); }
  else ENSURE(r == TRAX_OK && g.err == 0, "success");
  ENSURE(!g.list && !g.str && s.flags == fl && s.version == ver && s.objects == o && s.stream == g_stream, "what was used is released, the session is kept");
}
