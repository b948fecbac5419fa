//@ source src/trax.c
//@ function trax_client_wait
//@ stub read_message list_create list_destroy trax_properties_create trax_properties_release trax_object_list_create trax_object_list_release trax_object_list_set trax_object_list_properties copy_properties region_parse region_release set_error
//@ loop trax_client_wait 0 of 1 : LC_WAIT
//@ assume message, list, property and region functions are replaced by their contracts (units read_message, string_list, properties, lists, region_parse); at least one object is being tracked (with none the call reads nothing)
//@ fallback --unwind 5
//@ cbmc --unwind 4
//@ timeout 120
//@@prelude
#define set_error(h, ...) g_set_error(h)
struct gs { int k, set, prop, props, args, region, list, type, quitcopy, err; };
extern struct gs g; extern int g_n, g_f; extern struct trax_object_list *g_l;
#define LC_WAIT __CPROVER_assigns(i, tmp_properties, arguments, result, *objects, client->flags, g, __CPROVER_object_whole(g_args)) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && client->objects == g_n && g.k == i && g.set == i && g.prop == i && client->flags == g_f) \
  __CPROVER_loop_invariant(!g.props && !g.args && !g.region && g.list && !g.quitcopy && *objects == g_l && IMP(i > 0, result == TRAX_STATE_ && g.type == TRAX_STATE_)) __CPROVER_decreases(g_n - i)
#define TRAX_STATE_ 5
extern char *g_args;
//@@harness
struct gs g; int g_n, g_f; trax_object_list *g_l; char *g_args;
static char *g_text, *g_R, *g_P, *g_user; static trax_properties *g_tmp; static trax_handle *g_c; static void *g_stream; static char **g_buf;
string_list *list_create(int n) { ENSURE(!g.args && n > 0, "one list of arguments at a time"); g.args = 1; return (string_list*) g_args; }
void list_destroy(string_list **l) { ENSURE(*l == (string_list*) g_args && g.args, "the arguments are released once"); g.args = 0; *l = 0; }
trax_properties *trax_properties_create() { ENSURE(!g.props, "one set of properties at a time"); g.props = 1; return g_tmp; }
void trax_properties_release(trax_properties **p) { ENSURE(*p == g_tmp && g.props, "the properties are released once"); g.props = 0; *p = 0; }
trax_object_list *trax_object_list_create(int n) { ENSURE(n == g_n, "room for every object"); g.list = 1; return g_l; }
void trax_object_list_release(trax_object_list **l) { ENSURE(*l == g_l && g.list, "the list is released once"); g.list = 0; *l = 0; }
trax_properties *trax_object_list_properties(trax_object_list *l, int i) { ENSURE(l == g_l && g.list, "the list"); return i >= 0 && i < g_n ? (trax_properties*) (g_P + i) : 0; }
void trax_object_list_set(trax_object_list *l, int i, trax_region *r) {
  ENSURE(l == g_l && g.list && i == g.k - 1 && g.set == i, "the object of a state is the one in the order of the messages");
  ENSURE((char*) r == g_R && g.region && g.type == TRAX_STATE, "it gets the region of its message");
  g.set++;
}
void copy_properties(const trax_properties *s, trax_properties *d, int flags) {
  ENSURE(s == g_tmp && g.props && (flags & COPY_ALL) && (flags & COPY_OVERWRITE), "all properties of the message are passed on");
  if (g.type == TRAX_QUIT) { ENSURE((char*) d == g_user && g_user, "the properties of quit go to the caller"); g.quitcopy++; }
  else { ENSURE(g.type == TRAX_STATE && (char*) d == g_P + (g.k - 1) && g.prop == g.k - 1, "the properties of a state go to its object"); g.prop++; }
}
int region_parse(const char *t, region_container **r) {
  ENSURE(t == g_text && g.args && g.type == TRAX_STATE, "the argument of the state is the region");
  if (nondet_bool()) { g.region = 1; *r = (region_container*) g_R; return 1; }
  return 0;
}
void region_release(region_container **r) { ENSURE((char*) *r == g_R && g.region, "the region is released once"); g.region = 0; *r = 0; }
void g_set_error(trax_handle *h) { g.err++; }
int read_message(message_stream *s, trax_logging *log, string_list *a, trax_properties *p) {
  ENSURE(s == g_stream && log == &g_c->logging && a == (string_list*) g_args && g.args && p == g_tmp && g.props, "messages are read from the stream of the client");
  ENSURE(!(g_c->flags & TRAX_FLAG_TERMINATED) && (g_c->flags & TRAX_FLAG_VALID), "nothing is read when the session is over");
  ENSURE(g.k < g_n, "no more states than objects are read");
  ENSURE(g.k == 0 || g.type == TRAX_STATE, "reading goes on behind a state only");
  g.k++;
  g.type = nondet_int();
  ASSUME(g.type >= TRAX_ERROR && g.type <= TRAX_STATE && g.type != TRAX_OK);
  a->buffer = g_buf; a->position = nondet_int();
  ASSUME(a->position >= 0);
  return g.type;
}
int main(void) {
  trax_handle c;
  string_list *al = malloc(sizeof *al);
  g_args = (char*) al; g_buf = malloc(sizeof(char*)); g_text = malloc(1); g_buf[0] = g_text; al->buffer = g_buf; al->position = 0;
  g_tmp = malloc(8); g_l = malloc(8); g_R = malloc(1); g_P = malloc(1); g_stream = malloc(1); g_user = nondet_bool() ? malloc(1) : 0;
  g.k = g.set = g.prop = g.props = g.args = g.region = g.list = g.quitcopy = g.err = 0; g.type = 0;
  g_n = nondet_int(); g_f = nondet_int();
  ASSUME(g_n >= 1 && (g_f & TRAX_FLAG_VALID) && !(g_f & TRAX_FLAG_SERVER));
#ifdef BOUNDED
  ASSUME(g_n <= 3);
#endif
  c.flags = g_f; c.objects = g_n; c.stream = g_stream; c.version = nondet_int(); c.error = 0; c.metadata = 0; c.logging.callback = 0;
  g_c = &c;
  trax_object_list *o = (trax_object_list*) g_R;
  int ver = c.version;
  int r = trax_client_wait(&c, &o, (trax_properties*) g_user);
  ENSURE(!g.props && !g.args && !g.region, "what was used is released");
  ENSURE(c.objects == g_n && c.stream == g_stream && c.version == ver, "the session is kept");
  if (g_f & TRAX_FLAG_TERMINATED) {
    ENSURE(r == TRAX_ERROR && g.k == 0 && o == 0 && !g.list && c.flags == g_f && g.err == 1, "waiting fails without reading when the session is over");
    REACH("over");
  } else {
    ENSURE(r == TRAX_STATE || r == TRAX_QUIT || r == TRAX_ERROR, "state, quit or error");
    if (r == TRAX_STATE) {
      ENSURE(g.k == g_n && g.set == g_n && g.prop == g_n && o == g_l && g.list && c.flags == g_f, "one state for each object, in order");
      REACH("state"); if (g_n > 5) REACH("states");
    } else {
      ENSURE(o == 0 && !g.list, "no objects without states");
      if (r == TRAX_QUIT) {
        ENSURE(g.type == TRAX_QUIT && c.flags == (g_f | TRAX_FLAG_TERMINATED) && g.quitcopy == (g_user != 0), "the session is over after quit");
        REACH("quit"); if (g.k > 3) REACH("late quit");
      } else { ENSURE(c.flags == g_f && g.type != 0, "the session goes on after an error"); REACH("error"); }
    }
  }
}
