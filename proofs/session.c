//@ source src/trax.c
//@ function trax_terminate trax_cleanup trax_is_alive trax_get_error trax_get_parameter trax_set_parameter clear_error trax_metadata_release trax_metadata_create
//@ stub write_message list_create list_destroy trax_properties_create trax_properties_release trax_properties_set destroy_message_stream
//@ assume message, list and property functions are replaced by their contracts (units write_message, string_list, properties); malloc and strdup succeed
//@ cases 3
//@ fallback --unwind 4
//@ cbmc --unwind 4
//@ timeout 100
//@@prelude
#define free g_free
#define strdup g_strdup
//@@harness
static int g_quits, g_list, g_props, g_set, g_destroyed, g_fe, g_fh, g_fm, g_fn, g_custom, g_dup;
static trax_handle *g_h; static char *g_args, *g_tmp, *g_reason, *g_err, *g_cust, *g_n[3], *g_d; static void *g_stream; static trax_metadata *g_m;
char *g_strdup(const char *s) { int k = g_dup++; ENSURE(s != 0, "there is a text"); return (char*) s + 1; }
void g_free(void *p) {
  if (!p) return;
  if (p == g_err && g_err && !g_fe) g_fe = 1;
  else if (p == g_m) { ENSURE(!g_fm && g_custom, "the metadata is released once, behind what it holds"); g_fm = 1; }
  else if (p == g_h) { ENSURE(!g_fh && g_fm && g_destroyed == 1 && (g_fe || !g_err), "the handle is released last"); g_fh = 1; }
  else { ENSURE((p == g_n[0] && !(g_fn & 1)) || (p == g_n[1] && !(g_fn & 2)) || (p == g_n[2] && !(g_fn & 4)), "names are released once"); g_fn |= p == g_n[0] ? 1 : p == g_n[1] ? 2 : 4; }
}
string_list *list_create(int n) { ENSURE(!g_list && n > 0, "one list"); g_list = 1; return (string_list*) g_args; }
void list_destroy(string_list **l) { ENSURE(*l == (string_list*) g_args && g_list, "the arguments are released once"); g_list = 0; *l = 0; }
trax_properties *trax_properties_create() { ENSURE(!g_props, "one set of properties"); g_props = 1; return (trax_properties*) g_tmp; }
void trax_properties_release(trax_properties **p) {
  if ((char*) *p == g_cust) { ENSURE(!g_custom, "the properties of the metadata are released once"); g_custom = 1; }
  else { ENSURE((char*) *p == g_tmp && g_props, "the properties are released once"); g_props = 0; }
  *p = 0;
}
static int eq(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
void trax_properties_set(trax_properties *p, const char *k, const char *v) {
  ENSURE((char*) p == g_tmp && g_props && v == g_reason && g_reason, "the reason is passed on");
  ENSURE(k[0] == 't' && k[5] == 'r' && k[6] == 'e' && k[7] == 'a' && k[8] == 's' && k[9] == 'o' && k[10] == 'n' && k[11] == 0 && k[4] == '.', "under the name trax.reason");
  g_set++;
}
void destroy_message_stream(message_stream **s) { ENSURE((void*) *s == g_stream && !g_destroyed, "the stream is closed once"); g_destroyed++; *s = 0; }
void write_message(message_stream *s, trax_logging *log, int type, const string_list *a, trax_properties *p) {
  ENSURE((void*) s == g_stream && !g_destroyed && log == &g_h->logging, "the message goes to the open stream of the session");
  ENSURE(type == TRAX_QUIT && (char*) a == g_args && g_list && (char*) p == g_tmp && g_props && g_set == (g_reason != 0), "a quit message with the reason");
  g_quits++;
}
int main(void) {
  g_quits = g_list = g_props = g_set = g_destroyed = g_fe = g_fh = g_fm = g_fn = g_custom = g_dup = 0;
  trax_handle *h = malloc(sizeof *h); trax_metadata *m = malloc(sizeof *m);
  message_stream *st = malloc(sizeof *st);
  g_h = h; g_m = m; g_stream = st; g_args = malloc(sizeof(string_list)); g_tmp = malloc(1); g_cust = malloc(1);
  ((string_list*) g_args)->position = 0;
  g_reason = nondet_bool() ? malloc(1) : 0; g_err = nondet_bool() ? malloc(1) : 0;
  for (int k = 0; k < 3; k++) g_n[k] = nondet_bool() ? malloc(1) : 0;
  h->flags = nondet_int(); h->version = nondet_int(); h->objects = nondet_int(); h->stream = g_stream; h->metadata = m; h->error = g_err; h->logging.callback = 0;
  ASSUME(h->flags & TRAX_FLAG_VALID);
  m->flags = nondet_int(); m->tracker_name = g_n[0]; m->tracker_description = g_n[1]; m->tracker_family = g_n[2]; m->custom = (trax_properties*) g_cust;
  st->flags = nondet_int();
  int fl = h->flags, dead = (fl & TRAX_FLAG_TERMINATED) != 0;
#if CASE == 0
  ENSURE(!trax_is_alive(h) == dead && trax_get_error(h) == g_err, "whether the session is alive");
  int r = trax_terminate(h, g_reason);
  ENSURE(r == TRAX_OK && g_quits == !dead && h->flags == (fl | TRAX_FLAG_TERMINATED), "quit is sent once, if the session was alive");
  ENSURE(h->error == 0 && g_fe == (g_err != 0) && !g_list && !g_props && !g_destroyed, "what was used is released");
  ENSURE(!trax_is_alive(h), "the session is over");
  trax_terminate(h, g_reason);
  ENSURE(g_quits == !dead && h->flags == (fl | TRAX_FLAG_TERMINATED), "quit is not sent again");
  g_reason = 0; g_err = 0;
  ENSURE(trax_cleanup(&h) == 0 && g_quits == !dead, "nor when the session is released");
  if (dead) REACH("terminate over"); else REACH("terminate");
#elif CASE == 1
  g_reason = 0;
  int r = trax_cleanup(&h);
  ENSURE(r == 0 && h == 0 && g_quits == !dead && g_destroyed == 1 && g_fh && g_fm && g_fe == (g_err != 0), "quit is sent if needed and everything is released");
  ENSURE(g_fn == ((g_n[0] ? 1 : 0) | (g_n[1] ? 2 : 0) | (g_n[2] ? 4 : 0)) && g_custom == 1 && !g_list && !g_props, "everything is released");
  ENSURE(trax_cleanup(&h) == -1 && g_quits == !dead, "nothing happens the second time");
  if (dead) REACH("cleanup over"); else REACH("cleanup");
#else
  int v = 77, id = nondet_int();
  int r = trax_get_parameter(h, id, &v);
  if (dead) { ENSURE(r == TRAX_ERROR && v == 77, "no parameters when the session is over"); REACH("parameters over"); }
  else {
    if (id == TRAX_PARAMETER_VERSION) ENSURE(r == 1 && v == h->version, "the version of the protocol");
    else if (id == TRAX_PARAMETER_CLIENT) ENSURE(r == 1 && v == !(fl & TRAX_FLAG_SERVER), "client or server");
    else if (id == TRAX_PARAMETER_SOCKET) ENSURE(r == 1 && v == ((st->flags & TRAX_STREAM_SOCKET) != 0), "socket or files");
    else if (id == TRAX_PARAMETER_MULTIOBJECT) ENSURE(r == 1 && v == ((m->flags & TRAX_METADATA_MULTI_OBJECT) != 0), "whether several objects are supported");
    else ENSURE(r == 0 && v == 77, "unknown parameters");
    REACH("parameters");
  }
  ENSURE(h->flags == fl && g_quits == 0, "reading parameters changes nothing");
  int fr = nondet_int(), fi = nondet_int(), ch = nondet_int(), mf = nondet_int();
  ASSUME(ch != 0);
  trax_metadata *c = trax_metadata_create(fr, fi, ch, g_n[0], g_n[1], g_n[2], mf);
  ENSURE(c->format_region == fr && c->format_image == fi && c->channels == ch && c->flags == mf && (char*) c->custom == g_tmp && g_props, "the metadata holds what it was made of");
  ENSURE(c->tracker_name == (g_n[0] ? g_n[0] + 1 : 0) && c->tracker_description == (g_n[1] ? g_n[1] + 1 : 0) && c->tracker_family == (g_n[2] ? g_n[2] + 1 : 0), "with copies of the names");
  REACH("metadata");
#endif
}
