//@ source src/trax.c
//@ function trax_server_wait_sot trax_server_wait_mot trax_image_list_count
//@ stub read_message list_create list_destroy trax_properties_create trax_properties_release trax_object_list_create trax_object_list_set trax_object_list_properties copy_properties region_parse trax_region_release image_decode trax_image_release trax_image_list_create trax_image_list_release set_error clear_error
//@ loop trax_server_wait_mot 0 of 5 : LC_READ
//@ ghost trax_server_wait_mot 0 : SAME(object_regions, (trax_region**) g_rr) SAME(object_properties, (trax_properties**) g_pp)
//@ loop trax_server_wait_mot 1 of 5 : LC_IMG
//@ ghost trax_server_wait_mot 1 : SAME(*images, g_il)
//@ loop trax_server_wait_mot 3 of 5 : LC_FAIL
//@ loop trax_server_wait_mot 4 of 5 : LC_END
//@ assume message, list, image, property and region functions are replaced by their contracts (units read_message, string_list, image_decode, properties, lists, region_parse); *images and *region are NULL when the call is made, as in the documentation; malloc and realloc succeed; less than 2^27 messages in one call
//@ cases 2
//@ fallback --unwind 6
//@ cbmc --unwind 24
//@ timeout 200
//@@prelude
#define set_error(h, ...) g_set_error(h)
#define free g_free
#define malloc g_malloc
#define realloc g_realloc
struct gs { int k, type, n, props, args, il, img, ch, cp, reg, regrel, prel, crel, set, copy, list, user, err, clear, mal, reset, empty, capr, capp, parsed, fr, fp, tmp; };
extern struct gs g; extern int g_w, g_o, g_f, g_ch, g_pre; extern char *g_args, *g_rr, *g_pp, *g_R, *g_P, *g_I, *g_tmp, *g_cur; extern struct trax_image_list *g_il; extern struct trax_object_list *g_ol;
#define LC_READ __CPROVER_assigns(object_regions, object_properties, object_capacity, object_count, tmp_properties, arguments, result, i, j, *images, server->flags, server->objects, g, __CPROVER_object_whole(g_args), __CPROVER_object_whole(g_rr), __CPROVER_object_whole(g_pp), __CPROVER_object_whole(g_il), g_cur) \
  __CPROVER_loop_invariant(0 <= object_count && object_count == g.parsed && object_count == g.cp && object_count <= 1 << 27 && object_count <= object_capacity && object_capacity < 1 << 28 && object_capacity == g.capr && object_capacity == g.capp) \
  __CPROVER_loop_invariant(object_regions == (struct trax_region**) g_rr && object_properties == (struct trax_properties**) g_pp) \
  __CPROVER_loop_invariant(j == 0 && *images == 0 && server->flags == g_f && server->objects == (g.reset ? 0 : g_o) && g.parsed <= g.k && g.k <= 1 << 27) \
  __CPROVER_loop_invariant(!g.args && !g.props && !g.il && !g.img && !g.ch && !g.user && !g.err && !g.set && !g.copy && !g.list && !g.regrel && !g.prel && !g.crel && g.mal == 2 && !g.fr && !g.fp && g.clear == 1) \
  __CPROVER_loop_invariant(result == (g.k == 0 ? -1 : 2) && IMP(g.k > 0, g.type == 2) && IMP(!g.reset, g.parsed == g.k)) \
  __CPROVER_loop_invariant(IMP(g_w < object_count, (char*) object_regions[g_w] == g_R + g_w && (char*) object_properties[g_w] == g_P + g_w))
#define LC_IMG __CPROVER_assigns(i, j, *images, g.ch, g.img, __CPROVER_object_whole(g_il), g_cur) \
  __CPROVER_loop_invariant(0 <= i && i <= 3 && j == CNT(g_ch & ((1 << i) - 1)) && g.img == j && 0 <= g.ch && g.ch <= i && (g_ch & ((1 << i) - 1)) >> g.ch == 0 && g.il && *images == g_il && g.n == CNT(g_ch) && g.type == 3) \
  __CPROVER_loop_invariant(IMGS(i) && SUP(0, i) && SUP(1, i) && SUP(2, i)) __CPROVER_decreases(3 - i)
#define SUP(k, i) IMP((k) < (i) && (g_ch >> (k) & 1), (server->metadata->format_image & ((struct trax_image*) (g_I + 64 * (k)))->type) != 0)
#define CNT(m) (((m) & 1) + ((m) >> 1 & 1) + ((m) >> 2 & 1))
#define IM1(k, i) ((char*) g_il->images[k] == ((k) < (i) && (g_ch >> (k) & 1) ? g_I + 64 * (k) : (char*) 0))
#define IMGS(i) (IM1(0, i) && IM1(1, i) && IM1(2, i))
#define LC_FAIL __CPROVER_assigns(i, g.regrel, g.prel, __CPROVER_object_whole(g_rr), __CPROVER_object_whole(g_pp)) \
  __CPROVER_loop_invariant(0 <= i && i <= object_count && object_count == g.parsed && g.regrel == i && g.prel == i) \
  __CPROVER_loop_invariant(IMP(g_w >= i && g_w < object_count, (char*) object_regions[g_w] == g_R + g_w && (char*) object_properties[g_w] == g_P + g_w)) __CPROVER_decreases(object_count - i)
#define LC_END __CPROVER_assigns(i, g.regrel, g.prel, g.set, g.copy, __CPROVER_object_whole(g_rr), __CPROVER_object_whole(g_pp)) \
  __CPROVER_loop_invariant(0 <= i && i <= object_count && object_count == g.parsed && g.regrel == i && g.prel == i && g.set == i && g.copy == i && *objects == g_ol) \
  __CPROVER_loop_invariant(IMP(g_w >= i && g_w < object_count, (char*) object_regions[g_w] == g_R + g_w && (char*) object_properties[g_w] == g_P + g_w)) __CPROVER_decreases(object_count - i)
//@@harness
#undef malloc
void *malloc(__SIZE_TYPE__);
struct gs g; int g_w, g_o, g_f, g_ch, g_pre; char *g_args, *g_rr, *g_pp, *g_R, *g_P, *g_I, *g_tmp, *g_cur; trax_image_list *g_il; trax_object_list *g_ol;
static char *g_text, *g_user, *g_D; static char **g_buf; static trax_handle *g_s; static void *g_stream; static int g_sot;
enum { CAP = 1 << 28 };
void *g_malloc(size_t n) {
  ENSURE(!g_sot && n >= sizeof(void*) && g.mal < 2, "the two arrays for new objects");
  if (g.mal++ == 0) { g.capr = n / sizeof(void*); return g_rr; }
  g.capp = n / sizeof(void*);
  return g_pp;
}
/* the arrays stay where they are and keep their contents; the room that was asked for is recorded */
void *g_realloc(void *p, size_t n) {
  ENSURE(p == g_rr || p == g_pp, "the arrays for new objects grow");
  if (p == g_rr) { ENSURE(n / sizeof(void*) > g.capr, "growing"); g.capr = n / sizeof(void*); } else { ENSURE(n / sizeof(void*) > g.capp, "growing"); g.capp = n / sizeof(void*); }
  return p;
}
void g_free(void *p) { if (p == g_rr && !g.fr) g.fr = 1; else { ENSURE(p == g_pp && !g.fp, "the arrays are released once"); g.fp = 1; } }
string_list *list_create(int n) { ENSURE(!g.args && n > 0, "one list of arguments at a time"); g.args = 1; return (string_list*) g_args; }
void list_destroy(string_list **l) { ENSURE(*l == (string_list*) g_args && g.args, "the arguments are released once"); g.args = 0; *l = 0; }
trax_properties *trax_properties_create() {
  if (!g.props) { g.props = 1; return (trax_properties*) g_tmp; }
  ENSURE(g.cp == g.parsed - 1 && g.type == TRAX_INITIALIZE, "a set of properties for each object");
  g.cp++;
  return (trax_properties*) (g_P + g.cp - 1);
}
void trax_properties_release(trax_properties **p) {
  if (__CPROVER_same_object(p, g_pp)) {
    ENSURE((char*) p == g_pp + sizeof(void*) * g.prel && IMP(g.prel == g_w, (char*) *p == g_P + g_w), "the properties of each object are released once"); g.prel++;
  } else { ENSURE(*p == (trax_properties*) g_tmp && g.props, "the properties are released once"); g.props = 0; }
  *p = 0;
}
void copy_properties(const trax_properties *s, trax_properties *d, int flags) {
  ENSURE((flags & COPY_ALL) && (flags & COPY_OVERWRITE), "all properties are passed on");
  if (!g.list) {
    ENSURE(g.props && (char*) s == g_tmp, "the properties of the message");
    if (!g_sot && g.type == TRAX_INITIALIZE) ENSURE((char*) d == g_P + g.parsed - 1, "the properties of initialize go to its object");
    else { ENSURE((char*) d == g_user && g_user && !g.user, "the properties of the message go to the caller"); g.user++; }
  } else {
    ENSURE(!g_sot && IMP(g.copy == g_w, (char*) s == g_P + g_w) && (char*) d == g_D + g.copy && g.prel == g.copy, "the properties of each object go to its place in the list");
    g.copy++;
  }
}
int region_parse(const char *t, region_container **r) {
  ENSURE(g.args && g.type == TRAX_INITIALIZE && g.n >= 1 && t == g_text + g.n - 1, "the last argument of initialize is the region");
  if (g_sot) { if (nondet_bool()) return 0; g.parsed++; *r = (region_container*) g_R; return 1; }
  ENSURE((char*) r == g_rr + sizeof(void*) * g.parsed && g.parsed < g.capr && g.parsed < g.capp && g.cp == g.parsed, "there is room for the region of the object");
  if (nondet_bool()) return 0;
  *r = (region_container*) (g_R + g.parsed);
  g.parsed++;
  return 1;
}
void trax_region_release(trax_region **r) {
  if (g_sot) { ENSURE((char*) *r == g_R && g.parsed == 1 && !g.regrel, "the region is released once"); g.regrel = 1; }
  else { ENSURE((char*) r == g_rr + sizeof(void*) * g.regrel && IMP(g.regrel == g_w, (char*) *r == g_R + g_w), "the region of each object is released once"); g.regrel++; }
  *r = 0;
}
trax_object_list *trax_object_list_create(int n) { ENSURE(!g_sot && n == g.parsed && n > 0 && !g.list, "a list of the objects"); g.list = 1; return g_ol; }
void trax_object_list_set(trax_object_list *l, int i, trax_region *r) { ENSURE(l == g_ol && i == g.set && IMP(i == g_w, (char*) r == g_R + g_w) && g.regrel == i, "each object gets its region"); g.set++; }
trax_properties *trax_object_list_properties(trax_object_list *l, int i) { ENSURE(l == g_ol && i >= 0 && i < g.parsed, "an object of the list"); return (trax_properties*) (g_D + i); }
trax_image_list *trax_image_list_create() { ENSURE(!g.il, "one list of images"); g.il = 1; g_il->images[0] = g_il->images[1] = g_il->images[2] = 0; return g_il; }
void trax_image_list_release(trax_image_list **l) { ENSURE(*l == g_il && g.il && g.img == g.crel, "the list of images is released once, behind the images"); g.il = 0; *l = 0; }
trax_image *image_decode(char *t) {
  int c = g_ch >> g.ch & 1 ? g.ch : g_ch >> (g.ch + 1) & 1 ? g.ch + 1 : g_ch >> (g.ch + 2) & 1 ? g.ch + 2 : 3;
  ENSURE(c < 3 && t == g_text + CNT(g_ch & ((1 << c) - 1)) && t < g_text + g.n && g.args, "the images of the required channels come in order");
  g.ch = c + 1;
  if (nondet_bool()) return 0;
  trax_image *im = (trax_image*) (g_I + 64 * c);
  g.img++;
  return im;
}
void trax_image_release(trax_image **im) { ENSURE(*im && (char*) *im >= g_I && g.crel < g.img, "every image is released once"); g.crel++; *im = 0; }
void g_set_error(trax_handle *h) { ENSURE(h == g_s, "the error belongs to the session"); g.err++; }
void clear_error(trax_handle *h) { ENSURE(h == g_s, "the error belongs to the session"); g.clear++; }
int read_message(message_stream *s, trax_logging *log, string_list *a, trax_properties *p) {
  ENSURE(s == g_stream && log == &g_s->logging && (char*) a == g_args && g.args && (char*) p == g_tmp && g.props, "messages are read from the stream of the server");
  ENSURE(!(g_s->flags & TRAX_FLAG_TERMINATED), "nothing is read when the session is over");
  ENSURE(g.k == 0 || (!g_sot && g.type == TRAX_INITIALIZE), "reading goes on behind initialize only");
  ASSUME(g.k < 1 << 27);
#ifdef BOUNDED
  ASSUME(g.k < 4);
#endif
  g.k++;
  g.type = nondet_int(); g.n = nondet_int();
  ASSUME(g.type >= TRAX_ERROR && g.type <= TRAX_STATE && g.type != TRAX_OK && g.n >= 0);
  if (g.type == TRAX_INITIALIZE && g.n == 0 && !g_sot) g.reset = 1;
  a->buffer = g_buf; a->position = g.n; a->size = g.n > 8 ? g.n : 8;
  return g.type;
}
int main(void) {
  trax_handle s; trax_metadata m; trax_image_list *il = 0; trax_region *rg = 0; trax_object_list *ol = (trax_object_list*) &s;
  g.k = g.type = g.n = g.props = g.args = g.il = g.img = g.ch = g.cp = g.reg = g.regrel = g.prel = g.crel = g.set = g.copy = g.list = g.user = g.err = g.clear = g.mal = g.reset = g.empty = g.capr = g.capp = g.parsed = g.fr = g.fp = g.tmp = 0;
  g_args = malloc(sizeof(string_list)); g_buf = malloc(8 * sizeof(char*)); g_text = malloc(8); g_I = malloc(3 * 64); g_R = malloc(1); g_P = malloc(1); g_D = malloc(1); g_tmp = malloc(1); g_stream = malloc(1); g_ol = malloc(1); g_user = nondet_bool() ? malloc(1) : 0; g_il = malloc(sizeof *g_il);
  for (int k = 0; k < 8; k++) g_buf[k] = g_text + k;
  size_t room = nondet_size();
  ASSUME(room >= CAP && room < CAP + 1000);
#ifdef BOUNDED
  room = 16;
#endif
  g_rr = malloc(room * sizeof(void*)); g_pp = malloc(room * sizeof(void*));
  g_w = nondet_int(); g_o = nondet_int(); g_f = nondet_int(); g_ch = nondet_int();
  ASSUME(g_w >= 0 && g_o >= 0 && g_o < 1 << 28 && (g_f & TRAX_FLAG_VALID) && (g_f & TRAX_FLAG_SERVER) && g_ch > 0 && g_ch < 8);
  s.flags = g_f; s.objects = g_o; s.metadata = &m; s.stream = g_stream; s.version = nondet_int(); s.error = 0; s.logging.callback = 0;
  m.channels = g_ch; m.format_image = nondet_int();
  g_s = &s;
  for (int k = 0; k < 3; k++) ((trax_image*) (g_I + 64 * k))->type = 1 << (nondet_uint() & 3);
  int sup = 1, nc = CNT(g_ch), ver = s.version, r, dead = g_f & TRAX_FLAG_TERMINATED;
  for (int k = 0; k < 3; k++) if ((g_ch >> k & 1) && !(m.format_image & ((trax_image*) (g_I + 64 * k))->type)) sup = 0;
#if CASE == 0
  g_sot = 1;
  r = trax_server_wait_sot(&s, &il, &rg, (trax_properties*) g_user);
  ENSURE(IMP(dead || ver >= 4, r == TRAX_ERROR && g.k == 0 && g.err == 1 && il == 0 && rg == 0 && s.flags == g_f && s.objects == g_o), "waiting fails without reading when the session is over or has several objects");
  if (dead) REACH("over");
  if (!dead && ver < 4) ENSURE(g.k == 1, "one message is read");
  if (r == TRAX_INITIALIZE) { ENSURE(rg == (trax_region*) g_R && g.regrel == 0 && s.objects == 1 && g.n == nc + 1, "initialize gives the region"); REACH("initialize"); }
  else ENSURE(rg == 0 && g.regrel == g.parsed && s.objects == g_o, "no region without initialize");
#else
  g_sot = 0;
#ifdef BOUNDED
  ASSUME(g_w < 16);
#endif
  r = trax_server_wait_mot(&s, &il, &ol, (trax_properties*) g_user);
  ENSURE(g.fr && g.fp && g.regrel == g.parsed && g.prel == g.parsed, "the arrays and what they hold are released");
  if (dead) { ENSURE(r == TRAX_ERROR && g.k == 0 && g.err == 1 && il == 0 && ol == 0 && s.flags == g_f && s.objects == g_o, "waiting fails without reading when the session is over"); REACH("over"); }
  else {
    ENSURE(g.k >= 1, "a message is read");
    if (r == TRAX_INITIALIZE) { ENSURE(g.parsed > 0 && (g_o == 0 || g.reset), "objects for a session that has none"); REACH("initialize"); }
    if (r == TRAX_FRAME) { ENSURE(IMP(g.parsed > 0, g_o > 0 && !g.reset) && IMP(g.reset, g_o >= 0), "a frame, maybe with more objects"); REACH("frame"); }
    if (r == TRAX_INITIALIZE || r == TRAX_FRAME) {
      ENSURE((ol == g_ol) == (g.parsed > 0) && (ol == 0) == (g.parsed == 0) && g.set == g.parsed && g.copy == g.parsed, "the objects of all initialize messages, in order");
      ENSURE(s.objects == (g.reset ? 0 : g_o) + g.parsed, "the objects are counted");
      if (g.parsed > 12) REACH("many"); if (g.reset) REACH("reset");
    }
    if (r == TRAX_ERROR) ENSURE(ol == 0 && s.objects == (g.reset ? 0 : g_o), "no objects after an error");
  }
#endif
  ENSURE(r == TRAX_INITIALIZE || r == TRAX_FRAME || r == TRAX_QUIT || r == TRAX_ERROR, "initialize, frame, quit or error");
  if (r == TRAX_INITIALIZE || r == TRAX_FRAME) {
    ENSURE(il == g_il && g.il && IMGS(3) && g.img == nc && g.crel == 0, "the images of the required channels");
    ENSURE(sup, "the images have a format that the server supports");
    ENSURE(g.user == (g_user != 0), "the properties go to the caller");
    ENSURE(s.flags == g_f && g.type == (CASE == 0 ? r : TRAX_FRAME), "the session goes on");
  } else {
    ENSURE(il == 0 && !g.il && g.crel == g.img, "no images without frame");
    if (r == TRAX_QUIT) { ENSURE(g.type == TRAX_QUIT && g.n == 0 && s.flags == (g_f | TRAX_FLAG_TERMINATED) && g.user == (g_user != 0), "the session is over after quit"); REACH("quit"); }
    else { ENSURE(s.flags == g_f, "the session goes on after an error"); if (g.k && g.type == TRAX_QUIT) REACH("bad quit"); if (g.img) REACH("bad image"); }
  }
  ENSURE(!g.props && !g.args && s.stream == g_stream && s.version == ver && s.metadata == &m, "what was used is released");
}
