//@ source src/trax.c
//@ function trax_client_initialize trax_client_frame region_autoconvert clear_error
//@ stub write_message list_create list_append list_append_direct list_destroy image_encode region_string region_convert trax_region_release trax_object_list_get trax_object_list_properties trax_object_list_count set_error
//@ loop trax_client_frame 0 of 2 : LC_OBJ
//@ assume message, list, image and region functions are replaced by their contracts (units write_message, string_list, lists, image_encode, region_string, region_convert); the tracker names at least one region format and channel; objects are rectangles, polygons or masks and regions of these types convert into each other; only protocol version 4 has several objects; less than 2^30 objects
//@ cases 2
//@ fallback --unwind 6
//@ cbmc --unwind 5
//@ timeout 150
//@@prelude
#define set_error(h, ...) g_set_error(h)
#define free g_free
struct gs { int inits, frames, resets, list, n, kind, ch, str, conv, cur, err, errfree; };
extern struct gs g; extern int g_n, g_o; extern char *g_rc, *g_cv;
#define LC_OBJ __CPROVER_assigns(i, g, __CPROVER_object_whole(g_rc), __CPROVER_object_whole(g_cv)) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && g.inits == i && !g.list && !g.str && !g.conv && !g.frames && client->objects == g_o) \
  __CPROVER_loop_invariant(!g.err && g.errfree == __CPROVER_loop_entry(g.errfree) && g.resets == __CPROVER_loop_entry(g.resets)) __CPROVER_decreases(g_n - i)
//@@harness
struct gs g; int g_n, g_o; char *g_rc, *g_cv;
static trax_handle *g_c; static trax_image_list *g_im; static trax_object_list *g_ol; static char *g_args, *g_str, *g_R, *g_P, *g_I, *g_user, *g_er; static void *g_stream; static int g_ver, g_init, g_obj0;
void g_free(void *p) {
  if (p == g_er && g_er) g.errfree++;
  else { ENSURE(p == g_str && g.str, "the text of the region is released once"); g.str = 0; }
}
static int chans(int m) { return (m & 1) + (m >> 1 & 1) + (m >> 2 & 1); }
string_list *list_create(int n) { ENSURE(!g.list && n > 0, "one list of arguments at a time"); g.list = 1; g.n = g.kind = g.ch = 0; return (string_list*) g_args; }
void list_destroy(string_list **l) { ENSURE(*l == (string_list*) g_args && g.list, "the arguments are released once"); g.list = 0; *l = 0; }
/* kind: 0 no region yet, 1 region added */
void list_append(string_list *l, char *s) { ENSURE(l == (string_list*) g_args && g.list && s == g_str && g.str && !g.kind, "one region is added to the arguments"); g.kind = 1; g.n++; }
void list_append_direct(string_list *l, char *s) { ENSURE(l == (string_list*) g_args && g.list && s == g_I + g.ch - 1 && !g.kind, "the images are added to the arguments in front of the region"); g.n++; }
char *image_encode(trax_image *im) {
  while (g.ch < 3 && !(g_c->metadata->channels >> g.ch & 1)) g.ch++;
  ENSURE(g.ch < 3 && im && im == g_im->images[g.ch], "the images of the required channels are sent in order");
  g.ch++;
  return g_I + g.ch - 1;
}
trax_region *trax_object_list_get(trax_object_list *l, int i) {
  ENSURE(l == g_ol && i >= 0 && i < g_n, "an object of the list");
  g.cur = i;
  ((region_container*) g_rc)->type = nondet_bool() ? RECTANGLE : nondet_bool() ? POLYGON : MASK;
  return (trax_region*) g_rc;
}
trax_properties *trax_object_list_properties(trax_object_list *l, int i) { ENSURE(l == g_ol && i >= 0 && i < g_n, "an object of the list"); return (trax_properties*) (g_P + i); }
int trax_object_list_count(const trax_object_list *l) { ENSURE(l == g_ol, "the list of the caller"); return g_n; }
static int ty(int t) { return t == RECTANGLE ? TRAX_REGION_RECTANGLE : t == POLYGON ? TRAX_REGION_POLYGON : t == MASK ? TRAX_REGION_MASK : 0; }
region_container *region_convert(const region_container *r, region_type t) {
  ENSURE((char*) r == g_rc && !g.conv, "the region of the object is converted");
  g.conv = 1; ((region_container*) g_cv)->type = t;
  return (region_container*) g_cv;
}
void trax_region_release(trax_region **r) { ENSURE((char*) *r == g_cv && g.conv, "the converted region is released once"); g.conv = 0; *r = 0; }
char *region_string(region_container *r) {
  ENSURE(!g.str, "one text at a time");
  ENSURE(((char*) r == g_rc && !g.conv) || ((char*) r == g_cv && g.conv), "the region of the object is sent");
  ENSURE((ty(r->type) & g_c->metadata->format_region) != 0, "regions are sent in a format that the tracker supports");
  g.str = 1;
  return g_str;
}
void g_set_error(trax_handle *h) { ENSURE(h == g_c, "the error belongs to the session"); g.err++; }
void write_message(message_stream *s, trax_logging *log, int type, const string_list *a, trax_properties *p) {
  ENSURE(s == g_stream && log == &g_c->logging, "messages go to the stream of the client");
  ENSURE(!(g_c->flags & TRAX_FLAG_TERMINATED), "nothing is sent when the session is over");
  ENSURE(g.frames == 0 && g.err == 0, "the frame is the last message");
  if (!a) {
    ENSURE(type == TRAX_INITIALIZE && g_init && g_ver >= 4 && g_obj0 > 0 && !g.resets && !g.inits && !p, "an empty initialize comes first and only when there are objects");
    g.resets++;
    return;
  }
  ENSURE((char*) a == g_args && g.list, "the arguments of this message");
  if (type == TRAX_FRAME) {
    ENSURE(!g.kind && g.n == chans(g_c->metadata->channels) && g.str == 0 && (char*) p == g_user, "a frame has one image for each channel and the properties of the caller");
    g.frames++;
  } else {
    ENSURE(type == TRAX_INITIALIZE && g.kind == 1, "initialize has a region");
    if (g_ver >= 4) { ENSURE(g.n == 1 && g.cur == g.inits && (char*) p == g_P + g.inits, "initialize has the region and the properties of the next object"); }
    else { ENSURE(g.n == 1 + chans(g_c->metadata->channels) && g.cur == 0 && (char*) p == g_user, "initialize has one image for each channel, the region and the properties of the caller"); }
    g.inits++;
  }
}
int main(void) {
  trax_handle c; trax_metadata m; trax_image_list im;
  g.inits = g.frames = g.resets = g.list = g.n = g.kind = g.ch = g.str = g.conv = g.cur = g.err = g.errfree = 0;
  g_rc = malloc(sizeof(region_container)); g_cv = malloc(sizeof(region_container));
  g_args = malloc(1); g_str = malloc(1); g_R = malloc(1); g_P = malloc(1); g_I = malloc(4); g_stream = malloc(1); g_ol = malloc(1); g_user = nondet_bool() ? malloc(1) : 0;
  g_er = nondet_bool() ? malloc(1) : 0;
  c.error = g_er; c.stream = g_stream; c.metadata = &m; c.logging.callback = 0;
  c.flags = nondet_int(); c.version = nondet_int(); c.objects = nondet_int();
  ASSUME((c.flags & TRAX_FLAG_VALID) && !(c.flags & TRAX_FLAG_SERVER) && c.objects >= 0 && c.objects < 1 << 30);
  m.format_region = nondet_int(); m.channels = nondet_int(); m.flags = nondet_int(); m.format_image = nondet_int();
  ASSUME((m.format_region & TRAX_REGION_ANY) && m.channels > 0 && m.channels < 8 && IMP(m.flags & TRAX_METADATA_MULTI_OBJECT, c.version >= 4));
  for (int k = 0; k < 3; k++) im.images[k] = nondet_bool() ? malloc(sizeof(trax_image)) : 0;
  int miss = 0;
  for (int k = 0; k < 3; k++) if ((m.channels >> k & 1) && !im.images[k]) miss = 1;
  g_n = nondet_int();
  ASSUME(g_n >= 0 && g_n < 1 << 30);
#ifdef BOUNDED
  ASSUME(g_n <= 3);
#endif
  g_c = &c; g_im = &im; g_ver = c.version; g_obj0 = c.objects;
  int fl = c.flags, multi = m.flags & TRAX_METADATA_MULTI_OBJECT, r;
  int dead = fl & TRAX_FLAG_TERMINATED;
#if CASE == 0
  g_init = 1; g_o = 0;
  r = trax_client_initialize(&c, &im, g_ol, (trax_properties*) g_user);
  int bad = dead || g_n < 1 || (!multi && g_n > 1) || miss;
  if (!bad) {
    if (g_ver >= 4) { ENSURE(g.resets == (g_obj0 > 0) && g.inits == g_n && g.frames == 1 && c.objects == g_n, "one initialize for each object and then one frame"); REACH("initialize"); if (g_n > 4) REACH("objects"); if (g_obj0) REACH("again"); }
    else { ENSURE(g.inits == 1 && g.frames == 0 && g.resets == 0 && c.objects == 1, "one initialize message"); REACH("legacy"); }
  }
#else
  g_init = 0; g_o = g_obj0;
  trax_object_list *ol = nondet_bool() ? g_ol : 0;
  if (!ol) g_n = 0;
  r = trax_client_frame(&c, &im, ol, (trax_properties*) g_user);
  int bad = dead || (g_ver >= 4 ? !multi && g_obj0 + g_n > 1 : g_n > 0) || miss;
  if (!bad) {
    ENSURE(g.inits == g_n && g.frames == 1 && g.resets == 0 && c.objects == g_obj0 + g_n, "one initialize for each new object and then one frame");
    REACH("frame"); if (g_n > 4) REACH("objects"); if (g_ver < 4) REACH("legacy");
  }
#endif
  if (bad) {
    ENSURE(r == TRAX_ERROR && g.inits == 0 && g.frames == 0 && g.resets == 0 && c.objects == g_obj0, "a call that fails sends nothing and changes nothing");
    ENSURE(g.err >= 1, "there is a description of the error");
    if (miss) REACH("missing"); if (dead) REACH("over"); if (!dead && !miss) REACH("mode");
  } else ENSURE(r == TRAX_OK && g.err == 0 && c.error == 0, "success");
  ENSURE(!g.list && !g.str && !g.conv && g.errfree == (g_er != 0), "what was used is released");
  ENSURE(c.flags == fl && c.version == g_ver && c.stream == g_stream && c.metadata == &m, "the session is kept");
}
