//@ source src/trax.c
//@ function client_setup server_setup trax_metadata_create trax_client_setup_file trax_server_setup_file_v
//@ stub read_message write_message create_message_stream_file list_create list_destroy trax_properties_create trax_properties_copy trax_properties_release trax_properties_set trax_properties_set_int trax_properties_get trax_properties_get_int copy_properties image_formats_encode region_formats_encode channels_encode image_formats_decode region_formats_decode channels_decode
//@ assume message, list, property and format functions are replaced by their contracts (units write_message, read_message, strmap, typed, formats, formats_any); malloc and strdup succeed
//@ nodfcc
//@ cases 2
//@ cbmc --unwind 18
//@ fallback --unwind 18
//@ timeout 100
//@@prelude
#define free g_free
#define strdup g_strdup
//@@harness
/* the property set of the hello message, by name: 0 version 1 region 2 image 3 channels 4 name 5 description 6 family 7 multiobject */
static int g_has[8], g_int[8], g_msk[8], g_set, g_args, g_tmp, g_sent, g_read, g_type, g_n, g_ext, g_live, g_md, g_pr, g_srv, g_bad, g_fail, g_once; static char *g_list, *g_p, *g_cust, *g_cc, *g_txt[4], *g_nm[3], *g_dup, *g_val; static void *g_stream;
static int key(const char *k) {
  ENSURE(k[0] == 't' && k[1] == 'r' && k[2] == 'a' && k[3] == 'x' && k[4] == '.', "reserved names");
  if (k[5] == 'v' && k[11] == 'n' && !k[12]) return 0;
  if (k[5] == 'r' && k[6] == 'e' && k[10] == 'n' && !k[11]) return 1;
  if (k[5] == 'i' && k[9] == 'e' && !k[10]) return 2;
  if (k[5] == 'c' && k[6] == 'h' && k[12] == 's' && !k[13]) return 3;
  if (k[5] == 'n' && k[8] == 'e' && !k[9]) return 4;
  if (k[5] == 'd' && k[15] == 'n' && !k[16]) return 5;
  if (k[5] == 'f' && k[10] == 'y' && !k[11]) return 6;
  ENSURE(k[5] == 'm' && k[15] == 't' && !k[16], "a known name");
  return 7;
}
/* texts of values are g_val + key while they are alive */
void g_free(void *p) { if (!p) return; if (!__CPROVER_same_object(p, g_val)) { ENSURE(!g_srv && g_fail && !g_once, "the handle of a failed setup is released once"); g_once = 1; return; } ENSURE( (g_live >> ((char*) p - g_val) & 1), "values are released once"); g_live &= ~(1 << ((char*) p - g_val)); }
char *g_strdup(const char *s) { if (g_srv) { ENSURE(s == g_nm[0] || s == g_nm[1] || s == g_nm[2], "names are copied"); return s == g_nm[0] ? g_dup : s == g_nm[1] ? g_dup + 1 : g_dup + 2; } ENSURE(s >= g_val + 4 && s < g_val + 7 && (g_live >> (s - g_val) & 1), "names are copied"); return g_dup + (s - g_val) - 4; }
string_list *list_create(int n) { ENSURE(!g_args && n > 0, "one list"); g_args = 1; ((string_list*) g_list)->position = 0; return (string_list*) g_list; }
void list_destroy(string_list **l) { ENSURE((char*) *l == g_list && g_args, "the arguments are released once"); g_args = 0; *l = 0; }
static int g_creates;
trax_properties *trax_properties_create() { if (!g_tmp && g_creates == 0) { g_creates = 1; g_tmp = 1; return (trax_properties*) g_p; } ENSURE(g_creates < 2, "one more set for the metadata"); g_creates = 2; return (trax_properties*) g_cc; }
trax_properties *trax_properties_copy(const trax_properties *p) { ENSURE((char*) p == g_cust && g_creates == 0 && !g_tmp, "the properties of the metadata are sent along"); g_creates = 1; g_tmp = 1; g_ext = 1; return (trax_properties*) g_p; }
void trax_properties_release(trax_properties **p) { ENSURE((char*) *p == g_p && g_tmp, "the properties are released once"); g_tmp = 0; *p = 0; }
void trax_properties_set(trax_properties *p, const char *k, const char *v) {
  int i = key(k);
  ENSURE((char*) p == g_p && g_tmp && !g_sent, "set in the hello message");
  if (i >= 1 && i <= 3) ENSURE(v == g_txt[i] && v, "the text of the formats");
  else { ENSURE(i >= 4 && i <= 6 && v == g_nm[i - 4] && v, "the names"); }
  g_has[i] = 1;
}
void trax_properties_set_int(trax_properties *p, const char *k, int v) { int i = key(k); ENSURE((char*) p == g_p && g_tmp && !g_sent && (i == 0 || i == 7), "version and mode are numbers"); g_has[i] = 1; g_int[i] = v; }
static void enc(int i, int f, char *t) { ENSURE(__CPROVER_w_ok(t, 64), "room for the names of the formats"); for (int j = 1; j <= 3; j++) if (g_txt[j] == t) g_txt[j] = 0; g_msk[i] = f; g_txt[i] = t; }
void region_formats_encode(int f, char *t) { enc(1, f & TRAX_REGION_ANY, t); }
void image_formats_encode(int f, char *t) { enc(2, f & TRAX_IMAGE_ANY, t); }
void channels_encode(int f, char *t) { enc(3, f & 7, t); }
void write_message(message_stream *s, trax_logging *log, int type, const string_list *a, trax_properties *p) {
  ENSURE((void*) s == g_stream && type == TRAX_HELLO && (char*) a == g_list && g_args && a->position == 0 && (char*) p == g_p && g_tmp && !g_sent, "one hello message without arguments");
  ENSURE(g_has[0] && g_has[1] && g_has[2] && g_has[3], "with version and formats");
  g_sent = 1;
}
message_stream *create_message_stream_file(int in, int out) { ENSURE(in == 11 && out == 12, "the descriptors of the caller"); return (message_stream*) g_stream; }
int read_message(message_stream *s, trax_logging *log, string_list *a, trax_properties *p) {
  ENSURE((void*) s == g_stream && (char*) a == g_list && g_args && (char*) p == g_p && g_tmp && !g_read, "one message is read");
  g_read = 1;
  a->position = g_n;
  return g_type;
}
char *trax_properties_get(const trax_properties *p, const char *k) {
  int i = key(k);
  ENSURE((char*) p == g_p && g_tmp && g_read, "values of the hello message");
  if (!g_has[i]) return 0;
  ENSURE(!(g_live >> i & 1), "one copy at a time");
  g_live |= 1 << i;
  return g_val + i;
}
int trax_properties_get_int(const trax_properties *p, const char *k, int def) { int i = key(k); ENSURE((char*) p == g_p && g_tmp && g_read, "values of the hello message"); return g_has[i] ? g_int[i] : def; }
static int dec(int i, char *t) { ENSURE(t == g_val + i && (g_live >> i & 1), "the text of the formats"); return g_msk[i]; }
int region_formats_decode(char *t) { return dec(1, t); }
int image_formats_decode(char *t) { return dec(2, t); }
int channels_decode(char *t) { return dec(3, t); }
void copy_properties(const trax_properties *s, trax_properties *d, int flags) { ENSURE((char*) s == g_p && g_tmp && (char*) d == g_cc && !(flags & COPY_ALL), "the other properties go to the metadata"); g_ext++; }
int main(void) {
  for (int i = 0; i < 8; i++) g_has[i] = g_int[i] = g_msk[i] = 0;
  for (int i = 0; i < 4; i++) g_txt[i] = 0;
  g_set = g_args = g_tmp = g_sent = g_read = g_ext = g_live = g_creates = g_fail = g_once = 0;
  g_list = malloc(sizeof(string_list)); g_p = malloc(1); g_cust = malloc(1); g_cc = malloc(1); g_dup = malloc(3); g_val = malloc(8); g_stream = malloc(1);
  trax_logging log; log.callback = 0; log.data = g_dup; log.flags = 5;
#if CASE == 0
  g_srv = 1;
  trax_metadata m;
  m.format_region = nondet_int(); m.format_image = nondet_int(); m.channels = nondet_int(); m.flags = nondet_int();
  ASSUME(m.channels != 0);
  for (int k = 0; k < 3; k++) g_nm[k] = nondet_bool() ? malloc(1) : 0;
  m.tracker_name = g_nm[0]; m.tracker_description = g_nm[1]; m.tracker_family = g_nm[2];
  m.custom = nondet_bool() ? (trax_properties*) g_cust : 0;
  int v = nondet_int();
  ASSUME(v <= TRAX_VERSION);
  trax_handle *h = trax_server_setup_file_v(&m, 11, 12, log, v);
  int ver = v < 1 ? TRAX_VERSION : v, multi = ver >= 4 && (m.flags & TRAX_METADATA_MULTI_OBJECT);
  ENSURE(h && g_sent && !g_args && !g_tmp, "hello is sent once");
  ENSURE(h->flags == (TRAX_FLAG_VALID | TRAX_FLAG_SERVER) && h->version == ver && h->objects == 0 && h->error == 0 && h->stream == g_stream && h->logging.data == log.data && h->logging.flags == 5, "a session of a server");
  ENSURE(g_int[0] == ver && g_msk[1] == (m.format_region & TRAX_REGION_ANY) && g_msk[2] == (m.format_image & TRAX_IMAGE_ANY) && g_msk[3] == (m.channels & 7), "version, formats and channels are announced");
  for (int k = 0; k < 3; k++) ENSURE(g_has[4 + k] == (g_nm[k] != 0), "the names are announced");
  ENSURE(g_has[7] == (multi != 0) && IMP(g_has[7], g_int[7] == 1), "several objects are announced from version 4 on");
  ENSURE(g_ext == (m.custom != 0), "with the properties of the metadata");
  ENSURE(h->metadata->format_region == m.format_region && h->metadata->format_image == m.format_image && h->metadata->channels == m.channels && (h->metadata->flags != 0) == (multi != 0), "the session has the capabilities");
  ENSURE(h->metadata->tracker_name == (g_nm[0] ? g_dup : 0) && h->metadata->tracker_description == (g_nm[1] ? g_dup + 1 : 0) && h->metadata->tracker_family == (g_nm[2] ? g_dup + 2 : 0), "and the names");
  REACH("server"); if (multi) REACH("multi");
#else
  g_srv = 0;
  g_type = nondet_int(); g_n = nondet_int();
  ASSUME(g_type >= TRAX_ERROR && g_type <= TRAX_STATE && g_type != TRAX_OK && g_n >= 0);
  for (int i = 0; i < 8; i++) { g_has[i] = nondet_int() & 1; g_int[i] = nondet_int(); g_msk[i] = nondet_int(); ASSUME(g_msk[i] >= -1 && g_msk[i] <= (i == 1 ? TRAX_REGION_ANY : i == 2 ? TRAX_IMAGE_ANY : 7)); }
  int ver = g_has[0] ? g_int[0] : 1;
  g_fail = g_type != TRAX_HELLO || g_n > 0 || (g_has[1] && g_msk[1] < 0) || (g_has[2] && g_msk[2] < 0) || (ver >= 2 && g_has[3] && g_msk[3] < 0);
  int expect = g_fail;
  trax_handle *h = trax_client_setup_file(11, 12, log);
  ENSURE(g_read == 1 && !g_args && !g_tmp && g_live == 0 && !g_sent, "one message is read, what was used is released");
  ENSURE((h == 0) == (expect != 0), "the setup fails exactly if the hello message is missing or names unknown formats");
  if (h) {
    trax_metadata *m = h->metadata;
    ENSURE(h->flags == TRAX_FLAG_VALID && h->version == ver && h->objects == 0 && h->error == 0 && h->stream == g_stream && h->logging.data == log.data, "a session of a client");
    ENSURE(m->format_region == (g_has[1] ? g_msk[1] : TRAX_REGION_RECTANGLE) && m->format_image == (g_has[2] ? g_msk[2] : TRAX_IMAGE_PATH), "the formats that are announced");
    ENSURE(m->channels == (ver >= 2 && g_has[3] && g_msk[3] > 0 ? g_msk[3] : TRAX_CHANNEL_COLOR), "the channels that are announced");
    ENSURE((m->flags & TRAX_METADATA_MULTI_OBJECT) == (ver > 3 && g_has[7] && g_int[7] ? TRAX_METADATA_MULTI_OBJECT : 0), "several objects if announced, from version 4 on");
    ENSURE(m->tracker_name == (g_has[4] ? g_dup : 0) && m->tracker_description == (g_has[5] ? g_dup + 1 : 0) && m->tracker_family == (g_has[6] ? g_dup + 2 : 0), "the names");
    ENSURE(g_ext == 1, "other properties are kept");
    REACH("client"); if (m->flags) REACH("multi");
  } else { REACH("refused"); }
#endif
}
