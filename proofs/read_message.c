//@ source src/message.c
//@ function read_message
//@ stub read_character buffer_push buffer_reset buffer_extract list_reset list_append list_append_direct __is_valid_key __parse_message_type
//@ macros PARSE_STATE_\w+
//@ loop read_message 0 of 1 : LC_RM
//@ assume read_character delivers the bytes of the stream one by one (unit read_character)
//@ assume buffer_push/reset/extract, list_append/reset, __is_valid_key, __parse_message_type, trax_properties_set/clear are replaced by their contracts (units buffer_*, list_*, is_valid_key, message_type, strmap_*)
//@ assume isalnum is the C locale's; items hold no NUL byte and are shorter than 2 GiB; a stream is finite
//@ fallback --unwind 15
//@@prelude
#define free g_free
enum { P_PRE, P_PASS, P_TYPE, P_SP, P_AQ, P_QK, P_QKE, P_QV, P_QVE, P_UK, P_UKE, P_UV, P_UVE, P_DONE, P_EOF };
struct ghost {
  int ph, lp, type, budget;
  _Bool doom, ok;                    /* doom: the line is going to be malformed; ok: key so far is a valid name */
  int klen, vlen; unsigned char kw, vw;       /* item being generated: lengths and witness bytes */
  unsigned na, np;                             /* arguments and named values generated in this message */
  int a_len; unsigned char a_w;                /* generated witness argument */
  int pk_len, pv_len; unsigned char pk_w, pv_w;/* generated witness named value */
  unsigned char sk_w, sv_w;                    /* what the code stored in its buffers */
  unsigned sl, sp;                             /* what the code stored in list and map */
  int sa_len; unsigned char sa_w;
  int spk_len, spv_len; unsigned char spk_w, spv_w;
  _Bool livek, livev; int xk_len, xv_len; unsigned char xk_w, xv_w; /* extracted copies */
  unsigned emitted, logged; unsigned char last;
  int plen; _Bool pok;                         /* key before the byte just generated */
};
extern struct ghost g;
extern unsigned g_wi, g_wp; extern int g_wb;
extern struct message_stream *g_s;
#define IN(s) ((s)->input)
#define CODE(p, st) (g.ph == p ==> IN(g_s).state == st)
#define KEYEQ (g_kb->position == g.klen && (g.klen > g_wb ==> g.sk_w == g.kw))
#define VALEQ (g_vb->position == g.vlen && (g.vlen > g_wb ==> g.sv_w == g.vw))
#define LC_RM __CPROVER_assigns(g, stream->input.state, stream->input.message_type, stream->input.complete, g_kb->position, g_vb->position) \
  __CPROVER_loop_invariant(g.ph >= P_PRE && g.ph <= P_EOF && g.lp >= 0 && g.lp < 7 && g.budget >= 0) \
  __CPROVER_loop_invariant((g.ph == P_PRE ==> IN(g_s).state == g.lp - 7) && CODE(P_PASS, PARSE_STATE_PASS) && CODE(P_TYPE, PARSE_STATE_TYPE) && CODE(P_SP, PARSE_STATE_SPACE)) \
  __CPROVER_loop_invariant(CODE(P_AQ, PARSE_STATE_SPACE_EXPECT) && CODE(P_QK, PARSE_STATE_QUOTED_KEY) && CODE(P_QKE, PARSE_STATE_QUOTED_ESCAPE_KEY) && CODE(P_QV, PARSE_STATE_QUOTED_VALUE) && CODE(P_QVE, PARSE_STATE_QUOTED_ESCAPE_VALUE)) \
  __CPROVER_loop_invariant(CODE(P_UK, PARSE_STATE_UNQUOTED_KEY) && CODE(P_UKE, PARSE_STATE_UNQUOTED_ESCAPE_KEY) && CODE(P_UV, PARSE_STATE_UNQUOTED_VALUE) && CODE(P_UVE, PARSE_STATE_UNQUOTED_ESCAPE_VALUE)) \
  __CPROVER_loop_invariant(IN(g_s).message_type == (g.ph <= P_TYPE || g.ph == P_EOF ? -1 : g.type) && (IN(g_s).complete != 0) == (g.ph == P_DONE) && g.ph != P_EOF) \
  __CPROVER_loop_invariant(g.type >= 1 && g.type <= 5 || g.ph <= P_TYPE || g.ph == P_EOF) \
  __CPROVER_loop_invariant(g.klen >= 0 && g.vlen >= 0 && g_kb->position >= 0 && g_vb->position >= 0) \
  __CPROVER_loop_invariant(g.ph == P_TYPE || g.ph >= P_QK && g.ph <= P_UVE ==> KEYEQ) \
  __CPROVER_loop_invariant(g.ph >= P_QK && g.ph <= P_UVE ==> VALEQ) \
  __CPROVER_loop_invariant(g.ph >= P_TYPE ==> g.sl == g.na && g.sp == g.np) \
  __CPROVER_loop_invariant(g.ph >= P_TYPE && g.na > g_wi ==> g.sa_len == g.a_len && (g.a_len > g_wb ==> g.sa_w == g.a_w)) \
  __CPROVER_loop_invariant(g.ph >= P_TYPE && g.np > g_wp ==> g.spk_len == g.pk_len && g.spv_len == g.pv_len && (g.pk_len > g_wb ==> g.spk_w == g.pk_w) && (g.pv_len > g_wb ==> g.spv_w == g.pv_w)) \
  __CPROVER_loop_invariant(!g.livek && !g.livev && g.logged == g.emitted) \
  __CPROVER_loop_invariant(g.ph == P_DONE ==> !g.doom) \
  __CPROVER_decreases(g.budget)
extern struct string_buffer *g_kb, *g_vb;
//@@harness
struct ghost g; unsigned g_wi, g_wp; int g_wb; message_stream *g_s; string_buffer *g_kb, *g_vb;
static string_list *g_l; static trax_properties *g_p;
static char snapk, snapv, kdata, vdata;
static _Bool g_log;

int isalnum(int c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'; }

static void item_key(unsigned char c) {
  ASSUME(c != 0 && g.klen < 2147483647);
  if (g.klen == g_wb) g.kw = c;
  g.klen++;
  g.ok = g.ok && (isalnum(c) || c == '.' || c == '_');
}
static void item_val(unsigned char c) { ASSUME(c != 0 && g.vlen < 2147483647); if (g.vlen == g_wb) g.vw = c; g.vlen++; }
static void item_start(void) { g.klen = g.vlen = 0; g.ok = 1; }
static void item_arg(void) { if (g.na == g_wi) { g.a_len = g.klen; g.a_w = g.kw; } g.na++; }
static void item_prop(void) {
  if (g.np == g_wp) { g.pk_len = g.klen; g.pk_w = g.kw; g.pv_len = g.vlen; g.pv_w = g.vw; }
  g.np++;
}
static void line(void) { g.ph = P_PRE; g.lp = 0; }
static void malformed(unsigned char c) { ASSUME(g.doom); if (c == '\n') line(); else g.ph = P_PASS; }
static void finish(void) { ASSUME(!g.doom); g.ph = P_DONE; }

/* The generator: any sequence of lines that are not messages (noise, or malformed messages), then one message. */
static int generate(void) {
  unsigned char c = nondet_uchar();
  g.plen = g.klen; g.pok = g.ok;
  switch (g.ph) {
  case P_PRE:
    if (nondet_bool()) { g.ph = P_EOF; return -1; }
    if (c == "@@TRAX:"[g.lp]) {
      if (++g.lp == 7) { g.ph = P_TYPE; g.lp = 0; g.doom = nondet_bool(); g.na = g.np = 0; item_start(); }
    } else if (c == '\n') line();
    else g.ph = P_PASS;
    break;
  case P_PASS:
    if (nondet_bool()) { g.ph = P_EOF; return -1; }
    if (c == '\n') line();
    break;
  case P_TYPE:
    if (isalnum(c)) item_key(c);
    else if (c != ' ' && c != '\n') malformed(c);
    else {
      g.type = nondet_int();
      ASSUME(g.type == -1 || g.type >= 1 && g.type <= 5);
      if (g.type == -1) malformed(c); else if (c == ' ') g.ph = P_SP; else finish();
    }
    break;
  case P_SP:
    if (c == '\n') finish();
    else if (c == '"') { g.ph = P_QK; item_start(); }
    else if (c != ' ' && c != '\r') { ASSUME(c != '=' && c != '\\'); g.ph = P_UK; item_start(); item_key(c); }
    break;
  case P_AQ:
    if (c == ' ') g.ph = P_SP; else if (c == '\n') finish(); else malformed(c);
    break;
  case P_QK:
    if (c == '\\') g.ph = P_QKE;
    else if (c == '"') { item_arg(); g.ph = P_AQ; }
    else if (c == '=' && g.ok && g.klen <= 64) g.ph = P_QV;
    else item_key(c);
    break;
  case P_QKE: if (c == '\n') malformed(c); else { item_key(c == 'n' ? '\n' : c); g.ph = P_QK; } break;
  case P_QV:
    if (c == '\\') g.ph = P_QVE;
    else if (c == '"') { item_prop(); g.ph = P_AQ; }
    else item_val(c);
    break;
  case P_QVE: if (c == '\n') malformed(c); else { item_val(c == 'n' ? '\n' : c); g.ph = P_QV; } break;
  case P_UK:
    if (c == '\\') g.ph = P_UKE;
    else if (c == ' ') { item_arg(); g.ph = P_SP; }
    else if (c == '\n') { item_arg(); finish(); }
    else if (c == '=' && g.ok && g.klen <= 64) g.ph = P_UV;
    else item_key(c);
    break;
  case P_UKE: if (c == '\n') malformed(c); else { item_key(c == 'n' ? '\n' : c); g.ph = P_UK; } break;
  case P_UV:
    if (c == '\\') g.ph = P_UVE;
    else if (c == ' ') { item_prop(); g.ph = P_SP; }
    else if (c == '\n') { item_prop(); finish(); }
    else item_val(c);
    break;
  case P_UVE: if (c == '\n') malformed(c); else { item_val(c == 'n' ? '\n' : c); g.ph = P_UV; } break;
  default: ENSURE(0, "nothing is read behind the end of the message");
  }
  return c;
}

int read_character(message_stream *stream) {
  ENSURE(stream == g_s, "the stream handed over is read");
  ENSURE(g_log ? g.logged == g.emitted : 1, "every byte read is logged once");
  ASSUME(g.budget > 0);
  g.budget--;
  int c = generate();
  if (c >= 0) { g.emitted++; g.last = c; if (!g_log) g.logged = g.emitted; }
  return c;
}

static void logger(const char *s, int n, void *data) {
  if (!s) return;
  ENSURE(n == 1 && (unsigned char) *s == g.last && g.logged + 1 == g.emitted, "the log gets the byte that was read");
  g.logged++;
}

static _Bool isk(const string_buffer *B) { ENSURE(B == g_kb || B == g_vb, "the stream's own buffers are used"); return B == g_kb; }
void buffer_push(string_buffer *B, char C) {
  _Bool k = isk(B);
  ASSUME(B->position < 2147483647);
  if (B->position == g_wb) { if (k) g.sk_w = C; else g.sv_w = C; }
  B->position++;
}
void buffer_reset(string_buffer *B) { isk(B); B->position = 0; }
char *buffer_extract(const string_buffer *B) {
  if (isk(B)) { ENSURE(!g.livek, "copies are released"); g.livek = 1; g.xk_len = B->position; g.xk_w = g.sk_w; return &snapk; }
  ENSURE(!g.livev, "copies are released"); g.livev = 1; g.xv_len = B->position; g.xv_w = g.sv_w; return &snapv;
}
void g_free(void *p) {
  ENSURE(p == &snapk && g.livek || p == &snapv && g.livev, "only live copies are released");
  if (p == &snapk) g.livek = 0; else g.livev = 0;
}
static void append(string_list *l, char *s) {
  ENSURE(l == g_l && s == &snapk && g.livek, "a copied key is stored in the list handed over");
  if (g.sl == g_wi) { g.sa_len = g.xk_len; g.sa_w = g.xk_w; }
  g.sl++;
}
void list_append(string_list *l, char *s) { append(l, s); }
void list_append_direct(string_list *l, char *s) { append(l, s); g.livek = 0; }
void list_reset(string_list *l) { ENSURE(l == g_l, "list"); g.sl = 0; }
void trax_properties_clear(trax_properties *p) { ENSURE(p == g_p, "map"); g.sp = 0; }
void trax_properties_set(trax_properties *p, const char *k, const char *v) {
  ENSURE(p == g_p && k == &snapk && g.livek && v == &snapv && g.livev, "a copied name and value are stored in the map handed over");
  if (g.sp == g_wp) { g.spk_len = g.xk_len; g.spk_w = g.xk_w; g.spv_len = g.xv_len; g.spv_w = g.xv_w; }
  g.sp++;
}
int __is_valid_key(char *c, int len) {
  ENSURE(c == &kdata && len == g.plen && len == g_kb->position, "the name read so far is checked");
  return g.pok && len <= 64;
}
int __parse_message_type(const char *s) {
  ENSURE(s == &snapk && g.livek && g.xk_len == g.klen && (g.klen > g_wb ==> g.xk_w == g.kw), "the type word read so far is looked up");
  return g.type;
}

int main(void) {
  message_stream *s = malloc(sizeof *s);
  s->flags = nondet_bool() ? TRAX_STREAM_FILES : TRAX_STREAM_SOCKET;
  g_s = s;
  s->input.key_buffer = g_kb = malloc(sizeof(string_buffer));
  s->input.value_buffer = g_vb = malloc(sizeof(string_buffer));
  g_kb->buffer = &kdata; g_vb->buffer = &vdata;
  ASSUME(g_kb->position >= 0 && g_vb->position >= 0);
  s->input.state = -7; s->input.complete = 0;            /* as left by the constructors and by a previous call */
  g_l = malloc(sizeof(string_list)); g_p = malloc(8);
  g_wi = nondet_uint(); g_wp = nondet_uint(); g_wb = nondet_int(); ASSUME(g_wb >= 0);
  struct ghost fresh;
  g = fresh;
  line();
  ASSUME(g.budget >= 0);
  g.livek = g.livev = 0; g.emitted = g.logged = 0; g.na = g.np = 0; g.type = 0; g.klen = g.vlen = 0; g.doom = 0;
#ifdef BOUNDED
  ASSUME(g.budget <= 13);
#endif
  g_log = nondet_bool();
  trax_logging log = { 0, g_log ? logger : (trax_logger) 0, 0 };
  int r = read_message(s, &log, g_l, g_p);
  ENSURE(s->input.state == -7 && !s->input.complete, "the next call starts afresh");
  ENSURE(!g.livek && !g.livev, "no copies are left behind");
  ENSURE(g.logged == g.emitted, "every byte read is logged");
  if (g.ph == P_EOF) { ENSURE(r == -1, "the end of the stream is reported"); REACH("read_message eof"); }
  else {
    ENSURE(g.ph == P_DONE && r == g.type, "the type of the message is reported");
    ENSURE(g.sl == g.na && g.sp == g.np, "number of arguments and named values");
    if (g_wi < g.na) ENSURE(g.sa_len == g.a_len && (g_wb < g.a_len ==> g.sa_w == g.a_w), "argument content");
    if (g_wp < g.np) ENSURE(g.spk_len == g.pk_len && (g_wb < g.pk_len ==> g.spk_w == g.pk_w) && g.spv_len == g.pv_len && (g_wb < g.pv_len ==> g.spv_w == g.pv_w), "named value content");
    if (g.na > 3 && g.np > 3) REACH("read_message many items");
  }
}
