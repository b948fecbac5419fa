//@ source src/message.c
//@ function write_message __output_properties
//@ stub write_buffer write_buffer_escaped
//@ loop write_message 0 of 1 : LC_WM
//@ ghost write_message 0 : __CPROVER_assume(g_args[g_ai] == g_X + g_ai);
//@ assume write_buffer and write_buffer_escaped are replaced by their contracts (units write_buffer, write_escaped); output succeeds
//@ assume trax_properties_enumerate calls the callback once per pair (unit strmap_enum)
//@ assume strlen returns the length of the string
//@ cbmc --unwind 20
//@ fallback --unwind 22
//@@prelude
enum { A_PREFIX, A_WORD, A_GAP, A_OPEN, A_EQ, A_VAL, A_CLOSE, A_SPACE, A_DONE };
extern int g_st, g_k, g_type, g_ai, g_pi, g_len, g_n;
extern char *g_last, *g_key, *g_val, *g_X; extern char **g_args;
#define LC_WM __CPROVER_assigns(i, g_st, g_ai, g_len, g_last, g_k, g_pi) \
  __CPROVER_loop_invariant(0 <= i && i <= g_n && g_st == A_GAP && g_ai == i && g_pi == 0) __CPROVER_decreases(g_n - i)
//@@harness
int g_st, g_k, g_type, g_ai, g_pi, g_len, g_n, g_m;
char *g_last, *g_key, *g_val, *g_X; char **g_args;

static const char *word(void) {
  return g_type == TRAX_HELLO ? "hello" : g_type == TRAX_INITIALIZE ? "initialize" : g_type == TRAX_FRAME ? "frame"
       : g_type == TRAX_STATE ? "state" : "quit";
}
#define OBJ __CPROVER_POINTER_OBJECT
static _Bool abstract(const char *p) { return OBJ(p) == OBJ(g_X) || OBJ(p) == OBJ(g_key) || OBJ(p) == OBJ(g_val); }

size_t strlen(const char *s) {
  if (abstract(s)) {
    if (g_last != s) { g_last = (char*) s; g_len = nondet_int(); ASSUME(g_len >= 0); }
    return g_len;
  }
  if (!s[0]) return 0; if (!s[1]) return 1; if (!s[2]) return 2; if (!s[3]) return 3; if (!s[4]) return 4;
  if (!s[5]) return 5; if (!s[6]) return 6; if (!s[7]) return 7; if (!s[8]) return 8; if (!s[9]) return 9;
  if (!s[10]) return 10; if (!s[11]) return 11;
  ENSURE(0, "only short literals besides names and values");
  return 12;
}

static void step(char c) {
  switch (g_st) {
  case A_PREFIX: ENSURE(g_k < 7 && c == "@@TRAX:"[g_k], "message starts with the prefix"); if (++g_k == 7) { g_st = A_WORD; g_k = 0; } break;
  case A_WORD: {
    const char *w = word();
    if (w[g_k]) { ENSURE(c == w[g_k], "the prefix is followed by the type name"); g_k++; }
    else { ENSURE(c == ' ', "the type name is followed by a space"); g_st = A_GAP; }
    break; }
  case A_GAP: ENSURE(c == '"' || c == '\n' || c == ' ', "arguments are quoted"); g_st = c == '"' ? A_OPEN : c == '\n' ? A_DONE : A_GAP; break;
  case A_OPEN: ENSURE(c == '"' && g_ai < g_n && g_last == g_X + g_ai && g_len == 0, "an argument is not skipped"); g_ai++; g_st = A_SPACE; break;
  case A_EQ: ENSURE(c == '=', "a name is followed by ="); g_st = A_VAL; break;
  case A_VAL: ENSURE(c == '"' && g_last == g_val && g_len == 0, "a value is not skipped"); g_pi++; g_st = A_SPACE; break;
  case A_CLOSE: ENSURE(c == '"', "an argument is closed by a quote"); g_st = A_SPACE; break;
  case A_SPACE: ENSURE(c == ' ', "arguments are separated by a space"); g_st = A_GAP; break;
  default: ENSURE(0, "nothing is written behind the end of the message");
  }
}

int write_buffer(message_stream* stream, const char* buf, int len, trax_logging* log) {
  if (abstract(buf)) {
    ENSURE(g_st == A_OPEN && buf == g_key && g_last == buf && len == g_len, "only names are written unescaped");
    g_st = A_EQ;
    return 1;
  }
  ENSURE(len <= 11, "only short literals besides names and values");
  if (len > 0) step(buf[0]); if (len > 1) step(buf[1]); if (len > 2) step(buf[2]); if (len > 3) step(buf[3]);
  if (len > 4) step(buf[4]); if (len > 5) step(buf[5]); if (len > 6) step(buf[6]); if (len > 7) step(buf[7]);
  if (len > 8) step(buf[8]); if (len > 9) step(buf[9]); if (len > 10) step(buf[10]);
  return 1;
}

int write_buffer_escaped(message_stream* stream, const char* buf, int len, trax_logging* log) {
  ENSURE(abstract(buf) && g_last == buf && len == g_len, "the whole argument or value is written");
  if (g_st == A_VAL) { ENSURE(buf == g_val, "the value belongs to the name"); g_pi++; }
  else { ENSURE(g_st == A_OPEN && g_ai < g_n && buf == g_X + g_ai, "arguments are written in order"); g_ai++; }
  g_last = g_X + 134217727;
  g_st = A_CLOSE;
  return 1;
}

void trax_properties_enumerate(const trax_properties* properties, trax_enumerator f, const void* obj) {
  ENSURE(g_st == A_GAP && g_ai == g_n, "positional arguments come before named ones");
  int k = 0;
  while (k < g_m)
    __CPROVER_assigns(k, g_st, g_pi, g_ai, g_len, g_last, g_k)
    __CPROVER_loop_invariant(0 <= k && k <= g_m && g_st == A_GAP && g_pi == k && g_ai == g_n)
    __CPROVER_decreases(g_m - k)
  {
    f(g_key, g_val, obj);
    ENSURE(g_pi == k + 1 && g_st == A_GAP, "one named value is written per pair");
    g_last = g_X + 134217727;
    k++;
  }
}

int main(void) {
  message_stream *s = malloc(sizeof *s);
  s->flags = nondet_bool() ? TRAX_STREAM_FILES : TRAX_STREAM_SOCKET;
  g_type = nondet_int();
  ASSUME(g_type == TRAX_HELLO || g_type == TRAX_INITIALIZE || g_type == TRAX_FRAME || g_type == TRAX_STATE || g_type == TRAX_QUIT);
  string_list *l = nondet_bool() ? malloc(sizeof *l) : 0;
  g_n = 0;
  g_X = malloc(1);
  g_key = malloc(1); g_val = malloc(1);
  if (l) { g_n = nondet_int(); ASSUME(g_n >= 0 && g_n <= 1 << 26); l->position = g_n; l->size = g_n; l->buffer = g_args = malloc(sizeof(char*) * g_n); }
  g_m = nondet_int(); ASSUME(g_m >= 0);
  trax_properties *p = nondet_bool() ? malloc(8) : 0;
  if (!p) g_m = 0;
#ifdef BOUNDED
  ASSUME(g_n <= 3 && g_m <= 3);
  for (int j = 0; j < g_n; j++) g_args[j] = g_X + j;
#endif
  g_st = A_PREFIX; g_k = g_ai = g_pi = 0; g_last = g_X + 134217727;
  write_message(s, 0, g_type, l, p);
  ENSURE(g_st == A_DONE, "the message ends with a newline");
  ENSURE(g_ai == g_n && g_pi == g_m, "all arguments and named values are written");
  if (g_n > 2 && g_m > 2) REACH("write_message with arguments and properties");
}
