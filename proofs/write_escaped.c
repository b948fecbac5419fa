//@ source src/message.c
//@ function write_buffer_escaped
//@ stub write_buffer
//@ loop write_buffer_escaped 0 of 1 : LC_WE
//@ assume write_buffer is replaced by its contract (discharged in unit write_buffer): on success the bytes are appended to the output
//@ fallback --unwind 7
//@@prelude
/* The stub decodes what is written: g_k characters of the text have been written, g_pend: a backslash is pending. */
extern int g_k, g_pend, g_p, g_len; extern const char *g_b;
#define SP(c) ((c) == '"' || (c) == '\\' || (c) == '\n')
#define LC_WE __CPROVER_assigns(i, j, g_k, g_pend) \
  __CPROVER_loop_invariant(0 <= j && j <= i && i <= len && g_k == j && g_pend == ((j < i && SP(buf[j])) ? 1 : 0) \
    && (j < i ==> buf[j] != '\n') && ((j < g_p && g_p < i) ==> !SP(buf[g_p]))) \
  __CPROVER_decreases(len - i)
//@@harness
int g_k, g_pend, g_p, g_len; const char *g_b;

static void step(char c) {
  if (g_pend) {
    ENSURE(g_k < g_len && g_b[g_k] == (c == 'n' ? '\n' : c), "an escape sequence stands for the next character of the text");
    g_k++; g_pend = 0;
  } else if (c == '\\') g_pend = 1;
  else { ENSURE(c != '"' && c != '\n' && g_k < g_len && g_b[g_k] == c, "a plain character stands for itself"); g_k++; }
}

int write_buffer(message_stream* stream, const char* buf, int len, trax_logging* log) {
  if (len < 1) return 1;
  __CPROVER_assert(__CPROVER_r_ok(buf, len), "CONTRACT write_buffer gets readable data");
  if (nondet_bool()) return -1;
  if (__CPROVER_same_object(buf, g_b)) {
    ENSURE(buf == g_b + g_k, "the text is written in order, nothing twice, nothing left out");
    ENSURE(!g_pend || buf[0] != '\n', "a newline is never written raw");
    ENSURE(!g_pend || buf[0] != 'n', "a letter n is never written behind an escape");
    ENSURE(!(g_p >= g_k && g_p < g_k + len) || !SP(g_b[g_p]) || (g_p == g_k && g_pend), "special characters are escaped");
    g_k += len;
    g_pend = 0;
  } else {
    ENSURE(len <= 4, "only short literals are written besides the text itself");
    step(buf[0]);
    if (len > 1) step(buf[1]);
    if (len > 2) step(buf[2]);
    if (len > 3) step(buf[3]);
  }
  return 1;
}

int main(void) {
  message_stream *s = malloc(sizeof *s);
  int len = nondet_int();
  ASSUME(len >= 0 && len < 2147483647);
#ifdef BOUNDED
  ASSUME(len <= 5);
#endif
  char *b = malloc((size_t) len + 1);
  g_b = b; g_len = len; g_k = 0; g_pend = 0;
  g_p = nondet_int();
  ASSUME(g_p >= 0 && (g_p < len || len == 0));
  int r = write_buffer_escaped(s, b, len, 0);
  ENSURE(r == 1 || r == -1, "write_buffer_escaped reports success or failure");
  if (r == 1) {
    ENSURE(g_k == len && !g_pend, "the whole text is written");
    REACH("escaped success");
    if (len > 3 && b[1] == '\n' && b[2] == '"') REACH("escaped newline");
  } else REACH("escaped failure");
}
