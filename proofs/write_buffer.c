//@ source src/message.c
//@ function write_buffer
//@ loop write_buffer 0 of 2 : LC_WB
//@ loop write_buffer 1 of 2 : LC_WB
//@ assume write(2)/send(2): -1, or the length of a prefix of the buffer handed over (any split of the data, zero only transiently)
//@ fallback --unwind 8
//@@prelude
extern int g_pos, g_w, g_wv, g_fd, g_log_n, g_log_w, g_retry;
#define LC_WB __CPROVER_assigns(cnt, g_pos, g_wv, g_retry) \
  __CPROVER_loop_invariant(0 <= cnt && cnt <= len && g_pos == cnt && g_retry >= 0 && (g_w < cnt ==> g_wv == ((const unsigned char*)buf)[g_w])) \
  __CPROVER_decreases(len - cnt, g_retry)
//@@harness
int g_pos, g_w, g_wv, g_fd, g_log_n, g_log_w, g_retry;

static ssize_t put(int fd, const void *buf, size_t n) {
  ENSURE(fd == g_fd, "output goes to the stream's own descriptor");
  __CPROVER_assert(n > 0 && n <= 2147483647 && __CPROVER_r_ok(buf, n), "CONTRACT write gets readable data");
  ssize_t l = nondet_long();
  ASSUME(l >= -1 && l <= (ssize_t) n);
  if (l < 0) return -1;
  if (l == 0) { ASSUME(g_retry > 0); g_retry--; return 0; }
  if (g_pos <= g_w && g_w - g_pos < l) g_wv = ((const unsigned char*) buf)[g_w - g_pos];
  g_pos += l;
  return l;
}
ssize_t write(int fd, const void *buf, size_t n) { return put(fd, buf, n); }
ssize_t send(int fd, const void *buf, size_t n, int flags) { return put(fd, buf, n); }

static void logger(const char *s, int n, void *data) {
  if (!s) return;
  __CPROVER_assert(__CPROVER_r_ok(s, n), "CONTRACT log gets readable data");
  if (g_w >= g_log_n && g_w - g_log_n < n) g_log_w = ((const unsigned char*) s)[g_w - g_log_n];
  g_log_n += n;
}

int main(void) {
  message_stream *s = malloc(sizeof *s);
  _Bool sock = nondet_bool();
  s->flags = sock ? TRAX_STREAM_SOCKET : TRAX_STREAM_FILES;
  if (sock && nondet_bool()) s->flags |= TRAX_STREAM_SOCKET_LISTEN;
  g_fd = nondet_int();
  if (sock) s->socket.socket = g_fd; else s->files.output = g_fd;
  int len = nondet_int();
  ASSUME(len >= 0);
#ifdef BOUNDED
  ASSUME(len <= 4);
#endif
  char *b = malloc(len);
  g_pos = 0; g_wv = -1; g_log_n = 0; g_log_w = -1;
  g_w = nondet_int();
  g_retry = nondet_int();
  ASSUME(g_retry >= 0);
#ifdef BOUNDED
  ASSUME(g_retry <= 1);
#endif
  ASSUME(g_w >= 0 && g_w < len || len == 0);
  int e = len ? ((unsigned char*) b)[g_w] : -1;
  trax_logging log = { 0, nondet_bool() ? logger : (trax_logger) 0, 0 };
  int r = write_buffer(s, b, len, nondet_bool() ? &log : (trax_logging*) 0);
  ENSURE(r == 1 || r == -1, "write_buffer reports success or failure");
  if (r == 1) {
    ENSURE(g_pos == len, "every byte was handed over exactly once");
    ENSURE(g_wv == e, "bytes are handed over unchanged and in order");
    ENSURE(g_log_n == 0 || (g_log_n == len && g_log_w == e), "the log gets exactly the bytes sent");
    REACH("write_buffer success");
  } else { ENSURE(g_log_n == 0, "nothing is logged for a failed write"); REACH("write_buffer failure"); }
}
