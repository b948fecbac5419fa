//@ source src/message.c
//@ function read_character
//@ assume recv(2)/read(2): -1, 0, or the next 1..n bytes of the stream (any split)
//@ nodfcc
//@ solver --z3
//@ fallback --unwind 4
//@@prelude
//@@harness
/* Bytes received but not yet delivered are buffer[position..length). g_w: any index into the window, g_wv: the byte of
   the stream that belongs there. The contract: the first byte of the window is delivered, the others stay where they are;
   the window is refilled with the bytes received next, and only when it is empty. */
static int g_w, g_fd, g_calls, g_end, g_n; static char g_wv; static message_stream S;
static ssize_t get(int fd, void *buf, size_t n) {
  ENSURE(fd == g_fd, "input comes from the stream's own descriptor");
  ENSURE(n >= 1 && __CPROVER_same_object(buf, &S) && (char*) buf >= S.buffer && (char*) buf + n <= S.buffer + TRAX_BUFFER_SIZE, "read gets a writable buffer");
  ENSURE(buf == S.buffer, "the window starts at the front of the buffer");
  g_calls = 1;
  ssize_t l = nondet_long();
  ASSUME(l >= -1 && l <= (ssize_t) n);
  g_n = l;
  if (l <= 0) { g_end = 1; return l; }
  if (g_w < l) S.buffer[g_w] = g_wv;
  return l;
}
ssize_t read(int fd, void *buf, size_t n) { return get(fd, buf, n); }
ssize_t recv(int fd, void *buf, size_t n, int flags) { ENSURE(flags == 0, "bytes are consumed"); return get(fd, buf, n); }
int main(void) {
  message_stream x;
  S = x;
  message_stream *s = &S;
  _Bool sock = nondet_bool();
  s->flags = sock ? TRAX_STREAM_SOCKET : TRAX_STREAM_FILES;
  if (sock && nondet_bool()) s->flags |= TRAX_STREAM_SOCKET_LISTEN;
  g_fd = nondet_int(); g_calls = g_end = 0;
  if (sock) s->socket.socket = g_fd; else s->files.input = g_fd;
  int pos = s->buffer_position, len = s->buffer_length;
  ASSUME(pos >= 0 && len <= TRAX_BUFFER_SIZE);
  g_wv = nondet_char(); g_w = nondet_int();
  ASSUME(g_w >= 0 && g_w < TRAX_BUFFER_SIZE);
  _Bool had = pos < len;
  if (had) { ASSUME(g_w >= pos && g_w < len); S.buffer[g_w] = g_wv; }
  int r = read_character(s);
  ENSURE(r >= -1 && r <= 255, "a byte or the end of the stream");
  if (r < 0) { ENSURE(g_end && !had, "the end of the stream is only reported when it was reached"); ENSURE(s->buffer_position >= s->buffer_length && s->buffer_position >= 0 && s->buffer_length <= TRAX_BUFFER_SIZE, "nothing is delivered after the end"); REACH("end"); return 0; }
  ENSURE(had == !g_calls, "the stream is only read when nothing is left");
  int p = had ? pos : 0, l = had ? len : g_n;
  ENSURE(s->buffer_position == p + 1 && s->buffer_length == l, "one byte is delivered, none is skipped or repeated");
  if (g_w == p) ENSURE(r == (unsigned char) g_wv, "the next byte of the stream is returned");
  else if (g_w < l) ENSURE(S.buffer[g_w] == g_wv, "the bytes behind it are kept");
  if (g_w == p && r == 255) REACH("read_character");
}
