/* In-memory channels behind read/recv/write/send (linked with --wrap): any split of the data, failures on request. */
typedef struct { bytes b; int pos; int split; int fail_after; int writes_after_close; int eof_reads; int closed; long calls; } chan;
static chan ch_in, ch_out;
enum { FD_IN = 7001, FD_OUT = 7002, FD_SOCK = 7003 };
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
static ssize_t ch_read(void *p, size_t n) {
  ch_in.calls++;
  int left = ch_in.b.n - ch_in.pos;
  if (left <= 0) { ch_in.eof_reads++; return ch_in.split && P(50) ? -1 : 0; }
  int k = left < (int) n ? left : (int) n;
  if (ch_in.split == 1) k = 1; else if (ch_in.split == 2) k = 1 + R(k); else if (ch_in.split == 3) k = 1 + R(k < 9 ? k : 9);
  memcpy(p, ch_in.b.p + ch_in.pos, k);
  ch_in.pos += k;
  return k;
}
static ssize_t ch_write(const void *p, size_t n) {
  ch_out.calls++;
  if (ch_out.closed) { ch_out.writes_after_close++; return n; }
  int k = (int) n;
  if (ch_out.split && P(3)) return 0;
  if (ch_out.split == 1) k = 1; else if (ch_out.split == 2) k = 1 + R(k); else if (ch_out.split == 3) k = 1 + R(k < 3 ? k : 3);
  b_put(&ch_out.b, p, k);
  return k;
}
ssize_t __wrap_read(int fd, void *p, size_t n) { return fd == FD_IN ? ch_read(p, n) : __real_read(fd, p, n); }
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { return fd == FD_SOCK ? ch_read(p, n) : __real_recv(fd, p, n, f); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { return fd == FD_OUT ? ch_write(p, n) : __real_write(fd, p, n); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { return fd == FD_SOCK ? ch_write(p, n) : __real_send(fd, p, n, f); }
static void ch_reset(void) { ch_in.b.n = ch_out.b.n = 0; ch_in.pos = 0; ch_in.split = R(4); ch_out.split = R(4); ch_in.eof_reads = ch_out.closed = ch_out.writes_after_close = 0; ch_in.calls = ch_out.calls = 0; }
