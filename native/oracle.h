/* Shared by the concrete oracles. They run the real sources (address and undefined behaviour sanitizers on) on generated
   inputs and compare with what the contract says. A failure is printed as one FAIL line with the input and exits with 3. */
#ifndef ORACLE_H
#define ORACLE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <errno.h>

static uint64_t rs = 88172645463325252ull;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned) (rs >> 11); }
static int R(int n) { return n <= 1 ? 0 : (int) (rnd() % (unsigned) n); }   /* 0..n-1 */
static int RR(int a, int b) { return a + R(b - a + 1); }
static int P(int pct) { return R(100) < pct; }

static char desc[1 << 20];      /* the case at hand, for the report */
static int desc_n;
static long cases, distinct;
static void d_reset(void) { desc_n = 0; desc[0] = 0; }
static void d_add(const char *f, ...) {
  va_list a; va_start(a, f);
  int n = vsnprintf(desc + desc_n, sizeof desc - desc_n, f, a);
  va_end(a);
  if (n > 0) desc_n += n;
  if (desc_n > (int) sizeof desc - 1) desc_n = sizeof desc - 1;
}
static void d_bytes(const char *s, int n) {
  d_add("\"");
  for (int i = 0; i < n && desc_n < (int) sizeof desc - 16; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') d_add("\\%c", c);
    else if (c >= 32 && c < 127) d_add("%c", c);
    else d_add("\\x%02x", c);
  }
  d_add("\"");
}
static void fail(const char *f, ...) {
  char m[4096];
  va_list a; va_start(a, f); vsnprintf(m, sizeof m, f, a); va_end(a);
  printf("FAIL %s | case %ld: %s\n", m, cases, desc);
  fflush(stdout);
  _exit(3);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

typedef struct { char *p; int n, cap; } bytes;
static void b_put(bytes *b, const char *s, int n) {
  if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); }
  memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
static void b_str(bytes *b, const char *s) { b_put(b, s, strlen(s)); }
static void b_chr(bytes *b, char c) { b_put(b, &c, 1); }
static void b_free(bytes *b) { free(b->p); b->p = 0; b->n = b->cap = 0; }

/* called when a sanitizer is about to end the process: say what the case was */
void __asan_on_error(void) { printf("FAIL sanitizer report (see above) | case %ld: %s\n", cases, desc); fflush(stdout); }
void __ubsan_on_report(void) { printf("FAIL undefined behaviour (see above) | case %ld: %s\n", cases, desc); fflush(stdout); }
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=4:allocator_may_return_null=1:max_allocation_size_mb=3000"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=5:print_stacktrace=1"; }
#include <signal.h>
static void on_signal(int s) {
  char m[200];
  int n = snprintf(m, sizeof m, "FAIL %s | case %ld: ", s == SIGABRT ? "the process aborted (assertion)" : s == SIGALRM ? "no result within the time limit (hang)" : "the process crashed", cases);
  (void) !write(1, m, n);
  (void) !write(1, desc, strlen(desc));
  (void) !write(1, "\n", 1);
  _exit(3);
}
static double t_end;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int more(void) { cases++; alarm(20); return now() < t_end; }
static void start(int argc, char **argv) {   /* argv: prog mode seed seconds */
  uint64_t s = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  rs ^= s * 0x9e3779b97f4a7c15ull; for (int i = 0; i < 10; i++) rnd();
  t_end = now() + (argc > 3 ? atof(argv[3]) : 3);
  signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGPIPE, SIG_IGN);
  setvbuf(stdout, 0, _IOLBF, 0);
}
static int finish(const char *rule) { alarm(0); printf("OK cases=%ld distinct=%ld rule=%s\n", cases, distinct, rule); return 0; }
#endif
