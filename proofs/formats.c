//@ source src/trax.c
//@ function image_formats_encode region_formats_encode channels_encode image_formats_decode region_formats_decode channels_decode
//@ assume strtok and sprintf of plain text behave as in ISO C (written out in the harness)
//@ nodfcc
//@ cases 3
//@ cbmc --unwind 32
//@ fallback --unwind 32
//@ timeout 150
//@@prelude
#define sprintf g_sprintf
#define strtok g_strtok
int g_sprintf(char *d, const char *f, ...);
char *g_strtok(char *s, const char *del);
//@@harness
static char *g_dst; static char *g_next;
/* plain text only: no conversions occur in the formats that are used here */
int g_sprintf(char *d, const char *f, ...) { int i = 0; while (f[i]) { ENSURE(f[i] != '%', "plain text"); d[i] = f[i]; i++; } d[i] = 0; return i; }
static int in(char c, const char *del) { for (int i = 0; del[i]; i++) if (del[i] == c) return 1; return 0; }
char *g_strtok(char *s, const char *del) {
  if (!s) s = g_next;
  if (!s) return 0;
  while (*s && in(*s, del)) s++;
  if (!*s) { g_next = 0; return 0; }
  char *t = s;
  while (*s && !in(*s, del)) s++;
  if (*s) { *s = 0; g_next = s + 1; } else g_next = 0;
  return t;
}
#if CASE == 0
#define ENC image_formats_encode
#define DEC image_formats_decode
#define MASK TRAX_IMAGE_ANY
#elif CASE == 1
#define ENC region_formats_encode
#define DEC region_formats_decode
#define MASK TRAX_REGION_ANY
#else
#define ENC channels_encode
#define DEC channels_decode
#define MASK (TRAX_CHANNEL_COLOR | TRAX_CHANNEL_DEPTH | TRAX_CHANNEL_IR)
#endif
int main(void) {
  char b[BUFFER_LENGTH], c[BUFFER_LENGTH];
  int f = nondet_int();
  for (int m = 0; m <= MASK; m++) {
    if (m & ~MASK) continue;
    g_next = 0;
    ENC(m, b);
    ENSURE(DEC(b) == m, "the formats are read back");
  }
  /* other bits have no influence on the text */
  ENC(f, b);
  ENC(f & MASK, c);
  _Bool same = 1, end = 0;
  for (int i = 0; i < 30; i++) if (!end) { same = same && b[i] == c[i]; end = !b[i]; }
  ENSURE(same && end, "only the known formats are named");
  REACH("round trip");
}
