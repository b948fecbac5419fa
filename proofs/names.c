//@ source src/message.c
//@ function __is_valid_key __parse_message_type
//@ loop __is_valid_key 0 of 1 : LC_VK
//@ assume isalnum and strcasecmp are the C locale's
//@ cbmc --unwind 66
//@ fallback --unwind 70
//@@prelude
extern int g_w, g_len; extern _Bool g_ok;
#define KC(x) ((x) >= '0' && (x) <= '9' || (x) >= 'a' && (x) <= 'z' || (x) >= 'A' && (x) <= 'Z' || (x) == '.' || (x) == '_')
#define LC_VK __CPROVER_assigns(i) __CPROVER_loop_invariant(0 <= i && i <= len && (g_w < i ==> KC(c[g_w]))) __CPROVER_decreases(len - i)
//@@harness
int g_w, g_len; _Bool g_ok; static char *g_c; static int g_bad = -1;
int isalnum(int c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'; }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char *a, const char *b) {
  for (int i = 0; i < 12; i++) { if (lower(a[i]) != lower(b[i])) return 0; if (!b[i]) return 1; }
  return 1;
}
int strcasecmp(const char *a, const char *b) { return same(a, b) ? 0 : 1; }
int main(void) {
  if (nondet_bool()) {
    int n = nondet_int(); g_w = nondet_int();
    ASSUME(n >= 0);
    char *c = malloc(n);
    ASSUME(g_w >= 0);
    int r = __is_valid_key(c, n);
    if (r) { ENSURE(n <= 64 && (g_w >= n || KC(c[g_w])), "a name consists of at most 64 letters, digits, dots and underscores"); REACH("valid"); }
    else if (n <= 64) {
      _Bool all = 1;
      for (int i = 0; i < 64; i++) if (i < n && !KC(c[i])) all = 0;
      ENSURE(!all, "every such name is accepted");
      REACH("invalid");
    }
  } else {
    char *s = malloc(14);
    s[13] = 0;
    int r = __parse_message_type(s);
    ENSURE(r == (same(s, "hello") ? TRAX_HELLO : same(s, "initialize") ? TRAX_INITIALIZE : same(s, "state") || same(s, "status") ? TRAX_STATE :
             same(s, "frame") ? TRAX_FRAME : same(s, "quit") ? TRAX_QUIT : -1), "the type names");
    REACH("types");
  }
}
