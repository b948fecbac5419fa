//@ source src/message.c
//@ function list_create list_append list_append_direct list_get list_reset list_destroy list_size
//@ loop list_reset 0 of 1 : LC_LR
//@ loop list_destroy 0 of 1 : LC_LD
//@ ghost list_reset 0 : __CPROVER_assume(i == g_w || B->buffer[i] != g_x); __CPROVER_assume(B->buffer[i] != (char*) g_buf && B->buffer[i] != (char*) g_l);
//@ ghost list_destroy 0 : __CPROVER_assume(i == g_w || (*B)->buffer[i] != g_x); __CPROVER_assume((*B)->buffer[i] != (char*) g_buf && (*B)->buffer[i] != (char*) g_l);
//@ assume malloc and realloc succeed; fewer than 2^27 strings, each shorter than 2 GiB; strlen returns the length; the strings of a list are separate allocations
//@ fallback --unwind 4
//@ cases 6
//@ timeout 120
//@@prelude
#define free g_free
extern int g_w, g_freed; extern char *g_x, **g_buf; extern struct string_list *g_l;
#define LC_LR __CPROVER_assigns(i, g_freed, __CPROVER_object_whole(B->buffer)) \
  __CPROVER_loop_invariant(0 <= i && i <= B->position && g_freed == (i > g_w && g_x != 0 ? 1 : 0) && (i <= g_w && g_w < B->position ==> B->buffer[g_w] == g_x)) __CPROVER_decreases(B->position - i)
#define LC_LD __CPROVER_assigns(i, g_freed, __CPROVER_object_whole((*B)->buffer)) \
  __CPROVER_loop_invariant(0 <= i && i <= (*B)->position && g_freed == (i > g_w && g_x != 0 ? 1 : 0) && (i <= g_w && g_w < (*B)->position ==> (*B)->buffer[g_w] == g_x)) __CPROVER_decreases((*B)->position - i)
//@@harness
int g_w, g_freed, g_freed_buf, g_freed_list, g_n; char *g_x, *g_s; char **g_buf; string_list *g_l;
void g_free(void *p) {
  if (p == g_x && g_x) g_freed++;
  else if (p == g_buf) { g_freed_buf++; }
  else if (p == g_l) { ENSURE(g_freed_buf == 1 && g_freed == 1, "the list is released last"); g_freed_list++; }
}
size_t strlen(const char *s) { ENSURE(s == g_s, "length of the string at hand"); return g_n; }
int main(void) {
  int op = CASE, n = nondet_int(), w = nondet_int(), b = nondet_int();
  g_freed = g_freed_buf = g_freed_list = 0;
  if (op == 0) {
    ASSUME(n >= 1 && n <= 1 << 27);
    string_list *B = list_create(n);
    ENSURE(B->position == 0 && list_size(B) == 0 && B->size == n && __CPROVER_w_ok(B->buffer, n * sizeof(char*)), "an empty list");
    REACH("create");
    return 0;
  }
  string_list *B = malloc(sizeof *B);
  B->size = nondet_int(); B->position = nondet_int();
  ASSUME(B->size >= 1 && B->position >= 0 && B->position <= B->size && B->size <= 1 << 27);
  B->buffer = malloc(B->size * sizeof(char*));
  int p = B->position, sz = B->size;
#ifdef BOUNDED
  ASSUME(sz <= 3);
#endif
  ASSUME(w >= 0 && w < p || p == 0);
  ASSUME(n >= 0 && n < 2147483647);
  g_s = malloc((size_t) n + 1); g_n = n; g_s[n] = 0;
  ASSUME(b >= 0 && b <= n);
  if (op == 1 || op == 2) {
    char *v = p ? B->buffer[w] : 0;
    if (op == 1) list_append(B, g_s); else list_append_direct(B, g_s);
    ENSURE(B->position == p + 1 && list_size(B) == p + 1 && B->size > p && __CPROVER_w_ok(B->buffer, B->size * sizeof(char*)), "one string longer");
    if (p) ENSURE(B->buffer[w] == v, "the other strings are kept");
    char *e = B->buffer[p];
    if (op == 2) { ENSURE(e == g_s, "the string is taken over"); REACH("append direct"); }
    else {
      ENSURE(!__CPROVER_same_object(e, g_s) && __CPROVER_r_ok(e, (size_t) n + 1) && e[b] == g_s[b] && e[n] == 0, "a copy of the string is stored");
      if (p == sz) REACH("append with growth");
    }
  } else if (op == 3) {
    int i = nondet_int();
    if (i >= 0 && i < p) { B->buffer[i] = nondet_bool() ? g_s : (char*) 0; }
    char *r = list_get(B, i);
    if (i < 0 || i >= p || !B->buffer[i]) { ENSURE(r == 0, "nothing there"); REACH("get nothing"); }
    else { ENSURE(!__CPROVER_same_object(r, g_s) && __CPROVER_r_ok(r, (size_t) n + 1) && r[b] == g_s[b] && r[n] == 0, "a copy of the string"); REACH("get"); }
    ENSURE(B->position == p && B->size == sz, "the list is kept");
  } else {
    ASSUME(p > 0);
    g_x = malloc(1); g_w = w; g_buf = B->buffer; g_l = B;
    B->buffer[w] = g_x;
#ifdef BOUNDED
    for (int j = 0; j < p; j++) ASSUME(j == w || B->buffer[j] != g_x && B->buffer[j] != (char*) g_buf && B->buffer[j] != (char*) g_l);
#endif
    if (op == 4) {
      list_reset(B);
      ENSURE(B->position == 0 && list_size(B) == 0 && B->size == sz && B->buffer == g_buf && g_freed_buf == 0, "empty and usable");
      ENSURE(g_freed == 1, "every string is released once");
      REACH("reset");
    } else {
      list_destroy(&B);
      ENSURE(B == 0 && g_freed == 1 && g_freed_buf == 1 && g_freed_list == 1, "everything is released once");
      if (nondet_bool()) { list_destroy(&B); ENSURE(B == 0, "an absent list is fine"); }
      REACH("destroy");
    }
  }
}
