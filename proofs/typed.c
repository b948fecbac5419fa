//@ source src/trax.c
//@ function trax_properties_set_int trax_properties_get_int trax_properties_set_float trax_properties_get_float
//@ stub trax_properties_set trax_properties_get
//@ assume trax_properties_set and trax_properties_get are replaced by their contracts (unit properties); sprintf and strtod are the C library's: %d writes at most 11 characters, %f at most 48 for a float, strtod returns the number and the end of the text it used
//@ nodfcc
//@ cases 3
//@ cbmc --unwind 8
//@ fallback --unwind 8
//@ timeout 120
//@@prelude
#define free g_free
//@@harness
static int g_set, g_freed, g_len, g_used, g_iv; static double g_num, g_fv; static char *g_txt; static const char *g_key; static trax_properties *g_p; static int g_has, g_fmt;
void g_free(void *p) { ENSURE(p == g_txt && g_has, "the value that was looked up is released"); g_freed++; }
int sprintf(char *d, const char *f, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, f);
  ENSURE(f[0] == '%', "a number is written");
  int n;
  if (f[1] == 'd' || f[1] == 'i') { g_fmt = 1; g_iv = __builtin_va_arg(ap, int); n = 11; ENSURE(f[2] == 0, "and nothing else"); }
  else { g_fmt = 2; ENSURE(f[1] == 'f' && f[2] == 0, "a decimal number and nothing else"); if (__CPROVER_OBJECT_SIZE(*(void**) ap) == 4) g_fv = *(float*) *(void**) ap; else g_fv = __builtin_va_arg(ap, double); n = 48; }
  __builtin_va_end(ap);
  ENSURE(__CPROVER_w_ok(d, n + 1), "there is room for the longest number");
  d[0] = 'N'; d[1] = 0;
  return n;
}
void trax_properties_set(trax_properties *p, const char *key, const char *v) {
  ENSURE(p == g_p && key == g_key && v[0] == 'N' && v[1] == 0, "the text of the number is stored under the name");
  g_set++;
}
char *trax_properties_get(const trax_properties *p, const char *key) {
  ENSURE(p == g_p && key == g_key, "the name is looked up");
  return g_has ? g_txt : 0;
}
double strtod(const char *s, char **end) {
  ENSURE(s == g_txt, "the value is converted");
  if (end) *end = (char*) s + g_used;
  return g_num;
}
int main(void) {
  g_set = g_freed = g_fmt = 0;
  g_p = malloc(sizeof *g_p); g_key = malloc(1);
  g_has = nondet_int() & 1; g_len = nondet_int(); g_used = nondet_int(); g_num = nondet_double();
  ASSUME(g_len >= 0 && g_len < 1 << 30 && g_used >= 0 && g_used <= g_len);
  g_txt = malloc(g_len + 1);
  ASSUME(g_txt[g_len] == 0 && (g_used == g_len || g_txt[g_used] != 0) && (g_len == 0 || g_txt[0] != 0));
  ASSUME(g_used > 0 || g_num == 0.0);   /* no number at all */
  if (CASE == 0) {
    int v = nondet_int(); float f = nondet_float();
    trax_properties_set_int(g_p, g_key, v);
    ENSURE(g_set == 1 && g_fmt == 1 && g_iv == v, "the number is stored in decimal");
    ASSUME(f == f);
    trax_properties_set_float(g_p, g_key, f);
    ENSURE(g_set == 2 && g_fmt == 2 && g_fv == (double) f, "the number is stored in decimal with six places");
    REACH("set");
  } else if (CASE == 1) {
    int def = nondet_int();
    int r = trax_properties_get_int(g_p, g_key, def);
    _Bool num = g_has && g_len > 0 && g_used == g_len && g_num > -2147483649.0 && g_num < 2147483648.0;
    if (!num) { ENSURE(r == def, "the default if there is no value, it is not a number or it does not fit"); REACH("default"); }
    else { ENSURE((double) r - g_num < 1.0 && g_num - (double) r < 1.0 && ((double) r == g_num || (g_num > 0 ? (double) r <= g_num : (double) r >= g_num)), "the number without its fraction"); REACH("int"); }
    ENSURE(g_freed == g_has, "the copy is released");
  } else {
    float def = nondet_float();
    ASSUME(def == def);
    float r = trax_properties_get_float(g_p, g_key, def);
    if (!(g_has && g_len > 0 && g_used == g_len)) { ENSURE(r == def, "the default if there is no value or it is not a number"); REACH("float default"); }
    else { ENSURE(r == (float) g_num || (g_num != g_num && r != r), "the number"); REACH("float"); }
    ENSURE(g_freed == g_has, "the copy is released");
  }
}
