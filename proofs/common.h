/* Included in front of every unit. Only ghost helpers; nothing here is library code. */
#define ENSURE(c, msg) __CPROVER_assert(c, "CONTRACT " msg)
#define ASSUME(c) __CPROVER_assume(c)
#ifdef BOUNDED
#define REACH(msg) ((void) 0)
#else
#define REACH(msg) __CPROVER_assert(0, "REACH " msg)
#endif
_Bool nondet_bool(void);
int nondet_int(void);
unsigned nondet_uint(void);
char nondet_char(void);
unsigned char nondet_uchar(void);
float nondet_float(void);
double nondet_double(void);
long nondet_long(void);
__SIZE_TYPE__ nondet_size(void);
#define SAME(p, e) { __CPROVER_assert((p) == (e), "CONTRACT ghost assignment changes nothing"); (p) = (e); }
#define IMP(a, b) (!(a) || (b))
/* a condition under which the proof applies; where it fails the bounded stand-in decides */
#define FITS(c, msg) { __CPROVER_assert(c, "unfit " msg); __CPROVER_assume(c); }
/* a step of the argument: proved here, used behind */
#define CUT(c, msg) { ENSURE(c, msg); __CPROVER_assume(c); }
