/* CBMC back end of the harness primitives: every value is recorded in a witness global so that the
** counterexample trace can be turned into a native replay. */
#include "vp.h"
extern int nondet_int (void) ;
extern unsigned nondet_uint (void) ;
extern unsigned long nondet_ulong (void) ;
int vp_wit_i ; unsigned vp_wit_u ; unsigned long vp_wit_U ;
int vp_int (int lo, int hi)
{	int v = nondet_int () ; __CPROVER_assume (v >= lo && v <= hi) ; vp_wit_i = v ; return v ; }
int vp_pick (int lo, int hi) { return vp_int (lo, hi) ; }
int vp_pin (int v) { return v ; }
float vp_anyfloat (void)
{	unsigned u = nondet_uint () ; float f ; vp_wit_u = u ; memcpy (&f, &u, 4) ; return f ; }
double vp_anydouble (void)
{	unsigned long u = nondet_ulong () ; double d ; vp_wit_U = u ; memcpy (&d, &u, 8) ; return d ; }
void vp_assume (int c) { __CPROVER_assume (c) ; }
double vp_logv ;
void vp_log (double v) { vp_logv = v ; }
/* cvtss2si / cvtsd2si in round-to-nearest-even mode */
int vp_lrint32 (double x)
{	double r ;
	if (! (x > -2147483649.0 && x < 2147483648.0)) return -2147483647 - 1 ;
	r = x < 0 ? (x - 0x1p52) + 0x1p52 : (x + 0x1p52) - 0x1p52 ;
	if (! (r >= -2147483648.0 && r <= 2147483647.0)) return -2147483647 - 1 ;
	return (int) r ;
}
double lrint_d (double x) ;
long lrint (double x) { return vp_lrint32 (x) ; }
long lrintf (float x) { return vp_lrint32 (x) ; }
/* library functions CBMC has no model for */
double ldexp (double x, int n)
{	unsigned long u ; double d ; __CPROVER_assume (n > -1022 && n < 1023) ; u = (unsigned long) (n + 1023) << 52 ; memcpy (&d, &u, 8) ; return x * d ; }
float ldexpf (float x, int n) { return (float) ldexp (x, n) ; }
double scalbn (double x, int n) { return ldexp (x, n) ; }
float scalbnf (float x, int n) { return (float) ldexp (x, n) ; }
int __finite (double x) { return x - x == 0 ; }
int __finitef (float x) { return x - x == 0 ; }
int finite (double x) { return x - x == 0 ; }
int __builtin_isfinite (double x) { return x - x == 0 ; }
