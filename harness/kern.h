/* reference kernel: the published coefficient table, linearly interpolated, evaluated in real time coordinates */
typedef float coeff_t ;
#if CT == 2
#include "fastest_coeffs.h"
#define TAB fastest_coeffs
#elif CT == 0
#include "high_qual_coeffs.h"
#define TAB slow_high_qual_coeffs
#else
#include "mid_qual_coeffs.h"
#define TAB slow_mid_qual_coeffs
#endif
static double kern (double t)   /* t >= 0 in input frames of the unit kernel */
{	double x = t * TAB.increment ; long i = (long) x ;
	if (i + 1 >= (long) (sizeof (TAB.coeffs) / sizeof (TAB.coeffs [0])) - 1) return 0.0 ;
	return TAB.coeffs [i] + (x - i) * (TAB.coeffs [i + 1] - TAB.coeffs [i]) ;
}
static void check (const float *in, long n, double pos, double scale, const float *out)
{	int c ; long k ; double half = ((double) (sizeof (TAB.coeffs) / sizeof (TAB.coeffs [0]))) / TAB.increment / scale + 1 ;
	long a = (long) floor (pos - half), b = (long) ceil (pos + half) ;
	double acc [CH] ;
	for (c = 0 ; c < CH ; c++) acc [c] = 0 ;
	if (a < 0) a = 0 ;
	if (b > n - 1) b = n - 1 ;
	for (k = a ; k <= b ; k++)
	{	double h = scale * kern (fabs ((double) k - pos) * scale) ;
		if (h != 0.0) for (c = 0 ; c < CH ; c++) acc [c] += h * in [k * CH + c] ;
	}
	for (c = 0 ; c < CH ; c++)
	{	vp_close (out [c], acc [c], CTOL, "output is the band-limited kernel at time j/r") ;
#ifdef BOUND
		vp_bounded (out [c], BOUND, "bounded output for bounded input") ;
#endif
	}
}
