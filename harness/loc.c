/* C26: counts and codes do not depend on sample values; an output frame depends only on the input frames within
** the converter's reach.  Twin converters, equal requests, inputs that differ (arbitrarily) in one frame. */
#include "vpc.h"
#if CT == 2
typedef float coeff_t ;
#include "fastest_coeffs.h"
#define TAB fastest_coeffs
#elif CT == 1
typedef float coeff_t ;
#include "mid_qual_coeffs.h"
#define TAB slow_mid_qual_coeffs
#endif
static int reached (double pos, long p, double scale)	/* may the frame at input time pos depend on input frame p? */
{
#if CT == 3
	double q = floor (pos - 1 + 1e-9), a = floor (pos - 1 - 1e-9) ;
	if (q < 0) q = 0 ; if (a < 0) a = 0 ;
	(void) scale ; return (double) p == q || (double) p == a ;
#elif CT == 4
	double d = (pos - 1 < 0 ? 0 : pos - 1) - p ;
	(void) scale ; return d > -1.0 - 1e-9 && d < 1.0 + 1e-9 ;
#else
	double half = ((double) (sizeof (TAB.coeffs) / sizeof (TAB.coeffs [0]))) / TAB.increment / scale + 1 ;
	return fabs (pos - p) <= half ;
#endif
}
#ifdef SPECIAL
static const float specials [] = { NAN, INFINITY, -INFINITY, 3.4e38f, 1e-42f } ;
#endif
void harness (void)
{	static const int places [] = { PLACES } ; double r = any_ratio (), scale = r < 1.0 ? r : 1.0 ; long ip = 0, j = 0, i, far = 0 ; int k, p = places [vp_pick (0, NEL (places) - 1)], c ; res_t q, t ;
	float *in = malloc ((long) NIN * CH * sizeof (float)), *in2 = malloc ((long) NIN * CH * sizeof (float)) ; SRC_STATE *s = mk (CT, CH), *w = mk (CT, CH) ;
	vp_samples (in, (long) NIN * CH) ;
#ifdef SPECIAL	/* one sample of one channel is a NaN, an infinity, huge or denormal */
	for (i = 0 ; i < (long) NIN * CH ; i++) in2 [i] = in [i] ;
	in2 [(long) p * CH + SPECIAL] = specials [vp_pick (0, NEL (specials) - 1)] ;
#else
	vp_samples (in2, (long) NIN * CH) ;
	for (i = 0 ; i < NIN ; i++) if (i != p) for (c = 0 ; c < CH ; c++) in2 [i * CH + c] = in [i * CH + c] ;
#endif
	for (k = 0 ; k < KMAX ; k++)
	{	int n = k < K1 ? any_size () : NIN, m = k < K1 ? any_osize () : OMX, eoi ;
		if (n > NIN - ip) n = NIN - ip ;
		eoi = ip + n == NIN ;
		q = call (s, in + ip * CH, n, m, r, eoi) ; t = call (w, in2 + ip * CH, n, m, r, eoi) ;
		vp_assert (q.rc == 0 && t.rc == 0, "valid requests succeed whatever the samples") ;
		vp_assert (q.used == t.used && q.gen == t.gen, "counts do not depend on sample values") ;
		for (i = 0 ; i < q.gen ; i++, j++)
		{
#ifdef SPECIAL
			for (c = 0 ; c < CH ; c++) if (c != SPECIAL) vp_samev (q.out [i * CH + c], t.out [i * CH + c], "the other channels are unchanged") ;
#endif
			if (! reached ((double) j / r, p, scale)) { vp_same (q.out + i * CH, t.out + i * CH, CH, "frames beyond the reach of the changed input frame are unchanged") ; far ++ ; }
		}
		ip += q.used ; log_res (q) ;
		if (k >= K1 && q.gen == 0) break ;
	}
	vp_assert (k < KMAX, "stream ends") ;
	if (far > 1) vp_reach ("out of reach") ;
	src_delete (s) ; src_delete (w) ;
}
