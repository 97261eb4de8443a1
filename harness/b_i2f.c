/* C23: integer to float arrays, every value, and the round trip.  WIDE: 32 bit, otherwise 16 bit. */
#include "vp.h"
#ifdef WIDE
typedef int in_t ;
#define SCALE 2147483648.0
#define CONV src_int_to_float_array
#define BACK src_float_to_int_array
#ifdef WLO	/* a window of 2^9 values, still solvable when the conversion is not a plain scaling */
#define LO (WLO)
#define HI (WLO + 511)
#else
#define LO (-2147483647 - 1)
#define HI 2147483647
#endif
#else
typedef short in_t ;
#define SCALE 32768.0
#define CONV src_short_to_float_array
#define BACK src_float_to_short_array
#define LO (-32768)
#define HI 32767
#endif
static double absd (double x) { return x < 0 ? -x : x ; }
void harness (void)
{	in_t in [N], back [N] ; float out [N + 2] ; int i, len = vp_int (-2, N), keep [N] ;
	for (i = 0 ; i < N ; i++) { in [i] = (in_t) (keep [i] = vp_int (LO, HI)) ; back [i] = 7 ; }
	for (i = 0 ; i < N + 2 ; i++) out [i] = 123.5f ;
	CONV (in, out + 1, len) ;
	for (i = 0 ; i < N ; i++)
	{	float f = out [i + 1] ;
		vp_assert (in [i] == keep [i], "input untouched") ;
		if (i >= len) vp_assert (f == 123.5f, "nothing written beyond the length") ;
		else
		{	double y = (double) f * SCALE, e = absd (y - (double) in [i]), m = absd ((double) in [i]) ;
			vp_assert (f >= -1.0f && f <= 1.0f, "result within [-1,1]") ;
#ifdef WIDE
			{	float want = (float) ((double) in [i] / SCALE) ; vp_assert (e <= absd ((double) want * SCALE - (double) in [i]), "value / 2^31 rounded to the nearest float") ; }
			vp_assert (m > 16777216.0 || e == 0.0, "exact when representable") ;
#else
			vp_assert (e == 0.0, "exactly value / 2^15") ;
#endif
			if (i > 0) vp_assert (in [i - 1] > in [i] || out [i] <= f, "order is preserved") ;
			if (i > 0) vp_assert (in [i - 1] < in [i] || out [i] >= f, "order is preserved") ;
		}
	}
	vp_assert (out [0] == 123.5f && out [N + 1] == 123.5f, "nothing written outside the array") ;
	BACK (out + 1, back, len) ;
	for (i = 0 ; i < N ; i++)
	{	if (i >= len) { vp_assert (back [i] == 7, "nothing written beyond the length") ; continue ; }
#ifdef WIDE
		vp_assert (absd ((double) back [i] - (double) in [i]) * 16777216.0 <= absd ((double) in [i]) , "round trip to float precision") ;
#else
		vp_assert (back [i] == in [i], "round trip is the identity") ;
#endif
	}
	for (i = 0 ; i < N + 2 ; i++) vp_log (out [i]) ;
	vp_reach ("end") ;
	if (len == N && in [0] > LO / 2 + HI / 2) vp_reach ("ordinary values") ;
}
