/* C22: float to integer arrays, every bit pattern, bit precise.  WIDE: 32 bit, otherwise 16 bit. */
#include "vp.h"
#ifdef WIDE
typedef int out_t ;
#define SCALE 2147483648.0
#define TOP 2147483647.0
#define BOT (-2147483648.0)
#define CONV src_float_to_int_array
#else
typedef short out_t ;
#define SCALE 32768.0
#define TOP 32767.0
#define BOT (-32768.0)
#define CONV src_float_to_short_array
#endif
void harness (void)
{	float in [N] ; out_t out [N + 2] ; int i, len = vp_int (-2, N) ; unsigned keep [N] ;
	for (i = 0 ; i < N ; i++) { in [i] = vp_anyfloat () ; memcpy (keep + i, in + i, 4) ; }
	for (i = 0 ; i < N + 2 ; i++) out [i] = 0x5a5a ;
	CONV (in, out + 1, len) ;
	for (i = 0 ; i < N ; i++)
	{	unsigned u ; memcpy (&u, in + i, 4) ;
		vp_assert (u == keep [i], "input untouched") ;
		if (i >= len) vp_assert (out [i + 1] == 0x5a5a, "nothing written beyond the length") ;
		else if (in [i] == in [i])
		{	double y = (double) in [i] * SCALE, v = (double) out [i + 1], d ;
			if (y >= TOP) vp_assert (v == TOP, "clipped at the positive extreme") ;
			else if (y <= BOT) vp_assert (v == BOT, "clipped at the negative extreme") ;
			else
			{	d = v - y ;
				vp_assert (d <= 0.5 && d >= -0.5, "rounded to the nearest integer") ;
			}
		}
	}
	vp_assert (out [0] == 0x5a5a && out [N + 1] == 0x5a5a, "nothing written outside the array") ;
	for (i = 0 ; i < N + 2 ; i++) vp_log (out [i]) ;
	vp_reach ("end") ;
	if (len == N && in [0] > 0.25f && in [0] < 0.5f && in [N - 1] < -0.25f && in [N - 1] > -1.0f) vp_reach ("ordinary values") ;
}
