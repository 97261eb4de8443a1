/* C01: frame counts whose sample count passes 2^31 / 2^32 (int narrowing); contents abstracted. */
#include "vpc.h"
static const long vp_base [] = { 2147483648L / CH, 4294967296L / CH, 1L << 40 } ;
void harness (void)
{	SRC_STATE *s = mk (CT, CH) ; int k ; SRC_DATA d ;
	for (k = 0 ; k < K1 ; k++)
	{	long n = vp_base [vp_pick (0, NEL (vp_base) - 2)] + vp_int (-SPAN, SPAN), m = OSZ, u, g ; int hugeout = k == 0 ? vp_pick (0, 1) : 0 ;
		double r = any_ratio () ; float *in, *out ;
		if (hugeout) { m = n ; n = OSZ ; }
		in = vp_huge (n * CH) ; out = vp_huge (m * CH) ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = vp_pick (0, 1) ;
		vp_assert (src_process (s, &d) == 0, "valid request succeeds") ;
		u = d.input_frames_used ; g = d.output_frames_gen ;
		vp_assert (u >= 0 && u <= n, "0 <= input_frames_used <= input_frames") ;
		vp_assert (g >= 0 && g <= m, "0 <= output_frames_gen <= output_frames") ;
		vp_assert (u > 0 || g > 0, "progress") ;
		vp_log (u) ; vp_log (g) ;
		if (g > 0) vp_reach (hugeout ? "huge output" : "huge input") ;
		if (d.end_of_input) break ;
	}
	src_delete (s) ;
}
