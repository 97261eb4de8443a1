/* C02: exact-size arrays, symbolic sizes and ratios (changing between calls); memory and UB checks are the engine's. */
#include "vpc.h"
void harness (void)
{	SRC_STATE *s = mk (CT, CH) ; int k ; SRC_DATA d ; double r = 1 ;
	for (k = 0 ; k < K1 ; k++)
	{	int n = req_n (k), m = req_m (k) ;
		float *in, *out ;
#ifdef PIN
		n = vp_pin (n) ; m = vp_pin (m) ;
#endif
		in = malloc ((long) n * CH * sizeof (float)) ; out = vp_out ((long) m * CH) ;
#ifdef OPQ
		vp_opaque (in, (long) n * CH) ;
#elif defined PIN
		vp_samples (in, (long) n * CH) ;
#else
		vp_lazy (in, (long) n * CH) ;
#endif
#ifdef FIXR
		if (k == 0)
#endif
		r = any_ratio () ;
#ifdef SETR
		if (k == 1 && vp_pick (0, 1)) vp_assert (src_set_ratio (s, r) == 0, "set_ratio") ;
#endif
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = k < PRE ? 0 : vp_pick (0, EOIMAX) ;
		vp_assert (src_process (s, &d) == 0, "valid request succeeds") ;
		vp_assert (d.input_frames_used >= 0 && d.input_frames_used <= n, "used") ;
		vp_assert (d.output_frames_gen >= 0 && d.output_frames_gen <= m, "gen") ;
#ifndef OPQ
		vp_defined (out, d.output_frames_gen * CH, "output is defined") ;
#endif
		vp_log (d.input_frames_used) ; vp_log (d.output_frames_gen) ;
		if (d.output_frames_gen > 0) vp_reach ("output") ;
	}
	vp_freeze_globals (0) ;
	src_delete (s) ;
}
