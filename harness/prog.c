/* C10: termination within a step bound, and progress whenever input and room are offered. */
#include "vpc.h"
void harness (void)
{	SRC_STATE *s = mk (CT, CH) ; int k, ended = 0 ; SRC_DATA d ; double r = 1 ;
	float *in, *out ;
#ifdef WARM		/* the documented loop with small blocks of fixed sizes, until the history buffer has wrapped */
	{	int n = any_size (), m = any_osize () ; r = any_ratio () ;
		for (k = 0 ; k < WARM ; k++)
		{	in = malloc ((long) n * CH * sizeof (float)) ; out = vp_out ((long) m * CH) ; vp_opaque (in, (long) n * CH) ;
			memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ;
			vp_steps (STEPS) ; vp_assert (src_process (s, &d) == 0, "process") ; vp_steps (0) ;
			vp_assert (d.input_frames_used > 0 || d.output_frames_gen > 0, "progress") ;
			free (in) ; free (out) ; }
	}
#endif
	for (k = 0 ; k < K1 ; k++)
	{	int n = vp_pin (req_n (k)), m = vp_pin (req_m (k)), eoi = k < PRE ? 0 : vp_pick (0, EOIMAX) ;
		in = malloc ((long) n * CH * sizeof (float)) ; out = vp_out ((long) m * CH) ;
		vp_opaque (in, (long) n * CH) ;
		r = any_ratio () ;
#ifdef SETR
		if (vp_pick (0, 1)) src_set_ratio (s, r) ;
#endif
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = eoi ;
		vp_steps (STEPS) ;
		vp_assert (src_process (s, &d) == 0, "process") ;
		vp_steps (0) ;
		vp_log (d.input_frames_used) ; vp_log (d.output_frames_gen) ;
		if (! ended && n > 0 && m > 0)
		{	vp_assert (d.input_frames_used > 0 || d.output_frames_gen > 0, "progress") ; vp_reach ("progress") ; }
		if (eoi && d.input_frames_used == n) ended = 1 ;
		if (ended) { ended = 1 ; }
	}
	src_delete (s) ;
}
