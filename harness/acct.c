/* C01/C03: frame accounting, untouched input, request fields and output tail; symbolic sizes incl. negative. */
#include "vpc.h"
void harness (void)
{	SRC_STATE *s = mk (CT, CH) ; int k ; SRC_DATA d, e ; long g, u ;
	for (k = 0 ; k < K1 ; k++)
	{	int n = vp_pin (req_n (k)), m = vp_pin (req_m (k)), eoi = k < PRE ? 0 : vp_pick (0, EOIMAX), nn = n > 0 ? n : 0, mm = m > 0 ? m : 0 ; double r = any_ratio () ;
		float *in = malloc (nn * CH * sizeof (float)), *copy = malloc (nn * CH * sizeof (float)), *out = vp_out (mm * CH) ;
		vp_samples (in, nn * CH) ; memcpy (copy, in, nn * CH * sizeof (float)) ;
#ifdef SETR
		if (vp_pick (0, 1)) vp_assert (src_set_ratio (s, r) == 0, "set_ratio") ;
#endif
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in ; d.data_out = out ;
#ifdef NULLS
		if (n <= 0 && vp_pick (0, 1)) d.data_in = NULL ;
		if (m <= 0 && vp_pick (0, 1)) d.data_out = NULL ;
#endif
		 d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = eoi ;
		d.input_frames_used = -123 ; d.output_frames_gen = 456 ; e = d ;
		vp_assert (src_process (s, &d) == 0, "valid request succeeds") ;
		u = d.input_frames_used ; g = d.output_frames_gen ;
		vp_assert (u >= 0 && u <= nn, "0 <= input_frames_used <= input_frames") ;
		vp_assert (g >= 0 && g <= mm, "0 <= output_frames_gen <= output_frames") ;
		vp_assert (d.data_in == e.data_in && d.data_out == e.data_out && d.end_of_input == e.end_of_input, "request fields kept") ;
		vp_assert (d.src_ratio == e.src_ratio, "request ratio kept") ;
		vp_assert ((n >= 0 ? d.input_frames == n : (d.input_frames == 0 || d.input_frames == n)) && (m >= 0 ? d.output_frames == m : (d.output_frames == 0 || d.output_frames == m)), "request counts kept") ;
		vp_same (in, copy, nn * CH, "input samples untouched") ;
		vp_defined (out, g * CH, "every generated frame is written") ;
		g = vp_pin (g) ;
		vp_untouched (out + g * CH, (vp_pin (mm) - g) * CH, "nothing written beyond the generated frames") ;
		vp_log (u) ; vp_log (g) ; vp_logf (out, g * CH) ;
		if (g > 0) vp_reach ("output") ;
	}
	src_delete (s) ;
}
