#include "vp.h"
void harness (void)
{	int err ; SRC_STATE *s = src_new (CT, 1, &err) ;
	vp_assert (s != NULL, "new") ;
	float *in = malloc (16 * sizeof (float)) ;
	vp_samples (in, 16) ;
	int n = vp_pin (vp_int (0, 6)), m = vp_pin (vp_int (0, 6)) ;
	float *out = vp_out (m) ;
	SRC_DATA d ; memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = 1.3 ; d.end_of_input = 0 ;
	int e = src_process (s, &d) ;
	vp_assert (e == 0, "err") ;
	vp_assert (d.input_frames_used >= 0 && d.input_frames_used <= n, "used") ;
	vp_log (d.input_frames_used) ; vp_log (d.output_frames_gen) ;
	vp_logf (out, d.output_frames_gen) ;
	vp_reach ("end") ;
	src_delete (s) ;
}
