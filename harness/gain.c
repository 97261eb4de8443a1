/* C07: constant input 1 converts to (nearly) constant output 1 away from the ends; any bounded input stays bounded. */
#include "vpc.h"
void harness (void)
{	double r = any_ratio () ; SRC_STATE *s = mk (CT, CH) ; SRC_DATA d ; long i ; int c ;
	float *in = malloc ((long) NIN * CH * sizeof (float)), *out = vp_out ((long) OMX * CH) ;
	vp_ramp (in, (long) NIN * CH, 1.0, 0.0, CH) ;
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.input_frames = NIN ; d.data_out = out ; d.output_frames = OMX ; d.src_ratio = r ;
	vp_assert (src_process (s, &d) == 0, "process") ;
	for (i = 0 ; i < d.output_frames_gen ; i++)
	{	double pos = i / r ;
		for (c = 0 ; c < CH ; c++)
			if (pos > LEAD)
			{	vp_assert (fabs (out [i * CH + c] - 1.0) < GTOL, "unity gain for constant input") ; vp_reach ("interior") ; }
	}
	vp_log (d.output_frames_gen) ; vp_logf (out, d.output_frames_gen * CH) ;
	src_delete (s) ;
}
