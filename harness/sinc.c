/* C07: every output frame is the stretched, scaled table kernel applied at time j/r. */
#include "vpc.h"
#include "kern.h"
void harness (void)
{	double r = any_ratio (), pos = 0, scale = r < 1.0 ? r : 1.0 ; long ip = 0, j = 0, g, i ; int k, n = NIN, err ;
	SRC_STATE *s = mk (CT, CH) ;
	float *in = malloc ((long) n * CH * sizeof (float)) ;
	(void) err ; (void) pos ;
	vp_samples (in, (long) n * CH) ;
	for (k = 0 ; k < KMAX ; k++)
	{	int bn = k < K1 ? any_size () : n, m = k < K1 ? any_osize () : OMX, eoi ; float *out ; SRC_DATA d ;
		if (bn > n - ip) bn = n - ip ;
		eoi = ip + bn == n ;
		out = vp_out ((long) m * CH) ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ip * CH ; d.data_out = out ; d.input_frames = bn ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = eoi ;
		vp_assert (src_process (s, &d) == 0, "process") ;
		g = d.output_frames_gen ;
		for (i = 0 ; i < g ; i++, j++)
			check (in, n, (double) j / r, scale, out + i * CH) ;
		ip += d.input_frames_used ;
		vp_log (g) ; vp_log (d.input_frames_used) ; vp_logf (out, g * CH) ;
		if (k >= K1 && (g == 0 || j >= JMAX)) break ;
	}
	if (j > 2) vp_reach ("output") ;
	src_delete (s) ;
}
