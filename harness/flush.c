/* C09: end of input flushes everything; length within two frames of n*r; silence afterwards. */
#include "vpc.h"
#ifndef NSTEP
#define NSTEP 1
#endif
void harness (void)
{	double r = any_ratio (), inv = 1.0 / r ; long ip = 0, op = 0 ; int k, n = NMIN + NSTEP * vp_pick (0, (NMAX - NMIN) / NSTEP), done = 0, style, guard ; SRC_DATA d ;
	SRC_STATE *A = mk (CT, CH) ;
	float *in = malloc (n * CH * sizeof (float)), *out = malloc (OBUF * CH * sizeof (float)) ;
	vp_opaque (in, n * CH) ;
	style = vp_pick (0, 2) ;  /* 0: eoi with the last block, 1: separate empty flush calls with data_in, 2: with NULL data_in */
	for (k = 0 ; k < KMAX ; k++)
	{	int bn = k < K1 ? any_size () : BN, bm = k < K1 ? any_osize () : OBUF, eoi ;
		if (bn > n - ip) bn = n - ip ;
		if (style == 0) eoi = ip + bn == n ; else eoi = ip == n ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = (style == 2 && ip == n) ? NULL : in + ip * CH ; d.input_frames = bn ;
		d.data_out = out ; d.output_frames = bm ; d.src_ratio = r ; d.end_of_input = eoi ;
		vp_assert (src_process (A, &d) == 0, "process") ;
		ip += d.input_frames_used ; op += d.output_frames_gen ;
		if (k >= K1 && eoi && d.output_frames_gen == 0) { done = 1 ; break ; }
	}
	vp_log (op) ; vp_log (ip) ;
	vp_assert (done, "flushing ends") ;
	vp_assert (ip == n, "all input consumed") ;
	vp_assert (op * inv <= n + 2.0 * inv + 1e-9, "not more than two frames too long") ;
	vp_assert (op * inv >= n - 2.0 * inv - 1e-9, "not more than two frames too short") ;
	if (n >= 2 && n >= 2.0 * inv) vp_assert (op >= 1, "some output") ;
	for (guard = 0 ; guard < 2 ; guard++)
	{	memset (&d, 0, sizeof (d)) ;
		d.data_in = guard ? NULL : in + ip * CH ; d.data_out = out ; d.output_frames = OBUF ; d.src_ratio = r ; d.end_of_input = 1 ;
		vp_assert (src_process (A, &d) == 0, "flush after the end") ;
		vp_assert (d.output_frames_gen == 0 && d.input_frames_used == 0, "nothing after the end") ;
	}
	src_delete (A) ;
	vp_reach ("end") ;
}
