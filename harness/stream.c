/* C04: any split of the input and of the output capacity gives the one-call stream. */
#include "vpc.h"
void harness (void)
{	double r = any_ratio () ; long ip = 0, op = 0, i, total ; int k, n = vp_pick (NMIN, NMAX) ; SRC_DATA d ;
	SRC_STATE *A = mk (CT, CH), *B = mk (CT, CH) ;
	float *in = malloc (n * CH * sizeof (float)), *one = malloc (TOT * CH * sizeof (float)), *out = malloc (TOT * CH * sizeof (float)) ;
	vp_samples (in, n * CH) ;
#ifdef TIEFREE
	/* keep away from ratios where a read position is within rounding error of a frame */
	for (i = 1 ; i < TIEFREE ; i++)
	{	double x = i / r, f ;
		if (x >= n + 1e-6) break ;
		f = (double) vp_pin ((int) floor (x + 1e-9)) ;
		vp_assume (x - f > 1e-9) ;
		}
#endif
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.input_frames = n ; d.data_out = one ; d.output_frames = TOT ; d.src_ratio = r ; d.end_of_input = 1 ;
	vp_assert (src_process (A, &d) == 0, "one call") ;
	vp_assert (d.input_frames_used == n, "one call uses everything") ;
	total = d.output_frames_gen ;
	vp_assert (total < TOT, "harness room") ;
	for (k = 0 ; k < KMAX ; k++)
	{	/* K symbolic splits, then default blocks until the stream has ended */
		int bn, bm, last ; 
		if (k < K1) { bn = any_size () ; bm = any_osize () ; }
		else { bn = BN ; bm = BM ; }
		if (bn > n - ip) bn = n - ip ;
		last = ip + bn == n ;
		if (bm > TOT - op) bm = TOT - op ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ip * CH ; d.input_frames = bn ; d.data_out = out + op * CH ; d.output_frames = bm ; d.src_ratio = r ; d.end_of_input = last ;
		vp_assert (src_process (B, &d) == 0, "split call") ;
		vp_assert (d.input_frames_used >= 0 && d.input_frames_used <= bn && d.output_frames_gen >= 0 && d.output_frames_gen <= bm, "counts") ;
		ip += d.input_frames_used ; op += d.output_frames_gen ;
		if (k >= K1 && last && d.output_frames_gen == 0) break ;
	}
	vp_assert (k < KMAX, "split stream ends") ;
	vp_log (total) ; vp_log (op) ; vp_log (ip) ;
	vp_assert (op == total, "same length as one call") ;
	vp_assert (ip == n, "all input used") ;
	for (i = 0 ; i < total * CH ; i++)
		vp_close (out [i], one [i], CTOL, "same samples as one call") ;
	vp_logf (out, total * CH) ;
	if (total > 1) vp_reach ("output") ;
	src_delete (A) ; src_delete (B) ;
}
