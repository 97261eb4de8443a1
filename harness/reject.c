/* C03: a rejected request in the middle of a stream leaves output and converter unaffected. */
#include "vpc.h"
#define NIN 200
void harness (void)
{	SRC_STATE *A = mk (CT, CH), *B = mk (CT, CH) ; int k, when = vp_pick (0, K1 - 1), kind = vp_pick (0, 5), rc ; long ia = 0, ib = 0 ; SRC_DATA d ; res_t a, b ; double rr [K1] ;
	float *in = malloc (NIN * CH * sizeof (float)), *o = vp_out (6 * CH), *cp = malloc (NIN * CH * sizeof (float)) ;
	vp_samples (in, NIN * CH) ; memcpy (cp, in, NIN * CH * sizeof (float)) ;
	for (k = 0 ; k < K1 ; k++)
	{	int n = any_size (), m = any_osize () ; double r = any_ratio () ;
		rr [k] = r ;
		if (k == when)
		{	memset (&d, 0, sizeof (d)) ;
			d.data_in = in ; d.data_out = o ; d.input_frames = 5 ; d.output_frames = 6 ; d.src_ratio = 0.75 ; d.end_of_input = 1 ;
			if (kind == 0) d.src_ratio = 0.0 ;
			if (kind == 1) d.src_ratio = 1e9 ;
			if (kind == 2) d.data_in = NULL ;
			if (kind == 3) d.data_out = NULL ;
			if (kind == 4) d.data_out = in + 1 ;
			rc = src_process (A, kind == 5 ? NULL : &d) ;
			vp_assert (rc != 0, "invalid request is rejected") ;
			vp_untouched (o, 6 * CH, "rejected request writes nothing") ;
			if (vp_pick (0, 1)) vp_assert (src_set_ratio (A, 0.001) != 0, "invalid ratio is rejected") ;
		}
		a = call (A, in + ia * CH, n, m, r, k == K1 - 1) ; ia += a.used ;
		b = call (B, in + ib * CH, n, m, r, k == K1 - 1) ; ib += b.used ;
		same_res (a, b, "later output unaffected by a rejected request") ;
		vp_untouched (a.out + vp_pin (a.gen) * CH, (m - vp_pin (a.gen)) * CH, "nothing beyond the count") ;
		log_res (a) ;
	}
	vp_same (in, cp, NIN * CH, "input untouched") ;
	src_delete (A) ; src_delete (B) ; vp_reach ("end") ;
}
