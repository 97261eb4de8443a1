/* C12: reset equals a freshly created converter. */
#include "vpc.h"
#define NIN 400
#ifndef R2X
#define R2X any_ratio ()
#endif
static float *in, *in2 ;
static double r1, r2 ;
void harness (void)
{	int k, n, m, eoi, e1, e2, i ; long ip = 0, ia = 0, ib = 0 ; res_t q, qa, qb ;
	SRC_STATE *A = mk (CT, CH), *B = mk (CT, CH) ;
	in = malloc (NIN * CH * sizeof (float)) ; vp_samples (in, NIN * CH) ;
	in2 = malloc (NIN * CH * sizeof (float)) ; vp_samples (in2, NIN * CH) ;
	r1 = any_ratio () ; r2 = R2X ;
	for (k = 0 ; k < K1 ; k++)
	{	n = any_size () ; m = any_osize () ; eoi = k == K1 - 1 ? vp_pick (0, 1) : 0 ;
		q = call (A, in + ip * CH, n, m, k == 0 ? r1 : r2, eoi) ; ip += q.used ;
	}
	k = vp_pick (0, 3) ;
	if (k == 1) src_set_ratio (A, r2) ;
	if (k == 2) { call (A, in, 1, 1, 1000.0, 0) ; }
	if (k == 3) src_reset (A) ;
	vp_assert (src_reset (A) == 0, "reset succeeds") ;
	vp_assert (src_error (A) == 0, "no error after reset") ;
	for (i = 0 ; i < 4 ; i++)
	{	n = i == 0 ? 1 : i == 1 ? N2 : 2 ; m = i == 0 ? 2 : M2 ; eoi = i >= 2 ;
		double r = i == 1 ? r1 : r2 ;
		qa = call (A, in2 + ia * CH, n, m, r, eoi) ; ia += qa.used ;
		qb = call (B, in2 + ib * CH, n, m, r, eoi) ; ib += qb.used ;
		same_res (qa, qb, "after reset like a new converter") ;
		log_res (qa) ;
	}
	e1 = src_error (A) ; e2 = src_error (B) ; vp_assert (e1 == e2, "error code") ;
	src_delete (A) ; src_delete (B) ;
	vp_reach ("end") ;
}
