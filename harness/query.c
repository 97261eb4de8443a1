/* C27: queries report the state of the handle and have no effect on it. */
#include "vpc.h"
#define NIN 400
static float *in ;
static void ask (SRC_STATE *s, int ch, int err)
{	int i ;
	for (i = 0 ; i < 2 ; i++)
	{	vp_assert (src_get_channels (s) == ch, "channel count as created") ;
		vp_assert (src_error (s) == err, "error query") ;
		vp_assert (src_strerror (src_error (s)) != NULL, "message for the recorded error") ;
	}
	(void) src_get_name (CT) ; (void) src_get_description (CT) ; (void) src_get_version () ; (void) src_is_valid_ratio (0.3) ; (void) src_is_valid_ratio (0.0) ;
	vp_assert (src_get_channels (NULL) < 0, "no handle, no channel count") ;
	vp_assert (src_error (NULL) == SRC_ERR_NO_ERROR, "no handle, no recorded error") ;
}
void harness (void)
{	int k, op ; long ip = 0, live ; res_t q, t ; SRC_STATE *A = mk (CT, CH), *T = mk (CT, CH), *c ;
	in = malloc (NIN * CH * sizeof (float)) ; vp_samples (in, NIN * CH) ;
	ask (A, CH, 0) ;
	for (k = 0 ; k < K1 ; k++)
	{	int n = any_size (), m = any_osize () ; double r = any_ratio () ;
		op = vp_pick (0, 4) ;
		if (op == 1) { vp_assert (src_reset (A) == 0 && src_reset (T) == 0, "reset") ; ask (A, CH, 0) ; }
		if (op == 2) { c = src_clone (A, NULL) ; ask (c, CH, 0) ; live = vp_heap_live () ; ask (c, CH, 0) ; vp_assert (vp_heap_live () == live, "queries allocate nothing") ; src_delete (A) ; A = c ; }
		if (op == 3) { vp_assert (src_set_ratio (A, r) == 0 && src_set_ratio (T, r) == 0, "set_ratio") ; ask (A, CH, 0) ; }
		if (op == 4) { t = call (A, in, 1, 1, -1.0, 0) ; vp_assert (t.rc == SRC_ERR_BAD_SRC_RATIO, "rejected") ; t = call (T, in, 1, 1, -1.0, 0) ; vp_assert (src_get_channels (A) == CH && src_error (A) == src_error (T), "queries after a rejected call") ; if (src_error (A) != 0) return ; }
		q = call (A, in + ip * CH, n, m, r, k == K1 - 1) ; t = call (T, in + ip * CH, n, m, r, k == K1 - 1) ;
		same_res (q, t, "queries have no effect") ; ip += q.used ; if (ip > NIN - 100) ip = 0 ;
		ask (A, CH, 0) ; log_res (q) ;
	}
	src_delete (A) ; src_delete (T) ;
	vp_reach ("end") ;
}
