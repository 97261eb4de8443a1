/* C11: clone equals original; processing, resetting or deleting one does not affect the other. */
#include "vpc.h"
#define NIN 400
#ifndef R2X
#define R2X any_ratio ()
#endif
static float *in ;
static long step (SRC_STATE *s, long ip, int n, int m, double r, int eoi, res_t *q)
{	*q = call (s, in + ip * CH, n, m, r, eoi) ; return ip + q->used ; }
typedef struct { res_t q [3] ; int e0, bad, e, ch ; } run_t ;
static double r1, r2 ;
static void suffix (SRC_STATE *s, long ip, run_t *o)
{	o->e0 = src_error (s) ;
	ip = step (s, ip, 2, 3, r2, 0, o->q) ;
	o->bad = call (s, in, 1, 1, -1.0, 0).rc ;
	ip = step (s, ip, N2, M2, r2, 0, o->q + 1) ;
	ip = step (s, ip, 2, M2, r1, 1, o->q + 2) ;
	o->e = src_error (s) ; o->ch = src_get_channels (s) ;
}
static void cmprun (run_t *a, run_t *b, const char *msg)
{	int i ;
	for (i = 0 ; i < 3 ; i++) same_res (a->q [i], b->q [i], msg) ;
	vp_assert (a->e == b->e && a->e0 == b->e0 && a->bad == b->bad, msg) ; vp_assert (a->ch == b->ch && a->ch == CH, msg) ;
}
void harness (void)
{	int err = -1, k, mode ; long ip = 0, ipt = 0 ; run_t a, b, t ; res_t q = { 0 }, qt ;
	SRC_STATE *A = mk (CT, CH), *T = mk (CT, CH), *B ;
	in = malloc (NIN * CH * sizeof (float)) ; vp_samples (in, NIN * CH) ;
	r1 = any_ratio () ; r2 = R2X ;
	for (k = 0 ; k < K1 ; k++)
	{	int n = any_size (), m = any_osize (), eoi = k == K1 - 1 ? vp_pick (0, 1) : 0 ;
		double r = k == 0 ? r1 : r2 ;
		ip = step (A, ip, n, m, r, eoi, &q) ;
		ipt = step (T, ipt, n, m, r, eoi, &qt) ;
		same_res (q, qt, "equal histories give equal results") ;
	}
	k = vp_pick (0, 3) ;
	if (k == 3) { src_reset (A) ; src_reset (T) ; ip = ipt = 0 ; }
	if (k == 2)
	{	q = call (A, in, 1, 1, 0.0, 0) ; qt = call (T, in, 1, 1, 0.0, 0) ; vp_assert (q.rc == qt.rc && q.rc != 0, "refused") ; }
	if (k == 1)
	{	vp_assert (src_set_ratio (A, r2) == 0, "set_ratio") ; src_set_ratio (T, r2) ; }
	B = src_clone (A, &err) ;
	vp_assert (B != NULL && err == 0, "clone succeeds") ;
	mode = vp_pick (0, 3) ;
	if (mode == 0)
	{	suffix (A, ip, &a) ; suffix (B, ip, &b) ; cmprun (&a, &b, "clone after original") ; src_delete (A) ; src_delete (B) ; }
	else if (mode == 1)
	{	suffix (T, ip, &t) ; src_delete (A) ; suffix (B, ip, &b) ; cmprun (&t, &b, "clone after deletion of the original") ; src_delete (B) ; }
	else if (mode == 2)
	{	suffix (B, ip, &b) ; src_reset (B) ; step (B, 0, N2, M2, r2, 0, &q) ; suffix (T, ip, &t) ;
		suffix (A, ip, &a) ; cmprun (&t, &a, "original after use and reset of the clone") ; src_delete (B) ; src_delete (A) ; }
	else
	{	src_delete (B) ; suffix (T, ip, &t) ; suffix (A, ip, &a) ; cmprun (&t, &a, "original after deletion of the clone") ; src_delete (A) ; }
	src_delete (T) ;
	log_res (q) ;
	vp_reach ("end") ;
}
