/* C27 in callback mode: a failing read is reported by the error query until the next reset, queries have no effect. */
#include "vpc.h"
static float base [400] ;
typedef struct { long pos ; int calls ; } src_t ;
static long supply (void *u, float **p) { src_t *s = u ; s->calls ++ ; *p = base + s->pos * CH ; s->pos += BN ; return s->pos > 400 / CH ? 0 : BN ; }
static void ask (SRC_STATE *s, int err, src_t *u)
{	int i, c = u->calls ;
	int e = src_error (s) ;
	for (i = 0 ; i < 2 ; i++)
	{	vp_assert (src_get_channels (s) == CH, "channel count as created") ; vp_assert (src_error (s) == e, "error query repeated") ; }
	/* a failure of the past may or may not be forgotten by a good read (err < 0) */
	vp_assert (e == (err < 0 ? (e == 0 ? 0 : -err) : err), "error query") ;
	(void) src_strerror (e) ; vp_assert (u->calls == c, "queries do not ask for data") ;
}
void harness (void)
{	int k, err = -1, st = 0 ; src_t a = { 0, 0 }, t = { 0, 0 } ; SRC_STATE *A, *T ;
	vp_samples (base, 400) ;
	A = src_callback_new (supply, CT, CH, &err, &a) ; vp_assert (A != NULL && err == 0, "callback_new") ;
	T = src_callback_new (supply, CT, CH, &err, &t) ; vp_assert (T != NULL && err == 0, "callback_new") ;
	ask (A, 0, &a) ;
	for (k = 0 ; k < K1 ; k++)
	{	int op = vp_pick (0, 4), m = any_osize () ; long g, h ; double r = any_ratio () ; float *o = vp_out (m * CH), *p = vp_out (m * CH) ; SRC_STATE *c ;
		if (op == 4)
		{	vp_assert (src_callback_read (A, 257.0, m, o) == 0 && src_callback_read (T, 257.0, m, p) == 0, "failing read") ; if (m > 0) st = SRC_ERR_BAD_SRC_RATIO ; ask (A, st, &a) ; if (st > 0) st = -st ; }
		if (op == 1)
		{	vp_assert (src_callback_read (A, k ? 300.0 : 0.0, m, o) == 0 && src_callback_read (T, k ? 300.0 : 0.0, m, p) == 0, "failing read") ; ask (A, m > 0 ? SRC_ERR_BAD_SRC_RATIO : st, &a) ;
			vp_assert (src_reset (A) == 0 && src_reset (T) == 0, "reset") ; st = 0 ; ask (A, 0, &a) ; }
		if (op == 2) { vp_assert (src_reset (A) == 0 && src_reset (T) == 0, "reset") ; st = 0 ; ask (A, 0, &a) ; }
		if (op == 3) { c = src_clone (A, &err) ; vp_assert (c != NULL && err == 0, "clone") ; ask (c, src_error (A), &a) ; src_delete (c) ; ask (A, st, &a) ; }
		g = src_callback_read (A, r, m, o) ; h = src_callback_read (T, r, m, p) ;
		vp_assert (g == h && a.calls == t.calls && a.pos == t.pos, "queries have no effect") ; vp_same (o, p, g * CH, "queries have no effect") ;
		ask (A, st, &a) ; vp_log (g) ; vp_logf (o, g * CH) ;
	}
	src_delete (A) ; src_delete (T) ;
	vp_reach ("end") ;
}
