/* C11/C12 in callback mode: a clone continues exactly like the original (same pending data, same callback);
** after a reset a callback converter is like a new one. */
#include "vpc.h"
typedef struct { const float *base ; long pos, total ; int calls ; } src_t ;
static src_t S ;
static int blk [NBK] ;
static long supply (void *u, float **p)
{	src_t *s = (src_t *) u ; long n = s->calls < NBK ? blk [s->calls] : BN ;
	vp_assert (s == &S, "callback gets the user pointer") ;
	if (s->pos + n > s->total) n = s->total - s->pos ;
	*p = (float *) s->base + s->pos * CH ;
	s->pos += n ; s->calls ++ ;
	return n ;
}
static double r1, r2 ;
typedef struct { long g [3], pos ; float *o [3] ; int e0, e, calls, ch ; } run_t ;
static void suffix (SRC_STATE *s, run_t *q)
{	int i ;
	q->e0 = src_error (s) ;
	for (i = 0 ; i < 3 ; i++)
	{	long w = i == 0 ? 1 : i == 1 ? O2 : 2 ;
		q->o [i] = vp_out (w * CH) ;
		q->g [i] = src_callback_read (s, i == 1 ? r1 : r2, w, q->o [i]) ;
	}
	q->e = src_error (s) ; q->pos = S.pos ; q->calls = S.calls ; q->ch = src_get_channels (s) ;
}
static void cmprun (run_t *a, run_t *b, const char *msg)
{	int i ;
	for (i = 0 ; i < 3 ; i++)
	{	vp_assert (a->g [i] == b->g [i], msg) ;
		vp_same (a->o [i], b->o [i], a->g [i] * CH, msg) ;
	}
	vp_assert (a->e0 == b->e0 && a->e == b->e && a->pos == b->pos && a->calls == b->calls && a->ch == b->ch, msg) ;
}
void harness (void)
{	int err = -1, k, mode ; run_t a, b ; src_t U ;
	float *in = malloc (NIN * CH * sizeof (float)) ; SRC_STATE *A, *B ;
	vp_samples (in, NIN * CH) ;
	r1 = any_ratio () ; r2 = any_ratio () ;
	for (k = 0 ; k < NBK ; k++) blk [k] = 1 + any_size () ;
	S.base = in ; S.total = NIN ; S.pos = 0 ; S.calls = 0 ;
	A = src_callback_new (supply, CT, CH, &err, &S) ;
	vp_assert (A != NULL && err == 0, "callback_new") ;
	for (k = 0 ; k < K1 ; k++)
	{	long w = any_osize () ; float *o = vp_out (w * CH) ;
		long g = src_callback_read (A, r1, w, o) ; vp_log (g) ; vp_logf (o, g * CH) ; }
	mode = vp_pick (0, RESET ? 1 : 2) ;
	if (mode == 2) { float *o = vp_out (CH) ; vp_assert (src_callback_read (A, 1000.0, 1, o) == 0, "bad ratio refused") ; }
	if (mode == 1)
	{	SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = vp_out (CH) ; d.input_frames = 1 ; d.output_frames = 1 ; d.src_ratio = r1 ;
		vp_assert (src_process (A, &d) != 0, "wrong mode refused") ; }
#if RESET
	if (vp_pick (0, 1)) { float *o = vp_out (CH) ; vp_assert (src_callback_read (A, 1000.0, 1, o) == 0, "bad ratio refused") ; }
	vp_assert (src_reset (A) == 0, "reset") ;
	vp_assert (src_error (A) == 0, "no error after reset") ;
	S.pos = 0 ; S.calls = 0 ;
	suffix (A, &a) ;
	S.pos = 0 ; S.calls = 0 ;
	B = src_callback_new (supply, CT, CH, &err, &S) ;
	suffix (B, &b) ;
	cmprun (&a, &b, "after reset like a new callback converter") ;
	(void) U ; (void) mode ;
#else
	U = S ;
	B = src_clone (A, &err) ;
	vp_assert (B != NULL && err == 0, "clone succeeds") ;
	mode = vp_pick (0, 1) ;
	if (mode == 0) { suffix (A, &a) ; S = U ; suffix (B, &b) ; }
	else { suffix (B, &b) ; S = U ; suffix (A, &a) ; }
	cmprun (&a, &b, mode ? "original after its clone" : "clone after the original") ;
	{	SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = vp_out (CH) ; d.input_frames = 1 ; d.output_frames = 1 ; d.src_ratio = r1 ;
		vp_assert (src_process (A, &d) == src_process (B, &d), "same mode") ; }
#endif
	vp_log (a.g [0]) ; vp_log (a.g [1]) ;
	if (a.g [1] > 0) vp_reach ("output") ;
	src_delete (A) ; src_delete (B) ;
}
