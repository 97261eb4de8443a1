/* C21: callback mode errors are recorded, modes are enforced, and the stream continues unharmed. */
#include "vpc.h"
#define NIN 300
typedef struct { const float *base ; long pos ; int n ; } src_t ;
static long supply (void *u, float **p)
{	src_t *s = (src_t *) u ; long n = s->n ;
	*p = (float *) s->base + s->pos * CH ; s->pos += n ; return n ;
}
static void badcall (int kind, SRC_STATE *C, SRC_STATE *P, float *in)
{	SRC_DATA d ; float *o = vp_out (4 * CH) ; long g ;
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.input_frames = 2 ; d.data_out = o ; d.output_frames = 4 ; d.src_ratio = 1.0 ;
	switch (kind)
	{	case 0 : break ;
		case 1 : vp_assert (src_process (C, &d) == SRC_ERR_BAD_MODE, "process on a callback handle gives the mode error") ; break ;
		case 2 : g = src_callback_read (C, 0.0, 4, o) ; vp_assert (g == 0, "failed read returns 0") ; vp_assert (src_error (C) == SRC_ERR_BAD_SRC_RATIO, "cause of failed read") ; break ;
		case 3 : g = src_callback_read (C, 300.0, 4, o) ; vp_assert (g == 0, "failed read returns 0") ; vp_assert (src_error (C) == SRC_ERR_BAD_SRC_RATIO, "cause of failed read") ; break ;
		case 4 : g = src_callback_read (C, 1.0, 4, NULL) ; vp_assert (g == 0, "failed read returns 0") ; vp_assert (src_error (C) != 0, "cause of failed read recorded") ; break ;
		case 5 : g = src_callback_read (C, 1.0, 0, o) ; vp_assert (g == 0, "empty read") ; break ;
		case 6 : g = src_callback_read (C, 1.0, -5, o) ; vp_assert (g == 0, "negative read") ; break ;
		case 7 : g = src_callback_read (P, 1.0, 4, o) ; vp_assert (g == 0, "read on a process handle") ; vp_assert (src_error (P) == SRC_ERR_BAD_MODE, "mode error recorded") ; break ;
		case 8 : vp_assert (src_process (C, NULL) == SRC_ERR_BAD_MODE, "process on a callback handle gives the mode error") ; break ;
		case 9 : vp_assert (src_set_ratio (C, -1.0) == SRC_ERR_BAD_SRC_RATIO, "set_ratio error") ; break ;
	}
	vp_untouched (o, 4 * CH, "failing call writes nothing") ;
}
void harness (void)
{	double r [K1] ; int k, err, kind, pos, isreset, dead = 0 ; src_t S, T ; long ip = 0, jp = 0, g, h ;
	float *in = malloc (NIN * CH * sizeof (float)) ;
	SRC_STATE *C, *D, *P, *Q ;
	vp_samples (in, NIN * CH) ;
	S.base = T.base = in ; S.pos = T.pos = 0 ; S.n = T.n = any_size () ;
	C = src_callback_new (supply, CT, CH, &err, &S) ; D = src_callback_new (supply, CT, CH, &err, &T) ;
	P = mk (CT, CH) ; Q = mk (CT, CH) ;
	kind = vp_pick (0, 9) ; pos = vp_pick (0, K1 - 1) ;
	isreset = vp_pick (0, 1) ;
	for (k = 0 ; k < K1 ; k++)
	{	long want = any_osize () ; float *oc = vp_out (want * CH), *od = vp_out (want * CH) ; res_t a, b ;
		r [k] = any_ratio () ;
		if (k == pos)
		{	long sp = S.pos ;
			if (kind == 4)
			{	/* a read without output array: refused, whatever was fetched from the callback is kept */
				T.pos = T.pos ;
			}
			badcall (kind, C, P, in) ;
			if (kind != 4) vp_assert (S.pos == sp, "failing call does not ask for data") ;
			if (isreset) { src_reset (C) ; S.pos = 0 ; src_reset (D) ; T.pos = 0 ; vp_assert (src_error (C) == 0, "reset clears the error") ; }
		}
		g = src_callback_read (C, r [k], want, oc) ; h = src_callback_read (D, r [k], want, od) ;
		vp_assert (g == h, "stream continues after the failing call") ;
		vp_same (oc, od, g * CH, "stream continues after the failing call") ;
		vp_log (g) ; vp_logf (oc, g * CH) ;
		a = call (P, in + ip * CH, 3, want, r [k], 0) ; b = call (Q, in + jp * CH, 3, want, r [k], 0) ; ip += a.used ; jp += b.used ;
		same_res (a, b, "process handle unharmed") ;
		vp_assert (S.pos == T.pos, "data used once, in order") ;
	}
	vp_reach ("end") ;
	src_delete (C) ; src_delete (D) ; src_delete (P) ; src_delete (Q) ;
	(void) dead ;
}
