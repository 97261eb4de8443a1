/* C15: invalid arguments give the documented error, valid constructor arguments succeed. */
#include "vpc.h"
static long supply (void *u, float **p) { (void) u ; (void) p ; return 0 ; }
static SRC_STATE *fresh (int ct, int ch, int *e) { return src_new (ct, ch, e) ; }
static int has (int ct) { return ct == SRC_LINEAR || ct == SRC_ZERO_ORDER_HOLD || ct == SRC_SINC_FASTEST || ct == SRC_SINC_MEDIUM_QUALITY ; }
static void ctors (void)
{	static const int chs [] = { -2147483647 - 1, -77, -1, 0, 1, 2, 3, 4, 6, 128, 129, 130, 1000, 2147483647 } ;
	int ct = vp_int (-2147483647 - 1, 2147483647), ch = chs [vp_pick (0, 13)], err = -5, cb = vp_pick (0, 3), ok_ct, ok_ch ; long live = vp_heap_live () ;
	SRC_STATE *s ;
	if (ct == 0) { vp_reach ("best quality: may be compiled out") ; return ; }
	ok_ct = has (ct) ; ok_ch = ch >= 1 && ch <= 128 ;
	if (! ok_ct) ;
	s = cb == 0 ? fresh (ct, ch, &err) : cb == 1 ? src_callback_new (supply, ct, ch, &err, NULL) : cb == 2 ? src_new (ct, ch, &err) : src_callback_new (NULL, ct, ch, &err, NULL) ;
	if (cb == 3)
	{	vp_assert (s == NULL && err == SRC_ERR_BAD_CALLBACK, "null callback is refused") ; vp_reach ("null callback") ; }
	else if (ok_ct && ok_ch)
	{	vp_assert (s != NULL, "valid constructor arguments succeed") ; vp_assert (err == 0, "error zero on success") ;
		vp_assert (src_get_channels (s) == ch, "channel count kept") ; vp_assert (src_error (s) == 0, "no error on a new handle") ; vp_reach ("success") ;
	}
	else if (! (! ok_ct && ! ok_ch) && ! (ok_ct && ch > 128))
	{	vp_assert (s == NULL, "invalid constructor arguments give NULL") ;
		vp_assert (err == (ok_ct ? SRC_ERR_BAD_CHANNEL_COUNT : SRC_ERR_BAD_CONVERTER), "constructor error code") ;
		vp_reach ("invalid") ;
	}
	else if (! ok_ct)
	{	vp_assert (s == NULL && (err == SRC_ERR_BAD_CHANNEL_COUNT || err == SRC_ERR_BAD_CONVERTER), "invalid constructor arguments") ; }
	else
	{	/* more than 128 channels: refused by the sinc converters, other converters may support them */
		if (ct <= SRC_SINC_FASTEST) vp_assert (s == NULL && err == SRC_ERR_BAD_CHANNEL_COUNT, "sinc channel limit") ;
		else vp_assert (s != NULL ? err == 0 : err != 0, "consistent result") ;
	}
	if (s == NULL) vp_assert (vp_heap_live () == live, "failed constructor keeps no memory") ;
	src_delete (s) ;
	/* error pointer is optional */
	if (s != NULL && cb == 0) { s = src_clone (NULL, NULL) ; vp_assert (s == NULL, "clone of NULL") ; }
}
/* the error pointer may be NULL : the same handles come back, whatever the outcome */
static void noerr (void)
{	static const int chs [] = { -3, 0, 1, 2, 5, 128 } ;
	int ct = vp_int (-2147483647 - 1, 2147483647), ch = chs [vp_pick (0, 5)], cb = vp_pick (0, 2), err = 77, ok ; long live = vp_heap_live () ; SRC_STATE *s, *c ;
	if (ct == 0) { vp_reach ("best quality: may be compiled out") ; return ; }
	ok = has (ct) && ch >= 1 ;
	s = cb == 0 ? src_new (ct, ch, NULL) : src_callback_new (cb == 1 ? supply : NULL, ct, ch, NULL, NULL) ;
	vp_assert ((s != NULL) == (ok && cb != 2), "constructor without error pointer: same outcome") ;
	if (s == NULL) { vp_assert (vp_heap_live () == live, "failed constructor keeps no memory") ; vp_reach ("refused without error pointer") ; return ; }
	vp_assert (src_get_channels (s) == ch && src_error (s) == 0, "handle made without error pointer") ;
	c = vp_pick (0, 1) ? src_clone (s, NULL) : src_clone (s, &err) ;
	vp_assert (c != NULL && (err == 77 || err == 0), "clone of a live handle") ;
	vp_assert (src_get_channels (c) == ch && src_error (c) == 0, "clone keeps the channel count") ;
	src_delete (c) ; src_delete (s) ; vp_assert (vp_heap_live () == live, "everything released") ; vp_reach ("no error pointer") ;
}
static void nulls (void)
{	int err = -5 ; SRC_DATA d ; float o [4], x [4] = { 0, 0, 0, 0 } ;
	memset (&d, 0, sizeof (d)) ; d.data_in = x ; d.data_out = o ; d.input_frames = 1 ; d.output_frames = 1 ; d.src_ratio = 1.0 ;
	vp_assert (src_process (NULL, &d) == SRC_ERR_BAD_STATE, "process NULL handle") ;
	vp_assert (src_process (NULL, NULL) == SRC_ERR_BAD_STATE, "process NULL handle") ;
	vp_assert (src_reset (NULL) == SRC_ERR_BAD_STATE, "reset NULL handle") ;
	vp_assert (src_set_ratio (NULL, 1.0) == SRC_ERR_BAD_STATE, "set_ratio NULL handle") ;
	vp_assert (src_get_channels (NULL) == - SRC_ERR_BAD_STATE, "get_channels NULL handle") ;
	vp_assert (src_delete (NULL) == NULL, "delete NULL handle") ;
	vp_assert (src_clone (NULL, &err) == NULL && err == SRC_ERR_BAD_STATE, "clone NULL handle") ;
	vp_assert (src_callback_read (NULL, 1.0, 1, o) == 0, "read NULL handle") ;
	vp_assert (src_error (NULL) == 0, "error of NULL handle") ;
	vp_assert (src_simple (NULL, SRC_LINEAR, 1) == SRC_ERR_BAD_DATA, "simple NULL request") ;
	vp_assert (src_callback_new (NULL, SRC_LINEAR, 1, NULL, NULL) == NULL, "null callback, no error pointer") ;
	vp_reach ("nulls") ;
}
/* bad requests: the right error, nothing else changes */
static void requests (void)
{	SRC_STATE *A = mk (CT, CH), *B = mk (CT, CH) ; SRC_DATA d, e ; int kind = vp_pick (0, 6), rc, when = vp_pick (0, 2), k, want ; long ia = 0, ib = 0 ;
	float *in = malloc (60 * CH * sizeof (float)), *o = vp_out (4 * CH) ; long n = vp_int (1, 9), m = vp_int (1, 4) ;
	vp_samples (in, 60 * CH) ;
	for (k = 0 ; k < 3 ; k++)
	{	res_t a, b ;
		if (k == when)
		{	memset (&d, 0, sizeof (d)) ;
			d.data_in = in ; d.data_out = o ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = 1.0 ; d.end_of_input = vp_pick (0, 1) ;
			want = SRC_ERR_BAD_DATA_PTR ;
			if (kind == 0) d.data_in = NULL ;
			if (kind == 1) d.data_out = NULL ;
			if (kind == 2) { d.data_in = NULL ; d.data_out = NULL ; }
			if (kind == 3) { d.src_ratio = 256.5 ; want = SRC_ERR_BAD_SRC_RATIO ; }
			if (kind == 4) { d.src_ratio = -1.0 ; want = SRC_ERR_BAD_SRC_RATIO ; }
			if (kind == 5) { d.data_out = in + (n - 1) * CH ; d.output_frames = 1 ; want = SRC_ERR_DATA_OVERLAP ; }
			if (kind == 6) want = SRC_ERR_BAD_DATA ;
			e = d ;
			rc = src_process (A, kind == 6 ? NULL : &d) ;
			vp_assert (rc == want, "documented error of a bad request") ;
			vp_assert (d.data_in == e.data_in && d.data_out == e.data_out && d.input_frames == e.input_frames && d.output_frames == e.output_frames
				&& d.end_of_input == e.end_of_input && d.src_ratio == e.src_ratio, "request fields kept") ;
			vp_untouched (o, 4 * CH, "rejected request writes nothing") ;
		}
		a = call (A, in + ia * CH, 9, 5, k == 2 ? 0.5 : 1.5, k == 2) ; ia += a.used ;
		b = call (B, in + ib * CH, 9, 5, k == 2 ? 0.5 : 1.5, k == 2) ; ib += b.used ;
		same_res (a, b, "rejected request does not change the converter") ;
		log_res (a) ;
	}
	src_delete (A) ; src_delete (B) ; vp_reach ("requests") ;
}
void harness (void)
{
#if PART == 0
	ctors () ;
#elif PART == 1
	nulls () ;
#elif PART == 3
	noerr () ;
#else
	requests () ;
#endif
}
