/* C20: callback reading equals processing the concatenated callback data; callback discipline. */
#include "vpc.h"
typedef struct { int magic ; const float *base ; long pos, total ; int calls, ended, after ; int blk [NBK + 1] ; } src_t ;
static src_t S ;
static float *bufs [NBK + 2] ;
static long supply (void *u, float **p)
{	src_t *s = (src_t *) u ; long n, i ;
	vp_assert (s == &S, "callback gets the user pointer") ;
	vp_assert (s->magic == 77, "user data intact") ;
	if (s->calls >= NBK) { s->ended = 1 ; s->calls ++ ; return 0 ; }
	n = s->blk [s->calls] ;
	if (s->pos + n > s->total) n = s->total - s->pos ;
	/* a block of its own: only the frames just supplied may be read */
	bufs [s->calls] = malloc ((n > 0 ? n : 1) * CH * sizeof (float)) ;
	for (i = 0 ; i < n * CH ; i++) bufs [s->calls][i] = s->base [s->pos * CH + i] ;
	*p = bufs [s->calls] ;
	s->pos += n ; s->calls ++ ;
	if (n == 0) s->ended = 1 ;
	return n ;
}
void harness (void)
{	double r = any_ratio () ; int k, err = -1 ; long got = 0, ref, sum = 0, i ; SRC_DATA d ;
	float *in = malloc (NIN * CH * sizeof (float)), *one = malloc (TOT * CH * sizeof (float)), *out = malloc (TOT * CH * sizeof (float)) ;
	SRC_STATE *P = mk (CT, CH), *C ;
	vp_samples (in, NIN * CH) ;
	S.magic = 77 ; S.base = in ; S.total = NIN ; S.pos = 0 ; S.calls = S.ended = 0 ;
	for (k = 0 ; k < NBK ; k++) { S.blk [k] = 1 + any_size () ; sum += S.blk [k] ; }
	if (sum > NIN) sum = NIN ;
	C = src_callback_new (supply, CT, CH, &err, &S) ;
	vp_assert (C != NULL && err == 0, "callback_new") ;
	for (k = 0 ; k < KMAX ; k++)
	{	long want = k < K1 ? any_osize () : OBLK, g ; float *o ;
		if (got + want > TOT) want = TOT - got ;
		o = vp_out (want * CH) ;
		g = src_callback_read (C, r, want, o) ;
		vp_assert (g >= 0 && g <= want, "read count") ;
		vp_assert (src_error (C) == 0, "no error recorded") ;
		if (g < want) vp_assert (S.ended, "short read only after the end of data") ;
		vp_defined (o, g * CH, "frames read are written") ;
		vp_untouched (o + g * CH, (want - g) * CH, "nothing written beyond the count") ;
		memcpy (out + got * CH, o, g * CH * sizeof (float)) ;
		got += g ;
		if (g < want) break ;
	}
	vp_assert (k < KMAX, "reading ends") ;
	vp_assert (S.pos == sum, "all data requested") ;
	/* reference: one process call on everything, then flush */
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.input_frames = sum ; d.data_out = one ; d.output_frames = TOT ; d.src_ratio = r ;
	vp_assert (src_process (P, &d) == 0, "reference process") ;
	ref = d.output_frames_gen ; i = d.input_frames_used ;
	vp_assert (i <= sum, "reference counts") ;
	for (k = 0 ; k < 40 ; k++)
	{	d.data_in = in + i * CH ; d.input_frames = sum - i ; d.data_out = one + ref * CH ; d.output_frames = TOT - ref ; d.end_of_input = sum == i ;
		vp_assert (src_process (P, &d) == 0, "reference flush") ;
		i += d.input_frames_used ; ref += d.output_frames_gen ;
		if (d.input_frames_used == 0 && d.output_frames_gen == 0) break ;
	}
	vp_log (got) ; vp_log (ref) ; vp_log (S.calls) ;
	vp_assert (got == ref, "callback stream has the length of the process stream") ;
	for (i = 0 ; i < got * CH ; i++)
		vp_close (out [i], one [i], CTOL, "callback stream equals process stream") ;
	vp_logf (out, got * CH) ;
	/* after the end: nothing more, no hang */
	{	float *o = vp_out (3 * CH) ; vp_assert (src_callback_read (C, r, 3, o) == 0, "nothing after the end") ; }
	if (got > 1) vp_reach ("output") ;
	src_delete (P) ; src_delete (C) ;
}
