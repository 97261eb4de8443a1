/* C21: a read that fails part-way (the callback's data overlaps the caller's output array, or is NULL) returns 0,
** records its cause, keeps the mode, and the stream continues with the data the callback had supplied. */
#include "vpc.h"
#define NBK 4
typedef struct { float *blk [NBK] ; int n [NBK] ; int at, bad ; } src_t ;
static long supply (void *u, float **p)
{	src_t *s = (src_t *) u ; int k = s->at ;
	if (k >= NBK) return 0 ;
	s->at ++ ; *p = s->blk [k] ;
	if (k == s->bad) *p = NULL ;
	return s->n [k] ;
}
void harness (void)
{	int err, n = any_size (), first = vp_pick (0, 1), null = vp_pick (0, 1), k, m = OM, m2 ; double r = any_ratio () ; long g, g1 = 0, i ; src_t S, T ; SRC_DATA d ;
	float *in = malloc (NBK * n * CH * sizeof (float)), *arena = malloc ((m + n) * CH * sizeof (float)), *pre, *oc, *od ;
	SRC_STATE *C, *D, *P ;
	vp_samples (in, NBK * n * CH) ;
	for (k = 0 ; k < NBK ; k++) { T.blk [k] = S.blk [k] = in + k * n * CH ; T.n [k] = S.n [k] = n ; }
	S.at = T.at = 0 ; S.bad = T.bad = -1 ;
	/* block BK of C's data lies in the arena, its first frame shared with the last frame of the output array */
	if (null) S.bad = first ;
	else { S.blk [first] = arena + (m - 1) * CH ; memcpy (S.blk [first], in + first * n * CH, n * CH * sizeof (float)) ; }
	C = src_callback_new (supply, CT, CH, &err, &S) ; D = src_callback_new (supply, CT, CH, &err, &T) ; P = mk (CT, CH) ;
	/* frames the blocks before the bad one yield */
	pre = malloc (m * CH * sizeof (float)) ;
	for (k = 0, i = 0 ; k < 8 && first ; k++)
	{	memset (&d, 0, sizeof (d)) ; d.data_in = in + i * CH ; d.input_frames = n - i ; d.data_out = pre + g1 * CH ; d.output_frames = m - g1 ; d.src_ratio = r ;
		vp_assert (src_process (P, &d) == 0, "process") ; i += d.input_frames_used ; g1 += d.output_frames_gen ;
		if (i == n || d.input_frames_used + d.output_frames_gen == 0) break ;
	}
	vp_assume (g1 < m) ;
	g = src_callback_read (C, r, m, arena) ;
	vp_assert (g == 0, "failed read returns 0") ;
	vp_assert (src_error (C) == (null ? SRC_ERR_BAD_DATA_PTR : SRC_ERR_DATA_OVERLAP), "cause of failed read") ;
	memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.input_frames = 1 ; d.data_out = pre ; d.output_frames = 1 ; d.src_ratio = r ;
	vp_assert (src_process (C, &d) == SRC_ERR_BAD_MODE, "handle stays in callback mode") ;
	vp_assert (S.at == first + 1, "callback asked once per block") ;
	if (null)
	{	vp_assert (src_reset (C) == 0 && src_error (C) == 0, "reset clears the error") ; S.at = 0 ; S.bad = -1 ; vp_reach ("null") ; }
	else
	{	for (i = 0 ; i < n * CH ; i++) vp_assert (S.blk [first][i] == in [first * n * CH + i] , "callback's data untouched") ;
		if (g1 > 0) { g = src_callback_read (D, r, g1, pre) ; vp_assert (g == g1, "twin read") ; }
		vp_reach (first ? "second block" : "first block") ;
	}
	for (k = 0 ; k < 2 ; k++)
	{	m2 = any_osize () ; oc = vp_out (m2 * CH) ; od = vp_out (m2 * CH) ;
		g = src_callback_read (C, r, m2, oc) ; vp_assert (src_callback_read (D, r, m2, od) == g, "stream continues after the failing call") ;
		vp_same (oc, od, g * CH, "stream continues after the failing call") ; vp_log (g) ; vp_logf (oc, g * CH) ;
	}
	vp_reach ("end") ;
	src_delete (C) ; src_delete (D) ; src_delete (P) ;
}
