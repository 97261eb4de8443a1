/* C26: every bit pattern as a sample (NaN, infinities, denormals): same counts, and channels do not mix. */
#include "vp.h"
static int same (float a, float b) { return a == b || (a != a && b != b) ; }
static int go (const float *in, int n, float *out, int m, double r, SRC_DATA *d)
{	SRC_STATE *s ; int e, i, err ;
	s = src_new (CT, 2, &err) ; vp_assume (s != NULL) ;
	for (i = 0 ; i < 2 * N ; i++) out [i] = 9.0f ;
	memset (d, 0, sizeof (*d)) ; d->data_in = in ; d->input_frames = n ; d->data_out = out ; d->output_frames = m ; d->src_ratio = r ; d->end_of_input = 1 ;
	e = src_process (s, d) ; src_delete (s) ; return e ;
}
void harness (void)
{	float a [2 * N], b [2 * N], x [2 * N], y [2 * N] ; SRC_DATA p, q ; int i, e, f, n = N, m = N ;
	for (i = 0 ; i < N ; i++) { a [2 * i] = vp_anyfloat () ; a [2 * i + 1] = (float) i * 0.25f - 0.5f ; b [2 * i] = 0.0f ; b [2 * i + 1] = a [2 * i + 1] ; }
	e = go (a, n, x, m, RATIOS, &p) ; f = go (b, n, y, m, RATIOS, &q) ;
	vp_assert (e == 0 && f == 0, "valid requests succeed whatever the samples") ;
	vp_assert (p.input_frames_used == q.input_frames_used && p.output_frames_gen == q.output_frames_gen, "counts do not depend on sample values") ;
	for (i = 0 ; i < N ; i++)
		vp_assert (i < p.output_frames_gen ? same (x [2 * i + 1], y [2 * i + 1]) : (x [2 * i] == 9.0f && x [2 * i + 1] == 9.0f), "the other channel is untouched") ;
	vp_log (p.output_frames_gen) ; vp_log (p.input_frames_used) ;
	vp_reach ("end") ;
}
