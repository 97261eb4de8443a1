/* C05: zero order hold semantics at a fixed symbolic ratio, K calls with symbolic block sizes. */
#include "vp.h"
#ifndef CH
#define CH 1
#endif
#ifdef EXACT	/* dyadic steps: every read position is exact, no tolerance */
static const double exact [] = { EXACT } ;
#define EPS 0.0
#else
#define EPS 1e-9
#endif
void harness (void)
{	int err, k, c ; long ip = 0, j = 0 ;
#ifdef EXACT
	double r = exact [vp_pick (0, (int) (sizeof (exact) / sizeof (exact [0])) - 1)], s ;
#else
	double r = vp_real (RLO, RHI), s ;
#endif
	SRC_STATE *st = src_new (SRC_ZERO_ORDER_HOLD, CH, &err) ;
	if (! st) return ;
	float *in = malloc ((long) K * NB * CH * sizeof (float)) ;
	vp_lazy (in, (long) K * NB * CH) ;
	s = 1.0 / r ;
	for (k = 0 ; k < K ; k++)
	{	SRC_DATA d ; int n = vp_int (1, NB), m = vp_int (0, MB) ; long g, i ;
		float *out = vp_out (m * CH) ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ip * CH ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ;
		d.end_of_input = k == K - 1 ;
		vp_assert (src_process (st, &d) == 0, "process succeeds") ;
		g = d.output_frames_gen ;
		for (i = 0 ; i < g ; i++, j++)
			for (c = 0 ; c < CH ; c++)
			{	long x = vp_index (in, (long) K * NB * CH, out [i * CH + c], "output is an input sample") ;
				double pos = j * s ;
				/* x = idx*CH + c, idx = floor (pos) - 1 or 0 */
				if (x == c)
					vp_assert (pos < 2.0 + EPS, "first frame only while the index is below one") ;
				else
				{	vp_assert ((double) (x - c) <= CH * (pos - 1.0 + EPS), "index not after the read position") ;
					vp_assert ((double) (x - c) > CH * (pos - 2.0 - EPS), "index not before the read position") ;
				}
			}
		ip += d.input_frames_used ;
		vp_log (d.input_frames_used) ; vp_log (g) ; vp_logf (out, g * CH) ;
	}
	vp_reach (j > 1 ? "two outputs" : "few") ;
	src_delete (st) ;
}
