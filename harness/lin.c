/* C06: linear interpolation semantics at a fixed ratio; K calls with symbolic block sizes and lengths. */
#include "vp.h"
#ifndef CH
#define CH 1
#endif
#define NN ((long) K * NB)
#define TOL 2e-6
/* output at position pos = j/r - 1; virtual frame -1 equals frame 0 */
static void check (const float *in, long limit, double pos, int c, double v)
{	long k = (long) floor (pos) ; double f = pos - (double) k, a, b ;
	if (k < 0) { a = in [c] ; b = in [c] ; }
	else
	{	a = in [k * CH + c] ;
		if (k + 1 < limit)
			b = in [(k + 1) * CH + c] ;
		else
		{	/* only rounding error can put the position at or beyond the last frame */
			vp_assert (pos < (double) limit - 1 + 1e-9, "position within the input") ;
			b = a ; f = 0 ;
		}
	}
	vp_close (v, a + f * (b - a), TOL, "linear interpolation at the read position") ;
}
void harness (void)
{	int err, k, c ; long ip = 0, j = 0 ;
#ifdef EXACT
	static const double exact [] = { EXACT } ;
	double r = exact [vp_pick (0, (int) (sizeof (exact) / sizeof (exact [0])) - 1)], s ;
#else
	double r = vp_real (RLO, RHI), s ;
#endif
	SRC_STATE *st = src_new (SRC_LINEAR, CH, &err) ;
	if (! st) return ;
	float *in = malloc (NN * CH * sizeof (float)) ;
	vp_lazy (in, NN * CH) ;
	s = 1.0 / r ;
	for (k = 0 ; k < K ; k++)
	{	SRC_DATA d ; int n = vp_int (1, NB), m = vp_int (0, MB) ; long g, i ;
		float *out = vp_out (m * CH) ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ip * CH ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r ;
		d.end_of_input = k == K - 1 ;
		vp_assert (src_process (st, &d) == 0, "process succeeds") ;
		g = d.output_frames_gen ;
		for (i = 0 ; i < g ; i++, j++)
			for (c = 0 ; c < CH ; c++)
				check (in, ip + n, j * s - 1.0, c, out [i * CH + c]) ;
		ip += d.input_frames_used ;
		vp_log (d.input_frames_used) ; vp_log (g) ; vp_logf (out, g * CH) ;
	}
	vp_reach (j > 1 ? "two outputs" : "few") ;
	src_delete (st) ;
}
