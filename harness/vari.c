/* C13: ratio changes glide linearly across the output block; the read position is continuous.
** Ramp input: the linear converter's output is its read position, the ZOH output brackets it. */
#include "vpc.h"
#define EPS 1e-7
#define B (1.0 / 4096)
#ifdef CBM
/* callback mode: one block larger than all reads together, so every read is one processing step */
typedef struct { float *in ; int calls ; } src_t ;
static long supply (void *u, float **p) { src_t *s = (src_t *) u ; *p = s->in ; s->calls ++ ; return s->calls == 1 ? NIN : 0 ; }
#endif
void harness (void)
{
#ifdef CBM
	int err ; src_t S = { NULL, 0 } ; SRC_STATE *s = src_callback_new (supply, CT, 1, &err, &S) ;
#else
	SRC_DATA d ; SRC_STATE *s = mk (CT, 1) ;
#endif
	double pos = -1.0, r0, r1 = 0 ; long ip = 0, i, g, tot = 0 ; int k ;
	float *in = malloc ((long) NIN * sizeof (float)) ;
	vp_ramp (in, NIN, 0.0, B, 1) ;
	for (k = 0 ; k < K1 ; k++)
	{	int m = vp_pick (MLO, MHI), n = NFIX ; float *out = vp_out (m) ; double inv = 0 ; int set = 0 ;
		r0 = r1 ; r1 = any_ratio () ;
#ifdef SETX	/* a ratio set explicitly, also on the fresh handle, is where the next call starts from */
		if (vp_pick (0, 1)) { r0 = any_ratio () ; vp_assert (src_set_ratio (s, r0) == 0, "set_ratio") ; set = 1 ; }
		else if (k == 0) r0 = r1 ;
		if (0) ;
#else
		if (k == 0) r0 = r1 ;
#endif
		else if (SETMODE == 1 || (SETMODE == 2 && vp_pick (0, 1))) { vp_assert (src_set_ratio (s, r1) == 0, "set_ratio") ; r0 = r1 ; set = 1 ; }
#ifdef CBM
		(void) n ; (void) ip ;
		S.in = in ;
		g = src_callback_read (s, r1, m, out) ;
		vp_assert (g == m, "read delivers the frames asked for") ;
#else
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ip ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r1 ;
		vp_assert (src_process (s, &d) == 0, "process") ;
		vp_log (d.input_frames_used) ; ip += d.input_frames_used ;
		g = d.output_frames_gen ;
#endif
		for (i = 0 ; i < g ; i++)
		{	double want = pos < 0.0 ? 0.0 : pos, v = out [i] / B ;
			/* position of this output */
			if (CT == SRC_LINEAR)
			{	vp_assert (v <= want + 0.001 && v >= want - 0.001, "read position glides continuously") ; }
			else
			{	vp_assert (v <= want + EPS && (v > want - 1.0 - EPS), "read position glides continuously") ; }
			/* effective ratio of the step after output i: r0 + i*(r1-r0)/m */
			if (i == 0 || r0 != r1) inv = 1.0 / (r0 + i * (r1 - r0) / m) ;
			pos += inv ;
			tot ++ ;
		}
		vp_log (g) ; vp_logf (out, g) ;
		if (k > 0 && g > 1) vp_reach (set ? "set" : "glide") ;
		if (g > 0) r1 = (r0 == r1) ? r1 : r0 + (g - 1) * (r1 - r0) / m ;   /* where the glide has got to */
		else r1 = r0 ;
	}
	src_delete (s) ;
}
