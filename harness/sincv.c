/* C13 (sinc): while the ratio glides, output i of a call is the kernel for the effective ratio
** r0 + i*(r1-r0)/m applied at a read position that advances by its inverse. */
#include "vpc.h"
#include "kern.h"
#ifdef STARVE	/* small input blocks, ample room: the buffered input runs low */
#define REQN any_size ()
#else
#define REQN NFIX
#endif
void harness (void)
{	double pos = 0, r0, r1 = 0, re, want ; long ip = 0, i, g, tot = 0 ; int k ; SRC_DATA d ;
	SRC_STATE *s = mk (CT, CH) ;
	float *in = malloc ((long) NIN * CH * sizeof (float)) ;
	vp_samples (in, (long) NIN * CH) ;
	for (k = 0 ; k < K1 ; k++)
	{	int m = vp_pick (MLO, MHI), n = REQN ; float *out = vp_out ((long) m * CH) ; int set = 0 ;
		r0 = r1 ; r1 = want = any_ratio () ;
#ifdef SETX	/* a ratio set explicitly, also on the fresh handle, is where the next call starts from */
		if (vp_pick (0, 1)) { r0 = any_ratio () ; vp_assert (src_set_ratio (s, r0) == 0, "set_ratio") ; set = 1 ; }
		else if (k == 0) r0 = r1 ;
		if (0) ;
#else
		if (k == 0) r0 = r1 ;
#endif
		else if (vp_pick (0, 1)) { vp_assert (src_set_ratio (s, r1) == 0, "set_ratio") ; r0 = r1 ; set = 1 ; }
		if (n > NIN - ip) n = NIN - ip ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ip * CH ; d.data_out = out ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = r1 ;
		vp_assert (src_process (s, &d) == 0, "process") ;
		g = d.output_frames_gen ;
		re = r0 ;
		for (i = 0 ; i < g ; i++)
		{	re = r0 == r1 ? r1 : r0 + i * (r1 - r0) / m ;
			check (in, ip + d.input_frames_used, pos, re < 1.0 ? re : 1.0, out + i * CH) ;
			pos += 1.0 / re ; tot ++ ;
		}
		ip += d.input_frames_used ;
		vp_log (g) ; vp_log (d.input_frames_used) ; vp_logf (out, g * CH) ;
		if (k > 0 && g > 1) vp_reach (set ? "set" : "glide") ;
		r1 = g > 0 ? re : r0 ;   /* where the glide has got to */
	}
	src_delete (s) ;
}
