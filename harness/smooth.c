/* C07: the response to one frame is band limited: seen on a grid as fine as the table it has no jump and no kink
** (third differences within SB), starts within a percent of the kernel's peak region and has died away at the end. */
#include "vpc.h"
void harness (void)
{	SRC_STATE *s = mk (CT, CH) ; SRC_DATA d ; long i, g ; int c ; double x [CH], peak = 0 ;
	float *in = malloc ((long) NIN * CH * sizeof (float)), *out = vp_out ((long) OMX * CH) ;
	for (i = 0 ; i < NIN * CH ; i++) in [i] = 0.0f ;
	vp_samples (in, CH) ;
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.input_frames = NIN ; d.data_out = out ; d.output_frames = OMX ; d.src_ratio = RATIOS ;
	vp_assert (src_process (s, &d) == 0, "process") ;
	g = d.output_frames_gen ;
	vp_assert (g == OMX, "output available") ;
	for (c = 0 ; c < CH ; c++)
	{	for (i = 3 ; i < g ; i++)
			vp_bounded (((double) out [i * CH + c] - out [(i - 3) * CH + c]) - 3.0 * ((double) out [(i - 1) * CH + c] - out [(i - 2) * CH + c]), SB, "band-limited response has no kink") ;
		vp_bounded (out [(g - 1) * CH + c], SB, "response dies away") ;
		vp_bounded (out [c] - in [c], 0.2, "peak near the frame's own time") ;
		for (i = 0 ; i < g ; i++) vp_bounded (out [i * CH + c], 1.0, "no frame is amplified") ;
	}
	(void) x ; (void) peak ;
	vp_log (g) ; vp_reach ("response") ;
	src_delete (s) ;
}
