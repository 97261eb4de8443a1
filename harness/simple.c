/* C25: src_simple equals new + one final process call + delete, and keeps no memory. */
#include "vpc.h"
void harness (void)
{	double r = vp_pick (0, 4) == 0 ? BADR : any_ratio () ; int n = any_size (), m = any_osize (), err = -1, ra, rb, nul = vp_pick (0, 2) ; SRC_DATA a, b ;
	long live ; SRC_STATE *s ;
	float *in = malloc ((n > 0 ? n : 1) * CH * sizeof (float)), *oa = vp_out ((m > 0 ? m : 1) * CH), *ob = vp_out ((m > 0 ? m : 1) * CH) ;
	vp_samples (in, (n > 0 ? n : 1) * CH) ;
	memset (&a, 0, sizeof (a)) ;
	a.data_in = nul == 1 ? NULL : in ; a.input_frames = n ; a.data_out = nul == 2 ? NULL : oa ; a.output_frames = m ; a.src_ratio = r ;
	a.end_of_input = vp_pick (0, 1) ;
	b = a ; b.data_out = nul == 2 ? NULL : ob ; b.end_of_input = 1 ;
	live = vp_heap_live () ;
	ra = src_simple (&a, CT, CH) ;
	vp_assert (vp_heap_live () == live, "src_simple frees everything") ;
	s = src_new (CT, CH, &err) ;
	rb = s ? src_process (s, &b) : err ;
	vp_assert (ra == rb, "same return code") ;
	if (ra == 0)
	{	vp_assert (a.input_frames_used == b.input_frames_used, "same input count") ;
		vp_assert (a.output_frames_gen == b.output_frames_gen, "same output count") ;
		vp_same (oa, ob, a.output_frames_gen * CH, "same samples") ;
		vp_untouched (oa + a.output_frames_gen * CH, ((m > 0 ? m : 1) - a.output_frames_gen) * CH, "no output beyond the count") ;
		vp_log (a.output_frames_gen) ; vp_logf (oa, a.output_frames_gen * CH) ;
		vp_reach ("success") ;
	}
	else { vp_untouched (oa, (m > 0 ? m : 1) * CH, "rejected request writes nothing") ; vp_reach ("error") ; }
	src_delete (s) ;
}
