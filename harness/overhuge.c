/* C16: overlap and exact adjacency of arrays whose sample count passes 2^31 / 2^32; contents abstracted. */
#include "vpc.h"
static const long vp_base [] = { 2147483648L / CH, 4294967296L / CH } ;
void harness (void)
{	SRC_STATE *s = mk (CT, CH) ; SRC_DATA d ; float *arena ; int rc, delta, order ;
	long n = vp_base [vp_pick (0, NEL (vp_base) - 1)] + vp_int (-SPAN, SPAN), m = OSZ ;
	order = vp_pick (0, 3) ; delta = vp_int (-2, 2) ;
	arena = vp_huge ((n + m) * CH + 2) ;
	memset (&d, 0, sizeof (d)) ;
	if (order == 0) { d.data_in = arena ; d.input_frames = n ; d.data_out = arena + (n * CH + delta) ; d.output_frames = m ; }
	else if (order == 1) { d.data_out = arena ; d.output_frames = n ; d.data_in = arena + (n * CH + delta) ; d.input_frames = m ; }
	else if (order == 2) { d.data_out = arena ; d.output_frames = m ; d.data_in = arena + (m * CH + delta) ; d.input_frames = n ; }
	else { d.data_in = arena ; d.input_frames = m ; d.data_out = arena + (m * CH + delta) ; d.output_frames = n ; }
	d.src_ratio = 1.0 ; d.input_frames_used = d.output_frames_gen = -9 ; d.end_of_input = vp_pick (0, 1) ;
	rc = src_process (s, &d) ;
	vp_log (rc) ;
	if (delta >= 0) { vp_assert (rc == 0, "disjoint arrays are accepted") ; vp_reach ("disjoint") ; }
	else
	{	vp_assert (rc == SRC_ERR_DATA_OVERLAP, "overlapping arrays are rejected") ;
		vp_assert (d.input_frames_used == -9 && d.output_frames_gen == -9, "rejected before anything is done") ;
		vp_reach ("overlap") ;
	}
	src_delete (s) ;
}
