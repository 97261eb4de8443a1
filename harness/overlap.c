/* C16: overlap of input and output arrays is detected exactly. */
#include "vpc.h"
void harness (void)
{	float *arena = malloc (AR * sizeof (float)) ; SRC_DATA d ; int rc ; SRC_STATE *s = mk (CT, CH) ;
	int a = vp_int (0, AR - NB * CH), b = vp_int (0, AR - MB * CH), n = vp_int (NLO, NB), m = vp_int (NLO, MB), disjoint ; 
	vp_opaque (arena, AR) ;
	memset (&d, 0, sizeof (d)) ;
	d.data_in = arena + a ; d.data_out = arena + b ; d.input_frames = n ; d.output_frames = m ; d.src_ratio = 1.0 ;
	d.input_frames_used = d.output_frames_gen = -9 ;
	rc = src_process (s, &d) ;
	disjoint = a + n * CH <= b || b + m * CH <= a ;
	vp_log (rc) ;
	if (disjoint) { vp_assert (rc == 0, "disjoint arrays are accepted") ; vp_reach ("disjoint") ; }
	else
	{	vp_assert (rc == SRC_ERR_DATA_OVERLAP, "overlapping arrays are rejected") ;
		vp_assert (d.input_frames_used == -9 && d.output_frames_gen == -9, "rejected before anything is done") ;
		vp_reach ("overlap") ;
	}
	src_delete (s) ;
}
