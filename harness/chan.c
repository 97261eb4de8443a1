/* C08: channel independence: every channel like a mono converter, counts differ by at most one. */
#include "vpc.h"
void harness (void)
{	int k, c ; long ipm = 0, ip1 [CH], tm = 0, t1 [CH], i ; double r = 1 ; int total = 0 ;
	SRC_STATE *M = mk (CT, CH), *S [CH] ;
	float *in = malloc (NIN * CH * sizeof (float)), *mono [CH], *om = malloc (TOT * CH * sizeof (float)), *o1 [CH] ;
	vp_samples (in, NIN * CH) ;
	for (c = 0 ; c < CH ; c++)
	{	int err ; S [c] = src_new (CT, 1, &err) ; vp_assert (S [c] != NULL, "new") ; ip1 [c] = t1 [c] = 0 ;
		mono [c] = malloc (NIN * sizeof (float)) ; o1 [c] = malloc (TOT * sizeof (float)) ;
		for (i = 0 ; i < NIN ; i++) mono [c][i] = in [i * CH + c] ;
	}
	r = any_ratio () ;
	for (k = 0 ; k < K1 ; k++)
	{	int n = any_size (), m = any_osize (), eoi = k == K1 - 1 ; SRC_DATA d ; long u ;
#ifndef FIXR
		if (k == 1) r = any_ratio () ;
#endif
		total += n ;       /* the stream so far, whatever the converters have not taken yet is offered again */
		if (eoi) m = TOT - tm ;
#ifdef SETR
		if (vp_pick (0, 1)) { src_set_ratio (M, r) ; for (c = 0 ; c < CH ; c++) src_set_ratio (S [c], r) ; }
#endif
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in + ipm * CH ; d.input_frames = total - ipm ; d.data_out = om + tm * CH ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = eoi ;
		vp_assert (src_process (M, &d) == 0, "multichannel process") ;
		u = d.input_frames_used ; vp_log (u) ; vp_log (d.output_frames_gen) ;
		ipm += u ; tm += d.output_frames_gen ;
		for (c = 0 ; c < CH ; c++)
		{	memset (&d, 0, sizeof (d)) ;
			d.data_in = mono [c] + ip1 [c] ; d.input_frames = total - ip1 [c] ; d.data_out = o1 [c] + t1 [c] ; d.output_frames = m ; d.src_ratio = r ; d.end_of_input = eoi ;
			vp_assert (src_process (S [c], &d) == 0, "mono process") ;
			ip1 [c] += d.input_frames_used ; t1 [c] += d.output_frames_gen ;
			vp_assert (t1 [c] - tm <= 1 && tm - t1 [c] <= 1, "frame counts differ by at most one") ;
			vp_assert (c == 0 || t1 [c] == t1 [0], "all channels produce the same number of frames") ;
		}
	}
	for (c = 0 ; c < CH ; c++)
	{	long n = tm < t1 [c] ? tm : t1 [c] ;
		for (i = 0 ; i < n ; i++)
			vp_close (om [i * CH + c], o1 [c][i], CTOL, "channel equals mono conversion") ;
	}
	vp_logf (om, tm * CH) ;
	if (tm > 1) vp_reach ("output") ;
	src_delete (M) ; for (c = 0 ; c < CH ; c++) src_delete (S [c]) ;
}
