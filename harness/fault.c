/* C17: any subset of (up to NF) allocation failures in constructors, clone and one-shot conversion. */
#include "vpc.h"
#define NIN 60
static long supply (void *u, float **p) { (void) u ; (void) p ; return 0 ; }
void harness (void)
{	int err = -1, which = vp_pick (0, 3), k ; long live ; SRC_STATE *s = NULL, *c, *t ; res_t a, b ; SRC_DATA d ;
	float *in = malloc (NIN * CH * sizeof (float)), *o ;
	vp_samples (in, NIN * CH) ;
	live = vp_heap_live () ;
	if (which == 0 || which == 1)
	{	vp_faults (NF) ;
		s = which == 0 ? src_new (CT, CH, &err) : src_callback_new (supply, CT, CH, &err, NULL) ;
		vp_faults (0) ;
		if (! s)
		{	vp_assert (err == SRC_ERR_MALLOC_FAILED, "constructor reports the malloc error") ;
			vp_assert (vp_heap_live () == live, "failed constructor frees everything") ;
			vp_reach ("new failed") ;
			return ;
		}
		vp_assert (err == 0, "success has error zero") ;
		vp_reach ("new succeeded") ;
		if (which == 0)
		{	t = mk (CT, CH) ; a = call (s, in, 20, 20, 1.0, 1) ; b = call (t, in, 20, 20, 1.0, 1) ; same_res (a, b, "usable after construction") ; src_delete (t) ; }
		src_delete (s) ;
		vp_assert (vp_heap_live () == live, "delete frees everything") ;
	}
	else if (which == 2)
	{	long ip = 0, jp = 0 ; s = mk (CT, CH) ; t = mk (CT, CH) ;
		a = call (s, in, 9, 3, 1.5, 0) ; ip += a.used ; b = call (t, in, 9, 3, 1.5, 0) ; jp += b.used ;
		live = vp_heap_live () ;
		vp_faults (NF) ;
		c = src_clone (s, &err) ;
		vp_faults (0) ;
		if (! c)
		{	vp_assert (err == SRC_ERR_MALLOC_FAILED, "clone reports the malloc error") ;
			vp_assert (vp_heap_live () == live, "failed clone frees everything it allocated") ;
			vp_reach ("clone failed") ;
		}
		else
		{	vp_assert (err == 0, "clone success") ;
			vp_reach ("clone succeeded") ;
		}
		for (k = 0 ; k < 3 ; k++)
		{	a = call (s, in + ip * CH, 8, 6, 0.75, k == 2) ; ip += a.used ; b = call (t, in + jp * CH, 8, 6, 0.75, k == 2) ; jp += b.used ;
			same_res (a, b, "original usable after clone attempt") ; }
		if (c) src_delete (c) ;
		src_delete (s) ; src_delete (t) ;
		vp_assert (vp_heap_live () == 0, "everything released") ;
	}
	else
	{	int e ; o = vp_out (20 * CH) ;
		memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.input_frames = 20 ; d.data_out = o ; d.output_frames = 20 ; d.src_ratio = 1.0 ;
		vp_faults (NF) ; e = src_simple (&d, CT, CH) ; vp_faults (0) ;
		vp_assert (e == 0 || e == SRC_ERR_MALLOC_FAILED, "src_simple reports the malloc error") ;
		vp_assert (vp_heap_live () == live, "src_simple frees everything") ;
		vp_reach (e ? "simple failed" : "simple succeeded") ;
	}
}
