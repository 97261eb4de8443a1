/* C18: any sequence of handle operations, then delete everything: nothing leaks, nothing is used after free. */
#include "vpc.h"
#define NIN 300
static long cpos ;
static float *cin ;
static long supply (void *u, float **p) { (void) u ; *p = cin + cpos * CH ; cpos += 3 ; return cpos > 200 ? 0 : 3 ; }
void harness (void)
{	SRC_STATE *h [6] ; int nh = 0, k, i, err ; long live = vp_heap_live () ; res_t q ; int cbm = vp_pick (0, 1) ; SRC_STATE *c ; float *o ;
	cin = malloc (NIN * CH * sizeof (float)) ; vp_opaque (cin, NIN * CH) ;
	h [nh] = cbm ? src_callback_new (supply, CT, CH, &err, NULL) : mk (CT, CH) ; nh = 1 ;
	for (k = 0 ; k < K1 ; k++)
	{	int op = vp_pick (0, 6), w = nh > 1 ? vp_pick (0, nh - 1) : 0 ;
		if (nh == 0) { h [nh++] = mk (CT, CH) ; cbm = 0 ; continue ; }
		switch (op)
		{	case 0 : if (cbm) { o = vp_out (4 * CH) ; src_callback_read (h [w], any_ratio (), 4, o) ; }
					else q = call (h [w], cin, 9, 4, any_ratio (), 0) ;
				break ;
			case 1 : if (cbm) { o = vp_out (40 * CH) ; src_callback_read (h [w], any_ratio (), 40, o) ; }
					else q = call (h [w], cin, 9, 30, any_ratio (), 1) ;
				break ;
			case 2 : vp_assert (src_reset (h [w]) == 0, "reset") ; break ;
			case 3 : if (nh < 6) { c = src_clone (h [w], &err) ; vp_assert (c != NULL && err == 0, "clone") ; h [nh++] = c ; } break ;
			case 4 : vp_assert (src_delete (h [w]) == NULL, "delete returns NULL") ; for (i = w ; i + 1 < nh ; i++) h [i] = h [i + 1] ; nh -- ; break ;
			case 5 : if (nh < 6) { h [nh] = NULL ; if (! cbm) { h [nh] = mk (CT, CH) ; nh ++ ; } } break ;
			case 6 : vp_assert (src_delete (NULL) == NULL, "delete accepts NULL") ; vp_assert (src_new (99, CH, &err) == NULL, "failed new") ; break ;
		}
	}
	for (i = 0 ; i < nh ; i++) vp_assert (src_delete (h [i]) == NULL, "delete returns NULL") ;
	vp_assert (vp_heap_live () == live, "everything allocated has been released") ;
	vp_reach ("end") ;
	(void) q ;
}
