/* C20: callback blocks and read requests whose sample count passes 2^31 / 2^32; contents abstracted. */
#include "vpc.h"
static const long vp_base [] = { 2147483648L / CH, 4294967296L / CH } ;
static long blk ; static float *bp ; static int calls, left ;
static long cb (void *u, float **data)
{	vp_assert (u == (void *) &calls, "user pointer") ;
	calls ++ ;
	if (left == 0) { *data = NULL ; return 0 ; }
	left -- ; *data = bp ; return blk ;
}
void harness (void)
{	int err = -1, k ; SRC_STATE *s = src_callback_new (cb, CT, CH, &err, &calls) ; long g ; double r = any_ratio () ;
	long n = vp_base [vp_pick (0, NEL (vp_base) - 1)] + vp_int (-SPAN, SPAN) ; float *out ;
	vp_assert (s != NULL && err == 0, "callback converter") ;
	if (vp_pick (0, 1))
	{	blk = n ; left = 1 ; bp = vp_huge (n * CH) ;
		for (k = 0 ; k < K1 ; k++)
		{	out = vp_huge (OSZ * CH) ;
			g = src_callback_read (s, r, OSZ, out) ;
			vp_log (g) ;
			vp_assert (g == OSZ, "a read is filled while data is left") ; vp_assert (src_error (s) == 0, "no error") ;
			vp_assert (calls == 1, "asked only when the data supplied before is used up") ;
		}
		vp_reach ("huge block") ;
	}
	else
	{	blk = BLK ; left = 2 ; bp = vp_huge (BLK * CH) ; out = vp_huge (n * CH) ;
		g = src_callback_read (s, r, n, out) ;
		vp_log (g) ;
		vp_assert (src_error (s) == 0, "no error") ; vp_assert (left == 0 && calls >= 3, "asked until the end of the data") ;
		vp_assert (g >= 1 && g <= 2 * BLK * r + 2 && g >= 2 * BLK * r - 2, "all of the stream") ;
		vp_reach ("huge read") ;
	}
	src_delete (s) ;
}
