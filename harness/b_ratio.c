/* C14: every double as a ratio, at every entry point. */
#include "vp.h"
#include "config.h"
#include "common.h"
static float cbdata [4] ;
static int asked ;
static long supply (void *u, float **p) { (void) u ; *p = cbdata ; asked ++ ; return 0 ; }
void harness (void)
{	double r = vp_anydouble () ; int valid, want, e, err = -1 ; SRC_STATE *s ; SRC_DATA d, k ; float in [2] = { 0.25f, -0.5f }, out [2] = { 9.0f, 9.0f } ;
	double lr, lp ;
	valid = src_is_valid_ratio (r) ;
	want = (r >= 0.00390625 && r <= 256.0) ? 1 : 0 ;
	vp_assert ((valid != 0) == want, "accepted exactly in [1/256,256]") ;
#if PART == 1
	s = src_new (CT, 1, &err) ; vp_assume (s != NULL) ;
	if (vp_pick (0, 1)) { e = src_set_ratio (s, 1.5) ; vp_assert (e == 0, "valid ratio accepted") ; }
	lr = s->last_ratio ; lp = s->last_position ;
	e = src_set_ratio (s, r) ;
	vp_assert (e == (want ? SRC_ERR_NO_ERROR : SRC_ERR_BAD_SRC_RATIO), "src_set_ratio agrees") ;
	if (want) vp_assert (s->last_ratio == r, "ratio set") ;
	else vp_assert (s->last_ratio == lr && s->last_position == lp && s->error == 0, "rejected ratio changes nothing") ;
	src_delete (s) ;
#elif PART == 2
	s = src_new (CT, 1, &err) ; vp_assume (s != NULL) ;
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.data_out = out ; d.input_frames = 0 ; d.output_frames = 0 ; d.src_ratio = r ;
	d.input_frames_used = 5 ; d.output_frames_gen = 6 ; k = d ;
	lr = s->last_ratio ; lp = s->last_position ;
	e = src_process (s, &d) ;
	vp_assert (e == (want ? SRC_ERR_NO_ERROR : SRC_ERR_BAD_SRC_RATIO), "src_process agrees") ;
	if (! want)
	{	vp_assert (s->last_ratio == lr && s->last_position == lp && s->error == 0, "rejected ratio changes nothing") ;
		vp_assert (d.input_frames_used == 5 && d.output_frames_gen == 6 && d.input_frames == k.input_frames && d.output_frames == 0, "rejected request keeps the counts") ;
		vp_assert (out [0] == 9.0f && out [1] == 9.0f, "rejected request writes nothing") ;
	}
	src_delete (s) ;
#elif PART == 3
	s = src_callback_new (supply, CT, 1, &err, NULL) ; vp_assume (s != NULL) ;
	lr = s->last_ratio ; lp = s->last_position ;
	{	long g = src_callback_read (s, r, 1, out) ;
		vp_assert (g == 0, "nothing read") ;
		vp_assert (src_error (s) == (want ? SRC_ERR_NO_ERROR : SRC_ERR_BAD_SRC_RATIO), "src_callback_read agrees") ;
		vp_assert (want || asked == 0, "rejected read does not ask for data") ;
		vp_assert (want || (s->last_ratio == lr && s->last_position == lp), "rejected ratio changes nothing") ;
	}
	src_delete (s) ;
#elif PART == 4
	memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.data_out = out ; d.input_frames = 0 ; d.output_frames = 1 ; d.src_ratio = r ;
	e = src_simple (&d, CT, 1) ;
	vp_assert (e == (want ? SRC_ERR_NO_ERROR : SRC_ERR_BAD_SRC_RATIO), "src_simple agrees") ;
#endif
	vp_log (valid) ; vp_log (src_is_valid_ratio (r)) ;
	if (want) vp_reach ("valid") ; else vp_reach ("invalid") ;
	(void) s ; (void) d ; (void) k ; (void) lr ; (void) lp ; (void) e ; (void) in ; (void) out ; (void) err ;
}
