/* C19: results of a handle do not depend on calls on other handles; no library global is written. */
#include "vpc.h"
#define NIN 200
#ifdef VP_TSAN
/* replay of a write to shared mutable state: the same calls from two threads, under ThreadSanitizer */
#include <pthread.h>
static void battery (int ct, int ch)
{	int e, i, j, k ; SRC_STATE *s, *c ; SRC_DATA d ; float *in = calloc (200 * ch, sizeof (float)), *o = calloc (500 * ch, sizeof (float)) ; short sh [4] = { 1, 2, 3, 4 } ; int nt [4] ; float fl [4] = { 0.5f, -1.0f, 0.25f, 2.0f } ;
	for (i = 0 ; i < 200 * ch ; i++) in [i] = (i % 17) / 17.0f ;
	for (i = 0 ; i < NEL (vp_ratios) ; i++) for (j = 0 ; j < NEL (vp_sizes) ; j++) for (k = 0 ; k < NEL (vp_osizes) ; k++)
	{	s = src_new (ct, ch, &e) ; memset (&d, 0, sizeof (d)) ;
		d.data_in = in ; d.input_frames = vp_sizes [j] ; d.data_out = o ; d.output_frames = vp_osizes [k] ; d.src_ratio = vp_ratios [i] ;
		src_process (s, &d) ; d.input_frames = 100 ; d.output_frames = 400 ; src_process (s, &d) ;
		c = src_clone (s, &e) ; src_set_ratio (c, 1.1) ; d.end_of_input = 1 ; src_process (c, &d) ; src_reset (s) ; src_process (s, &d) ;
		d.src_ratio = -1 ; src_process (s, &d) ; src_error (s) ; src_delete (s) ; src_delete (c) ; }
	src_simple (&d, ct, ch) ;
	src_float_to_short_array (fl, sh, 4) ; src_short_to_float_array (sh, fl, 4) ; src_float_to_int_array (fl, nt, 4) ; src_int_to_float_array (nt, fl, 4) ;
	for (i = 0 ; i < 30 ; i++) { src_get_name (i) ; src_get_description (i) ; src_strerror (i) ; } 
	src_get_version () ; src_is_valid_ratio (1.0) ;
	free (in) ; free (o) ;
}
static void *thr (void *p) { (void) p ; battery (CT, CH) ; battery (CTB, CHB) ; return NULL ; }
void harness (void)
{	pthread_t a, b ; pthread_create (&a, NULL, thr, NULL) ; pthread_create (&b, NULL, thr, NULL) ; pthread_join (a, NULL) ; pthread_join (b, NULL) ; }
#else
void harness (void)
{	int k, i ; double r [K1], rb [K1] ; int n [K1], m [K1] ; res_t q [K1], p ; long ip = 0, jp = 0 ; int e1, e2 ; short sh [4] ; int nt [4] ; float fl [4] = { 0.5f, -1.0f, 0.25f, 2.0f } ; 
	float *in = malloc (NIN * CH * sizeof (float)), *in2 = malloc (NIN * CHB * sizeof (float)) ;
	SRC_STATE *A, *B, *C ; 
	vp_samples (in, NIN * CH) ; vp_samples (in2, NIN * CHB) ;
	vp_freeze_globals (1) ;
	for (k = 0 ; k < K1 ; k++) { r [k] = any_ratio () ; n [k] = any_size () ; m [k] = any_osize () ; rb [k] = vp_ratios [k % NEL (vp_ratios)] ; }
	A = mk (CT, CH) ;
	for (k = 0 ; k < K1 ; k++) { q [k] = call (A, in + ip * CH, n [k], m [k], r [k], k == K1 - 1) ; ip += q [k].used ; }
	e1 = src_error (A) ;
	src_delete (A) ;
	/* again, interleaved with another converter that stays alive, is reset, cloned, fails */
	B = mk (CTB, CHB) ;
	A = mk (CT, CH) ;
	ip = 0 ;
	for (k = 0 ; k < K1 ; k++)
	{	SRC_DATA d ; float *ob = vp_out (20 * CHB) ;
		i = vp_pick (0, 4) ;
		memset (&d, 0, sizeof (d)) ;
		d.data_in = in2 + jp * CHB ; d.input_frames = 7 ; d.data_out = ob ; d.output_frames = 20 ; d.src_ratio = i == 3 ? -1.0 : rb [k] ; d.end_of_input = i == 4 ;
		if (src_process (B, &d) == 0) jp += d.input_frames_used ;
		if (i == 1) { src_reset (B) ; jp = 0 ; }
		if (i == 2) { C = src_clone (B, NULL) ; src_delete (B) ; B = C ; }
		if (i == 4) src_set_ratio (B, 0.5) ;
		src_float_to_short_array (fl, sh, 4) ; src_short_to_float_array (sh, fl, 4) ; src_float_to_int_array (fl, nt, 4) ; src_int_to_float_array (nt, fl, 4) ;
		src_get_name (k) ; src_get_description (k) ; src_strerror (k) ; src_get_version () ; src_is_valid_ratio (1.0) ;
		p = call (A, in + ip * CH, n [k], m [k], r [k], k == K1 - 1) ; ip += p.used ;
		same_res (p, q [k], "interleaved calls on another handle change nothing") ;
		log_res (p) ;
	}
	e2 = src_error (A) ; vp_assert (e1 == e2, "error state") ;
	src_delete (B) ; src_delete (A) ;
	vp_freeze_globals (0) ;
	vp_reach ("end") ;
}
#endif
