/* shared helpers: symbolic request sequences on converter handles */
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include "vp.h"
#ifndef CT
#define CT SRC_LINEAR
#endif
#ifndef CH
#define CH 1
#endif
#ifndef RATIOS
#define RATIOS 1.0
#endif
#ifndef SIZES
#define SIZES 0, 1, 3
#endif
#ifndef OSIZES
#define OSIZES SIZES
#endif

static const double vp_ratios [] = { RATIOS } ;
static const int vp_sizes [] = { SIZES } ;
static const int vp_osizes [] = { OSIZES } ;
#define NEL(a) ((int) (sizeof (a) / sizeof (a [0])))

/* a ratio: symbolic over [RLO,RHI] when those are given, otherwise one of RATIOS */
static double any_ratio (void)
{
#ifdef RLO
	return vp_real (RLO, RHI) ;
#else
	return vp_ratios [vp_pick (0, NEL (vp_ratios) - 1)] ;
#endif
}
static int any_size (void)
{
#ifdef SMAX
	return vp_pick (SMIN, SMAX) ;
#else
	return vp_sizes [vp_pick (0, NEL (vp_sizes) - 1)] ;
#endif
}
static int any_osize (void)
{
#ifdef OMAX
	return vp_pick (OMIN, OMAX) ;
#else
	return vp_osizes [vp_pick (0, NEL (vp_osizes) - 1)] ;
#endif
}

/* request sizes of call k: the first PRE calls pick from SIZES/OSIZES, later ones any value of [NLO,NHI] x [MLO,MHI] */
#ifndef PRE
#define PRE 0
#endif
#if defined (NLO) && defined (NHI)
static int req_n (int k) { return k < PRE ? any_size () : vp_int (NLO, NHI) ; }
static int req_m (int k) { return k < PRE ? any_osize () : vp_int (MLO, MHI) ; }
#endif

/* the error numbers */
#include "config.h"
#include "common.h"

typedef struct { int rc ; long used, gen ; float *out ; int m ; } res_t ;

/* one processing call; input block is copied to an exact-size allocation of its own */
static res_t call (SRC_STATE *s, const float *in, int n, int m, double r, int eoi)
{	SRC_DATA d ; res_t q ;
	memset (&d, 0, sizeof (d)) ;
	q.out = vp_out ((long) m * CH) ; q.m = m ;
	d.data_in = in ; d.input_frames = n ; d.data_out = q.out ; d.output_frames = m ;
	d.src_ratio = r ; d.end_of_input = eoi ;
	d.input_frames_used = -7 ; d.output_frames_gen = -7 ;
	q.rc = src_process (s, &d) ;
	q.used = q.rc ? 0 : d.input_frames_used ; q.gen = q.rc ? 0 : d.output_frames_gen ;
	if (q.rc == 0)
	{	vp_assert (q.used >= 0 && q.used <= n, "input_frames_used within the request") ;
		vp_assert (q.gen >= 0 && q.gen <= m, "output_frames_gen within the request") ;
	}
	return q ;
}

static void same_res (res_t a, res_t b, const char *msg)
{	vp_assert (a.rc == b.rc, msg) ;
	vp_assert (a.used == b.used, msg) ;
	vp_assert (a.gen == b.gen, msg) ;
	if (a.rc == 0)
		vp_same (a.out, b.out, a.gen * CH, msg) ;
}

static void log_res (res_t a)
{	vp_log (a.rc) ; vp_log (a.used) ; vp_log (a.gen) ;
	if (a.rc == 0) vp_logf (a.out, a.gen * CH) ;
}

static SRC_STATE *mk (int ct, int ch)
{	int err = -1 ; SRC_STATE *s = src_new (ct, ch, &err) ;
	vp_assert (s != NULL && err == 0, "src_new with valid arguments") ;
	return s ;
}
#endif
