/* Harness primitives.  Three back ends: the symir engine (symbolic), native replay
** (native/vp_native.c, values read from a witness file) and CBMC (harness/vp_cbmc.h). */
#ifndef VP_H
#define VP_H
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "samplerate.h"
#ifdef __cplusplus
extern "C" {
#endif
int vp_int (int lo, int hi) ;                 /* symbolic int in [lo,hi] */
int vp_pick (int lo, int hi) ;                /* case split: one path per value */
int vp_pin (int v) ;                          /* case split over the feasible values of v */
float vp_anyfloat (void) ;                    /* any of the 2^32 bit patterns (CBMC jobs) */
double vp_anydouble (void) ;
double vp_real (double lo, double hi) ;       /* symbolic double in [lo,hi] */
void vp_samples (float *p, long n) ;          /* fill with n symbolic samples, each any value in [-1,1] (in [-MAG,MAG] with MAG) */
void vp_lazy (float *p, long n) ;             /* whole object = symbolic samples, symbolic length/index allowed */
void vp_ramp (float *p, long n, double a, double b, int ch) ; /* element i = a + b * (i / ch) */
void vp_opaque (float *p, long n) ;           /* contents irrelevant (abstracted) */
void vp_assume (int c) ;
#ifdef __CPROVER__
#define vp_assert(c,msg) __CPROVER_assert ((c), "vp: " msg)
#else
void vp_assert (int c, const char *msg) ;
#endif
void vp_close (double a, double b, double tol, const char *msg) ; /* |a-b| <= tol for all samples */
void vp_bounded (double a, double lim, const char *msg) ;
void vp_same (const float *a, const float *b, long n, const char *msg) ; /* same values (bit level up to 1 ulp) */
long vp_index (const float *base, long n, double v, const char *msg) ; /* v is bit for bit base[i]: returns i */
void vp_samev (double a, double b, const char *msg) ;
void vp_defined (const float *a, long n, const char *msg) ; /* nothing uninitialised */
void vp_untouched (const float *a, long n, const char *msg) ; /* fresh malloc area still unwritten */
#ifdef __CPROVER__
#define vp_reach(msg) __CPROVER_assert (0, "vp-reach: " msg)
#else
void vp_reach (const char *msg) ;             /* vacuity witness */
#endif
void vp_log (double v) ;                      /* trace compared with native execution */
void vp_logf (const float *p, long n) ;
long vp_heap_live (void) ;                    /* library allocations not yet freed */
void vp_faults (int n) ;                      /* up to n later library allocations may fail (0 = off) */
void vp_freeze_globals (int on) ;             /* any write to a library global is a violation */
void vp_abstract_copies (int on) ;
void vp_conc_limit (int n) ;
void vp_steps (long n) ;                      /* loop iterations allowed to the calls that follow (termination) */
int vp_symbolic (void) ;
float *vp_out (long nfloats) ;
float *vp_huge (long nfloats) ;               /* array beyond 2^31 samples, contents abstracted (native: sparse mapping) */
#ifdef MAG	/* samples range over [-MAG,MAG]; tolerances scale with it */
double vp_mag_value = MAG ;
#endif
#ifdef __cplusplus
}
#endif
#endif
