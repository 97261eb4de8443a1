/* Stand-in for <immintrin.h> used only for the encoding: the two rounding intrinsics the library
** uses, expressed through one primitive (round to nearest even, INT_MIN when out of range). */
#ifndef VP_SHIM_IMMINTRIN_H
#define VP_SHIM_IMMINTRIN_H
typedef float __m128 ;
typedef double __m128d ;
extern int vp_lrint32 (double x) ;
static inline __m128 _mm_load_ss (const float *p) { return *p ; }
static inline __m128d _mm_load_sd (const double *p) { return *p ; }
static inline __m128 _mm_set_ss (float x) { return x ; }
static inline __m128d _mm_set_sd (double x) { return x ; }
static inline int _mm_cvtss_si32 (__m128 x) { return vp_lrint32 ((double) x) ; }
static inline int _mm_cvtsd_si32 (__m128d x) { return vp_lrint32 (x) ; }
#endif
