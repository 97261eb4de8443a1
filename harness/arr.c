/* C22, C23: arrays of any length.  Element i of a conversion of length len is what a conversion of that one
** element gives, nothing else is written.  LONGN: one long array, symbolic at chosen positions. */
#include "vp.h"
#ifdef TOINT
typedef float in_t ;
#ifdef WIDE
typedef int out_t ;
#define CONV src_float_to_int_array
#else
typedef short out_t ;
#define CONV src_float_to_short_array
#endif
#define ANY vp_anyfloat ()
#define FILL 0x5a5a
#define PLAIN(i) (((float) ((i) % 2001) - 1000.0f) / 1024.0f)
#else
typedef float out_t ;
#ifdef WIDE
typedef int in_t ;
#define CONV src_int_to_float_array
#define ANY vp_int (-2147483647 - 1, 2147483647)
#else
typedef short in_t ;
#define CONV src_short_to_float_array
#define ANY ((short) vp_int (-32768, 32767))
#endif
#define FILL 123.5f
#define PLAIN(i) ((in_t) (((i) % 2001) - 1000))
#endif
#ifndef LONGN
void harness (void)
{	in_t in [N], keep [N] ; out_t out [N + 2], one ; int i, len = vp_int (-1, N) ;
	for (i = 0 ; i < N ; i++) { in [i] = ANY ; memcpy (keep + i, in + i, sizeof (in_t)) ; }
	for (i = 0 ; i < N + 2 ; i++) out [i] = FILL ;
	CONV (in, out + 1, len) ;
	for (i = 0 ; i < N ; i++)
	{	vp_assert (memcmp (keep + i, in + i, sizeof (in_t)) == 0, "input untouched") ;
		if (i >= len) { vp_assert (out [i + 1] == FILL, "nothing written beyond the length") ; continue ; }
		CONV (in + i, &one, 1) ;
		vp_assert (out [i + 1] == one, "each element is converted alike") ;
	}
	vp_assert (out [0] == FILL && out [N + 1] == FILL, "nothing written outside the array") ;
	for (i = 0 ; i < N + 2 ; i++) vp_log (out [i]) ;
	vp_reach ("end") ;
	if (len == N) vp_reach ("full length") ;
}
#else
static const int at [] = { 0, 32767, 32768, 65535, 65536, LONGN - 1 } ;
void harness (void)
{	in_t *in = malloc (LONGN * sizeof (in_t)), x ; out_t *out = malloc ((LONGN + 2) * sizeof (out_t)), one ; int i, k = vp_pick (0, 5), len = LONGN - vp_pick (0, 3) ;
	for (i = 0 ; i < LONGN ; i++) in [i] = PLAIN (i) ;
	for (i = 0 ; i < LONGN + 2 ; i++) out [i] = FILL ;
#ifdef TOINT
	x = (float) vp_real (-1.5, 1.5) ;
#else
	x = ANY ;
#endif
	in [at [k]] = x ;
	CONV (in, out + 1, len) ;
	for (i = 0 ; i < LONGN ; i++)
	{	if (i >= len) { vp_assert (out [i + 1] == FILL, "nothing written beyond the length") ; continue ; }
		if (i >= 2001 && i != at [k] && i - 2001 != at [k]) { vp_assert (out [i + 1] == out [i - 2000], "each element is converted alike") ; continue ; }
		CONV (in + i, &one, 1) ;
		vp_assert (out [i + 1] == one, "each element is converted alike") ;
	}
	vp_assert (out [0] == FILL && out [LONGN + 1] == FILL, "nothing written outside the array") ;
	vp_log (out [at [k] + 1]) ; vp_reach ("end") ;
}
#endif
