/* C24: name, description and error string queries over all 2^32 arguments. */
#include "vpc.h"
static int len (const char *s) { int n = 0 ; while (s [n] && n < 400) n ++ ; return n ; }
static int eq (const char *a, const char *b) { int i ; for (i = 0 ; i < 400 ; i++) { if (a [i] != b [i]) return 0 ; if (! a [i]) return 1 ; } return 1 ; }
void harness (void)
{	int x = vp_int (-2147483647 - 1, 2147483647), err = -1, a, b ; const char *n, *d, *e, *f ; long live = vp_heap_live () ; SRC_STATE *s ;
	vp_freeze_globals (1) ;
#if PART == 0
	n = src_get_name (x) ; d = src_get_description (x) ;
	vp_assert ((n == NULL) == (d == NULL), "name and description known together") ;
	s = src_new (x, 1, &err) ;
	if (x != SRC_SINC_BEST_QUALITY) /* may be compiled out */
		vp_assert ((s == NULL) == (n == NULL), "named exactly when it can be created") ;
	vp_assert ((n != NULL) == (x >= 0 && x <= 4), "exactly the known converter numbers are named") ;
	if (s) src_delete (s) ;
	if (n)
	{	vp_assert (len (n) > 0 && len (n) < 400 && len (d) > 0 && len (d) < 400, "non-empty strings") ; vp_reach ("known") ;
		a = vp_pin (x) ;
		for (b = 0 ; b < 5 ; b++) if (b != a && (f = src_get_name (b)) != NULL) vp_assert (! eq (n, f), "distinct names") ;
		vp_assert (src_get_name (x) == n && src_get_description (x) == d, "repeatable") ;
	}
	else { vp_reach ("unknown") ; }
#else
	e = src_strerror (x) ;
	if (x >= 0 && x < SRC_ERR_MAX_ERROR)
	{	vp_assert (e != NULL, "every error code has a message") ;
		vp_assert (len (e) > 0 && len (e) < 400, "non-empty message") ;
		a = vp_pin (x) ;
		for (b = 0 ; b < SRC_ERR_MAX_ERROR ; b++)
			if (b != a) vp_assert (! eq (e, src_strerror (b)), "distinct messages") ;
		vp_reach ("known") ;
	}
	else if (x != SRC_ERR_MAX_ERROR /* internal placeholder */) { vp_assert (e == NULL, "unknown codes give NULL") ; vp_reach ("unknown") ; }
	vp_assert (src_strerror (x) == e, "repeatable") ;
	n = src_get_version () ; vp_assert (n != NULL && len (n) > 0, "version string") ;
#endif
	vp_assert (vp_heap_live () == live, "no allocation kept") ;
	vp_freeze_globals (0) ;
	(void) s ; (void) d ; (void) n ; (void) e ; (void) f ; (void) a ; (void) b ; (void) err ;
}
