/* Native replay of a harness: values come from a witness file in call order. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <stdint.h>
#include <sys/mman.h>
#include "vp.h"

static FILE *wf ;
static FILE *lf ;
static int narr ;
static long live ;
static int fault_on ;
static long nread ;

static void viol (const char *kind, const char *msg)
{	fflush (lf) ;
	printf ("VP-VIOLATION %s: %s\n", kind, msg) ;
	fflush (stdout) ;
	_exit (42) ;
}

static void nomatch (const char *what)
{	printf ("VP-NOMATCH %s\n", what) ;
	fflush (stdout) ;
	fflush (lf) ;
	_exit (3) ;
}

static int next (char kind, char *buf, size_t n)
{	static char line [1 << 16] ;
	if (! fgets (line, sizeof (line), wf))
		return 0 ;
	if (line [0] != kind)
		nomatch ("witness order") ;
	if (buf)
	{	strncpy (buf, line + 1, n - 1) ; buf [n - 1] = 0 ; }
	nread ++ ;
	return 1 ;
}

static char big [1 << 16] ;

int vp_int (int lo, int hi)
{	long v ;
	if (! next ('i', big, sizeof (big)))
		return lo ;
	v = strtol (big, NULL, 10) ;
	if (v < lo || v > hi) nomatch ("int range") ;
	return (int) v ;
}
float vp_anyfloat (void)
{	uint32_t u = 0 ; float f ;
	if (next ('u', big, sizeof (big))) u = (uint32_t) strtoul (big, NULL, 10) ;
	memcpy (&f, &u, 4) ; return f ;
}
double vp_anydouble (void)
{	uint64_t u = 0 ; double f ;
	if (next ('U', big, sizeof (big))) u = strtoull (big, NULL, 10) ;
	memcpy (&f, &u, 8) ; return f ;
}
int vp_pick (int lo, int hi) { return vp_int (lo, hi) ; }
int vp_pin (int v) { return v ; }
double vp_real (double lo, double hi)
{	double v ;
	if (! next ('r', big, sizeof (big)))
		return lo ;
	v = strtod (big, NULL) ;
	if (v < lo) v = lo ;
	if (v > hi) v = hi ;
	return v ;
}
extern double vp_mag_value __attribute__ ((weak)) ;
#define MAGV (&vp_mag_value ? vp_mag_value : 1.0)
static float defs (uint32_t k, uint32_t i)
{	uint32_t h = k * 2654435761u + i * 40503u + 12345u ;
	h ^= h >> 16 ; h *= 0x45d9f3bu ; h ^= h >> 16 ;
	return (float) ((int) (h & 0xffffff) - 0x800000) / 8388608.0f ;
}
static void fillarr (float *p, long n)
{	int k = narr++ ;
	for (long i = 0 ; i < n ; i++)
		p [i] = (float) MAGV * defs (k, (uint32_t) i) ;
	if (next ('s', big, sizeof (big)))
	{	char *s = big ; long c = strtol (s, &s, 10) ;
		while (c-- > 0)
		{	long i = strtol (s, &s, 10) ; double v = strtod (s, &s) ;
			if (i >= 0 && i < n) p [i] = (float) v ;
		}
	}
}
void vp_samples (float *p, long n) { fillarr (p, n) ; }
void vp_lazy (float *p, long n) { fillarr (p, n) ; }
void vp_opaque (float *p, long n) { fillarr (p, n) ; }
void vp_ramp (float *p, long n, double a, double b, int ch)
{	for (long i = 0 ; i < n ; i++) p [i] = (float) (a + b * (i / ch)) ; }
void vp_assume (int c) { if (! c) nomatch ("assumption") ; }
void vp_assert (int c, const char *msg) { if (! c) viol ("assert", msg) ; }
void vp_close (double a, double b, double tol, const char *msg)
{	if (! (fabs (a - b) <= tol * MAGV)) viol ("close", msg) ; }
void vp_bounded (double a, double lim, const char *msg)
{	if (! (fabs (a) <= lim * MAGV)) viol ("close", msg) ; }
static int samev (double a, double b)
{	double m = fabs (a) > 1.0 ? fabs (a) : 1.0 ;
	return a == b || (a != a && b != b) || fabs (a - b) <= 2e-7 * m ;
}
void vp_same (const float *a, const float *b, long n, const char *msg)
{	for (long i = 0 ; i < n ; i++) if (! samev (a [i], b [i])) viol ("same", msg) ; }
long vp_index (const float *base, long n, double v, const char *msg)
{	for (long i = 0 ; i < n ; i++) if (base [i] == v) return i ;
	viol ("assert", msg) ; return -1 ;
}
void vp_samev (double a, double b, const char *msg) { if (! samev (a, b)) viol ("same", msg) ; }
#define PATTERN 0x7fa5a5a5u
#ifdef VP_MSAN
#include <sanitizer/msan_interface.h>
void vp_defined (const float *a, long n, const char *msg)
{	if (n > 0 && __msan_test_shadow (a, n * sizeof (float)) >= 0) viol ("uninitialised", msg) ; }
void vp_untouched (const float *a, long n, const char *msg) { (void) a ; (void) n ; (void) msg ; }
float *vp_out (long n) { return malloc (n > 0 ? n * sizeof (float) : 1) ; }
#else
void vp_defined (const float *a, long n, const char *msg)
{	for (long i = 0 ; i < n ; i++)
	{	uint32_t u ; memcpy (&u, a + i, 4) ;
		if (u == PATTERN || a [i] != a [i]) viol ("uninitialised", msg) ;
	}
}
void vp_untouched (const float *a, long n, const char *msg)
{	for (long i = 0 ; i < n ; i++)
	{	uint32_t u ; memcpy (&u, a + i, 4) ;
		if (u != PATTERN) viol ("assert", msg) ;
	}
}
float *vp_out (long n)
{	float *p = malloc (n > 0 ? n * sizeof (float) : 1) ;
	uint32_t u = PATTERN ;
	for (long i = 0 ; i < n ; i++) memcpy (p + i, &u, 4) ;
	return p ;
}
#endif
void vp_reach (const char *msg) { fprintf (lf, "# %s\n", msg) ; }
void vp_log (double v) { fprintf (lf, "%a\n", v) ; }
void vp_logf (const float *p, long n) { for (long i = 0 ; i < n ; i++) vp_log (p [i]) ; }
long vp_heap_live (void) { return live ; }
void vp_faults (int n) { fault_on = n ; }
void vp_freeze_globals (int on) { (void) on ; }
void vp_abstract_copies (int on) { (void) on ; }
void vp_conc_limit (int n) { (void) n ; }
void vp_steps (long n) { (void) n ; }
int vp_symbolic (void) { return 0 ; }
float *vp_huge (long n)
{	void *p = mmap (NULL, n > 0 ? n * sizeof (float) : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) ;
	if (p == MAP_FAILED) nomatch ("no room for the mapping") ;
	return p ;
}

/* library allocations (symbols redirected by objcopy) */
static int fail (void)
{	if (fault_on <= 0) return 0 ;
	if (! next ('f', big, sizeof (big))) return 0 ;
	if (strtol (big, NULL, 10)) { fault_on -- ; return 1 ; }
	return 0 ;
}
void *vplib_malloc (size_t n)
{	if (fail ()) return NULL ;
	live ++ ;
	void *p = malloc (n) ;
#ifndef VP_MSAN
	if (p)
	{	uint32_t u = PATTERN ;
		for (size_t i = 0 ; i + 4 <= n ; i += 4) memcpy ((char *) p + i, &u, 4) ;
	}
#endif
	return p ;
}
void *vplib_calloc (size_t n, size_t m) { if (fail ()) return NULL ; live ++ ; return calloc (n, m) ; }
void *vplib_realloc (void *p, size_t n) { if (fail ()) return NULL ; if (! p) live ++ ; return realloc (p, n) ; }
void vplib_free (void *p) { if (p) live -- ; free (p) ; }

static void onalarm (int s) { (void) s ; static const char m [] = "VP-VIOLATION hang: no termination\n" ; if (write (1, m, sizeof (m) - 1)) {} ; _exit (44) ; }

extern void harness (void) ;
int main (int argc, char **argv)
{	wf = fopen (argv [1], "r") ;
	lf = argc > 2 ? fopen (argv [2], "w") : fopen ("/dev/null", "w") ;
	if (! wf || ! lf) return 2 ;
	signal (SIGALRM, onalarm) ;
	alarm (argc > 3 ? atoi (argv [3]) : 20) ;
	harness () ;
	fflush (lf) ;
	printf ("VP-OK\n") ;
	return 0 ;
}
