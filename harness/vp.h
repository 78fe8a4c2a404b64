/* Harness interface.  The same harness text is
   - executed symbolically by the engine (VP_SYM): vp_int()/vp_real() are unbounded symbolic numbers,
     vp_choice() explores every alternative, VP_ASSERT() is decided by the solver for all values;
   - compiled natively for replay: the functions return the recorded values, GMP/MPFR are the real ones. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#ifdef __cplusplus
extern "C" {
#endif
/* numbers of the oracle: exact in the encoding (engine), doubles in replays */
typedef double g_t;
extern int vp_choice(int n);            /* 0..n-1 */
extern double vp_in(int lo, int hi);    /* integer in lo..hi */
extern double vp_int(void);             /* any integer */
extern double vp_real(void);            /* any rational */
extern long vp_long(void);              /* any 64-bit pattern */
extern int vp_isint(double x);
extern void vp_assume_(int c, const char *what);
extern void vp_assert_(int c, const char *msg);
extern void vp_cover_(void);
extern double vp_add(double, double), vp_sub(double, double), vp_mul(double, double);  /* exact whatever the mode */
extern long vp_live(void);              /* live heap objects (0 in replays) */
extern void vp_mode(int fp, int mpfr);  /* 1: operations round (upwards / as asked), 0: exact */
extern void vp_print(double), vp_printi(long);
#ifdef __cplusplus
}
#endif
#define VP_ASSUME(c) vp_assume_((c) != 0, #c)
#define VP_ASSERT(c, msg) vp_assert_((c) != 0, msg)
/* witness: must be reached, else the harness is vacuous */
#define VP_COVER(msg) vp_cover_()
#define VP_SETUP(s) s
#define VP_BOOL() vp_choice(2)
#define PICK(name, n) vp_choice(n)
#endif
