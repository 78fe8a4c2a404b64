/* Symbolic numbers, bounds, intervals, expressions for the harnesses.
   */
#ifndef VPNUM_H
#define VPNUM_H
#include "vp.h"
#include "mpfr.h"
#include "num.h"
#include "bound.h"
#include "itv.h"
#include "ap_scalar.h"
#include "ap_interval.h"
#include "ap_coeff.h"
#include "ap_linexpr0.h"
#include "ap_lincons0.h"
/* ---- mpq ---- */
static inline void mpq_set_g(mpq_ptr q, g_t g) { mpq_set_d(q, g); }
/* sign of q - g */
static inline int mpq_cmp_g(mpq_srcptr q, g_t g)
{
  VP_ASSERT(mpz_sgn(mpq_denref(q)) != 0, "finite number expected");
  mpq_t t; mpq_init(t); mpq_set_d(t, g); int r = mpq_cmp(q, t); mpq_clear(t); return r;
}
/* ---- mpfr ---- */
#ifdef VP_SYM
extern void mpfr_set_exact_(mpfr_ptr f, double g);
static inline void mpfr_set_g(mpfr_ptr f, g_t g) { mpfr_set_exact_(f, g); }
#else
static inline void mpfr_set_g(mpfr_ptr f, g_t g) { mpfr_set_d(f, g, MPFR_RNDN); VP_ASSUME(mpfr_cmp_d(f, g) == 0); }
#endif
static inline int mpfr_cmp_g(mpfr_srcptr f, g_t g)
{ VP_ASSERT(mpfr_number_p(f), "finite number expected"); return mpfr_cmp_d(f, g); }
static inline int double_cmp_g(double d, g_t g) { return d > g ? 1 : d < g ? -1 : 0; }
/* ---- num_t ---- */
#if defined(NUM_MPQ)
#define num_set_g(n, g) mpq_set_g(n, g)
#define num_cmp_g(n, g) mpq_cmp_g(n, g)
#elif defined(NUM_MPFR)
#define num_set_g(n, g) mpfr_set_g(n, g)
#define num_cmp_g(n, g) mpfr_cmp_g(n, g)
#elif defined(NUM_DOUBLE) || defined(NUM_LONGDOUBLE)
#define num_set_g(n, g) (*(n) = (g))
#define num_cmp_g(n, g) double_cmp_g(*(n), g)
#elif defined(NUM_MPZ)
static inline void num_set_g(num_t n, g_t g) { mpz_set_d(n, g); }
static inline int num_cmp_g(num_t n, g_t g) { mpz_t t; mpz_init(t); mpz_set_d(t, g); int r = mpz_cmp(n, t); mpz_clear(t); return r; }
#elif defined(NUM_LONGINT) || defined(NUM_LONGLONGINT)
#define num_set_g(n, g) (*(n) = (long)(g))
#define num_cmp_g(n, g) (*(n) > (long)(g) ? 1 : *(n) < (long)(g) ? -1 : 0)
#endif
/* ---- bound_t ---- */
static inline void bound_set_g(bound_t b, g_t g) { bound_set_int(b, 0); num_set_g(bound_numref(b), g); }
/* sign of b - g */
static inline int bound_cmp_g(bound_t b, g_t g)
{ if (bound_infty(b)) return bound_sgn(b) > 0 ? 1 : -1; return num_cmp_g(bound_numref(b), g); }
/* ---- shadow interval: [lo,hi] with infinities ---- */
typedef struct { char linf, hinf; g_t lo, hi; } gitv;
static inline int gitv_mem(const gitv *a, g_t x) { return (a->linf | (a->lo <= x)) & (a->hinf | (x <= a->hi)); }
static inline int gitv_nonempty(const gitv *a) { return a->linf | a->hinf | (a->lo <= a->hi); }
/* any number: an integer if isint */
#ifdef INTB /* bounded integers */
static inline g_t g_in(int isint) { return isint ? vp_in(-INTB, INTB) : vp_real(); }
#else
static inline g_t g_in(int isint) { return isint ? vp_int() : vp_real(); }
#endif
/* which infinities an interval may have */
#ifndef INFS
#define INFS 4
#endif
static inline gitv gitv_any(int isint) /* possibly empty */
{ gitv a; int k = vp_choice(INFS); a.linf = k & 1; a.hinf = (k >> 1) & 1; a.lo = a.linf ? 0 : g_in(isint); a.hi = a.hinf ? 0 : g_in(isint); return a; }
/* symbolic non-empty interval */
static inline gitv gitv_in(int isint)
{ gitv a = gitv_any(isint); if (!a.linf && !a.hinf) VP_ASSUME(a.lo <= a.hi); return a; }
static inline gitv gitv_fin(int isint)
{ gitv a; a.linf = a.hinf = 0; a.lo = g_in(isint); a.hi = g_in(isint); VP_ASSUME(a.lo <= a.hi); return a; }
static inline g_t g_pick(const gitv *s, int isint) { g_t x = g_in(isint); VP_ASSUME((s->linf | (s->lo <= x)) & (s->hinf | (x <= s->hi))); return x; }
static inline gitv gitv_point(g_t x) { gitv a; a.linf = a.hinf = 0; a.lo = a.hi = x; return a; }
static inline void itv_set_g(itv_t a, const gitv *s)
{
  if (s->linf) bound_set_infty(a->inf, 1); else bound_set_g(a->inf, -s->lo);
  if (s->hinf) bound_set_infty(a->sup, 1); else bound_set_g(a->sup, s->hi);
}
static inline int itv_mem_g(itv_t a, g_t x) { return (bound_cmp_g(a->sup, x) >= 0) & (bound_cmp_g(a->inf, -x) >= 0); }
static inline int bound_isinf(bound_t b) { return bound_infty(b) && bound_sgn(b) > 0; }
static inline int bound_isfin(bound_t b, g_t g) { if (bound_infty(b)) return 0; return num_cmp_g(bound_numref(b), g) == 0; }
static inline int itv_eq_g(itv_t a, const gitv *s)
{ return (s->linf ? bound_isinf(a->inf) : bound_isfin(a->inf, -s->lo)) & (s->hinf ? bound_isinf(a->sup) : bound_isfin(a->sup, s->hi)); }
/* no point at all (over the reals) */
static inline int itv_empty(itv_t a)
{
  if (bound_infty(a->inf)) return bound_sgn(a->inf) < 0;
  if (bound_infty(a->sup)) return bound_sgn(a->sup) < 0;
  bound_t t; bound_init(t); bound_neg(t, a->inf); int r = bound_cmp(t, a->sup) > 0; bound_clear(t); return r;
}
/* ---- ap_scalar ---- */
#ifndef VP_SCALARS
#define VP_SCALARS 0 /* 0: mpq only; 1: mpq or double; 2: also mpfr; 3: double only; 4: mpfr only */
#endif
static inline void ap_scalar_set_g_discr(ap_scalar_t *s, g_t g, int d)
{
  if (d == 0) { ap_scalar_reinit(s, AP_SCALAR_MPQ); mpq_set_g(s->val.mpq, g); }
  else if (d == 1) { ap_scalar_reinit(s, AP_SCALAR_DOUBLE); s->val.dbl = g; }
  else { ap_scalar_reinit(s, AP_SCALAR_MPFR); mpfr_set_g(s->val.mpfr, g); }
}
static inline int vp_discr(void)
{
#if VP_SCALARS == 0
  return 0;
#elif VP_SCALARS == 1
  return vp_choice(2);
#elif VP_SCALARS == 2
  return vp_choice(3);
#elif VP_SCALARS == 3
  return 1;
#else
  return 2;
#endif
}
static inline void ap_scalar_set_g(ap_scalar_t *s, g_t g) { ap_scalar_set_g_discr(s, g, vp_discr()); }
static inline void ap_scalar_set_ginf(ap_scalar_t *s, int sgn)
{ int d = vp_discr(); if (d == 0) ap_scalar_reinit(s, AP_SCALAR_MPQ); else if (d == 1) ap_scalar_reinit(s, AP_SCALAR_DOUBLE); else ap_scalar_reinit(s, AP_SCALAR_MPFR); ap_scalar_set_infty(s, sgn); }
/* sign of s - g (s may be infinite) */
static inline int ap_scalar_cmp_g(ap_scalar_t *s, g_t g)
{
  int i = ap_scalar_infty(s);
  if (i) return i > 0 ? 1 : -1;
  if (s->discr == AP_SCALAR_MPQ) return mpq_cmp_g(s->val.mpq, g);
  if (s->discr == AP_SCALAR_DOUBLE) return double_cmp_g(s->val.dbl, g);
  return mpfr_cmp_g(s->val.mpfr, g);
}
static inline int ap_interval_mem_g(ap_interval_t *a, g_t x) { return (ap_scalar_cmp_g(a->inf, x) <= 0) & (ap_scalar_cmp_g(a->sup, x) >= 0); }
static inline void ap_interval_set_g(ap_interval_t *a, const gitv *s)
{
  if (s->linf) ap_scalar_set_ginf(a->inf, -1); else ap_scalar_set_g(a->inf, s->lo);
  if (s->hinf) ap_scalar_set_ginf(a->sup, 1); else ap_scalar_set_g(a->sup, s->hi);
}
static inline int ap_interval_eq_g(ap_interval_t *a, const gitv *s)
{
  int li = ap_scalar_infty(a->inf), hi = ap_scalar_infty(a->sup), r;
  if (s->linf) { if (li != -1) return 0; r = 1; } else { if (li) return 0; r = ap_scalar_cmp_g(a->inf, s->lo) == 0; }
  if (s->hinf) { if (hi != 1) return 0; } else { if (hi) return 0; r &= ap_scalar_cmp_g(a->sup, s->hi) == 0; }
  return r;
}
static inline void ap_coeff_set_g(ap_coeff_t *c, g_t g) { ap_coeff_reinit(c, AP_COEFF_SCALAR, AP_SCALAR_MPQ); ap_scalar_set_g(c->val.scalar, g); }
static inline void ap_coeff_set_gitv(ap_coeff_t *c, const gitv *s) { ap_coeff_reinit(c, AP_COEFF_INTERVAL, AP_SCALAR_MPQ); ap_interval_set_g(c->val.interval, s); }
/* c contains g */
static inline int ap_coeff_mem_g(ap_coeff_t *c, g_t g)
{ return c->discr == AP_COEFF_SCALAR ? ap_scalar_cmp_g(c->val.scalar, g) == 0 : ap_interval_mem_g(c->val.interval, g); }

/* ---- symbolic linear expressions ----
   kind 0: scalars; 1: interval constant; 2: one interval coefficient (any of them); 3: intervals everywhere.
   The expression comes with a concrete instance (one value picked in each coefficient) c[], c0. */
#ifndef VPD_MAX
#define VPD_MAX 4
#endif
typedef struct { g_t c[VPD_MAX]; g_t k; } glin;
/* picks: an arbitrary concrete instance of the expression.
   Coefficients: an arbitrary number when CB is 0, else an integer in -CB..CB (explored one by one when CX is set) */
#ifndef CB
#define CB 0
#endif
static int g_coef_n;
static inline g_t g_coef(void)
{
#if defined(CX) && CX == 2 /* 0, 1, -1 for the first one, 0 or 2 for the others */
  int first = !g_coef_n++; return first ? (g_t)(vp_choice(3) - 1) : (g_t)(2 * vp_choice(2));
#elif defined(CX)
  static const int set[] = { 0, 1, -1, 2, -3, 3, -2 }; return set[vp_choice(2 * CB + 1)]; /* CB <= 3 */
#else
  return CB ? vp_in(-CB, CB) : vp_real();
#endif
}
/* constants: any rational, or any integer when CI is set */
#ifdef CI
#define g_cst() vp_int()
#define CSTI 1
#else
#define g_cst() vp_real()
#define CSTI 0
#endif
static inline ap_linexpr0_t *linexpr_in(int dim, int kind, glin *pick, int sparse)
{
  ap_linexpr0_t *e = ap_linexpr0_alloc(sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, dim);
  g_coef_n = 0; int who = kind == 2 ? vp_choice(dim) : kind == 3 ? -1 : -2;
  for (int i = 0; i < dim; i++) {
    if (sparse) { e->p.linterm[i].dim = i; }
    ap_coeff_t *co = sparse ? &e->p.linterm[i].coeff : &e->p.coeff[i];
    if (who == i || who == -1) { gitv s; int k = who == i ? vp_choice(INFS) : 0; s.linf = k & 1; s.hinf = k >> 1; s.lo = s.linf ? 0 : g_coef(); s.hi = s.hinf ? 0 : g_coef(); if (!k) VP_ASSUME(s.lo <= s.hi); ap_coeff_set_gitv(co, &s); pick->c[i] = g_pick(&s, 0); }
    else { pick->c[i] = g_coef(); ap_coeff_set_g(co, pick->c[i]); }
  }
  if (kind == 1 || kind == 3) { gitv s = gitv_in(CSTI); ap_coeff_set_gitv(&e->cst, &s); pick->k = g_pick(&s, CSTI); }
  else { pick->k = g_cst(); ap_coeff_set_g(&e->cst, pick->k); }
  return e;
}
static inline g_t glin_eval(const glin *l, int dim, const g_t *x)
{
  g_t r = l->k;
  for (int i = 0; i < dim; i++) r = vp_add(r, vp_mul(l->c[i], x[i]));
  return r;
}
/* constraint e(x) op 0; m: modulo */
static inline int gcons_sat(int op, g_t v, g_t m)
{
  switch (op) {
  case AP_CONS_EQ: return v == 0;
  case AP_CONS_SUPEQ: return v >= 0;
  case AP_CONS_SUP: return v > 0;
  case AP_CONS_EQMOD: return m == 0 ? v == 0 : vp_isint(v / m);
  default: return v != 0;
  }
}
#endif
