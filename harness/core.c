/* Level-0 data types: scalars, intervals, coefficients, linear expressions, constraints, dimension changes; environments. */
#include "vpnum.h"
#include "ap_dimension.h"
#include "ap_generator0.h"
#include "ap_environment.h"
#include "ap_var.h"
#include <limits.h>
bool ap_environment_check(ap_environment_t*);
bool ap_environment_check_compatibility(ap_environment_t*, ap_environment_t*);
/* ---- scalars: a kind (0 mpq, 1 double, 2 mpfr), a value or an infinity ---- */
typedef struct { int inf; g_t v; } gs;
static gs gs_any(int kinds) { gs s; int k = vp_choice(kinds); s.inf = k == 0 ? 0 : k == 1 ? 1 : -1; s.v = k ? 0 : vp_real(); return s; }
static gs gs_in(void) { return gs_any(3); }
static gs gs_fin(void) { return gs_any(1); }
static void sc_set(ap_scalar_t *a, const gs *s, int d)
{ if (!s->inf) ap_scalar_set_g_discr(a, s->v, d); else { ap_scalar_reinit(a, d == 0 ? AP_SCALAR_MPQ : d == 1 ? AP_SCALAR_DOUBLE : AP_SCALAR_MPFR); ap_scalar_set_infty(a, s->inf); } }
static ap_scalar_t *sc_new(const gs *s, int d) { ap_scalar_t *a = ap_scalar_alloc(); sc_set(a, s, d); return a; }
static int sc_is(ap_scalar_t *a, const gs *s) { int i = ap_scalar_infty(a); return i == s->inf && (i || ap_scalar_cmp_g(a, s->v) == 0); }
static int gs_lt(const gs *a, const gs *b) { return a->inf != b->inf ? a->inf < b->inf : a->inf ? 0 : a->v < b->v; }
static int gs_eq(const gs *a, const gs *b) { return a->inf != b->inf ? 0 : a->inf ? 1 : a->v == b->v; }
static int gs_sgn(const gs *a) { return a->inf ? a->inf : a->v > 0 ? 1 : a->v < 0 ? -1 : 0; }
static gs gs_neg(const gs *a) { gs r; r.inf = -a->inf; r.v = -a->v; return r; }
static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static ap_scalar_discr_t dk(int d) { return d == 0 ? AP_SCALAR_MPQ : d == 1 ? AP_SCALAR_DOUBLE : AP_SCALAR_MPFR; }

void h_scalar_order(void)
{
  gs x = gs_in(), y = gs_in(); int d = vp_choice(3), e = vp_choice(3);
  ap_scalar_t *a = sc_new(&x, d), *b = sc_new(&y, e);
  int c = ap_scalar_cmp(a, b), q = ap_scalar_equal(a, b);
  VP_ASSERT((sgn(c) < 0) == gs_lt(&x, &y) && (sgn(c) > 0) == gs_lt(&y, &x), "comparison of scalars is exact");
  VP_ASSERT(q == gs_eq(&x, &y), "equality of scalars is exact");
  VP_ASSERT(ap_scalar_sgn(a) == gs_sgn(&x), "sign of a scalar");
  VP_ASSERT(ap_scalar_infty(a) == x.inf, "infinity of a scalar");
  if (d == e && gs_eq(&x, &y)) { VP_ASSERT(ap_scalar_equal(a, b), "equal scalars"); }
  static const int ks[] = { 0, 1, -3, 1000000 }; int k = ks[vp_choice(4)]; gs g; g.inf = 0; g.v = k;
  c = ap_scalar_cmp_int(a, k);
  VP_ASSERT((sgn(c) < 0) == gs_lt(&x, &g) && (sgn(c) > 0) == gs_lt(&g, &x), "comparison with an integer");
  VP_ASSERT(ap_scalar_equal_int(a, k) == gs_eq(&x, &g), "equality with an integer");
  ap_scalar_free(a); ap_scalar_free(b);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("scalar order");
}
void h_scalar_set(void)
{
  gs x = gs_in(), y = gs_in(); int d = vp_choice(3), e = vp_choice(3);
  ap_scalar_t *a = sc_new(&x, d), *b = sc_new(&y, e), *c;
  switch (vp_choice(7)) {
  case 0: ap_scalar_set(a, b); VP_ASSERT(sc_is(a, &y) && a->discr == b->discr, "assignment of a scalar"); break;
  case 1: ap_scalar_set(a, a); VP_ASSERT(sc_is(a, &x), "assignment of a scalar to itself"); break;
  case 2: c = ap_scalar_alloc_set(b); VP_ASSERT(sc_is(c, &y) && c->discr == b->discr, "copy of a scalar"); ap_scalar_free(c); break;
  case 3: { gs n = gs_neg(&y); ap_scalar_neg(a, b); VP_ASSERT(sc_is(a, &n) && a->discr == b->discr, "negation of a scalar"); break; }
  case 4: { gs n = gs_neg(&x); ap_scalar_neg(a, a); VP_ASSERT(sc_is(a, &n), "negation of a scalar in place"); break; }
  case 5: ap_scalar_swap(a, b); VP_ASSERT(sc_is(a, &y) && sc_is(b, &x), "exchange of scalars"); ap_scalar_swap(a, b); break;
  case 6: { int s = vp_choice(3) - 1; gs n; n.inf = s; n.v = 0; ap_scalar_set_infty(a, s); VP_ASSERT(sc_is(a, &n) && a->discr == dk(d), "assignment of an infinity (or zero) keeps the type"); break; }
  }
  VP_ASSERT(sc_is(b, &y), "source unchanged");
  ap_scalar_free(a); ap_scalar_free(b);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("scalar set");
}
void h_scalar_set2(void)
{
  gs x = gs_fin(), y = gs_fin(); int d = vp_choice(3);
  ap_scalar_t *a = sc_new(&x, d);
  switch (vp_choice(5)) {
  case 0: { mpq_t q; mpq_init(q); mpq_set_g(q, y.v); ap_scalar_set_mpq(a, q); VP_ASSERT(a->discr == AP_SCALAR_MPQ && sc_is(a, &y), "assignment of a rational"); ap_scalar_t *c = ap_scalar_alloc_set_mpq(q); VP_ASSERT(c->discr == AP_SCALAR_MPQ && sc_is(c, &y), "copy of a rational"); ap_scalar_free(c); mpq_clear(q); break; }
  case 1: { ap_scalar_set_double(a, y.v); VP_ASSERT(a->discr == AP_SCALAR_DOUBLE && sc_is(a, &y), "assignment of a double"); ap_scalar_t *c = ap_scalar_alloc_set_double(y.v); VP_ASSERT(c->discr == AP_SCALAR_DOUBLE && sc_is(c, &y), "copy of a double"); ap_scalar_free(c); break; }
  case 2: { mpfr_t f; mpfr_init2(f, 200); mpfr_set_g(f, y.v); ap_scalar_set_mpfr(a, f); VP_ASSERT(a->discr == AP_SCALAR_MPFR && sc_is(a, &y) && mpfr_get_prec(a->val.mpfr) == 200, "assignment of an mpfr"); ap_scalar_t *c = ap_scalar_alloc_set_mpfr(f); VP_ASSERT(c->discr == AP_SCALAR_MPFR && sc_is(c, &y), "copy of an mpfr"); ap_scalar_free(c); mpfr_clear(f); break; }
  case 3: { static const long is[] = { 0, -7, LONG_MAX, LONG_MIN }; long i = is[vp_choice(4)]; ap_scalar_set_int(a, i); VP_ASSERT(a->discr == AP_SCALAR_MPQ && mpq_cmp_si(a->val.mpq, i, 1) == 0, "assignment of an integer"); break; }
  case 4: { static const long is[] = { 6, -7, 0, -4 }; static const unsigned long js[] = { 1, 2, 3, 4 }; long i = is[vp_choice(4)]; unsigned long j = js[vp_choice(4)]; ap_scalar_set_frac(a, i, j); VP_ASSERT(a->discr == AP_SCALAR_MPQ && mpz_get_si(mpq_numref(a->val.mpq)) * (long)j == i * mpz_get_si(mpq_denref(a->val.mpq)), "assignment of a fraction"); mpq_t q; mpq_init(q); mpq_set(q, a->val.mpq); mpq_canonicalize(q); VP_ASSERT(mpz_cmp(mpq_numref(q), mpq_numref(a->val.mpq)) == 0, "fractions are canonical"); mpq_clear(q); break; }
  }
  ap_scalar_free(a);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("scalar set2");
}
/* conversions: exact when arithmetic is exact; on the asked side with a truthful flag when it rounds */
void h_scalar_convert(void)
{
  gs x = gs_in(); int d = vp_choice(3), rnd = vp_choice(2);
  ap_scalar_t *a = sc_new(&x, d);
#ifdef ROUND
  vp_mode(1, 1);
#endif
  mp_rnd_t r = rnd ? GMP_RNDD : GMP_RNDU; int res;
  switch (vp_choice(4)) {
  case 3: { /* a number with more bits than a double */ double k; mpfr_t f; int s = vp_choice(2); mpfr_init2(f, 200); mpfr_set_si(f, 1, GMP_RNDN); mpfr_div_2ui(f, f, 60, GMP_RNDN); mpfr_add_ui(f, f, 1, GMP_RNDN); if (s) mpfr_neg(f, f, GMP_RNDN);
      ap_scalar_t *b = ap_scalar_alloc(); ap_scalar_set_mpfr(b, f); res = ap_double_set_scalar(&k, b, r); int c = mpfr_cmp_d(f, k);
      VP_ASSERT(rnd ? c >= 0 : c <= 0, "conversion to double rounds as asked"); VP_ASSERT((res > 0) == (c < 0) && (res < 0) == (c > 0), "the result of the conversion to double says how it was rounded");
      ap_scalar_free(b); mpfr_clear(f); break; }
  case 0: { mpq_t q; mpq_init(q); res = ap_mpq_set_scalar(q, a, r); VP_ASSERT(res == 0, "conversion to rationals is exact");
      if (x.inf) VP_ASSERT(mpz_sgn(mpq_denref(q)) == 0 && mpz_sgn(mpq_numref(q)) == x.inf, "infinite rational"); else VP_ASSERT(mpq_cmp_g(q, x.v) == 0, "value of the rational"); mpq_clear(q); break; }
  case 1: { double k; res = ap_double_set_scalar(&k, a, r);
      if (x.inf) { VP_ASSERT(k == x.inf * (1.0 / 0.0), "infinite double"); break; }
      VP_ASSERT(rnd ? k <= x.v : k >= x.v, "conversion to double rounds as asked");
      VP_ASSERT((res > 0) == (k > x.v) && (res < 0) == (k < x.v), "the result of the conversion to double says how it was rounded"); break; }
  case 2: { mpfr_t f; mpfr_init2(f, 24); res = ap_mpfr_set_scalar(f, a, r);
      if (x.inf) { VP_ASSERT(mpfr_inf_p(f) && (mpfr_sgn(f) > 0) == (x.inf > 0), "infinite mpfr"); mpfr_clear(f); break; }
      int c = mpfr_cmp_g(f, x.v);
      VP_ASSERT(rnd ? c <= 0 : c >= 0, "conversion to mpfr rounds as asked");
      VP_ASSERT((res > 0) == (c > 0) && (res < 0) == (c < 0), "the result of the conversion to mpfr says how it was rounded"); mpfr_clear(f); break; }
  }
  VP_COVER("scalar convert");
}
void h_scalar_inv(void)
{
  gs x = gs_fin(); int d = vp_choice(3); VP_ASSUME(x.v != 0);
  ap_scalar_t *a = sc_new(&x, d), *b = vp_choice(2) ? ap_scalar_alloc() : a;
  ap_scalar_inv(b, a);
  VP_ASSERT(b->discr == dk(d), "type of the inverse");
  if (d == 1) VP_ASSERT(b->val.dbl * x.v == 1, "inverse of a double");
  else { mpq_t q, y; mpq_init(q); mpq_init(y); ap_mpq_set_scalar(q, b, GMP_RNDU); mpq_set_g(y, x.v); mpq_mul(q, q, y); VP_ASSERT(mpq_cmp_si(q, 1, 1) == 0, "inverse of a number"); }
  VP_COVER("scalar inv");
}
/* hash: defined for every scalar, equal for equal scalars of the same kind */
void h_scalar_hash(void)
{
  int k = vp_choice(8), n; gs x, y; x.inf = y.inf = 0; x.v = y.v = 0;
  ap_scalar_t *a = ap_scalar_alloc(), *b = ap_scalar_alloc();
  if (k < 3) { n = vp_choice(5) - 2; sc_set(a, &x, k); if (k == 0) ap_scalar_set_frac(a, n, 2); else { x.v = n / 2.0; sc_set(a, &x, k); } ap_scalar_set(b, a); }
  else if (k == 3) { ap_scalar_set_int(a, 1); mpq_div_2exp(a->val.mpq, a->val.mpq, 64); ap_scalar_set(b, a); }
  else if (k == 4) { ap_scalar_set_int(a, -5); mpq_mul_2exp(a->val.mpq, a->val.mpq, 70); ap_scalar_set(b, a); }
  else { x.inf = k == 5 ? 1 : -1; n = vp_choice(3); sc_set(a, &x, n); sc_set(b, &x, n); }
  VP_ASSERT(ap_scalar_hash(a) == ap_scalar_hash(b), "equal scalars hash equally");
  VP_COVER("scalar hash");
}
/* ---- intervals and coefficients ---- */
typedef struct { gs lo, hi; } gi;
static int NK = 3; /* kinds of bounds: 1 finite only, 2: absent bounds (-oo below, +oo above), 3: any infinity */
static gs gs_bound(int up) { gs s; int k = vp_choice(NK); s.inf = k == 0 ? 0 : (k == 1) == up ? 1 : -1; s.v = k ? 0 : vp_real(); return s; }
static gi gi_in(void) { gi s; s.lo = gs_bound(0); s.hi = gs_bound(1); return s; }
static int gi_bot(const gi *a) { return gs_lt(&a->hi, &a->lo); }
static int gi_leq(const gi *a, const gi *b) { return gi_bot(a) || (!gs_lt(&a->lo, &b->lo) && !gs_lt(&b->hi, &a->hi)); }
static void iv_set(ap_interval_t *a, const gi *s, int d) { sc_set(a->inf, &s->lo, d); sc_set(a->sup, &s->hi, d); }
static int iv_is(ap_interval_t *a, const gi *s) { return sc_is(a->inf, &s->lo) && sc_is(a->sup, &s->hi); }
#ifndef DK
#define DK 2 /* number of kinds of numbers explored */
#endif
static int kind1(void) { return DK == 3 ? vp_choice(3) : 2 * vp_choice(2) % 3; }
void h_interval_order(void)
{
  gi x = gi_in(), y = gi_in(); int d = vp_choice(DK);
  ap_interval_t *a = ap_interval_alloc(), *b = ap_interval_alloc(); iv_set(a, &x, d); iv_set(b, &y, vp_choice(DK));
  int xb = gi_bot(&x), yb = gi_bot(&y), l = gi_leq(&x, &y), g = gi_leq(&y, &x);
  VP_ASSERT(ap_interval_is_bottom(a) == xb, "emptiness of an interval");
  VP_ASSERT(ap_interval_is_top(a) == (x.lo.inf < 0 && x.hi.inf > 0), "universal interval");
  VP_ASSERT(ap_interval_is_leq(a, b) == l, "inclusion of intervals");
  VP_ASSERT(ap_interval_equal(a, b) == (l && g), "equality of intervals");
  int c = ap_interval_cmp(a, b);
  VP_ASSERT(c >= -2 && c <= 2, "range of the comparison of intervals");
  VP_ASSERT((c == 0) == (l && g), "comparison of equal intervals");
  VP_ASSERT((c == -1) == (l && !g) && (c == 1) == (g && !l), "comparison of included intervals");
  VP_ASSERT((c == -2) ? gs_lt(&x.lo, &y.lo) : 1, "comparison of lower bounds (-2)");
  VP_ASSERT((c == 2) ? gs_lt(&y.lo, &x.lo) : 1, "comparison of lower bounds (+2)");
  int k = vp_choice(3) - 1; gs n; n.inf = 0; n.v = k;
  VP_ASSERT(ap_interval_equal_int(a, k) == (gs_eq(&x.lo, &n) && gs_eq(&x.hi, &n)), "equality of an interval with an integer");
  ap_interval_free(a); ap_interval_free(b);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("interval order");
}
void h_interval_set(void)
{
  gi x = gi_in(), y = gi_in(); int d = vp_choice(3), e = vp_choice(3);
  ap_interval_t *a = ap_interval_alloc(), *b = ap_interval_alloc(), *c; iv_set(a, &x, d); iv_set(b, &y, e);
  switch (vp_choice(7)) {
  case 0: ap_interval_set(a, b); VP_ASSERT(iv_is(a, &y), "assignment of an interval"); break;
  case 1: c = ap_interval_alloc_set(b); VP_ASSERT(iv_is(c, &y), "copy of an interval"); ap_interval_free(c); break;
  case 2: ap_interval_neg(a, b); { gi n; n.lo = gs_neg(&y.hi); n.hi = gs_neg(&y.lo); VP_ASSERT(iv_is(a, &n), "opposite of an interval"); } break;
  case 3: ap_interval_neg(a, a); { gi n; n.lo = gs_neg(&x.hi); n.hi = gs_neg(&x.lo); VP_ASSERT(iv_is(a, &n), "opposite of an interval in place"); } break;
  case 4: ap_interval_set_top(a); VP_ASSERT(ap_interval_is_top(a) && a->inf->discr == dk(d) && a->sup->discr == dk(d), "universal interval, type kept"); break;
  case 5: ap_interval_set_bottom(a); VP_ASSERT(ap_interval_is_bottom(a) && a->inf->discr == dk(d) && a->sup->discr == dk(d) && ap_scalar_equal_int(a->inf, 1) && ap_scalar_equal_int(a->sup, -1), "empty interval [1,-1], type kept"); break;
  case 6: ap_interval_set_scalar(a, b->sup, b->inf); { gi n; n.lo = y.hi; n.hi = y.lo; VP_ASSERT(iv_is(a, &n), "interval of two scalars"); } break;
  }
  VP_ASSERT(iv_is(b, &y), "source unchanged");
  ap_interval_free(a); ap_interval_free(b);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("interval set");
}
/* coefficients: scalar or interval */
typedef struct { int itv; gi v; } gc;
static gc gc_any(void) { gc c; c.itv = vp_choice(2); if (c.itv) c.v = gi_in(); else c.v.lo = c.v.hi = gs_in(); return c; }
static void co_set(ap_coeff_t *a, const gc *c, int d) { ap_coeff_reinit(a, c->itv ? AP_COEFF_INTERVAL : AP_COEFF_SCALAR, dk(d)); if (c->itv) iv_set(a->val.interval, &c->v, d); else sc_set(a->val.scalar, &c->v.lo, d); }
static int co_is(ap_coeff_t *a, const gc *c) { if ((a->discr == AP_COEFF_INTERVAL) != c->itv) return 0; return c->itv ? iv_is(a->val.interval, &c->v) : sc_is(a->val.scalar, &c->v.lo); }
void h_coeff_order(void)
{
  NK = 2;
  gc x = gc_any(), y = gc_any(); int d = vp_choice(DK);
  ap_coeff_t *a = ap_coeff_alloc(AP_COEFF_SCALAR), *b = ap_coeff_alloc(AP_COEFF_INTERVAL); co_set(a, &x, d); co_set(b, &y, d);
  int c = ap_coeff_cmp(a, b), q = ap_coeff_equal(a, b);
  if (x.itv != y.itv) { VP_ASSERT(c == (x.itv ? 3 : -3), "comparison of a scalar and an interval"); VP_ASSERT(!q, "a scalar and an interval differ"); }
  else if (x.itv) { VP_ASSERT(c == ap_interval_cmp(a->val.interval, b->val.interval), "comparison of interval coefficients"); VP_ASSERT(q == (gi_leq(&x.v, &y.v) && gi_leq(&y.v, &x.v)), "equality of interval coefficients"); }
  else { VP_ASSERT((c < 0) == gs_lt(&x.v.lo, &y.v.lo) && (c > 0) == gs_lt(&y.v.lo, &x.v.lo), "comparison of scalar coefficients"); VP_ASSERT(q == gs_eq(&x.v.lo, &y.v.lo), "equality of scalar coefficients"); }
  int k = vp_choice(3) - 1; gs n; n.inf = 0; n.v = k;
  VP_ASSERT(ap_coeff_equal_int(a, k) == (gs_eq(&x.v.lo, &n) && gs_eq(&x.v.hi, &n)), "equality of a coefficient with an integer");
  n.v = 0; VP_ASSERT(ap_coeff_zero(a) == (gs_eq(&x.v.lo, &n) && gs_eq(&x.v.hi, &n)), "null coefficients");
  ap_coeff_free(a); ap_coeff_free(b);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("coeff order");
}
void h_coeff_set(void)
{
  NK = 2;
  gc x = gc_any(), y = gc_any(); int d = vp_choice(3), e = vp_choice(3);
  ap_coeff_t *a = ap_coeff_alloc(AP_COEFF_SCALAR), *b = ap_coeff_alloc(AP_COEFF_INTERVAL), *c; co_set(a, &x, d); co_set(b, &y, e);
  gc n = y; n.v.lo = gs_neg(&y.v.hi); n.v.hi = gs_neg(&y.v.lo);
  switch (vp_choice(7)) {
  case 0: ap_coeff_set(a, b); VP_ASSERT(co_is(a, &y), "assignment of a coefficient"); break;
  case 1: c = ap_coeff_alloc_set(b); VP_ASSERT(co_is(c, &y), "copy of a coefficient"); ap_coeff_free(c); break;
  case 2: ap_coeff_neg(a, b); VP_ASSERT(co_is(a, &n), "opposite of a coefficient"); break;
  case 3: n = x; n.v.lo = gs_neg(&x.v.hi); n.v.hi = gs_neg(&x.v.lo); ap_coeff_neg(a, a); VP_ASSERT(co_is(a, &n), "opposite of a coefficient in place"); break;
  case 4: n = y; if (y.itv && gs_eq(&y.v.lo, &y.v.hi)) n.itv = 0; ap_coeff_set(a, b); ap_coeff_reduce(a); VP_ASSERT(co_is(a, &n), "reduction of a coefficient"); break;
  case 5: ap_coeff_swap(a, b); VP_ASSERT(co_is(a, &y) && co_is(b, &x), "exchange of coefficients"); ap_coeff_swap(a, b); break;
  case 6: if (y.itv) ap_coeff_set_interval(a, b->val.interval); else ap_coeff_set_scalar(a, b->val.scalar); VP_ASSERT(co_is(a, &y), "assignment of a scalar or an interval"); break;
  }
  VP_ASSERT(co_is(b, &y), "source unchanged");
  ap_coeff_free(a); ap_coeff_free(b);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("coeff set");
}
/* ---------------------------------------------------------------- linear expressions
   le: dense (n coefficients) or sparse (terms of mask m over 0..n-1, plus free slots at the end) */
typedef struct { int n; gc c[8]; gc k; } gle;
static const gc GZ;
static int LK; /* 0: scalars, 1: also an interval */
static gc gc_le(void) { gc c; c.itv = LK ? vp_choice(2) : 0; c.v.lo.inf = c.v.hi.inf = 0; c.v.lo.v = vp_real(); c.v.hi.v = c.itv ? vp_real() : c.v.lo.v; return c; }
static ap_linexpr0_t *le_new(gle *g, int n, int sparse, int mask, int slots)
{
  int m = __builtin_popcount(mask), j = 0; ap_linexpr0_t *e = ap_linexpr0_alloc(sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, sparse ? m + slots : n);
  g->n = n;
  for (int i = 0; i < n; i++) {
    if (sparse && !((mask >> i) & 1)) { g->c[i] = GZ; continue; }
    g->c[i] = gc_le();
    if (sparse) { e->p.linterm[j].dim = i; co_set(&e->p.linterm[j].coeff, &g->c[i], 0); j++; } else co_set(&e->p.coeff[i], &g->c[i], 0);
  }
  g->k = gc_le(); co_set(&e->cst, &g->k, 0);
  return e;
}
static ap_linexpr0_t *le_in(gle *g, int n) { int s = vp_choice(2); return s ? le_new(g, n, 1, vp_choice(1 << n), vp_choice(3)) : le_new(g, n, 0, 0, 0); }
/* value of coefficient i as an interval */
static int co_val_is(ap_coeff_t *a, const gc *c)
{
  if (a->discr == AP_COEFF_SCALAR) return sc_is(a->val.scalar, &c->v.lo) & sc_is(a->val.scalar, &c->v.hi);
  return iv_is(a->val.interval, &c->v);
}
static ap_coeff_t *le_peek(ap_linexpr0_t *e, ap_dim_t d)
{
  if (e->discr == AP_LINEXPR_DENSE) return d < e->size ? &e->p.coeff[d] : NULL;
  for (size_t i = 0; i < e->size; i++) if (e->p.linterm[i].dim == d) return &e->p.linterm[i].coeff;
  return NULL;
}
static int le_ok(ap_linexpr0_t *e) /* sparse invariant */
{
  if (e->discr == AP_LINEXPR_DENSE) return 1;
  for (size_t i = 0; i + 1 < e->size; i++) if (!(e->p.linterm[i].dim < e->p.linterm[i + 1].dim || e->p.linterm[i].dim == AP_DIM_MAX)) return 0;
  for (size_t i = 0; i + 1 < e->size; i++) if (e->p.linterm[i].dim == AP_DIM_MAX && e->p.linterm[i + 1].dim != AP_DIM_MAX) return 0;
  return 1;
}
static int le_coef_is(ap_linexpr0_t *e, ap_dim_t d, const gc *c)
{ ap_coeff_t *p = le_peek(e, d); if (p) return co_val_is(p, c); gs z; z.inf = 0; z.v = 0; return gs_eq(&c->v.lo, &z) & gs_eq(&c->v.hi, &z); }
static int le_is(ap_linexpr0_t *e, const gle *g)
{ int r = le_ok(e) & co_val_is(&e->cst, &g->k); for (int i = 0; i < g->n; i++) r &= le_coef_is(e, i, &g->c[i]); return r; }
void h_linexpr_basic(void)
{
  LK = 1;
  gle g; ap_linexpr0_t *e = le_in(&g, 2), *f = ap_linexpr0_copy(e);
  VP_ASSERT(le_is(f, &g) && f->discr == e->discr, "copy of an expression");
  int lin = !g.k.itv, quasi = 1;
  for (int i = 0; i < 2; i++) if (g.c[i].itv) lin = quasi = 0;
  VP_ASSERT(ap_linexpr0_is_linear(e) == lin && ap_linexpr0_is_quasilinear(e) == quasi, "linear and quasilinear expressions");
  VP_ASSERT(ap_linexpr0_type(e) == (lin ? AP_LINEXPR_LINEAR : quasi ? AP_LINEXPR_QUASILINEAR : AP_LINEXPR_INTLINEAR), "type of an expression");
  ap_linexpr0_t *t[2] = { e, f };
  VP_ASSERT(ap_linexpr0_array_type(t, 2) == ap_linexpr0_type(e) && ap_linexpr0_array_is_linear(t, 2) == lin && ap_linexpr0_array_is_quasilinear(t, 2) == quasi, "types of arrays");
  gs z; z.inf = 0; z.v = 0; int nz[2]; for (int i = 0; i < 2; i++) nz[i] = !(gs_eq(&g.c[i].v.lo, &z) && gs_eq(&g.c[i].v.hi, &z));
  int d = vp_choice(3), in = 1, re = 1; for (int i = 0; i < 2; i++) if (nz[i]) { if (i < d) re = 0; else in = 0; }
  VP_ASSERT(ap_linexpr0_is_integer(e, d) == in && ap_linexpr0_is_real(e, d) == re, "expressions over integer or real dimensions only");
  ap_linexpr0_minimize(f);
  VP_ASSERT(le_is(f, &g), "minimizing keeps the expression");
  if (f->discr == AP_LINEXPR_SPARSE) for (size_t i = 0; i < f->size; i++) VP_ASSERT(f->p.linterm[i].dim != AP_DIM_MAX && !ap_coeff_zero(&f->p.linterm[i].coeff), "minimized expressions have no null term");
  ap_linexpr0_free(f);
  f = ap_linexpr0_copy(e); int sz = e->size; ap_linexpr0_realloc(f, sz + 2); VP_ASSERT(le_is(f, &g) && (int)f->size == sz + 2, "growing keeps the expression");
  ap_linexpr0_realloc(f, sz); VP_ASSERT(le_is(f, &g) && (int)f->size == sz, "shrinking back keeps the expression");
  VP_ASSERT(le_is(e, &g), "the original is unchanged");
  ap_linexpr0_free(e); ap_linexpr0_free(f);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("linexpr basic");
}
/* access in a sparse expression with arbitrary dimensions */
#ifndef NT
#define NT 3
#endif
void h_linexpr_access(void)
{
  int slots = vp_choice(2); g_t c[NT + 1]; unsigned d[NT + 1];
  ap_linexpr0_t *e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, NT + slots);
  for (int i = 0; i < NT; i++) { d[i] = (unsigned)vp_long(); VP_ASSUME(d[i] < AP_DIM_MAX); if (i) VP_ASSUME(d[i - 1] < d[i]); c[i] = vp_real(); e->p.linterm[i].dim = d[i]; ap_coeff_set_g(&e->p.linterm[i].coeff, c[i]); }
  unsigned q = (unsigned)vp_long(); VP_ASSUME(q < AP_DIM_MAX);
  g_t old = 0, nw; for (int i = 0; i < NT; i++) if (d[i] == q) old = c[i];
  ap_coeff_t *o = ap_coeff_alloc(AP_COEFF_SCALAR);
  VP_ASSERT(!ap_linexpr0_get_coeff(o, e, q), "reading a coefficient succeeds"); VP_ASSERT(o->discr == AP_COEFF_SCALAR && ap_scalar_cmp_g(o->val.scalar, old) == 0, "coefficient read");
  VP_ASSERT((int)e->size == NT + slots, "reading does not change the expression");
  VP_ASSERT(ap_linexpr0_get_coeff(o, e, AP_DIM_MAX), "the meaningless dimension is refused");
  VP_ASSERT(ap_linexpr0_coeffref(e, AP_DIM_MAX) == NULL, "no reference to the meaningless dimension");
  nw = vp_real(); ap_coeff_set_g(o, nw); VP_ASSERT(!ap_linexpr0_set_coeff(e, q, o), "writing a coefficient succeeds");
  for (size_t i = 0; i + 1 < e->size; i++) VP_ASSERT(e->p.linterm[i].dim < e->p.linterm[i + 1].dim || (e->p.linterm[i].dim == AP_DIM_MAX && e->p.linterm[i + 1].dim == AP_DIM_MAX), "terms stay sorted, without duplicates");
  int seen = 0, kept = 0;
  for (size_t i = 0; i < e->size; i++) {
    ap_dim_t x = e->p.linterm[i].dim; if (x == AP_DIM_MAX) continue;
    g_t w = x == q ? nw : 0; int known = x == q; if (!known) for (int j = 0; j < NT; j++) if (d[j] == x) { w = c[j]; known = 1; }
    VP_ASSERT(known, "no other term appears"); VP_ASSERT(e->p.linterm[i].coeff.discr == AP_COEFF_SCALAR && ap_scalar_cmp_g(e->p.linterm[i].coeff.val.scalar, w) == 0, "values of the terms after writing one");
    if (x == q) seen++; else kept++;
  }
  int exp = 0; for (int j = 0; j < NT; j++) if (d[j] != q) exp++;
  VP_ASSERT(seen == 1 && kept == exp, "all the terms are there");
  ap_linexpr0_free(e); ap_coeff_free(o);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("linexpr access");
}
void h_linexpr_dense_access(void)
{
  gle g; ap_linexpr0_t *e = le_new(&g, 3, 0, 0, 0); ap_coeff_t *o = ap_coeff_alloc(AP_COEFF_INTERVAL);
  int q = vp_choice(5);
  VP_ASSERT(ap_linexpr0_get_coeff(o, e, q) == (q >= 3), "dense expressions refuse dimensions beyond their size");
  VP_ASSERT((ap_linexpr0_coeffref(e, q) == NULL) == (q >= 3), "no reference beyond the size");
  if (q < 3) { VP_ASSERT(co_val_is(o, &g.c[q]), "coefficient read"); gc n = gc_any(); co_set(o, &n, 0); VP_ASSERT(!ap_linexpr0_set_coeff(e, q, o), "writing succeeds"); g.c[q] = n; }
  else VP_ASSERT(ap_linexpr0_set_coeff(e, q, o), "writing beyond the size is refused");
  VP_ASSERT(co_val_is(&e->cst, &g.k) && e->size == 3, "the rest of the expression is unchanged");
  for (int i = 0; i < 3; i++) VP_ASSERT(co_val_is(&e->p.coeff[i], &g.c[i]), "coefficients after writing");
  VP_COVER("linexpr dense access");
}
static int gle_equal(const gle *a, const gle *b)
{
  int r = gs_eq(&a->k.v.lo, &b->k.v.lo) & gs_eq(&a->k.v.hi, &b->k.v.hi);
  for (int i = 0; i < a->n; i++) r &= gs_eq(&a->c[i].v.lo, &b->c[i].v.lo) & gs_eq(&a->c[i].v.hi, &b->c[i].v.hi);
  return r;
}
/* equality and comparison, whatever the representations */
void h_linexpr_equal(void)
{
#ifdef ITV
  LK = 1;
#endif
  gle g, h; ap_linexpr0_t *e = le_in(&g, 2), *f = le_in(&h, 2);
#ifdef ITV
  VP_ASSUME(g.c[0].v.lo.v <= g.c[0].v.hi.v); VP_ASSUME(h.c[0].v.lo.v <= h.c[0].v.hi.v); VP_ASSUME(g.c[1].v.lo.v <= g.c[1].v.hi.v); VP_ASSUME(h.c[1].v.lo.v <= h.c[1].v.hi.v); VP_ASSUME(g.k.v.lo.v <= g.k.v.hi.v); VP_ASSUME(h.k.v.lo.v <= h.k.v.hi.v);
#endif
  int q = ap_linexpr0_equal(e, f);
  VP_ASSERT(q == gle_equal(&g, &h), "equality of expressions does not depend on their representation");
  VP_ASSERT(le_is(e, &g) && le_is(f, &h), "comparing does not change the expressions");
  VP_COVER("linexpr equal");
}
void h_linexpr_compare(void)
{
  gle g, h; ap_linexpr0_t *e = le_in(&g, 2), *f = le_in(&h, 2);
  int c = ap_linexpr0_compare(e, f), w = 0;
  for (int i = 0; i < 3 && !w; i++) { const gc *a = i < 2 ? &g.c[i] : &g.k, *b = i < 2 ? &h.c[i] : &h.k; w = a->v.lo.v < b->v.lo.v ? -1 : a->v.lo.v > b->v.lo.v ? 1 : 0; }
  VP_ASSERT(sgn(c) == w, "comparison of expressions is lexicographic");
  VP_ASSERT(c >= -3 && c <= 3, "range of the comparison");
  VP_ASSERT(le_is(e, &g) && le_is(f, &h), "comparing does not change the expressions");
  VP_COVER("linexpr compare");
}
void h_linexpr_hash(void)
{
  /* small fixed coefficients: hashing needs their bits */
  int dense = vp_choice(2); ap_linexpr0_t *e = ap_linexpr0_alloc(dense ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, dense ? 6 : 0), *f = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, vp_choice(2)); gle g; g.n = 6;
  for (int i = 0; i < 6; i++) { g.c[i] = GZ; if (i % 3 == 1 || i == 5) { g.c[i].v.lo.v = g.c[i].v.hi.v = i - 2; ap_linexpr0_set_coeff_scalar_int(e, i, i - 2); ap_linexpr0_set_coeff_scalar_int(f, i, i - 2); } }
  int k = vp_choice(2); g.k = GZ; g.k.v.lo.v = g.k.v.hi.v = k; ap_linexpr0_set_cst_scalar_int(e, k); ap_linexpr0_set_cst_scalar_int(f, k);
  size_t s = e->size; long h1 = ap_linexpr0_hash(e), h2 = ap_linexpr0_hash(e);
  VP_ASSERT(h1 == h2, "hashing twice gives the same hash");
  VP_ASSERT(e->size == s && le_is(e, &g), "hashing does not change the expression");
  VP_ASSERT(ap_linexpr0_equal(e, f), "equal expressions");
  VP_ASSERT(h1 == ap_linexpr0_hash(f), "equal expressions hash equally");
  VP_COVER("linexpr hash");
}
/* dimension changes on expressions: dense [i0 i1 r0 ..] with insertions anywhere */
static ap_dimchange_t *dc_in(int di, int dr, int maxadd, int *nint)
{
  int ai = vp_choice(maxadd + 1), ar = vp_choice(maxadd + 1 - ai); ap_dimchange_t *c = ap_dimchange_alloc(ai, ar);
  for (int k = 0; k < ai; k++) c->dim[k] = (k ? c->dim[k - 1] : 0) + vp_choice(di + 1 - (k ? c->dim[k - 1] : 0));
  for (int k = 0; k < ar; k++) { int lo = k ? c->dim[ai + k - 1] : di; c->dim[ai + k] = lo + vp_choice(di + dr + 1 - lo); }
  *nint = ai; return c;
}
static int dc_new_of(const ap_dimchange_t *c, int d) { int r = d, n = c->intdim + c->realdim; for (int k = 0; k < n; k++) if ((int)c->dim[k] <= d) r++; return r; }
/* an old dimension inserted before: position in the result */
static void gle_add(gle *h, const gle *g, const ap_dimchange_t *c)
{ int n = c->intdim + c->realdim; h->n = g->n + n; h->k = g->k; for (int i = 0; i < h->n; i++) h->c[i] = GZ; for (int i = 0; i < g->n; i++) h->c[dc_new_of(c, i)] = g->c[i]; }
static int le_size_ok(ap_linexpr0_t *e, const gle *g) { if (e->discr == AP_LINEXPR_DENSE) return (int)e->size == g->n; for (size_t i = 0; i < e->size; i++) if (e->p.linterm[i].dim != AP_DIM_MAX && (int)e->p.linterm[i].dim >= g->n) return 0; return 1; }
void h_linexpr_adddim(void)
{
  int ai; gle g, h; ap_linexpr0_t *e = le_in(&g, 3); ap_dimchange_t *c = dc_in(1, 2, 3, &ai); gle_add(&h, &g, c);
  if (vp_choice(2)) { ap_linexpr0_add_dimensions_with(e, c); VP_ASSERT(le_is(e, &h) && le_size_ok(e, &h), "adding dimensions in place"); }
  else { ap_linexpr0_t *f = ap_linexpr0_add_dimensions(e, c); VP_ASSERT(le_is(f, &h) && le_size_ok(f, &h), "adding dimensions"); VP_ASSERT(le_is(e, &g) && le_size_ok(e, &g), "the original is unchanged"); ap_linexpr0_free(f); }
  ap_linexpr0_free(e); ap_dimchange_free(c);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("linexpr adddim");
}
static ap_dimperm_t *perm_in(int n)
{
  ap_dimperm_t *p = ap_dimperm_alloc(n); int used = 0;
  for (int i = 0; i < n; i++) { int k = vp_choice(n - i), j; for (j = 0;; j++) if (!((used >> j) & 1)) { if (!k) break; k--; } used |= 1 << j; p->dim[i] = j; }
  return p;
}
static void gle_perm(gle *h, const gle *g, const ap_dimperm_t *p) { h->n = g->n; h->k = g->k; for (int i = 0; i < g->n; i++) h->c[p->dim[i]] = g->c[i]; }
void h_linexpr_permute(void)
{
  gle g, h; ap_linexpr0_t *e = le_in(&g, 3); ap_dimperm_t *p = perm_in(3); gle_perm(&h, &g, p);
  if (vp_choice(2)) { ap_linexpr0_permute_dimensions_with(e, p); VP_ASSERT(le_is(e, &h) && le_size_ok(e, &h), "permuting dimensions in place"); }
  else { ap_linexpr0_t *f = ap_linexpr0_permute_dimensions(e, p); VP_ASSERT(le_is(f, &h) && le_size_ok(f, &h), "permuting dimensions"); VP_ASSERT(le_is(e, &g), "the original is unchanged"); ap_linexpr0_free(f); }
  ap_linexpr0_free(e); ap_dimperm_free(p);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("linexpr permute");
}
/* longer sparse expressions */
void h_linexpr_permute_long(void)
{
  enum { N = 5 }; ap_dimperm_t *p = perm_in(N); ap_linexpr0_t *e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0), *f; int skip = vp_choice(N + 1); g_t v[N]; ap_coeff_t *c = ap_coeff_alloc(AP_COEFF_SCALAR);
  for (int k = 0; k < N; k++) { v[k] = k == skip ? 0 : vp_real(); if (k != skip) ap_coeff_set_g(ap_linexpr0_coeffref(e, k), v[k]); }
  f = vp_choice(2) ? ap_linexpr0_permute_dimensions(e, p) : e; if (f == e) ap_linexpr0_permute_dimensions_with(e, p);
  VP_ASSERT(le_ok(f), "permuted sparse expressions are sorted");
  for (int k = 0; k < N; k++) { VP_ASSERT(!ap_linexpr0_get_coeff(c, f, p->dim[k]), "dimension of the permuted expression"); VP_ASSERT(c->discr == AP_COEFF_SCALAR && ap_scalar_cmp_g(c->val.scalar, v[k]) == 0, "permuted coefficient"); }
  VP_COVER("linexpr permute long");
}
void h_dimperm(void)
{
  ap_dimperm_t *p = perm_in(3), *q = perm_in(3), *r = ap_dimperm_alloc(3), *s = ap_dimperm_alloc(3);
  gle g, h, k; g.n = 3; for (int i = 0; i < 3; i++) { g.c[i] = GZ; g.c[i].v.lo.v = g.c[i].v.hi.v = vp_real(); } g.k = GZ;
  ap_dimperm_compose(r, p, q); gle_perm(&h, &g, p); gle_perm(&k, &h, q); gle_perm(&h, &g, r);
  VP_ASSERT(gle_equal(&h, &k), "a composition permutes as its parts one after the other");
  ap_dimperm_invert(s, p); gle_perm(&h, &g, p); gle_perm(&k, &h, s); VP_ASSERT(gle_equal(&g, &k), "the inverse undoes the permutation");
  ap_dimperm_set_id(r); gle_perm(&h, &g, r); VP_ASSERT(gle_equal(&g, &h), "identity");
  ap_dimperm_free(p); ap_dimperm_free(q); ap_dimperm_free(r); ap_dimperm_free(s);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("dimperm");
}
/* the inverse of an addition names exactly the inserted dimensions */
void h_dimchange_invert(void)
{
  int ai; ap_dimchange_t *c = dc_in(1, 2, 3, &ai); int n = c->intdim + c->realdim, old = 0;
  for (int i = 0; i < 3; i++) old |= 1 << dc_new_of(c, i);
  ap_dimchange_add_invert(c);
  int add = 0; for (int k = 0; k < n; k++) { VP_ASSERT(c->dim[k] < 3u + n && (k == 0 || c->dim[k - 1] < c->dim[k]), "inverted changes are increasing"); add |= 1 << c->dim[k]; }
  VP_ASSERT((add & old) == 0 && (add | old) == (1 << (3 + n)) - 1, "the inverse names exactly the inserted dimensions");
  VP_COVER("dimchange invert");
}
/* variadic construction */
void h_linexpr_setlist(void)
{
  int sparse = vp_choice(2); ap_linexpr0_t *e = ap_linexpr0_alloc(sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, sparse ? 0 : 6); gle g; g.n = 6; for (int i = 0; i < 6; i++) g.c[i] = GZ; g.k = GZ;
  gc k = gc_any(); ap_coeff_t *co = ap_coeff_alloc(AP_COEFF_SCALAR); co_set(co, &k, 0); gs x = gs_fin(), y = gs_fin(); ap_scalar_t *a = sc_new(&x, 0), *b = sc_new(&y, 1); mpq_t q; mpq_init(q); mpq_set_g(q, y.v); mpfr_t f; mpfr_init(f); mpfr_set_g(f, x.v);
  ap_interval_t *iv = ap_interval_alloc(); gi w; w.lo = x; w.hi = y; iv_set(iv, &w, 0);
  int r;
  if (vp_choice(2)) {
    r = ap_linexpr0_set_list(e, AP_COEFF, co, (ap_dim_t)3, AP_COEFF_S, a, (ap_dim_t)0, AP_COEFF_S_MPQ, q, (ap_dim_t)1, AP_COEFF_S_INT, -5, (ap_dim_t)5, AP_COEFF_S_DOUBLE, x.v, (ap_dim_t)2, AP_CST_I, iv, AP_END);
    g.c[3] = k; g.c[0].v.lo = g.c[0].v.hi = x; g.c[1].v.lo = g.c[1].v.hi = y; g.c[5].v.lo.v = g.c[5].v.hi.v = -5; g.c[2].v.lo = g.c[2].v.hi = x; g.k.v = w;
  } else {
    r = ap_linexpr0_set_list(e, AP_COEFF_I, iv, (ap_dim_t)4, AP_COEFF_I_SCALAR, b, a, (ap_dim_t)3, AP_COEFF_I_INT, -1, 2, (ap_dim_t)0, AP_COEFF_I_FRAC, 1, 2, 3, 4, (ap_dim_t)1, AP_COEFF_I_DOUBLE, y.v, x.v, (ap_dim_t)5, AP_COEFF_S_FRAC, -3, 4, (ap_dim_t)2, AP_CST_S_MPFR, f, AP_END);
    g.c[4].v = w; g.c[3].v.lo = y; g.c[3].v.hi = x; g.c[0].v.lo.v = -1; g.c[0].v.hi.v = 2; g.c[1].v.lo.v = 0.5; g.c[1].v.hi.v = 0.75; g.c[5].v.lo = y; g.c[5].v.hi = x; g.c[2].v.lo.v = g.c[2].v.hi.v = -0.75; g.k.v.lo = g.k.v.hi = x;
  }
  VP_ASSERT(!r && le_is(e, &g), "list construction sets exactly the listed coefficients");
  VP_COVER("linexpr setlist");
}
/* ---------------------------------------------------------------- constraints */
static int gcons_in(const gc *k, g_t *v) { *v = vp_real(); VP_ASSUME((k->v.lo.inf | (k->v.lo.v <= *v)) & (k->v.hi.inf | (*v <= k->v.hi.v))); return 1; }
/* constant constraints: claimed satisfiable / unsatisfiable only when all / no instance satisfies them */
void h_lincons_sat(void)
{
  NK = 2; gc k; k.itv = vp_choice(2); if (k.itv) { k.v = gi_in(); VP_ASSUME(!gi_bot(&k.v)); } else { k.v.lo = gs_fin(); k.v.hi = k.v.lo; }
  int op = vp_choice(5), rep = vp_choice(3); g_t m = 0, v;
  ap_linexpr0_t *e = ap_linexpr0_alloc(rep == 0 ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, rep); co_set(&e->cst, &k, 0); /* only null coefficients */
  ap_scalar_t *sc = NULL; if (op == AP_CONS_EQMOD) { static const int ms[] = { 0, 1, 3, -2 }; m = ms[vp_choice(4)]; gs mm; mm.inf = 0; mm.v = m; sc = sc_new(&mm, 0); }
  ap_lincons0_t c = ap_lincons0_make(op, e, sc);
  gcons_in(&k, &v);
  int sat = ap_lincons0_is_sat(&c), uns = ap_lincons0_is_unsat(&c), holds = gcons_sat(op, v, m);
  if (sat) VP_ASSERT(holds, "a constraint claimed satisfied holds for every instance");
  if (uns) VP_ASSERT(!holds, "a constraint claimed unsatisfiable holds for no instance");
  if (!k.itv && op != AP_CONS_EQMOD) { VP_ASSERT(sat == holds, "scalar constant constraints are decided (satisfied)"); }
  if (!k.itv) { VP_ASSERT(uns == !holds, "scalar constant constraints are decided (unsatisfiable)"); }
  if (k.itv && op != AP_CONS_EQMOD) { /* decided exactly, from the bounds */
    int loinf = k.v.lo.inf, hiinf = k.v.hi.inf; g_t lo = k.v.lo.v, hi = k.v.hi.v;
    int pos = !loinf && lo > 0, nn = !loinf && lo >= 0, neg = !hiinf && hi < 0, np = !hiinf && hi <= 0, z = nn && np, s = op == AP_CONS_EQ ? z : op == AP_CONS_SUPEQ ? nn : op == AP_CONS_SUP ? pos : pos || neg, u = op == AP_CONS_EQ ? pos || neg : op == AP_CONS_SUPEQ ? neg : op == AP_CONS_SUP ? np : z;
    VP_ASSERT(sat == s, "interval constant constraints satisfied by all their values are recognised"); VP_ASSERT(uns == u, "interval constant constraints satisfied by none of their values are recognised");
  }
  VP_COVER("lincons sat");
}
void h_lincons_nonconst(void)
{
  gle g; ap_linexpr0_t *e = le_in(&g, 2); int op = vp_choice(5); ap_scalar_t *sc = NULL; g_t m = 0; if (op == AP_CONS_EQMOD) { m = 2; gs mm; mm.inf = 0; mm.v = m; sc = sc_new(&mm, 0); }
  ap_lincons0_t c = ap_lincons0_make(op, e, sc); g_t x[2]; x[0] = vp_real(); x[1] = vp_real();
  int sat = ap_lincons0_is_sat(&c), uns = ap_lincons0_is_unsat(&c);
  g_t v = vp_add(g.k.v.lo.v, vp_add(vp_mul(g.c[0].v.lo.v, x[0]), vp_mul(g.c[1].v.lo.v, x[1])));
  if (sat) VP_ASSERT(gcons_sat(op, v, m), "a constraint claimed satisfied holds everywhere");
  if (uns) VP_ASSERT(!gcons_sat(op, v, m), "a constraint claimed unsatisfiable holds nowhere");
  ap_lincons0_t d = ap_lincons0_copy(&c);
  VP_ASSERT(d.constyp == c.constyp && le_is(d.linexpr0, &g) && (d.scalar == NULL) == (c.scalar == NULL) && (!d.scalar || ap_scalar_equal_int(d.scalar, 2)), "copy of a constraint");
  ap_lincons0_clear(&c); ap_lincons0_clear(&d);
  VP_ASSERT(vp_live() == 0, "no leak");
  ap_lincons0_t u = ap_lincons0_make_unsat(); VP_ASSERT(ap_lincons0_is_unsat(&u) && !ap_lincons0_is_sat(&u), "the canonical unsatisfiable constraint");
  VP_COVER("lincons nonconst");
}
/* arrays of constraints and generators under dimension changes */
void h_array_dims(void)
{
  gle g[2], h; int ai, gen = vp_choice(2), perm = vp_choice(2), with = vp_choice(2);
  ap_lincons0_array_t a; ap_generator0_array_t b; a = ap_lincons0_array_make(gen ? 0 : 2); b = ap_generator0_array_make(gen ? 2 : 0);
  for (int i = 0; i < 2; i++) { ap_linexpr0_t *e = i ? le_new(&g[i], 2, 1, 3, 0) : le_new(&g[i], 2, 0, 0, 0); if (gen) b.p[i] = ap_generator0_make(i ? AP_GEN_RAY : AP_GEN_VERTEX, e); else { gs m; m.inf = 0; m.v = 7; a.p[i] = ap_lincons0_make(i ? AP_CONS_EQMOD : AP_CONS_SUPEQ, e, i ? sc_new(&m, 0) : NULL); } }
  ap_dimchange_t *c = perm ? NULL : dc_in(1, 1, 2, &ai); ap_dimperm_t *p = perm ? perm_in(2) : NULL;
  ap_lincons0_array_t a2 = a; ap_generator0_array_t b2 = b;
  if (with) { if (gen) { if (perm) ap_generator0_array_permute_dimensions_with(&b, p); else ap_generator0_array_add_dimensions_with(&b, c); } else { if (perm) ap_lincons0_array_permute_dimensions_with(&a, p); else ap_lincons0_array_add_dimensions_with(&a, c); } }
  else { if (gen) b2 = perm ? ap_generator0_array_permute_dimensions(&b, p) : ap_generator0_array_add_dimensions(&b, c); else a2 = perm ? ap_lincons0_array_permute_dimensions(&a, p) : ap_lincons0_array_add_dimensions(&a, c); }
  VP_ASSERT((int)(gen ? b2.size : a2.size) == 2, "size of the array");
  for (int i = 0; i < 2; i++) {
    if (perm) gle_perm(&h, &g[i], p); else gle_add(&h, &g[i], c);
    VP_ASSERT(le_is(gen ? b2.p[i].linexpr0 : a2.p[i].linexpr0, &h), "every element is changed");
    if (!with) VP_ASSERT(le_is(gen ? b.p[i].linexpr0 : a.p[i].linexpr0, &g[i]), "the original is unchanged");
    if (gen) VP_ASSERT(b2.p[i].gentyp == (i ? AP_GEN_RAY : AP_GEN_VERTEX), "types are kept");
    else VP_ASSERT(a2.p[i].constyp == (i ? AP_CONS_EQMOD : AP_CONS_SUPEQ) && (i ? a2.p[i].scalar && ap_scalar_equal_int(a2.p[i].scalar, 7) : !a2.p[i].scalar), "types and moduli are kept");
  }
  if (!with) { ap_lincons0_array_clear(&a2); ap_generator0_array_clear(&b2); }
  ap_lincons0_array_clear(&a); ap_generator0_array_clear(&b); if (c) ap_dimchange_free(c); if (p) ap_dimperm_free(p);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("array dims");
}
/* ---------------------------------------------------------------- environments: names are any numbers */
static int vcmp(void *a, void *b) { g_t x = *(g_t *)a, y = *(g_t *)b; return x < y ? -1 : x > y ? 1 : 0; }
static int vhash(void *a) { return 7; }
static void *vcopy(void *a) { g_t *p = malloc(sizeof(g_t)); *p = *(g_t *)a; return p; }
static char *vstr(void *a) { char *s = malloc(2); s[0] = 'v'; s[1] = 0; return s; }
static ap_var_operations_t vops = { vcmp, vhash, vcopy, free, vstr };
static void esetup(void) { ap_var_operations = &vops; }
#define EM 8
typedef struct { int ni, nr; g_t v[EM]; } genv;
static g_t nm[64]; static int nnm;
static ap_var_t *names(const g_t *v, int n) { ap_var_t *t = malloc((n ? n : 1) * sizeof(ap_var_t)); for (int i = 0; i < n; i++) { nm[nnm] = v[i]; t[i] = &nm[nnm++]; } return t; }
static ap_environment_t *env_mk(const genv *g) { ap_var_t *t = names(g->v, g->ni + g->nr); ap_environment_t *e = ap_environment_alloc(t, g->ni, t + g->ni, g->nr); free(t); return e; }
/* names of an environment, increasing in each slice, all different */
__attribute__((noinline)) static genv genv_in(int ni, int nr)
{
  genv g; g.ni = ni; g.nr = nr; for (int i = 0; i < ni + nr; i++) { g.v[i] = vp_int(); if (i && i != ni) VP_ASSUME(g.v[i - 1] < g.v[i]); }
  for (int i = 0; i < ni; i++) for (int j = ni; j < ni + nr; j++) VP_ASSUME(g.v[i] != g.v[j]);
  return g;
}
static genv genv_pick(void) { int k = vp_choice(4); static const int I[] = { 0, 1, 2, 0 }, R[] = { 1, 1, 0, 2 }; return genv_in(I[k], R[k]); }
static g_t evar(ap_environment_t *e, int d) { return *(g_t *)e->var_of_dim[d]; }
static int genv_mem(const genv *g, int real, g_t x) { int r = 0; for (int i = real ? g->ni : 0; i < (real ? g->ni + g->nr : g->ni); i++) r |= g->v[i] == x; return r; }
static int env_wf(ap_environment_t *e)
{
  int ni = e->intdim, n = ni + e->realdim, r = 1; for (int i = 1; i < n; i++) if (i != ni) r &= evar(e, i - 1) < evar(e, i);
  for (int i = 0; i < ni; i++) for (int j = ni; j < n; j++) r &= evar(e, i) != evar(e, j);
  return r;
}
static int env_is(ap_environment_t *e, const genv *g) { int r = (int)e->intdim == g->ni && (int)e->realdim == g->nr; if (!r) return 0; for (int i = 0; i < g->ni + g->nr; i++) r &= evar(e, i) == g->v[i]; return r; }
/* e is exactly the set of names of a, plus those of b */
static int env_mem(ap_environment_t *e, int real, g_t x) { int r = 0, ni = e->intdim; for (int i = real ? ni : 0; i < (real ? ni + (int)e->realdim : ni); i++) r |= evar(e, i) == x; return r; }
void h_env_alloc(void)
{
  esetup(); int ni = vp_choice(3), n = ni + vp_choice(4 - ni); g_t v[3]; for (int i = 0; i < n; i++) v[i] = vp_int();
  genv g; g.ni = ni; g.nr = n - ni; memcpy(g.v, v, sizeof v); int dup = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) dup |= v[i] == v[j];
  ap_environment_t *e = env_mk(&g);
  if (!e) { VP_ASSERT(dup, "environments without duplicate names are accepted"); VP_COVER("env refused"); VP_ASSERT(vp_live() == 0, "no leak"); return; }
  VP_ASSERT(!dup, "duplicate names are refused");
  VP_ASSERT((int)e->intdim == ni && (int)e->realdim == n - ni && e->count == 1 && env_wf(e) && !ap_environment_check(e), "environments are sorted, without duplicates");
  for (int i = 0; i < n; i++) VP_ASSERT(env_mem(e, i >= ni, v[i]), "every name is in its slice");
  g_t q = vp_int(); ap_dim_t d = ap_environment_dim_of_var(e, &q); int in = 0; for (int i = 0; i < n; i++) in |= v[i] == q;
  VP_ASSERT(ap_environment_mem_var(e, &q) == in, "membership of a name");
  if (d == AP_DIM_MAX) VP_ASSERT(!in, "names of the environment have a dimension"); else { VP_ASSERT(d < (unsigned)n, "dimension within the environment"); VP_ASSERT(evar(e, d) == q, "the dimension of a name bears that name"); }
  ap_environment_free(e); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env alloc");
}
void h_env_add(void)
{
  esetup(); genv g = genv_pick(); int ai = vp_choice(3), ar = vp_choice(3 - ai), n = g.ni + g.nr, m = ai + ar; g_t v[2]; for (int i = 0; i < m; i++) v[i] = vp_int();
  ap_environment_t *e = env_mk(&g), *r; int dup = 0; for (int i = 0; i < m; i++) { for (int j = 0; j < i; j++) dup |= v[i] == v[j]; for (int j = 0; j < n; j++) dup |= v[i] == g.v[j]; }
  ap_var_t *t = names(v, m); ap_dimperm_t p; p.dim = (ap_dim_t *)1; int perm = vp_choice(2);
  r = perm ? ap_environment_add_perm(e, t, ai, t + ai, ar, &p) : ap_environment_add(e, t, ai, t + ai, ar);
  VP_ASSERT(env_is(e, &g) && e->count >= 1, "the original environment is unchanged");
  if (!r) { VP_ASSERT(dup, "new names are accepted"); if (perm) VP_ASSERT(p.dim == NULL, "no permutation on failure"); }
  else {
    VP_ASSERT(!dup, "names already present are refused");
    VP_ASSERT((int)r->intdim == g.ni + ai && (int)r->realdim == g.nr + ar && env_wf(r), "environments are sorted, without duplicates");
    for (int i = 0; i < n; i++) VP_ASSERT(env_mem(r, i >= g.ni, g.v[i]), "old names are kept");
    for (int i = 0; i < m; i++) VP_ASSERT(env_mem(r, i >= ai, v[i]), "new names are added");
    if (perm) { VP_ASSERT((int)p.size == n + m, "size of the permutation"); g_t b[EM]; int k = 0; for (int i = 0; i < g.ni; i++) b[k++] = g.v[i]; for (int i = 0; i < ai; i++) b[k++] = v[i]; for (int i = 0; i < g.nr; i++) b[k++] = g.v[g.ni + i]; for (int i = 0; i < ar; i++) b[k++] = v[ai + i];
      for (int i = 0; i < n + m; i++) { VP_ASSERT(p.dim[i] < (unsigned)(n + m), "permutation within the environment"); VP_ASSERT(evar(r, p.dim[i]) == b[i], "the permutation sends every name to its place"); } ap_dimperm_clear(&p); }
    ap_environment_free(r);
  }
  ap_environment_free(e); free(t); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env add");
}
void h_env_remove(void)
{
  esetup(); genv g = genv_in(vp_choice(3), vp_choice(3)); int m = vp_choice(3), n = g.ni + g.nr, unk = 0; g_t v[2]; for (int i = 0; i < m; i++) v[i] = vp_int(); if (m == 2) VP_ASSUME(v[0] != v[1]);
  for (int i = 0; i < m; i++) unk |= !(genv_mem(&g, 0, v[i]) | genv_mem(&g, 1, v[i]));
  ap_environment_t *e = env_mk(&g), *r; ap_var_t *t = names(v, m); r = ap_environment_remove(e, t, m);
  VP_ASSERT(env_is(e, &g), "the original environment is unchanged");
  if (!r) VP_ASSERT(unk, "known names can be removed");
  else {
    VP_ASSERT(!unk, "unknown names are refused"); VP_ASSERT((int)(r->intdim + r->realdim) == n - m && env_wf(r), "environments are sorted, without duplicates");
    for (int i = 0; i < n; i++) { int rem = 0; for (int j = 0; j < m; j++) rem |= v[j] == g.v[i]; VP_ASSERT(env_mem(r, i >= g.ni, g.v[i]) == !rem, "exactly the given names are removed"); }
    ap_environment_free(r);
  }
  ap_environment_free(e); free(t); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env remove");
}
static int compatible(const genv *a, const genv *b) { int r = 1; for (int i = 0; i < a->ni + a->nr; i++) r &= !genv_mem(b, i < a->ni, a->v[i]); return r; }
static int leq(const genv *a, const genv *b) { int r = 1; for (int i = 0; i < a->ni + a->nr; i++) r &= genv_mem(b, i >= a->ni, a->v[i]); return r; }
/* c, an addition, takes g to e: old names land at their places, no other name is lost; NULL: nothing to add */
static int dc_takes(const ap_dimchange_t *c, const genv *g, ap_environment_t *e)
{
  int n = g->ni + g->nr, N = e->intdim + e->realdim, r = 1;
  if (!c) { if (n != N || (int)e->intdim != g->ni) return 0; for (int i = 0; i < n; i++) r &= evar(e, i) == g->v[i]; return r; }
  if ((int)(c->intdim + g->ni) != (int)e->intdim || (int)(c->realdim + g->nr) != (int)e->realdim || n == N) return 0;
  for (int k = 0; k < N - n; k++) { if (k && c->dim[k - 1] > c->dim[k]) return 0; if ((int)c->dim[k] > (k < (int)c->intdim ? g->ni : n)) return 0; if (k >= (int)c->intdim && (int)c->dim[k] < g->ni) return 0; }
  /* an integer dimension inserted at position ni goes before the reals */
  for (int i = 0; i < n; i++) { int d = i; for (int k = 0; k < N - n; k++) if (k < (int)c->intdim ? (i >= g->ni || (int)c->dim[k] <= i) : (int)c->dim[k] <= i) d++; r &= evar(e, d) == g->v[i]; }
  return r;
}
static int env_union(ap_environment_t *e, const genv *a, const genv *b)
{
  int r = env_wf(e); for (int i = 0; i < a->ni + a->nr; i++) r &= env_mem(e, i >= a->ni, a->v[i]); for (int i = 0; i < b->ni + b->nr; i++) r &= env_mem(e, i >= b->ni, b->v[i]);
  for (int i = 0; i < (int)(e->intdim + e->realdim); i++) r &= genv_mem(a, i >= (int)e->intdim, evar(e, i)) | genv_mem(b, i >= (int)e->intdim, evar(e, i));
  return r;
}
void h_env_lce(void)
{
  esetup(); genv g = genv_pick(), h = genv_pick(); ap_environment_t *e = env_mk(&g), *f = env_mk(&h), *r; ap_dimchange_t *c = NULL, *d = NULL; int comp = compatible(&g, &h);
  VP_ASSERT(ap_environment_check_compatibility(e, f) == !comp, "compatibility of environments");
  r = ap_environment_lce(e, f, &c, &d);
  if (!r) { VP_ASSERT(!comp, "compatible environments have a common one"); VP_COVER("incompatible"); }
  else {
    VP_ASSERT(comp, "incompatible environments have no common one"); VP_ASSERT(env_union(r, &g, &h), "the common environment has exactly the names of both");
    VP_ASSERT(dc_takes(c, &g, r) && dc_takes(d, &h, r), "the changes take both environments to the common one");
  }
  VP_ASSERT(env_is(e, &g) && env_is(f, &h), "the originals are unchanged");
  if (c) ap_dimchange_free(c); if (d) ap_dimchange_free(d); if (r) ap_environment_free(r); ap_environment_free(e); ap_environment_free(f);
  VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env lce");
}
void h_env_order(void)
{
  esetup(); genv g = genv_pick(), h = genv_pick(); ap_environment_t *e = env_mk(&g), *f = env_mk(&h); int l = leq(&g, &h), k = leq(&h, &g);
  VP_ASSERT(ap_environment_is_leq(e, f) == l, "inclusion of environments"); VP_ASSERT(ap_environment_is_eq(e, f) == (l && k), "equality of environments");
  int c = ap_environment_compare(e, f), w = !compatible(&g, &h) ? -2 : l && k ? 0 : l ? -1 : k ? 1 : 2;
  VP_ASSERT(c == w, "comparison of environments");
  if (l && k) VP_ASSERT(ap_environment_hash(e) == ap_environment_hash(f), "equal environments hash equally");
  VP_ASSERT(ap_environment_is_leq(e, e) && ap_environment_is_eq(e, e) && ap_environment_compare(e, e) == 0, "an environment is equal to itself");
  ap_environment_free(e); ap_environment_free(f); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env order");
}
void h_env_dimchange(void)
{
  esetup(); genv g = genv_pick(), h = genv_pick(); ap_environment_t *e = env_mk(&g), *f = env_mk(&h); int l = leq(&g, &h);
  ap_dimchange_t *c = ap_environment_dimchange(e, f);
  if (!c) VP_ASSERT(!l, "a change to a larger environment exists");
  else { VP_ASSERT(l, "no change to an environment that is not larger"); if (g.ni + g.nr < h.ni + h.nr) VP_ASSERT(dc_takes(c, &g, f), "the change takes the environment to the larger one"); ap_dimchange_free(c); }
  ap_environment_free(e); ap_environment_free(f); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env dimchange");
}
void h_env_dimchange2(void)
{
  esetup(); genv g = genv_pick(), h = genv_pick(); ap_environment_t *e = env_mk(&g), *f = env_mk(&h); int comp = compatible(&g, &h);
  ap_dimchange2_t *c = ap_environment_dimchange2(e, f);
  VP_ASSERT((c == NULL) == !comp, "a change exists between compatible environments");
  if (c) {
    ap_dimchange_t *a = NULL, *b = NULL; ap_environment_t *r = ap_environment_lce(e, f, &a, &b);
    VP_ASSERT(dc_takes(c->add, &g, r), "first, the missing names are added");
    int N = r->intdim + r->realdim, n = h.ni + h.nr, j = 0; if (c->remove) VP_ASSERT((int)(c->remove->intdim + h.ni) == (int)r->intdim && (int)(c->remove->realdim + h.nr) == (int)r->realdim && n < N, "number of names to remove"); else VP_ASSERT(n == N, "nothing to remove");
    for (int i = 0; i < N; i++) { if (c->remove && j < N - n && (int)c->remove->dim[j] == i) { j++; continue; } VP_ASSERT(i - j < n && evar(r, i) == h.v[i - j], "then, the names left are those of the target"); }
    VP_ASSERT(j == N - n, "all the removed dimensions exist, in order");
    if (a) ap_dimchange_free(a); if (b) ap_dimchange_free(b); ap_environment_free(r); ap_dimchange2_free(c);
  }
  ap_environment_free(e); ap_environment_free(f); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env dimchange2");
}
void h_env_rename(void)
{
  esetup(); genv g = genv_in(vp_choice(3), vp_choice(3)); int n = g.ni + g.nr, m = 1 + vp_choice(2), unk = 0, dup = 0; g_t v[2], w[2], x[EM];
  for (int i = 0; i < m; i++) { v[i] = vp_int(); w[i] = vp_int(); } if (m == 2) VP_ASSUME(v[0] != v[1]);
  for (int i = 0; i < m; i++) unk |= !(genv_mem(&g, 0, v[i]) | genv_mem(&g, 1, v[i]));
  for (int i = 0; i < n; i++) { x[i] = g.v[i]; for (int j = 0; j < m; j++) if (v[j] == g.v[i]) x[i] = w[j]; }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) dup |= x[i] == x[j];
  ap_environment_t *e = env_mk(&g), *r; ap_var_t *t = names(v, m), *u = names(w, m); ap_dimperm_t p; p.dim = (ap_dim_t *)1; p.size = 1;
  r = ap_environment_rename(e, t, u, m, &p);
  VP_ASSERT(env_is(e, &g), "the original environment is unchanged");
  if (!r) { VP_ASSERT(unk || dup, "valid renamings are accepted"); VP_ASSERT(p.dim == NULL, "no permutation on failure"); }
  else {
    VP_ASSERT(!unk && !dup, "invalid renamings are refused"); VP_ASSERT((int)r->intdim == g.ni && (int)r->realdim == g.nr && env_wf(r) && (int)p.size == n, "renamed environments are well formed");
    for (int i = 0; i < n; i++) { VP_ASSERT(p.dim[i] < (unsigned)n && ((int)p.dim[i] < g.ni) == (i < g.ni), "the permutation keeps the slices"); VP_ASSERT(evar(r, p.dim[i]) == x[i], "the permutation follows the renaming"); }
    ap_environment_free(r); ap_dimperm_clear(&p);
  }
  ap_environment_free(e); free(t); free(u); VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env rename");
}
#ifndef NE
#define NE 3
#endif
void h_env_lce_array(void)
{
  esetup(); genv g[NE]; ap_environment_t *t[NE], *o[NE], *r; ap_dimchange_t **c = NULL; int comp = 1, same = 1;
  for (int i = 0; i < NE; i++) {
    int k = i && vp_choice(2); if (k) { g[i] = g[i - 1]; t[i] = ap_environment_copy(t[i - 1]); } else { g[i] = genv_in(i == 1, NE > 3 ? 1 : 1 + (i == 2 && NE == 3)); t[i] = env_mk(&g[i]); }
    o[i] = t[i]; for (int j = 0; j < i; j++) comp &= compatible(&g[i], &g[j]); if (i) same &= leq(&g[i], &g[i - 1]) & leq(&g[i - 1], &g[i]);
  }
  size_t cnt = t[0]->count;
  r = ap_environment_lce_array(t, NE, &c);
  if (!r) VP_ASSERT(!comp, "compatible environments have a common one");
  else {
    VP_ASSERT(comp, "incompatible environments have no common one"); VP_ASSERT(env_wf(r), "well-formed common environment");
    for (int i = 0; i < NE; i++) for (int j = 0; j < g[i].ni + g[i].nr; j++) VP_ASSERT(env_mem(r, j >= g[i].ni, g[i].v[j]), "all the names are there");
    for (int i = 0; i < (int)(r->intdim + r->realdim); i++) { int in = 0; for (int j = 0; j < NE; j++) in |= genv_mem(&g[j], i >= (int)r->intdim, evar(r, i)); VP_ASSERT(in, "no other name"); }
    VP_ASSERT((c == NULL) == same, "no changes exactly when all the environments are the same");
    for (int i = 0; i < NE; i++) VP_ASSERT(dc_takes(c ? c[i] : NULL, &g[i], r), "each change takes its environment to the common one");
    if (c) for (int i = 0; i < NE; i++) if (c[i]) ap_dimchange_free(c[i]);
    ap_environment_free(r);
  }
  if (c) free(c);
  for (int i = 0; i < NE; i++) ap_environment_free(o[i]);
  (void)cnt; if (r) VP_ASSERT(vp_live() == 0, "no leak");
  VP_COVER("env lce array");
}
