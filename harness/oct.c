/* Octagon domain: harnesses.  DI integer + DR real dimensions.
   An octagon is a half-matrix of bounds m(i,j) >= V_j - V_i with V_2k = x_k, V_2k+1 = -x_k. */
#include "vpnum.h"
#include "oct_internal.h"
#include "oct_fun.h"
#include "ap_generic.h"
#ifndef DI
#define DI 0
#endif
#ifndef DR
#define DR 2
#endif
#define DN (DI + DR)
#define MS(n) (2 * (n) * ((n) + 1))
#define OMAX MS(DN + 3)
typedef struct { char bot; char inf[OMAX]; g_t m[OMAX]; } goct;
static ap_manager_t *man;
static oct_internal_t *pr;
static void setup(void) { man = oct_manager_alloc(); pr = (oct_internal_t *)man->internal; pr->funid = AP_FUNID_COPY; }
static int mpos(int i, int j) { return j > i ? (i ^ 1) + (((j ^ 1) + 1) * ((j ^ 1) + 1)) / 2 : j + ((i + 1) * (i + 1)) / 2; }
static g_t val(const g_t *x, int v) { return v & 1 ? -x[v / 2] : x[v / 2]; }
/* OPAT: patterns of infinite entries.  -1: only unary / only binary constraints;  -2: only unary; -3: only the bounds of x0 / only those of x0-x1; -4: exactly one finite; -5: only the bounds of one dimension; -6: any set of upper and lower bounds of the dimensions; 0: two (none, all); 1: also only unary / only binary constraints; 2: also exactly one infinite, exactly one finite */
#ifndef OPAT
#define OPAT 1
#endif
#define NOFF (MS(DN) - 2 * DN)
static g_t o_num(int i, int j)
{
#ifdef OINT
  return vp_int();
#else
  return i / 2 < DI && j / 2 < DI ? vp_int() : vp_real();
#endif
}
static goct goct_pat(int pat)
{
  goct s; s.bot = 0; int n = 0;
  for (int i = 0; i < 2 * DN; i++)
    for (int j = 0; j <= (i | 1); j++) {
      int p = mpos(i, j), inf;
      if (i == j) { s.inf[p] = 0; s.m[p] = 0; continue; }
      int un = (i / 2 == j / 2);
      inf = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? !un : pat == 3 ? un : pat == 1000 ? !(un && i < 2) : pat == 1001 ? un || ((i ^ j) & 1) : pat >= 2000 ? !un || ((pat - 2000) >> (i & ~1) >> (i & 1) & 1) : pat >= 1002 ? !(un && i / 2 == pat - 1002) : pat < 4 + NOFF ? n == pat - 4 : n != pat - 4 - NOFF;
      n++;
      s.inf[p] = inf; s.m[p] = inf ? 0 : o_num(i, j);
    }
  return s;
}
static goct goct_in(void) { return goct_pat(OPAT == -4 ? 4 + NOFF + vp_choice(NOFF) : OPAT == -3 ? 1000 + vp_choice(2) : OPAT == -5 ? 1002 + vp_choice(DN) : OPAT == -6 ? 2000 + vp_choice(1 << 2 * DN) : OPAT == -2 ? 2 : OPAT < 0 ? 2 + vp_choice(2) : vp_choice(OPAT == 0 ? 2 : OPAT == 1 ? 4 : 4 + 2 * NOFF)); }
static int goct_mem(const goct *s, const g_t *x, int n)
{
  if (s->bot) return 0;
  int r = 1;
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j <= (i | 1); j++) { int p = mpos(i, j); if (i != j) r &= s->inf[p] | (val(x, j) - val(x, i) <= s->m[p]); }
  return r;
}
/* a <= b + c with infinities */
static int le_sum(const goct *s, int a, int b, int c, int half)
{ if (s->inf[b] | s->inf[c]) return 1; if (s->inf[a]) return 0; return half ? 2 * s->m[a] <= s->m[b] + s->m[c] : s->m[a] <= s->m[b] + s->m[c]; }
/* strong closure: with zero diagonals, every bound is then attained (and the octagon is not empty) */
static int goct_closed(const goct *s, int n)
{
  int r = 1;
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j <= (i | 1); j++) {
    if (i == j) { r &= s->m[mpos(i, i)] == 0; }
    for (int k = 0; k < 2 * n; k++) if (k != i && k != j) r &= le_sum(s, mpos(i, j), mpos(i, k), mpos(k, j), 0);
    if (i != (j ^ 1)) r &= le_sum(s, mpos(i, j), mpos(i, i ^ 1), mpos(j ^ 1, j), 1);
  }
  return r;
}
static bound_t *mat_of_g(const goct *s, int n)
{ bound_t *m = hmat_alloc(pr, n); for (int p = 0; p < MS(n); p++) { if (s->inf[p]) bound_set_infty(m[p], 1); else bound_set_g(m[p], s->m[p]); } return m; }
/* representation: 0 empty, 1 unclosed matrix, 2 closed matrix, 3 both */
static oct_t *oct_rep(const goct *s, int rep)
{
  oct_t *a = oct_alloc_internal(pr, DN, DI);
  if (rep & 1) a->m = mat_of_g(s, DN);
  if (rep & 2) a->closed = mat_of_g(s, DN);
  return a;
}
/* REPS: set of representations explored (bit mask of 1 << rep) */
#ifndef REPS
#define REPS 7
#endif
static int o_rep(void) { int k = vp_choice(__builtin_popcount(REPS)), i = 0; for (;; i++) if ((REPS >> i) & 1) { if (!k) return i; k--; } }
static oct_t *oct_in(goct *s, int *rep)
{
  int r = o_rep(); if (rep) *rep = r;
  if (r == 0) { s->bot = 1; return oct_rep(s, 0); }
  *s = goct_in();
  if (r & 2) VP_ASSUME(goct_closed(s, DN));
  return oct_rep(s, r);
}
static int mat_mem(bound_t *m, const g_t *x, int n)
{
  int r = 1;
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j <= (i | 1); j++) r &= bound_cmp_g(m[mpos(i, j)], val(x, j) - val(x, i)) >= 0;
  return r;
}
static int oct_mem(oct_t *a, const g_t *x, int n)
{ if (!a->m && !a->closed) return 0; return mat_mem(a->closed ? a->closed : a->m, x, n) & (a->m && a->closed ? mat_mem(a->m, x, n) : 1); }
/* well-formed result: dimensions, zero diagonal of the closed form, closed form really closed */
static int mat_closed(bound_t *m, int n)
{
  int r = 1;
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j <= (i | 1); j++) {
    bound_t *c = &m[mpos(i, j)];
    if (i == j) { r &= bound_isfin(*c, 0); }
    bound_t t; bound_init(t);
    for (int k = 0; k < 2 * n; k++) if (k != i && k != j) { bound_add(t, m[mpos(i, k)], m[mpos(k, j)]); r &= bound_cmp(*c, t) <= 0; }
    if (i != (j ^ 1)) { bound_add(t, m[mpos(i, i ^ 1)], m[mpos(j ^ 1, j)]); bound_div_2(t, t); r &= bound_cmp(*c, t) <= 0; }
    bound_clear(t);
  }
  return r;
}
static void well_formed(oct_t *a, int di, int dr)
{
  VP_ASSERT((int)a->dim == di + dr && (int)a->intdim == di, "dimensions of the result");
  if (a->closed && !(a->m == a->closed)) VP_ASSERT(mat_closed(a->closed, di + dr), "cached closures are closed");
}
static void point_in(g_t *x, int di, int n) { for (int i = 0; i < n; i++) x[i] = g_in(i < di); }
static int unchanged(oct_t *a, const goct *s, const g_t *x) { return (int)a->dim == DN && oct_mem(a, x, DN) == goct_mem(s, x, DN); }
/* closure: same points, closed form really closed, emptiness exact */
void h_oct_closure(void)
{
  setup();
  goct s = goct_in(); g_t x[DN]; point_in(x, DI, DN);
  oct_t *a = oct_rep(&s, 1);
  int bot = oct_is_bottom(man, a);
  if (bot) { VP_ASSERT(!goct_mem(&s, x, DN), "an octagon reported empty has no point"); VP_COVER("oct bottom"); return; }
  VP_ASSERT(a->closed != NULL, "closure computed");
  VP_ASSERT(mat_mem(a->closed, x, DN) == goct_mem(&s, x, DN), "closure keeps exactly the points");
  VP_COVER("oct closure");
}
void h_oct_closure_tight(void)
{
  setup();
  goct s = goct_in();
  oct_t *a = oct_rep(&s, 1);
  if (!oct_is_bottom(man, a)) VP_ASSERT(mat_closed(a->closed, DN), "closure is strong: every bound is attained");
  VP_COVER("oct closure");
}
/* incremental closure: all but the constraints of one variable closed */
void h_oct_closure_inc(void)
{
  setup();
  goct s = goct_in(); g_t x[DN]; point_in(x, DI, DN);
  int v = vp_choice(DN);
  for (int i = 0; i < 2 * DN; i++) for (int j = 0; j <= (i | 1); j++) for (int k = 0; k < 2 * DN; k++)
    if (i / 2 != v && j / 2 != v && k / 2 != v && k != i && k != j) VP_ASSUME(le_sum(&s, mpos(i, j), mpos(i, k), mpos(k, j), 0));
  bound_t *m = mat_of_g(&s, DN);
  int bot = hmat_close_incremental(m, DN, v);
  if (bot) { VP_ASSERT(!goct_mem(&s, x, DN), "incremental closure: an octagon reported empty has no point"); VP_COVER("oct bottom"); return; }
  if (vp_choice(2)) VP_ASSERT(mat_mem(m, x, DN) == goct_mem(&s, x, DN), "incremental closure keeps exactly the points");
  else VP_ASSERT(mat_closed(m, DN), "incremental closure is strong");
  VP_COVER("oct closure inc");
}
static int g_leq(const goct *s, const goct *t) /* s closed */
{ int r = 1; for (int p = 0; p < MS(DN); p++) r &= t->inf[p] | (!s->inf[p] & (s->m[p] <= t->m[p])); return r; }
/* inclusion and equality */
void h_oct_order(void)
{
  setup();
  goct s, t; int rs, rt; oct_t *a = oct_in(&s, &rs), *b = oct_in(&t, &rt);
  g_t x[DN]; point_in(x, DI, DN);
  int leq = oct_is_leq(man, a, b), eq = oct_is_eq(man, a, b), top = oct_is_top(man, a);
  VP_ASSERT(!leq || !goct_mem(&s, x, DN) || goct_mem(&t, x, DN), "inclusion reported only between included octagons");
  VP_ASSERT(!eq || goct_mem(&s, x, DN) == goct_mem(&t, x, DN), "equality reported only between equal octagons");
  VP_ASSERT(!top || goct_mem(&s, x, DN), "top has every point");
  VP_ASSERT(!eq || leq, "equality implies inclusion");
  VP_ASSERT(unchanged(a, &s, x) && unchanged(b, &t, x), "tests leave operands unchanged");
  if (rs == 0) VP_ASSERT(leq, "empty is included in everything");
  if (rs == 2 && rt == 2) {
    VP_ASSERT(!!leq == g_leq(&s, &t), "inclusion is exact");
    VP_ASSERT(!!eq == (g_leq(&s, &t) & g_leq(&t, &s)), "equality is exact");
  }
  VP_COVER("oct order");
}
void h_oct_meet(void)
{
  setup();
  goct s, t; oct_t *a = oct_in(&s, NULL), *b = oct_in(&t, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  int in = goct_mem(&s, x, DN) & goct_mem(&t, x, DN), k = vp_choice(3);
  oct_t *tab[2] = { a, b };
  oct_t *r = k == 2 ? oct_meet_array(man, tab, 2) : oct_meet(man, k == 1, a, b);
  well_formed(r, DI, DR);
  VP_ASSERT(oct_mem(r, x, DN) == in, "octagon meet is the intersection");
  if (k != 1) VP_ASSERT(unchanged(a, &s, x), "functional meet leaves its operands unchanged");
  VP_ASSERT(unchanged(b, &t, x), "meet leaves its second operand unchanged");
  VP_COVER("oct meet");
}
static int mat_is_max(bound_t *m, const goct *s, const goct *t)
{
  int r = 1;
  for (int p = 0; p < MS(DN); p++) {
    if (s->inf[p] | t->inf[p]) r &= bound_isinf(m[p]);
    else r &= bound_isfin(m[p], s->m[p] > t->m[p] ? s->m[p] : t->m[p]);
  }
  return r;
}
void h_oct_join(void)
{
  setup();
  goct s, t; int rs, rt; oct_t *a = oct_in(&s, &rs), *b = oct_in(&t, &rt);
  g_t x[DN]; point_in(x, DI, DN);
  int in = goct_mem(&s, x, DN) | goct_mem(&t, x, DN), k = vp_choice(3);
  oct_t *tab[2] = { a, b };
  oct_t *r = k == 2 ? oct_join_array(man, tab, 2) : oct_join(man, k == 1, a, b);
  well_formed(r, DI, DR);
  VP_ASSERT(!in || oct_mem(r, x, DN), "octagon join is an upper bound");
  if (rs == 2 && rt == 2) VP_ASSERT(mat_is_max(r->closed ? r->closed : r->m, &s, &t), "octagon join is the smallest octagon");
  if (rs == 0 || rt == 0) VP_ASSERT(oct_mem(r, x, DN) == in, "join with the empty octagon is the identity");
  if (k != 1) VP_ASSERT(unchanged(a, &s, x), "functional join leaves its operands unchanged");
  VP_ASSERT(unchanged(b, &t, x), "join leaves its second operand unchanged");
  VP_COVER("oct join");
}
/* widenings and narrowing */
#ifndef WK
#define WK vp_choice(5)
#endif
void h_oct_widening(void)
{
  setup();
  goct s, t; int rs, rt; oct_t *a = oct_in(&s, &rs), *b = oct_in(&t, &rt);
  g_t x[DN]; point_in(x, DI, DN);
  int in = goct_mem(&s, x, DN) | goct_mem(&t, x, DN), both = goct_mem(&s, x, DN) & goct_mem(&t, x, DN), k = WK;
  g_t th[2]; th[0] = vp_real(); th[1] = vp_real(); VP_ASSUME(th[0] < th[1]);
  ap_scalar_t *ar[2]; for (int i = 0; i < 2; i++) { ar[i] = ap_scalar_alloc(); ap_scalar_set_g(ar[i], th[i]); }
  oct_t *r;
  if (k == 0) r = oct_widening(man, a, b);
  else if (k == 1) r = oct_widening_thresholds(man, a, b, ar, 2);
  else if (k == 2) r = oct_narrowing(man, a, b);
  else if (k == 3) { VP_ASSUME(th[0] >= 0); r = oct_add_epsilon(man, a, ar[0]); }
  else { VP_ASSUME(th[0] >= 0); r = oct_add_epsilon_bin(man, a, b, ar[0]); }
  VP_ASSERT((int)r->dim == DN && (int)r->intdim == DI, "dimensions of the result");
  if (k <= 1 || k == 4) VP_ASSERT(!in || oct_mem(r, x, DN), "widening is an upper bound");
  if (k == 3) VP_ASSERT(!goct_mem(&s, x, DN) || oct_mem(r, x, DN), "perturbation only enlarges");
  if (k == 2) { VP_ASSERT(!both || oct_mem(r, x, DN), "narrowing stays above the second operand"); VP_ASSERT(!oct_mem(r, x, DN) || goct_mem(&s, x, DN), "narrowing stays below the first operand"); }
  /* termination: a bound of the (unclosed) left operand is kept, replaced by a threshold, or dropped */
  if (k <= 1 && rs == 1 && r->m && rt != 0) for (int p = 0; p < MS(DN); p++)
    VP_ASSERT(bound_infty(r->m[p]) || ((!s.inf[p] && num_cmp_g(bound_numref(r->m[p]), s.m[p]) == 0)) || (k == 1 && (num_cmp_g(bound_numref(r->m[p]), th[0]) == 0 || num_cmp_g(bound_numref(r->m[p]), th[1]) == 0)), "widening keeps or drops each bound");
  VP_ASSERT(unchanged(a, &s, x) && unchanged(b, &t, x), "widening and narrowing leave operands unchanged");
  VP_COVER("oct widening");
}
/* ---- expressions: coefficients in {-1,0,1,2}, so that unary, binary and other forms are met */
#ifndef KIND
#define KIND 0
#endif
#ifndef COEFS
#define COEFS 4
#endif
static int o_first;
static g_t o_coef(void) { static const int set[] = { 0, 1, -1, 2, -3 }; return set[vp_choice(COEFS)]; }
static ap_linexpr0_t *expr_in(int dim, glin *pick, int sparse, int isint)
{
  int who = KIND == 2 ? vp_choice(dim) : -1;
  ap_linexpr0_t *e = ap_linexpr0_alloc(sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, dim);
  for (int i = 0; i < dim; i++) {
    if (sparse) e->p.linterm[i].dim = i;
    ap_coeff_t *co = sparse ? &e->p.linterm[i].coeff : &e->p.coeff[i];
    if (who == i) { gitv s; s.linf = s.hinf = 0; s.lo = vp_choice(3) - 1; s.hi = s.lo + 1 + vp_choice(2); ap_coeff_set_gitv(co, &s); pick->c[i] = vp_choice(2) ? s.lo : s.hi; }
    else { pick->c[i] = o_coef(); ap_coeff_set_g(co, pick->c[i]); }
  }
  if (KIND == 1) { gitv s = gitv_in(isint); ap_coeff_set_gitv(&e->cst, &s); pick->k = g_pick(&s, isint); }
  else { pick->k = g_in(isint); ap_coeff_set_g(&e->cst, pick->k); }
  return e;
}
#ifdef CI
#define OCSTI 1
#else
#define OCSTI 0
#endif
static oct_t *dest_in(goct *s) { *s = goct_pat(vp_choice(2) ? 2 : 0); return oct_rep(s, 1); }
/* functional/destructive, sparse/dense, with destination */
static int how_sparse, how_destr, how_dest;
#ifndef HOW
#define HOW 9
#endif
static void how(int n) { if (n > HOW) n = HOW; int k = vp_choice(n); how_sparse = k == 1; how_destr = k == 2; how_dest = k == 3; }
void h_oct_assign(void)
{
  setup(); how(4);
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  glin p; ap_linexpr0_t *e = expr_in(DN, &p, how_sparse, OCSTI);
  g_t v = glin_eval(&p, DN, x);
  int dim = vp_choice(DN);
  if (dim < DI) VP_ASSUME(vp_isint(v));
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  y[dim] = v;
  goct t; oct_t *d = how_dest ? dest_in(&t) : NULL;
  VP_ASSUME(goct_mem(&s, x, DN)); if (d) VP_ASSUME(goct_mem(&t, y, DN));
  ap_dim_t td[1] = { dim }; ap_linexpr0_t *te[1] = { e };
  oct_t *r = oct_assign_linexpr_array(man, how_destr, a, td, te, 1, d);
  well_formed(r, DI, DR);
  VP_ASSERT(oct_mem(r, y, DN), "octagon assignment keeps every reachable state");
  if (!how_destr) VP_ASSERT(unchanged(a, &s, x), "functional assignment leaves its operand unchanged");
  VP_COVER("oct assign");
}
void h_oct_substitute(void)
{
  setup(); how(4);
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  glin p; ap_linexpr0_t *e = expr_in(DN, &p, how_sparse, OCSTI);
  g_t v = glin_eval(&p, DN, x);
  int dim = vp_choice(DN);
  if (dim < DI) VP_ASSUME(vp_isint(v));
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  y[dim] = v;
  goct t; oct_t *d = how_dest ? dest_in(&t) : NULL;
  VP_ASSUME(goct_mem(&s, y, DN)); if (d) VP_ASSUME(goct_mem(&t, x, DN));
  ap_dim_t td[1] = { dim }; ap_linexpr0_t *te[1] = { e };
  oct_t *r = oct_substitute_linexpr_array(man, how_destr, a, td, te, 1, d);
  well_formed(r, DI, DR);
  VP_ASSERT(oct_mem(r, x, DN), "octagon substitution keeps every pre-state");
  if (!how_destr) VP_ASSERT(unchanged(a, &s, y), "functional substitution leaves its operand unchanged");
  VP_COVER("oct substitute");
}
/* two assignments at once */
void h_oct_assign_par(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  glin p, q; ap_linexpr0_t *e = expr_in(DN, &p, 0, OCSTI), *f = expr_in(DN, &q, 1, OCSTI);
  int sw = vp_choice(2), destr = vp_choice(2), sub = vp_choice(2);
  ap_dim_t td[2]; td[0] = sw; td[1] = 1 - sw;
  ap_linexpr0_t *te[2] = { e, f };
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  y[td[0]] = glin_eval(&p, DN, x); y[td[1]] = glin_eval(&q, DN, x);
  for (int i = 0; i < DI; i++) VP_ASSUME(vp_isint(y[i]));
  VP_ASSUME(goct_mem(&s, sub ? y : x, DN));
  oct_t *r = sub ? oct_substitute_linexpr_array(man, destr, a, td, te, 2, NULL) : oct_assign_linexpr_array(man, destr, a, td, te, 2, NULL);
  VP_ASSERT(oct_mem(r, sub ? x : y, DN), "parallel octagon assignment evaluates all right-hand sides in the old state");
  VP_COVER("oct assign par");
}
#ifndef NC
#define NC 1
#endif
/* constraints */
void h_oct_meet_lincons(void)
{
  setup(); how(3);
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  ap_lincons0_array_t ar = ap_lincons0_array_make(NC);
  int in = 1;
  for (int c = 0; c < NC; c++) {
    glin p; ar.p[c].linexpr0 = expr_in(DN, &p, how_sparse, OCSTI);
    int op = vp_choice(NC > 1 ? 2 : 5); ar.p[c].constyp = (ap_constyp_t)op;
    g_t m = 0;
    if (op == AP_CONS_EQMOD) { m = vp_choice(3); ar.p[c].scalar = ap_scalar_alloc(); ap_scalar_set_g(ar.p[c].scalar, m); }
    in &= gcons_sat(op, glin_eval(&p, DN, x), m);
  }
  oct_t *r = oct_meet_lincons_array(man, how_destr, a, &ar);
  well_formed(r, DI, DR);
  int sin = goct_mem(&s, x, DN);
  VP_ASSERT(!(sin & in) | oct_mem(r, x, DN), "meet with linear constraints keeps every solution");
  VP_ASSERT(!oct_mem(r, x, DN) | sin, "meet with linear constraints never adds points");
  if (!how_destr) VP_ASSERT(unchanged(a, &s, x), "functional meet with constraints leaves its operand unchanged");
  VP_COVER("oct meet lincons");
}
/* octagonal constraints are represented exactly */
void h_oct_meet_exact(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  ap_lincons0_array_t ar = ap_lincons0_array_make(1);
  ap_linexpr0_t *e = ap_linexpr0_alloc(AP_LINEXPR_DENSE, DN); glin p;
  for (int i = 0; i < DN; i++) { p.c[i] = vp_choice(3) - 1; ap_coeff_set_g(&e->p.coeff[i], p.c[i]); }
  for (int i = DN; i < VPD_MAX; i++) p.c[i] = 0;
  p.k = g_in(OCSTI); ap_coeff_set_g(&e->cst, p.k);
  int op = vp_choice(2); ar.p[0] = ap_lincons0_make((ap_constyp_t)op, e, NULL);
  int in = goct_mem(&s, x, DN) & gcons_sat(op, glin_eval(&p, DN, x), 0);
  oct_t *r = vp_choice(2) ? oct_meet_lincons_array(man, 0, a, &ar) : oct_meet(man, 0, a, oct_meet_lincons_array(man, 1, oct_top(man, DI, DR), &ar));
  VP_ASSERT(oct_mem(r, x, DN) == in, "meet with octagonal constraints is exact");
  VP_COVER("oct meet exact");
}
/* queries: what they claim is true */
void h_oct_sat(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  glin p; ap_lincons0_t c; c.linexpr0 = expr_in(DN, &p, vp_choice(2), OCSTI); c.scalar = NULL;
  int op = vp_choice(5); c.constyp = (ap_constyp_t)op; g_t m = 0;
  if (op == AP_CONS_EQMOD) { m = vp_choice(3); c.scalar = ap_scalar_alloc(); ap_scalar_set_g(c.scalar, m); }
  g_t x[DN]; point_in(x, DI, DN);
  int sat = oct_sat_lincons(man, a, &c);
  VP_ASSERT(!sat || !goct_mem(&s, x, DN) || gcons_sat(op, glin_eval(&p, DN, x), m), "a satisfied constraint holds in every point");
  VP_COVER("oct sat");
}
void h_oct_bound(void)
{
  setup();
  goct s; int rep; oct_t *a = oct_in(&s, &rep);
  g_t x[DN]; point_in(x, DI, DN);
  int dim = vp_choice(DN), k = vp_choice(4);
  if (k == 0) {
    ap_interval_t *iv = oct_bound_dimension(man, a, dim);
    VP_ASSERT(!goct_mem(&s, x, DN) || ap_interval_mem_g(iv, x[dim]), "bound_dimension contains every value");
    if (rep == 2) { gitv q; int pl = mpos(2 * dim, 2 * dim + 1), ph = mpos(2 * dim + 1, 2 * dim); q.linf = s.inf[pl]; q.hinf = s.inf[ph]; q.lo = -s.m[pl] / 2; q.hi = s.m[ph] / 2;
      VP_ASSERT(ap_interval_eq_g(iv, &q), "bound_dimension is exact"); }
    if (rep == 0) VP_ASSERT(ap_interval_is_bottom(iv), "bound of the empty octagon is empty");
  } else if (k == 1) {
    ap_interval_t **t = oct_to_box(man, a);
    int in = 1; for (int i = 0; i < DN; i++) in &= ap_interval_mem_g(t[i], x[i]);
    VP_ASSERT(!goct_mem(&s, x, DN) || in, "to_box contains every point");
  } else if (k == 2) {
    ap_interval_t *iv = ap_interval_alloc(); gitv q = gitv_any(0); ap_interval_set_g(iv, &q);
    int sat = oct_sat_interval(man, a, dim, iv);
    VP_ASSERT(!sat || !goct_mem(&s, x, DN) || gitv_mem(&q, x[dim]), "a satisfied interval contains every value");
  } else {
    int u = oct_is_dimension_unconstrained(man, a, dim);
    g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i]; y[dim] = g_in(dim < DI);
    VP_ASSERT(!u || !goct_mem(&s, x, DN) || goct_mem(&s, y, DN), "an unconstrained dimension can take any value");
  }
  VP_ASSERT(unchanged(a, &s, x), "queries leave their operand unchanged");
  VP_COVER("oct bound");
}
void h_oct_bound_linexpr(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  glin p; ap_linexpr0_t *e = expr_in(DN, &p, vp_choice(2), OCSTI);
  VP_ASSUME(goct_mem(&s, x, DN));
  ap_interval_t *iv = oct_bound_linexpr(man, a, e);
  VP_ASSERT(ap_interval_mem_g(iv, glin_eval(&p, DN, x)), "bound_linexpr contains every value of the expression");
  VP_COVER("oct bound linexpr");
}
/* conversions */
static int coef_small(ap_linexpr0_t *e, int d) { ap_coeff_t *c = ap_linexpr0_coeffref(e, d); int r = 0; for (int v = -1; v <= 1; v++) if (ap_scalar_cmp_g(c->val.scalar, (g_t)v) == 0) r = v; return r; }
void h_oct_to_lincons(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN]; point_in(x, DI, DN);
  ap_lincons0_array_t ar = oct_to_lincons_array(man, a);
  int sat = 1;
  for (size_t i = 0; i < ar.size; i++) {
    ap_linexpr0_t *e = ar.p[i].linexpr0;
    if (s.bot) { VP_ASSERT(ap_lincons0_is_unsat(&ar.p[i]), "empty is converted to an unsatisfiable constraint"); sat = 0; continue; }
    g_t lin = 0; for (int d = 0; d < DN; d++) lin = lin + coef_small(e, d) * x[d];
    VP_ASSERT(ar.p[i].constyp == AP_CONS_SUPEQ, "constraint type");
    sat &= ap_scalar_cmp_g(e->cst.val.scalar, -lin) >= 0;
  }
  VP_ASSERT(sat == goct_mem(&s, x, DN), "to_lincons_array denotes exactly the octagon");
  VP_COVER("oct to_lincons");
}
void h_oct_of(void)
{
  setup();
  g_t x[DN]; point_in(x, DI, DN);
  ap_interval_t *t[DN]; int in = 1, empty = 0;
  for (int i = 0; i < DN; i++) { gitv q = gitv_any(0); t[i] = ap_interval_alloc(); ap_interval_set_g(t[i], &q); in &= gitv_mem(&q, x[i]); empty |= !gitv_nonempty(&q); }
  oct_t *b = oct_of_box(man, DI, DR, t);
  VP_ASSERT(oct_mem(b, x, DN) == in, "of_box contains exactly the points of the intervals");
  if (!empty && (b->m || b->closed)) well_formed(b, DI, DR);
  VP_ASSERT(oct_mem(oct_top(man, DI, DR), x, DN) && !oct_mem(oct_bottom(man, DI, DR), x, DN), "top and bottom");
  oct_t *c = oct_copy(man, b);
  VP_ASSERT(oct_mem(c, x, DN) == in && c->m != b->m | !c->m, "copy is equal and separate");
  VP_COVER("oct of");
}
/* a vertex, a ray or a line */
void h_oct_generators(void)
{
  setup();
  g_t v[2][DN], r[DN], x[DN]; int k = vp_choice(3); /* 0: two vertices; 1: vertex and ray; 2: vertex and line */
  ap_generator0_array_t ar = ap_generator0_array_make(2);
  for (int c = 0; c < 2; c++) {
    ap_linexpr0_t *e = ap_linexpr0_alloc(vp_choice(2) ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, DN);
    for (int i = 0; i < DN; i++) { ap_coeff_t *co = e->discr == AP_LINEXPR_DENSE ? &e->p.coeff[i] : (e->p.linterm[i].dim = i, &e->p.linterm[i].coeff); v[c][i] = c && k ? (g_t)(vp_choice(4) - 1) : vp_real(); ap_coeff_set_g(co, v[c][i]); }
    ar.p[c] = ap_generator0_make(c == 0 || k == 0 ? AP_GEN_VERTEX : k == 1 ? AP_GEN_RAY : AP_GEN_LINE, e);
  }
  if (vp_choice(2)) { ap_generator0_t g = ar.p[0]; ar.p[0] = ar.p[1]; ar.p[1] = g; }
  g_t l = vp_real();
  if (k < 2) VP_ASSUME(l >= 0); if (k == 0) VP_ASSUME(l <= 1);
  for (int i = 0; i < DN; i++) x[i] = k == 0 ? v[0][i] + vp_mul(l, v[1][i] - v[0][i]) : v[0][i] + vp_mul(l, v[1][i]);
  for (int i = 0; i < DI; i++) VP_ASSUME(vp_isint(x[i]));
  oct_t *a = oct_of_generator_array(man, DI, DR, &ar);
  VP_ASSERT(oct_mem(a, x, DN), "octagon of generators contains the generated points");
  VP_COVER("oct generators");
}
/* time elapse */
void h_oct_addray(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN], y[DN]; point_in(x, DI, DN);
  ap_generator0_array_t ar = ap_generator0_array_make(1);
  ap_linexpr0_t *e = ap_linexpr0_alloc(vp_choice(2) ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, DN);
  int line = vp_choice(2); g_t l = vp_real(); VP_ASSUME(line || l >= 0);
  for (int i = 0; i < DN; i++) { ap_coeff_t *co = e->discr == AP_LINEXPR_DENSE ? &e->p.coeff[i] : (e->p.linterm[i].dim = i, &e->p.linterm[i].coeff); g_t c = vp_choice(4) - 1; ap_coeff_set_g(co, c); y[i] = x[i] + vp_mul(l, c); }
  for (int i = 0; i < DI; i++) VP_ASSUME(vp_isint(y[i]));
  ar.p[0] = ap_generator0_make(line ? AP_GEN_LINE : AP_GEN_RAY, e);
  int destr = vp_choice(2);
  VP_ASSUME(goct_mem(&s, x, DN));
  oct_t *r = oct_add_ray_array(man, destr, a, &ar);
  VP_ASSERT(oct_mem(r, y, DN), "time elapse contains every translate along the rays");
  VP_COVER("oct addray");
}
/* ---- dimensions ---- */
void h_oct_forget(void)
{
  setup();
  goct s; int rep; oct_t *a = oct_in(&s, &rep);
  g_t x[DN], y[DN]; point_in(x, DI, DN);
  int n = 1 + vp_choice(2), project = vp_choice(2), destr = vp_choice(2);
  ap_dim_t td[2]; td[0] = vp_choice(2); td[1] = 1 - td[0];
  for (int i = 0; i < DN; i++) y[i] = x[i];
  for (int i = 0; i < n; i++) y[td[i]] = project ? 0 : g_in((int)td[i] < DI);
  int in = goct_mem(&s, x, DN);
  oct_t *r = oct_forget_array(man, destr, a, td, n, project);
  well_formed(r, DI, DR);
  VP_ASSERT(!in | oct_mem(r, y, DN), "forget keeps every projection");
  if (!destr) VP_ASSERT(unchanged(a, &s, x), "functional forget leaves its operand unchanged");
  if (project) { VP_ASSERT(!oct_mem(r, x, DN) | (x[td[0]] == 0), "forget with projection sets the dimension to 0"); }
  else { g_t z[DN]; for (int i = 0; i < DN; i++) z[i] = x[i]; z[td[0]] = g_in((int)td[0] < DI); VP_ASSERT(!oct_mem(r, x, DN) | oct_mem(r, z, DN), "a forgotten dimension is free"); }
  VP_COVER("oct forget");
}
void h_oct_adddim(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  int ni = vp_choice(2), nr = vp_choice(2), project = vp_choice(2), destr = vp_choice(2);
  if (ni + nr == 0) nr = 2;
  ap_dimchange_t dc; ap_dimchange_init(&dc, ni, nr);
  int pi = vp_choice(DI + 1), q1 = DI + vp_choice(DR + 1), q2 = nr == 2 ? DI + vp_choice(DR + 1) : q1;
  if (q2 < q1) { int t = q1; q1 = q2; q2 = t; }
  if (ni) dc.dim[0] = pi;
  if (nr) dc.dim[ni] = q1;
  if (nr == 2) dc.dim[ni + 1] = q2;
  g_t x[DN], y[DN + 2]; point_in(x, DI, DN);
  int k = 0, z = 1; char isnew[DN + 2];
  for (int i = 0; i <= DN; i++) {
    if (ni && pi == i) { y[k] = vp_int(); z &= y[k] == 0; isnew[k++] = 1; }
    if (nr && q1 == i) { y[k] = vp_real(); z &= y[k] == 0; isnew[k++] = 1; }
    if (nr == 2 && q2 == i) { y[k] = vp_real(); z &= y[k] == 0; isnew[k++] = 1; }
    if (i < DN) { y[k] = x[i]; isnew[k++] = 0; }
  }
  oct_t *r = oct_add_dimensions(man, destr, a, &dc, project);
  well_formed(r, DI + ni, DR + nr);
  int in = goct_mem(&s, x, DN);
  VP_ASSERT(oct_mem(r, y, k) == (in & (!project | z)), "add_dimensions inserts exactly the new dimensions");
  if (!destr) VP_ASSERT(unchanged(a, &s, x), "functional add_dimensions leaves its operand unchanged");
  ap_dimchange_t dr; ap_dimchange_init(&dr, ni, nr); int j = 0;
  for (int i = 0; i < k; i++) if (isnew[i]) dr.dim[j++] = i;
  oct_t *q = oct_remove_dimensions(man, vp_choice(2), r, &dr);
  well_formed(q, DI, DR);
  VP_ASSERT(oct_mem(q, x, DN) == in, "remove_dimensions undoes add_dimensions");
  VP_COVER("oct adddim");
}
void h_oct_remdim(void)
{
  setup();
  goct s; int rep; oct_t *a = oct_in(&s, &rep);
  int d = vp_choice(DN), destr = vp_choice(2), isint = d < DI;
  ap_dimchange_t dc; ap_dimchange_init(&dc, isint, !isint); dc.dim[0] = d;
  g_t x[DN], y[DN]; point_in(x, DI, DN); int k = 0;
  for (int i = 0; i < DN; i++) if (i != d) y[k++] = x[i];
  int in = goct_mem(&s, x, DN);
  oct_t *r = oct_remove_dimensions(man, destr, a, &dc);
  well_formed(r, DI - isint, DR - !isint);
  VP_ASSERT(!in | oct_mem(r, y, k), "remove_dimensions keeps every projection");
  if (rep == 2) { int m = 1; for (int i = 0; i < 2 * DN; i++) for (int j = 0; j <= (i | 1); j++) if (i / 2 != d && j / 2 != d && i != j) { int p = mpos(i, j); m &= s.inf[p] | (val(x, j) - val(x, i) <= s.m[p]); } VP_ASSERT(oct_mem(r, y, k) == m, "remove_dimensions projects exactly"); }
  if (!destr) VP_ASSERT(unchanged(a, &s, x), "functional remove_dimensions leaves its operand unchanged");
  VP_COVER("oct remdim");
}
void h_oct_permute(void)
{
  setup();
  goct s; oct_t *a = oct_in(&s, NULL);
  g_t x[DN], y[DN]; point_in(x, DI, DN);
  ap_dimperm_t pm; ap_dimperm_init(&pm, DN); int n = DN == 3 ? vp_choice(6) : vp_choice(2);
  static const char P3[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} };
  for (int i = 0; i < DN; i++) { int v = DN == 3 ? P3[n][i] : (n ? DN - 1 - i : i); pm.dim[i] = v; y[v] = x[i]; }
  int destr = vp_choice(2), in = goct_mem(&s, x, DN);
  oct_t *r = oct_permute_dimensions(man, destr, a, &pm);
  well_formed(r, DI, DR);
  VP_ASSERT(oct_mem(r, y, DN) == in, "permute_dimensions moves dimension i to perm(i)");
  if (!destr) VP_ASSERT(unchanged(a, &s, x), "functional permute leaves its operand unchanged");
  VP_COVER("oct permute");
}
void h_oct_expand(void)
{
  setup();
  goct s; int rep; oct_t *a = oct_in(&s, &rep);
  int d = vp_choice(DN), destr = vp_choice(2), isint = d < DI, n = 1 + vp_choice(3), ok;
  g_t x[DN], z[3][DN], y[DN + 3]; point_in(x, DI, DN); int k = 0; ok = goct_mem(&s, x, DN);
  for (int c = 0; c < n; c++) { for (int i = 0; i < DN; i++) z[c][i] = x[i]; z[c][d] = g_in(isint); ok &= goct_mem(&s, z[c], DN); }
  for (int i = 0; i <= DN; i++) { if (i == (isint ? DI : DN)) for (int c = 0; c < n; c++) y[k++] = z[c][d]; if (i < DN) y[k++] = x[i]; }
  oct_t *r = oct_expand(man, destr, a, d, n);
  well_formed(r, DI + (isint ? n : 0), DR + (isint ? 0 : n));
  VP_ASSERT(oct_mem(r, y, k) == ok, "expand: all copies satisfy the constraints of the original");
  if (!destr) VP_ASSERT(unchanged(a, &s, x), "functional expand leaves its operand unchanged");
  VP_COVER("oct expand");
}
void h_oct_fold(void)
{
  setup();
  goct s; int rep; oct_t *a = oct_in(&s, &rep);
  /* fold an increasing set of dimensions of the same sort into the first one */
  int isint = DI >= 2 && (DR < 2 || vp_choice(2)), off = isint ? 0 : DI, lim = isint ? DI : DR, mask = vp_choice(1 << lim), n = 0, destr = vp_choice(2);
  ap_dim_t td[DN]; for (int i = 0; i < lim; i++) if ((mask >> i) & 1) td[n++] = off + i;
  VP_ASSUME(n >= 2);
  g_t x[DN], y[DN]; point_in(x, DI, DN); int k = 0, w = vp_choice(n), from[DN];
  for (int i = 0; i < DN; i++) { if (i > (int)td[0] && i >= off && i < off + lim && ((mask >> (i - off)) & 1)) continue; from[k] = i; y[k++] = i == (int)td[0] ? x[td[w]] : x[i]; }
  int in = goct_mem(&s, x, DN);
  oct_t *r = oct_fold(man, destr, a, td, n);
  well_formed(r, DI - (isint ? n - 1 : 0), DR - (isint ? 0 : n - 1));
  VP_ASSERT(!in | oct_mem(r, y, k), "fold keeps the values of each folded dimension");
  if (rep == 2 && !s.bot && (r->m || r->closed)) { /* from a closed octagon: each bound is the largest of the bounds it comes from */
    bound_t *m = r->closed ? r->closed : r->m;
    for (int i = 0; i < 2 * k; i++) for (int j = 0; j <= (i | 1); j++) if (i != j) {
      int inf = 0; g_t b = 0;
      for (int c = 0; c < n; c++) {
        int fi = from[i / 2] == (int)td[0] ? (int)td[c] : from[i / 2], fj = from[j / 2] == (int)td[0] ? (int)td[c] : from[j / 2], p = mpos(2 * fi + (i & 1), 2 * fj + (j & 1));
        inf |= s.inf[p]; if (!s.inf[p] && (c == 0 || s.m[p] > b)) b = s.m[p];
      }
      VP_ASSERT(inf ? bound_infty(m[mpos(i, j)]) : bound_cmp_g(m[mpos(i, j)], b) == 0, "fold of a closed octagon is the best one");
    }
  }
  if (!destr) VP_ASSERT(unchanged(a, &s, x), "functional fold leaves its operand unchanged");
  VP_COVER("oct fold");
}
/* raw serialization */
void h_oct_serialize(void)
{
  setup();
  static const double T[] = { 0, 1.5, -3, 1e30, -0.0625, 255, -256, 65536 };
  goct s = goct_pat(1); int rep = vp_choice(3), k = 0;
  if (rep == 0) s.bot = 1;
  else { int w = vp_choice(4), v1 = vp_choice(8), v2 = vp_choice(8), fl = vp_choice(3); for (int i = 0; i < 2 * DN; i++) for (int j = 0; j <= (i | 1); j++) if (i != j) { int p = mpos(i, j); if (k % 4 == w || fl == 1) { s.inf[p] = 0; s.m[p] = T[k < 4 ? v1 : v2]; } else if (fl == 2) { s.inf[p] = 0; s.m[p] = T[(v1 + k) & 7]; } k++; } }
  oct_t *a = oct_rep(&s, rep);
  g_t x[DN]; point_in(x, DI, DN);
  ap_membuf_t b = oct_serialize_raw(man, a);
  size_t n = 0; oct_t *r = oct_deserialize_raw(man, b.ptr, &n);
  VP_ASSERT(n == b.size, "deserialization reads what serialization wrote");
  VP_ASSERT((int)r->dim == DN && (int)r->intdim == DI && oct_mem(r, x, DN) == goct_mem(&s, x, DN), "serialization round trip");
  VP_COVER("oct serialize");
}
