/* Whole domains through the level-0 interface: polyhedra given by small explicit constraints, the points being symbolic.
   MAN: 0 polka (loose), 1 polka (strict), 2 boxes, 3 octagons, 4 polka (equalities).  The sets of points of the operands are known exactly (their constraints), those of the results are
   read from ap_abstract0_to_lincons_array; exact images are computed by Fourier-Motzkin elimination. */
#include "vpnum.h"
#include "ap_global0.h"
#ifndef MAN
#define MAN 0
#endif
#if MAN < 2
#include "pk.h"
#elif MAN == 4
#include "pkeq.h"
#elif MAN == 2
#include "box.h"
#elif MAN == 3
#include "oct.h"
#endif
#ifndef DI
#define DI 0
#endif
#ifndef DR
#define DR 2
#endif
#define DN (DI + DR)
#define MX 8 /* most dimensions */
#ifndef ALG
#define ALG 0
#endif
static ap_manager_t *man;
static void setup(void)
{
#if MAN < 2
  man = pk_manager_alloc(MAN == 1);
#elif MAN == 2
  man = box_manager_alloc();
#elif MAN == 3
  man = oct_manager_alloc();
#elif MAN == 4
  man = pkeq_manager_alloc();
#endif
  for (int i = 0; i < AP_FUNID_SIZE; i++) if (i != AP_FUNID_APPROXIMATE) { ap_funopt_t o = ap_manager_get_funopt(man, i); o.algorithm = ALG; ap_manager_set_funopt(man, i, &o); }
}
/* ---- sets of constraints ---- */
typedef struct { g_t c[MX], k; int op; } con; /* op: 0 equality, 1 >=, 2 > */
#define NCMAX 96
typedef struct { int n, bot; con t[NCMAX]; } pd;
static int con_sat(const con *a, const g_t *x, int n) { g_t v = a->k; for (int i = 0; i < n; i++) v = v + a->c[i] * x[i]; return a->op == 0 ? v == 0 : a->op == 1 ? v >= 0 : v > 0; }
static int pmem(const pd *p, const g_t *x, int n) { if (p->bot) return 0; int r = 1; for (int i = 0; i < p->n; i++) r &= con_sat(&p->t[i], x, n); return r; }
static void pd_add(pd *p, const con *c) { VP_ASSERT(p->n < NCMAX, "harness: too many constraints"); p->t[p->n++] = *c; }
/* elimination of dimension d (which stays, unconstrained) */
static void fm(pd *q, const pd *p, int d)
{
  static con lo[NCMAX], up[NCMAX]; int nl = 0, nu = 0; q->n = 0; q->bot = p->bot;
  for (int e = 0; e < p->n; e++) if (p->t[e].op == 0 && p->t[e].c[d] != 0) { /* substitute */
    for (int i = 0; i < p->n; i++) if (i != e) { con a = p->t[i]; g_t f = -a.c[d] / p->t[e].c[d]; if (f != 0) { for (int m = 0; m < MX; m++) a.c[m] = a.c[m] + f * p->t[e].c[m]; a.k = a.k + f * p->t[e].k; a.c[d] = 0; } pd_add(q, &a); }
    return;
  }
  for (int i = 0; i < p->n; i++) {
    con a = p->t[i]; if (a.c[d] == 0) { pd_add(q, &a); continue; }
    int both = a.op == 0; g_t s = a.c[d] > 0 ? a.c[d] : -a.c[d];
    for (int m = 0; m < MX; m++) a.c[m] = a.c[m] / s; a.k = a.k / s; if (both) a.op = 1;
    for (int r = 0; r <= both; r++) {
      if (a.c[d] > 0) lo[nl++] = a; else up[nu++] = a;
      for (int m = 0; m < MX; m++) a.c[m] = -a.c[m]; a.k = -a.k;
    }
  }
  for (int i = 0; i < nl; i++) for (int j = 0; j < nu; j++) { con a = lo[i]; for (int m = 0; m < MX; m++) a.c[m] = a.c[m] + up[j].c[m]; a.k = a.k + up[j].k; a.c[d] = 0; if (up[j].op > a.op) a.op = up[j].op;
    int z = 1; for (int m = 0; m < MX; m++) z &= a.c[m] == 0; if (z && (a.op == 1 ? a.k >= 0 : a.k > 0)) continue;
    for (int m = 0; m < MX; m++) if (a.c[m] != 0) { g_t f = a.c[m] > 0 ? a.c[m] : -a.c[m]; for (int n = 0; n < MX; n++) a.c[n] = a.c[n] / f; a.k = a.k / f; break; }
    int dup = 0; for (int b = 0; b < q->n && !dup; b++) { con *t = &q->t[b]; if (t->op == 0) continue; int eq = 1; for (int m = 0; m < MX; m++) eq &= t->c[m] == a.c[m]; if (!eq) continue; /* the stronger of two parallel constraints */ if (a.k < t->k || (a.k == t->k && a.op > t->op)) *t = a; dup = 1; }
    if (!dup) pd_add(q, &a); }
}
static int pd_empty(const pd *p) /* over the reals; dimensions 0..MX-1 */
{
  static pd a, b; a = *p; if (a.bot) return 1;
  for (int d = 0; d < DN; d++) { fm(&b, &a, d); a = b; }
  for (int i = 0; i < a.n; i++) if (a.t[i].op == 0 ? a.t[i].k != 0 : a.t[i].op == 1 ? a.t[i].k < 0 : a.t[i].k <= 0) return 1;
  return 0;
}
static con con_zero(int op) { con c; for (int m = 0; m < MX; m++) c.c[m] = 0; c.k = 0; c.op = op; return c; }
/* closure of the convex hull: x = x1 + x2, x1 in l.p, x2 in (1-l).q, 0 <= l <= 1 */
static void hull(pd *h, const pd *p, const pd *q)
{
  static pd a, b; int e = pd_empty(p), f = pd_empty(q), L = 2 * DN; VP_ASSERT(L < MX, "harness: too many dimensions");
  if (e || f) { *h = e ? *q : *p; h->bot = e && f; return; }
  a.n = 0; a.bot = 0;
  for (int s = 0; s < 2; s++) { const pd *z = s ? q : p; for (int i = 0; i < z->n; i++) { con c = con_zero(z->t[i].op == 2 ? 1 : z->t[i].op); g_t g = z->t[i].k; for (int m = 0; m < DN; m++) { g_t v = z->t[i].c[m]; if (s) { c.c[m] = v; c.c[DN + m] = -v; } else c.c[DN + m] = v; } if (s) { c.k = g; c.c[L] = -g; } else c.c[L] = g; pd_add(&a, &c); } }
  con c = con_zero(1); c.c[L] = 1; if (MAN != 4) /* affine hull otherwise */ { pd_add(&a, &c); c.c[L] = -1; c.k = 1; pd_add(&a, &c); }
  for (int d = DN; d <= L; d++) { fm(&b, &a, d); a = b; }
  *h = a;
}
/* substitutes f for x_d (and k0 + sum) */
static con con_subst(const con *a, int d, const g_t *f, g_t k, int n)
{ con r = *a; g_t m = a->c[d]; r.c[d] = 0; for (int i = 0; i < n; i++) r.c[i] = r.c[i] + m * f[i]; r.k = r.k + m * k; return r; }
static int implies(const pd *p, const con *c) { static pd w; w = *p; con d = *c; for (int m = 0; m < MX; m++) d.c[m] = -d.c[m]; d.k = -d.k; d.op = d.op == 2 ? 1 : 2; pd_add(&w, &d); return pd_empty(&w); }
static con con_swap(con a, int d, int e) { g_t t = a.c[d]; a.c[d] = a.c[e]; a.c[e] = t; return a; }
/* ---- expressions and abstract values ---- */
static g_t coeff_g(ap_coeff_t *c)
{
  VP_ASSERT(c->discr == AP_COEFF_SCALAR, "scalar coefficient expected"); if (c->discr != AP_COEFF_SCALAR) return 0;
  ap_scalar_t *s = c->val.scalar; VP_ASSERT(!ap_scalar_infty(s), "finite coefficient expected");
  return s->discr == AP_SCALAR_DOUBLE ? s->val.dbl : s->discr == AP_SCALAR_MPQ ? mpq_get_d(s->val.mpq) : mpfr_get_d(s->val.mpfr, GMP_RNDN);
}
static g_t scal_g(ap_scalar_t *s) { return s->discr == AP_SCALAR_DOUBLE ? s->val.dbl : s->discr == AP_SCALAR_MPQ ? mpq_get_d(s->val.mpq) : mpfr_get_d(s->val.mpfr, GMP_RNDN); }
static void ap_interval_get_g(ap_interval_t *v, gitv *w) { w->linf = ap_scalar_infty(v->inf) < 0; w->hinf = ap_scalar_infty(v->sup) > 0; w->lo = w->linf ? 0 : scal_g(v->inf); w->hi = w->hinf ? 0 : scal_g(v->sup); }
static ap_linexpr0_t *expr_of(const g_t *c, g_t k, int n, int sparse)
{
  ap_linexpr0_t *e = ap_linexpr0_alloc(sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, sparse ? 0 : n);
  for (int i = 0; i < n; i++) if (c[i] != 0) ap_coeff_set_g(ap_linexpr0_coeffref(e, i), c[i]); ap_coeff_set_g(&e->cst, k); return e;
}
static ap_lincons0_t lincons_of(const con *a, int n) { return ap_lincons0_make(a->op == 0 ? AP_CONS_EQ : a->op == 1 ? AP_CONS_SUPEQ : AP_CONS_SUP, expr_of(a->c, a->k, n, 0), NULL); }
static int dims_are(ap_abstract0_t *a, int di, int dr) { ap_dimension_t d = ap_abstract0_dimension(man, a); return (int)d.intdim == di && (int)d.realdim == dr; }
/* the set of points of a result */
static int amem(ap_abstract0_t *a, const g_t *x, int n)
{
  ap_lincons0_array_t t = ap_abstract0_to_lincons_array(man, a); int r = 1;
  for (size_t i = 0; i < t.size; i++) {
    ap_linexpr0_t *e = t.p[i].linexpr0; g_t v = coeff_g(&e->cst); size_t j; ap_dim_t d; ap_coeff_t *c;
    ap_linexpr0_ForeachLinterm(e, j, d, c) { if (d == AP_DIM_MAX) continue; VP_ASSERT((int)d < n, "constraints of the result are over its dimensions"); g_t m = coeff_g(c); if (m != 0) v = v + m * x[d]; }
    switch (t.p[i].constyp) { case AP_CONS_EQ: r &= v == 0; break; case AP_CONS_SUPEQ: r &= v >= 0; break; case AP_CONS_SUP: r &= v > 0; break; default: break; /* congruences: no information */ }
  }
  ap_lincons0_array_clear(&t);
  return r;
}
/* ---- operands ---- */
#ifndef MENU
#define MENU 0
#endif
#define M(a, b, c, kk, o) { { a, b, c }, kk, o }
static const con menu[][12] = {
  { M(1, 0, 0, 0, 1), M(0, 1, 0, 0, 1), M(-1, -1, 0, 3, 1), M(1, -1, 0, 0, 0), M(2, -3, 0, 1, 1), M(-1, 0, 0, 2, 1), M(1, -1, 0, 1, 1), M(1, 1, 0, -1, 0), M(-1, 2, 0, 4, 1), M(0, -1, 0, 0.5, 1), M(-3, 1, 0, 7, 1), M(1, 0, 0, -2, 0) },
  { M(1, 0, 0, 0, 2), M(0, 1, 0, 0, 1), M(-1, -1, 0, 3, 2), M(1, -1, 0, 0, 0), M(2, -3, 0, 1, 1), M(-1, 0, 0, 2, 1), M(1, -1, 0, 1, 2), M(-1, 0, 0, 0, 1), M(-1, 2, 0, 4, 2), M(0, -1, 0, 0.5, 2), M(-3, 1, 0, 7, 1), M(1, 0, 0, -2, 0) },
  { M(1, 0, 0, 0, 1), M(0, 1, -1, 0, 1), M(-1, -1, -1, 3, 1), M(1, -1, 0, 0, 0), M(0, 0, 1, 1, 1), M(-1, 0, 2, 2, 1), M(1, -1, 1, 1, 1), M(0, 1, 1, -1, 0), M(-1, 2, 0, 4, 1), M(0, -1, 0, 1, 1), M(0, 0, -1, 5, 1), M(1, 0, 0, -2, 0) },
  { M(1, 0, 0, 0, 0), M(0, 1, 0, -2, 0), M(-1, 1, 0, 3, 0), M(1, -1, 1, 0, 0), M(2, -3, 0, 1, 0), M(0, 2, -1, 0.5, 0), M(1, 1, 1, 1, 0), M(1, 1, 0, -1, 0) },
  { M(1, 0, 0, 0, 0), M(0, 1, 0, -2, 0), M(-1, 1, 0, 3, 0), M(1, -1, 0, 0, 0), M(2, -3, 0, 1, 0), M(0, 2, 0, 0.5, 0), M(1, 0, 0, 1, 0), M(1, 1, 0, -1, 0) } };
#ifndef NM
#define NM 8 /* how many of the menu */
#endif
#ifndef NCONS
#define NCONS 3
#endif
static void menu_pick(pd *p) /* at most NCONS of them, in increasing order */
{ p->n = 0; p->bot = 0; int i = 0;
#ifdef BASE /* in a box, so that matrices are larger */
  for (int d = 0; d < DN; d++) { con c = con_zero(1); c.c[d] = 1; c.k = 2; pd_add(p, &c); c.c[d] = -1; c.k = 4; pd_add(p, &c); }
#endif
  for (int k = 0; k < NCONS && i < NM; k++) { int c = vp_choice(NM - i + 1); if (c == NM - i) break; i += c; pd_add(p, &menu[MENU][i]); i++; } }
#ifndef STATES
#define STATES 4
#endif
/* histories: how the value was built and what was asked before */
#ifndef STATES2
#define STATES2 2 /* second operands */
#endif
static ap_abstract0_t *build_s(pd *p, int states)
{
  menu_pick(p);
  int st = vp_choice(states); if (states == 2) st *= 3; ap_abstract0_t *a = ap_abstract0_top(man, DI, DR);
  if (st == 1) for (int i = p->n - 1; i >= 0; i--) { ap_lincons0_array_t t = ap_lincons0_array_make(1); t.p[0] = lincons_of(&p->t[i], DN); a = ap_abstract0_meet_lincons_array(man, 1, a, &t); if (i == 1) ap_abstract0_canonicalize(man, a); }
  else { ap_lincons0_array_t t = ap_lincons0_array_make(p->n); for (int i = 0; i < p->n; i++) t.p[i] = lincons_of(&p->t[i], DN); a = ap_abstract0_meet_lincons_array(man, 1, a, &t); }
  if (st == 2) ap_abstract0_minimize(man, a);
  if (st == 3) { ap_abstract0_t *b = ap_abstract0_join(man, 0, a, a); ap_abstract0_is_leq(man, b, a); a = b; } /* both representations, or generators only */
  if (st == 4) ap_abstract0_canonicalize(man, a);
  return a;
}
static ap_abstract0_t *build(pd *p) { return build_s(p, STATES); }
static ap_abstract0_t *build2(pd *p) { return build_s(p, STATES2); }
static void point(g_t *x, int di, int n) { for (int i = 0; i < n; i++) x[i] = i < di ? vp_int() : vp_real(); }
#define STRICT (MAN == 1)
#define EXACT ((MAN < 2 || MAN == 4) && DI == 0)
#ifndef HOWD
#define HOWD vp_choice(2)
#endif
static void unchanged(ap_abstract0_t *a, const pd *p, const g_t *x) { VP_ASSERT(amem(a, x, DN) == pmem(p, x, DN) && dims_are(a, DI, DR), "functional operations leave their operands unchanged"); }
/* bounds of dimension d, the only one in q; the ones returned are at least as good, the best ones over the reals */
static void range(gitv *s, const pd *q, int d)
{ s->linf = s->hinf = 1; s->lo = s->hi = 0; for (int i = 0; i < q->n; i++) { g_t k = q->t[i].c[d], w; if (k == 0) continue; w = -q->t[i].k / k; if (k > 0 || q->t[i].op == 0) { if (s->linf || w > s->lo) s->lo = w; s->linf = 0; } if (k < 0 || q->t[i].op == 0) { if (s->hinf || w < s->hi) s->hi = w; s->hinf = 0; } } }
static void best(ap_interval_t *v, const gitv *s)
{
  if (DI == 0) VP_ASSERT((s->linf ? ap_scalar_infty(v->inf) < 0 : ap_scalar_cmp_g(v->inf, s->lo) == 0) && (s->hinf ? ap_scalar_infty(v->sup) > 0 : ap_scalar_cmp_g(v->sup, s->hi) == 0), "bounds are the best ones");
  else VP_ASSERT((s->linf || ap_scalar_cmp_g(v->inf, s->lo) >= 0) && (s->hinf || ap_scalar_cmp_g(v->sup, s->hi) <= 0), "bounds are no worse than the best ones over the reals");
}
/* ---- representations ---- */
static int gen_in(const pd *p, ap_generator0_t *g, int closed) /* is the generator one of p? (closed: of its closure) */
{
  g_t v[MX]; for (int i = 0; i < DN; i++) { ap_coeff_t *c = ap_linexpr0_coeffref(g->linexpr0, i); v[i] = coeff_g(c); }
  int r = 1; for (int i = 0; i < p->n; i++) { con a = p->t[i]; if (closed && a.op == 2) a.op = 1; if (g->gentyp != AP_GEN_VERTEX) { a.k = 0; if (a.op == 2) a.op = 1; if (g->gentyp == AP_GEN_LINE) a.op = 0; } r &= con_sat(&a, v, DN); }
  return r;
}
void h_poly_repr(void)
{
  setup(); pd p; ap_abstract0_t *a = build(&p); g_t x[MX]; point(x, DI, DN); int empty = pd_empty(&p);
  int q = vp_choice(7);
  if (q == 0) VP_ASSERT(amem(a, x, DN) == pmem(&p, x, DN), "to_lincons_array denotes exactly the polyhedron");
  if (q == 1) { VP_ASSERT(!!ap_abstract0_is_bottom(man, a) == empty, "emptiness is exact"); int top = !!ap_abstract0_is_top(man, a); VP_ASSERT(!top || p.n == 0, "only the universe is reported universal"); if (ALG >= 0) VP_ASSERT(top == (p.n == 0), "universality is exact"); }
  if (q == 2) { /* generators: all in the polyhedron, and they generate it */
    ap_generator0_array_t g = ap_abstract0_to_generator_array(man, a); VP_ASSERT((g.size == 0) == empty, "generators of the empty polyhedron only"); ap_abstract0_t *b = ap_abstract0_bottom(man, DI, DR);
    for (size_t i = 0; i < g.size; i++) {
      if (!DI || !STRICT) VP_ASSERT(gen_in(&p, &g.p[i], 1), "generators are in the polyhedron");
      if (g.p[i].gentyp == AP_GEN_VERTEX) { ap_interval_t *t[MX]; for (int d = 0; d < DN; d++) { t[d] = ap_interval_alloc(); gitv z = gitv_point(coeff_g(ap_linexpr0_coeffref(g.p[i].linexpr0, d))); ap_interval_set_g(t[d], &z); } b = ap_abstract0_join(man, 1, b, ap_abstract0_of_box(man, DI, DR, t)); }
    }
    ap_generator0_array_t r = ap_generator0_array_make(g.size); r.size = 0; for (size_t i = 0; i < g.size; i++) if (g.p[i].gentyp != AP_GEN_VERTEX) r.p[r.size++] = g.p[i];
    if (r.size) b = ap_abstract0_add_ray_array(man, 1, b, &r);
    if (!STRICT && !DI) VP_ASSERT(amem(b, x, DN) == pmem(&p, x, DN), "the generators generate the polyhedron");
  }
  if (q == 3) { ap_abstract0_t *b = ap_abstract0_copy(man, a); if (vp_choice(2)) ap_abstract0_minimize(man, a); else ap_abstract0_canonicalize(man, a); VP_ASSERT(ap_abstract0_is_eq(man, a, b), "normalization keeps the value"); }
  if (q == 4) { /* bounding box */
    ap_interval_t **t = ap_abstract0_to_box(man, a); int d = vp_choice(DN); gitv s; pd e = p, f; for (int i = 0; i < DN; i++) if (i != d) { fm(&f, &e, i); e = f; }
    if (empty) VP_ASSERT(ap_interval_is_bottom(t[d]), "empty bounding box");
    else { range(&s, &e, d); best(t[d], &s); gitv w; ap_interval_get_g(t[d], &w); VP_ASSERT(!pmem(&p, x, DN) | gitv_mem(&w, x[d]), "bounding boxes contain every point");
      VP_ASSERT(!!ap_abstract0_is_dimension_unconstrained(man, a, d) == ({ pd u; fm(&u, &p, d); int z = 1; for (int i = 0; i < p.n; i++) z &= p.t[i].c[d] == 0; z; }), "unconstrained dimensions");
      if (!empty) { ap_interval_t *v = ap_abstract0_bound_dimension(man, a, d); VP_ASSERT(ap_interval_equal(v, t[d]), "bounds of a dimension"); VP_ASSERT(ap_abstract0_sat_interval(man, a, d, v), "a dimension is in its bounds"); } }
  }
  if (q == 5) { int destr = HOWD; ap_abstract0_t *b = ap_abstract0_closure(man, destr, a); pd e = p; for (int i = 0; i < e.n; i++) if (e.t[i].op == 2) e.t[i].op = 1;
    VP_ASSERT(!pmem(&p, x, DN) | amem(b, x, DN), "closure contains its argument"); if (DI == 0 && !empty) VP_ASSERT(amem(b, x, DN) == pmem(&e, x, DN), "closure is the topological closure"); if (!destr) unchanged(a, &p, x); }
  if (q == 6) { static const int al[] = { -1, 1, 2, 3, 10, 11, 12 };
#if MAN == 0 || MAN == 1
    pk_set_approximate_max_coeff_size(pk_manager_get_internal(man), 1);
#endif
    int alg = al[vp_choice(7)]; ap_abstract0_t *b = ap_abstract0_copy(man, a); ap_abstract0_approximate(man, a, alg); VP_ASSERT(dims_are(a, DI, DR) && !pmem(&p, x, DN) | amem(a, x, DN), "approximations contain their argument");
    if ((alg == 2 || alg == 3) && MAN != 4) { for (int d = 0; d < DN; d++) VP_ASSERT(ap_interval_equal(ap_abstract0_bound_dimension(man, a, d), ap_abstract0_bound_dimension(man, b, d)), "approximation 2 keeps the bounding box");
      for (int d = 0; d < DN; d++) for (int e = 0; e < d && alg == 3; e++) for (int g = -1; g <= 1; g += 2) { g_t c[MX] = { 0 }; c[d] = 1; c[e] = g; ap_linexpr0_t *l = expr_of(c, 0, DN, 0); VP_ASSERT(ap_interval_equal(ap_abstract0_bound_linexpr(man, a, l), ap_abstract0_bound_linexpr(man, b, l)), "approximation 3 keeps the bounding octagon"); } } }
  VP_COVER("poly repr");
}
/* ---- two operands ---- */
void h_poly_binary(void)
{
  setup(); pd p, q; ap_abstract0_t *a = build(&p), *b = build2(&q), *r; g_t x[MX]; point(x, DI, DN); int ea = pd_empty(&p), eb = pd_empty(&q);
#ifndef BOP
#define BOP vp_choice(5)
#endif
  int op = BOP, destr = op == 2 || op == 3 ? HOWD : 0;
  if (op == 0 || op == 1) {
    int leq = ap_abstract0_is_leq(man, a, b), eq = ap_abstract0_is_eq(man, a, b);
    if (leq) VP_ASSERT(!pmem(&p, x, DN) | pmem(&q, x, DN), "inclusion reported only between included polyhedra");
    else VP_ASSERT(!ea, "empty is included in everything");
    VP_ASSERT(!eq || leq, "equality implies inclusion"); VP_ASSERT(!eq | (pmem(&p, x, DN) == pmem(&q, x, DN)), "equality reported only between equal polyhedra");
    if (!leq) { int out = 0; for (int i = 0; i < q.n; i++) for (int s = 0; s <= (q.t[i].op == 0); s++) { pd w = p; con c = q.t[i]; for (int m = 0; m < MX; m++) c.c[m] = s ? c.c[m] : -c.c[m]; c.k = s ? c.k : -c.k; c.op = c.op == 2 ? 1 : 2; pd_add(&w, &c); out |= !pd_empty(&w); }
      if (DI == 0) VP_ASSERT(out, "inclusion is exact"); }
    if (leq && DI == 0) VP_ASSERT(eq == !!ap_abstract0_is_leq(man, b, a), "equality is inclusion both ways");
  }
  if (op == 2) { r = ap_abstract0_meet(man, destr, a, b); VP_ASSERT(dims_are(r, DI, DR) && amem(r, x, DN) == (pmem(&p, x, DN) & pmem(&q, x, DN)), "meet is the intersection"); }
  if (op == 3) { r = ap_abstract0_join(man, destr, a, b); VP_ASSERT(dims_are(r, DI, DR) && !(pmem(&p, x, DN) | pmem(&q, x, DN)) | amem(r, x, DN), "join contains its arguments");
    if (ea && eb) VP_ASSERT(ap_abstract0_is_bottom(man, r), "join of empty polyhedra");
#ifdef BASE
    for (int i = 0; i < NM; i++) { con c = menu[MENU][i]; if (c.op == 0) continue; ap_lincons0_t l = lincons_of(&c, DN); VP_ASSERT(!!ap_abstract0_sat_lincons(man, r, &l) == (implies(&p, &c) && implies(&q, &c)), "join satisfies exactly what both arguments do"); }
#else
    if (DI == 0) { pd h; hull(&h, &p, &q); int im = pmem(&h, x, DN); VP_ASSERT(!amem(r, x, DN) | im, "join is included in the closure of the convex hull"); if (!STRICT) VP_ASSERT(amem(r, x, DN) == im, "join is the closure of the convex hull"); }
#endif
  }
  if (op == 4) { /* widening: the second argument contains the first */
    ap_abstract0_t *c = ap_abstract0_join(man, 0, a, b); int th = vp_choice(2); ap_lincons0_array_t t = ap_lincons0_array_make(2); for (int i = 0; i < 2; i++) t.p[i] = lincons_of(&menu[MENU][(2 * i + 5) % NM], DN);
    r = th ? ap_abstract0_widening_threshold(man, a, c, &t) : ap_abstract0_widening(man, a, c);
    VP_ASSERT(dims_are(r, DI, DR) && !(pmem(&p, x, DN) | pmem(&q, x, DN)) | amem(r, x, DN), "widening contains its arguments");
    if (ap_abstract0_is_leq(man, b, a)) VP_ASSERT(amem(r, x, DN) == pmem(&p, x, DN), "widening of a stable sequence is stable");
    if (th && DI == 0) for (int i = 0; i < 2; i++) { con w = menu[MENU][(2 * i + 5) % NM]; if (w.op == 0) continue; ap_lincons0_t l = lincons_of(&w, DN); if (!ea && ap_abstract0_sat_lincons(man, a, &l) && ap_abstract0_sat_lincons(man, c, &l)) VP_ASSERT(ap_abstract0_sat_lincons(man, r, &l), "thresholds satisfied by both arguments are kept"); }
  }
  if (!destr) { unchanged(a, &p, x); }
  unchanged(b, &q, x);
  VP_COVER("poly binary");
}
/* meet and join of three operands */
void h_poly_array(void)
{
  setup(); pd p[3]; ap_abstract0_t *a[3], *r; g_t x[MX]; point(x, DI, DN); int join = vp_choice(2), n = 1 + vp_choice(3), all = 1, any = 0;
  for (int i = 0; i < n; i++) { a[i] = build(&p[i]); all &= pmem(&p[i], x, DN); any |= pmem(&p[i], x, DN); }
  r = join ? ap_abstract0_join_array(man, a, n) : ap_abstract0_meet_array(man, a, n);
  if (!join) VP_ASSERT(amem(r, x, DN) == all, "meet_array is the intersection");
  else { VP_ASSERT(!any | amem(r, x, DN), "join_array contains its arguments"); ap_abstract0_t *s = ap_abstract0_copy(man, a[0]); for (int i = 1; i < n; i++) s = ap_abstract0_join(man, 1, s, a[i]); VP_ASSERT(ap_abstract0_is_eq(man, r, s), "join_array is an iterated join"); }
  for (int i = 0; i < n; i++) unchanged(a[i], &p[i], x);
  VP_COVER("poly array");
}
/* ---- constraints ---- */
static const g_t etab[][MX + 1] = { { 1, 0, 0, 0, 0, 0, 0, 0, 1 }, { 0, 1, 0, 0, 0, 0, 0, 0, 0 }, { 0, 0, 0, 0, 0, 0, 0, 0, 3 }, { 1, -1, 0, 0, 0, 0, 0, 0, 0.5 }, { 2, 3, 0, 0, 0, 0, 0, 0, -1 }, { -2, 2, 0, 0, 0, 0, 0, 0, 1 }, { -1, 0, 0, 0, 0, 0, 0, 0, 0 }, { 0, -2, 1, 0, 0, 0, 0, 0, 1 }, { 1, 1, 1, 0, 0, 0, 0, 0, 0 } };
#ifndef NE
#define NE 6
#endif
#ifdef IVC /* constants are intervals [k, k + ivw] */
static const g_t ivws[] = { 0, 1, 2.5 };
#define IVW ivws[vp_choice(3)]
static void set_ivw(ap_linexpr0_t *e, g_t k, g_t w) { if (w != 0) { gitv s; s.linf = s.hinf = 0; s.lo = k; s.hi = k + w; ap_coeff_set_gitv(&e->cst, &s); } }
#else
#define IVW 0
#define set_ivw(e, k, w) ((void)(w))
#endif
#ifndef NMC
#define NMC 1 + vp_choice(2)
#endif
void h_poly_meet_lincons(void)
{
  setup(); pd p, q; ap_abstract0_t *a = build(&p), *r; g_t x[MX]; point(x, DI, DN); int n = NMC, destr = HOWD; q = p; int in = 1; g_t iw[2]; con cn[2];
  ap_lincons0_array_t t = ap_lincons0_array_make(n);
  for (int i = 0; i < n; i++) { con c; int e = vp_choice(NE); for (int m = 0; m < MX; m++) c.c[m] = etab[e][m]; c.k = etab[e][MX]; c.op = vp_choice(3); t.p[i] = lincons_of(&c, DN); g_t w = IVW; set_ivw(t.p[i].linexpr0, c.k, w); iw[i] = w; cn[i] = c;
    /* some value of the constant satisfies it */
    if (w != 0 && c.op == 0) { c.op = 1; c.k = c.k + w; pd_add(&q, &c); in &= con_sat(&c, x, DN); for (int m = 0; m < MX; m++) c.c[m] = -c.c[m]; c.k = w - c.k; pd_add(&q, &c); in &= con_sat(&c, x, DN); }
    else { c.k = c.k + w; pd_add(&q, &c); in &= con_sat(&c, x, DN); } }
  int sat = n == 1 ? ap_abstract0_sat_lincons(man, a, &t.p[0]) : 0;
  if (n == 1) {
    /* all values of the constant satisfy it */
    con c = cn[0]; int all = con_sat(&c, x, DN) & (c.op != 0 || iw[0] == 0); VP_ASSERT(!sat | !pmem(&p, x, DN) | all, "a constraint reported satisfied is satisfied by every point");
    if (DI == 0 && (STRICT || c.op != 2)) { int out = iw[0] != 0 && c.op == 0; for (int s = 0; s <= (c.op == 0); s++) { pd w = p; con d = c; for (int m = 0; m < MX; m++) d.c[m] = s ? d.c[m] : -d.c[m]; d.k = s ? d.k : -d.k; d.op = d.op == 2 ? 1 : 2; pd_add(&w, &d); out |= !pd_empty(&w); } if (iw[0] == 0 || c.op != 0) VP_ASSERT(!!sat == !out, "satisfaction is exact"); }
  }
  r = ap_abstract0_meet_lincons_array(man, destr, a, &t);
  VP_ASSERT(!(pmem(&p, x, DN) & in) | amem(r, x, DN), "meet with constraints keeps the solutions"); VP_ASSERT(dims_are(r, DI, DR), "dimensions");
  in = pmem(&p, x, DN); for (int i = p.n; i < q.n; i++) { con c = q.t[i]; if (c.op == 2 && !STRICT) c.op = 1; if (MAN != 4 || c.op == 0) in &= con_sat(&c, x, DN); }
  VP_ASSERT(!amem(r, x, DN) | in, "meet with constraints keeps nothing else");
  if (!destr) unchanged(a, &p, x);
  VP_COVER("poly meet lincons");
}
/* bounds of expressions */
void h_poly_bound(void)
{
  setup(); pd p, q, f; ap_abstract0_t *a = build(&p); int e = vp_choice(NE); g_t c[MX]; for (int m = 0; m < MX; m++) c[m] = etab[e][m];
  ap_linexpr0_t *l = expr_of(c, etab[e][MX], DN, vp_choice(2)); g_t w0 = IVW; set_ivw(l, etab[e][MX], w0); ap_interval_t *v = ap_abstract0_bound_linexpr(man, a, l);
  /* y = e, then only y remains */
  q = p; con d; for (int m = 0; m < MX; m++) d.c[m] = etab[e][m]; d.k = etab[e][MX]; d.op = 0; d.c[DN] = -1; pd_add(&q, &d); for (int i = 0; i < DN; i++) { fm(&f, &q, i); q = f; }
  if (pd_empty(&p)) { VP_ASSERT(ap_interval_is_bottom(v), "bounds over the empty polyhedron"); VP_COVER("poly bound empty"); return; }
  gitv s, w; range(&s, &q, DN); if (!s.hinf) s.hi = s.hi + w0; best(v, &s); ap_interval_get_g(v, &w);
  g_t x[MX]; point(x, DI, DN); g_t y = etab[e][MX]; for (int m = 0; m < DN; m++) y = y + c[m] * x[m]; if (w0 != 0) { g_t u = vp_real(); VP_ASSUME(u >= 0 & u <= w0); y = y + u; } VP_ASSERT(!pmem(&p, x, DN) | gitv_mem(&w, y), "bounds contain every value");
  unchanged(a, &p, x);
  VP_COVER("poly bound");
}
/* ---- assignments, substitutions ---- */
#ifndef NA
#define NA 1 /* how many dimensions */
#endif
void h_poly_assign(void)
{
  setup(); pd p, q, f; ap_abstract0_t *a = build(&p), *r; g_t x[MX], y[MX]; point(x, DI, DN); for (int i = 0; i < DN; i++) y[i] = x[i];
  int destr = HOWD, subst = vp_choice(2); ap_dim_t td[NA]; ap_linexpr0_t *te[NA]; int ex[NA]; g_t ew[NA]; int iv = 0;
  int d0 = vp_choice(DN); for (int i = 0; i < NA; i++) { td[i] = (d0 + i) % DN; ex[i] = vp_choice(NE); }
  for (int i = 0; i < NA; i++) { const g_t *c = etab[ex[i]]; te[i] = expr_of(c, c[MX], DN, i & 1); g_t v = c[MX]; ew[i] = IVW; set_ivw(te[i], c[MX], ew[i]); if (ew[i] != 0) { g_t u = vp_real(); VP_ASSUME(u >= 0 & u <= ew[i]); v = v + u; } for (int m = 0; m < DN; m++) v = v + c[m] * x[m]; y[td[i]] = v; if ((int)td[i] < DI) { g_t w = vp_int(); VP_ASSUME(v == w); } }
  for (int i = 0; i < NA; i++) iv |= ew[i] != 0;
#ifdef DEST
  pd g; ap_abstract0_t *dest = build2(&g);
#else
  ap_abstract0_t *dest = NULL;
#endif
  if (NA == 1 && vp_choice(2)) r = subst ? ap_abstract0_substitute_linexpr(man, destr, a, td[0], te[0], dest) : ap_abstract0_assign_linexpr(man, destr, a, td[0], te[0], dest);
  else r = subst ? ap_abstract0_substitute_linexpr_array(man, destr, a, td, te, NA, dest) : ap_abstract0_assign_linexpr_array(man, destr, a, td, te, NA, dest);
  VP_ASSERT(dims_are(r, DI, DR), "dimensions");
  if (subst) {
    int want = pmem(&p, y, DN);
#ifdef DEST
    want &= pmem(&g, x, DN);
#endif
    VP_ASSERT(!want | amem(r, x, DN), "substitution keeps every state whose image is in the argument"); if (EXACT && !iv) VP_ASSERT(!amem(r, x, DN) | want, "substitution is exact");
  } else {
    int in = pmem(&p, x, DN);
#ifdef DEST
    in &= pmem(&g, y, DN);
#endif
    VP_ASSERT(!in | amem(r, y, DN), "assignment keeps every reachable state");
    if (EXACT && !iv) { /* image: primed dimensions DN.., then eliminate the old ones */
      q = p; for (int m = 0; m < DN; m++) { con c; for (int k = 0; k < MX; k++) c.c[k] = 0; c.k = 0; c.op = 0; c.c[DN + m] = -1; c.c[m] = 1; for (int i = 0; i < NA; i++) if ((int)td[i] == m) { for (int k = 0; k < DN; k++) c.c[k] = etab[ex[i]][k]; c.k = etab[ex[i]][MX]; } pd_add(&q, &c); }
      for (int m = 0; m < DN; m++) { fm(&f, &q, m); q = f; } for (int i = 0; i < q.n; i++) for (int m = 0; m < DN; m++) { q.t[i].c[m] = q.t[i].c[DN + m]; q.t[i].c[DN + m] = 0; }
      int im = pmem(&q, x, DN);
#ifdef DEST
      im &= pmem(&g, x, DN);
#endif
      VP_ASSERT(amem(r, x, DN) == im, "assignment is exact");
    }
  }
  if (!destr) unchanged(a, &p, x);
#ifdef DEST
  unchanged(dest, &g, x);
#endif
  VP_COVER("poly assign");
}
/* time elapse */
void h_poly_addray(void)
{
  setup(); pd p, q, f; ap_abstract0_t *a = build(&p), *r; g_t x[MX], y[MX]; point(x, 0, DN); int destr = HOWD, n = 1 + vp_choice(2), in = pmem(&p, x, DN);
  static const g_t rt[][3] = { { 1, 0, 0 }, { 1, 2, 0 }, { 0, -1, 1 }, { -1, -1, 0 }, { -2, 3, 1 } };
  ap_generator0_array_t t = ap_generator0_array_make(n); q = p; for (int i = 0; i < DN; i++) y[i] = x[i]; VP_ASSERT(DN + n <= MX, "harness: too many dimensions");
  for (int i = 0; i < n; i++) {
    int e = vp_choice(5), line = vp_choice(2); t.p[i] = ap_generator0_make(line ? AP_GEN_LINE : AP_GEN_RAY, expr_of(rt[e], 0, DN, i)); g_t m = vp_real(); if (!line) VP_ASSUME(m >= 0); for (int d = 0; d < DN; d++) y[d] = y[d] + m * rt[e][d];
    for (int k = 0; k < q.n; k++) { g_t v = 0; for (int d = 0; d < DN; d++) v = v - q.t[k].c[d] * rt[e][d]; q.t[k].c[DN + i] = v; }
    if (!line) { con c; for (int k = 0; k < MX; k++) c.c[k] = 0; c.k = 0; c.op = 1; c.c[DN + i] = 1; pd_add(&q, &c); }
  }
  for (int i = 0; i < n; i++) { fm(&f, &q, DN + i); q = f; }
  r = ap_abstract0_add_ray_array(man, destr, a, &t);
  VP_ASSERT(!in | amem(r, y, DN), "time elapse keeps every reachable state"); if (MAN == 0 && !pd_empty(&p)) VP_ASSERT(amem(r, x, DN) == pmem(&q, x, DN), "time elapse is exact");
  if (pd_empty(&p)) VP_ASSERT(ap_abstract0_is_bottom(man, r), "time elapse of empty is empty");
  if (!destr) unchanged(a, &p, x);
  VP_COVER("poly addray");
}
/* ---- dimensions ---- */
void h_poly_dims(void)
{
  setup(); pd p, q, f; ap_abstract0_t *a = build(&p), *r; int destr = HOWD, op = vp_choice(5); g_t x[MX], y[MX]; point(x, DI, DN); int in = pmem(&p, x, DN), k = 0;
  if (op == 0) { /* forget or project */
    int n = 1 + vp_choice(2), pr = vp_choice(2), d = vp_choice(DN); ap_dim_t td[2] = { d, (d + 1) % DN }; for (int i = 0; i < DN; i++) y[i] = x[i]; q = p;
    for (int i = 0; i < n; i++) { y[td[i]] = pr ? 0 : td[i] < DI ? vp_int() : vp_real(); fm(&f, &q, td[i]); q = f; if (pr) { con c; for (int m = 0; m < MX; m++) c.c[m] = 0; c.k = 0; c.c[td[i]] = 1; c.op = 0; pd_add(&q, &c); } }
    r = ap_abstract0_forget_array(man, destr, a, td, n, pr);
    VP_ASSERT(dims_are(r, DI, DR) && !in | amem(r, y, DN), "forget keeps every value of the other dimensions"); if (EXACT) VP_ASSERT(amem(r, x, DN) == pmem(&q, x, DN), "forget is exact");
  } else if (op == 1) { /* add */
    int pi = DI ? vp_choice(DI + 1) : 0, ni = DI ? vp_choice(2) : 0, pr = DI + vp_choice(DR + 1), nr = 1 + vp_choice(2), pj = vp_choice(2), z = 1; ap_dimchange_t *c = ap_dimchange_alloc(ni, nr); if (ni) c->dim[0] = pi; for (int i = 0; i < nr; i++) c->dim[ni + i] = pr;
    if (nr == 2 && pr > DI) c->dim[ni] = DI;
    for (int i = 0; i <= DN; i++) { for (int j = 0; j < ni + nr; j++) if ((int)c->dim[j] == i && (j < ni || i >= DI)) { y[k] = j < ni ? vp_int() : vp_real(); if (pj) z &= y[k] == 0; k++; } if (i < DN) y[k++] = x[i]; }
    r = ap_abstract0_add_dimensions(man, destr, a, c, pj); VP_ASSERT(dims_are(r, DI + ni, DR + nr) && amem(r, y, k) == (in & z), "add_dimensions embeds or projects");
    ap_dimchange_add_invert(c); ap_abstract0_t *b = ap_abstract0_remove_dimensions(man, 0, r, c); VP_ASSERT(dims_are(b, DI, DR) && amem(b, x, DN) == in, "removing added dimensions restores the value");
  } else if (op == 2) { /* remove */
    int d = vp_choice(DN), isint = d < DI; ap_dimchange_t *c = ap_dimchange_alloc(isint, !isint); c->dim[0] = d; for (int i = 0; i < DN; i++) if (i != d) y[k++] = x[i];
    r = ap_abstract0_remove_dimensions(man, destr, a, c); fm(&q, &p, d); VP_ASSERT(dims_are(r, DI - isint, DR - !isint) && !in | amem(r, y, k), "remove_dimensions keeps the other dimensions"); if (EXACT) VP_ASSERT(amem(r, y, k) == pmem(&q, x, DN), "remove_dimensions is exact");
  } else if (op == 3) { /* permute */
    ap_dimperm_t *c = ap_dimperm_alloc(DN); int used = 0; for (int i = 0; i < DN; i++) { int lo = i < DI ? 0 : DI, n = i < DI ? DI - i : DN - i, w = vp_choice(n), j; for (j = lo;; j++) if (!(used >> j & 1) && !w--) break; used |= 1 << j; c->dim[i] = j; y[j] = x[i]; }
    r = ap_abstract0_permute_dimensions(man, destr, a, c); VP_ASSERT(dims_are(r, DI, DR) && amem(r, y, DN) == in, "permute_dimensions moves dimension i to perm(i)");
  } else { /* expand */
    int d = vp_choice(DN), n = 1 + vp_choice(2), isint = d < DI, ok = in; g_t z[2], w[MX]; for (int c = 0; c < n; c++) { z[c] = isint ? vp_int() : vp_real(); for (int i = 0; i < DN; i++) w[i] = i == d ? z[c] : x[i]; ok &= pmem(&p, w, DN); }
    for (int i = 0; i <= DN; i++) { if (i == (isint ? DI : DN)) for (int c = 0; c < n; c++) y[k++] = z[c]; if (i < DN) y[k++] = x[i]; }
    r = ap_abstract0_expand(man, destr, a, d, n); VP_ASSERT(dims_are(r, DI + (isint ? n : 0), DR + (isint ? 0 : n)) && amem(r, y, k) == ok, "expand: all copies satisfy the constraints of the original");
  }
  if (!destr) unchanged(a, &p, x);
  VP_COVER("poly dims");
}
void h_poly_fold(void)
{
  setup(); pd p; ap_abstract0_t *a = build(&p), *r; int isint = DR == 0 || (DI && vp_choice(2)), base = isint ? 0 : DI, cnt = isint ? DI : DR, destr = HOWD, mask = (1 + vp_choice((1 << cnt) - 1)) << base, n = 0, k = 0; ap_dim_t td[DN]; for (int i = 0; i < DN; i++) if (mask >> i & 1) td[n++] = i;
  g_t x[MX], y[MX]; point(x, DI, DN); int in = pmem(&p, x, DN), w = vp_choice(n);
  for (int i = 0; i < DN; i++) { if ((mask >> i & 1) && i != (int)td[0]) continue; y[k++] = i == (int)td[0] ? x[td[w]] : x[i]; }
  r = ap_abstract0_fold(man, destr, a, td, n); VP_ASSERT(dims_are(r, isint ? DI - n + 1 : DI, isint ? DR : DR - n + 1) && !in | amem(r, y, k), "fold keeps the values of each folded dimension");
  if (DI == 0 && MAN != 4) { /* every constraint satisfied by all the projections is satisfied */
    for (int i = 0; i < NM; i++) { con c = menu[MENU][i]; c.c[2] = 0; if (k < 2) c.c[1] = 0; if (c.op == 0) c.op = 1; int all = 1, e = pd_empty(&p);
      for (int m = 0; m < n && !e; m++) { con d; for (int j = 0; j < MX; j++) d.c[j] = 0; d.k = -c.k; d.op = c.op == 2 ? 1 : 2; int o = 0; for (int j = 0; j < DN; j++) { if ((mask >> j & 1) && j != (int)td[0]) continue; d.c[j == (int)td[0] ? (int)td[m] : j] = -c.c[o]; o++; } pd v = p; pd_add(&v, &d); all &= pd_empty(&v); }
      ap_lincons0_t l = lincons_of(&c, k); VP_ASSERT(!!ap_abstract0_sat_lincons(man, r, &l) == all, "fold satisfies exactly what its projections do"); } }
  if (!destr) unchanged(a, &p, x);
  VP_COVER("poly fold");
}
/* construction from intervals: bounds are symbolic where the domain allows it */
void h_poly_of(void)
{
  setup(); g_t x[MX]; point(x, DI, DN); ap_interval_t *t[MX]; int in = 1, empty = 0; static const g_t bs[] = { 0, -2, 0.5, 3 };
  for (int i = 0; i < DN; i++) { int k = vp_choice(5); gitv s; s.linf = k & 1; s.hinf = k >> 1 & 1; s.lo = s.linf ? 0 : bs[vp_choice(3)]; s.hi = s.hinf ? 0 : k == 4 ? s.lo : bs[1 + vp_choice(3)]; t[i] = ap_interval_alloc(); ap_interval_set_g(t[i], &s); in &= gitv_mem(&s, x[i]); empty |= !gitv_nonempty(&s); }
  ap_abstract0_t *a = ap_abstract0_of_box(man, DI, DR, t); VP_ASSERT(dims_are(a, DI, DR) && amem(a, x, DN) == in, "of_box contains exactly the points of the intervals");
  if (empty) VP_ASSERT(ap_abstract0_is_bottom(man, a), "of_box of an empty interval is empty");
  VP_ASSERT(amem(ap_abstract0_top(man, DI, DR), x, DN) && !amem(ap_abstract0_bottom(man, DI, DR), x, DN), "top and bottom");
  VP_COVER("poly of");
}
