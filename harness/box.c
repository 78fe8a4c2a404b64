/* Interval domain (box): harnesses. DI integer + DR real dimensions. */
#include "vpnum.h"
#include "box_internal.h"
#include "box.h"
#include "box_representation.h"
#include "box_constructor.h"
#include "box_meetjoin.h"
#include "box_assign.h"
#include "box_resize.h"
#include "box_otherops.h"
#include "ap_generic.h"
#ifndef DI
#define DI 1
#endif
#ifndef DR
#define DR 1
#endif
#define DN (DI + DR)
typedef struct { char bot; gitv d[DN + 3]; } gbox;

static ap_manager_t *man;
static void setup(void) { VP_SETUP(man = box_manager_alloc()); }
/* integer dimensions carry integer bounds (what every constructor establishes) */
static gbox gbox_in(int maybot)
{
  gbox s; s.bot = maybot ? PICK(bot, 2) : 0;
#ifdef PATS /* fewer patterns of infinities: all finite, all infinite, or one infinite bound */
  int pat = vp_choice(PATS == 2 ? 3 : 2 + 2 * DN);
  for (int i = 0; i < DN; i++) {
    gitv *q = &s.d[i];
    q->linf = pat == 1 || pat == 2 + 2 * i; q->hinf = pat == 1 || pat == 3 + 2 * i;
    q->lo = q->linf ? 0 : g_in(i < DI); q->hi = q->hinf ? 0 : g_in(i < DI);
    if (!q->linf && !q->hinf) VP_ASSUME(q->lo <= q->hi);
  }
#else
  for (int i = 0; i < DN; i++) s.d[i] = gitv_in(i < DI);
#endif
  return s;
}
static box_t *box_of_g(const gbox *s, int di, int dr)
{
  box_t *a = box_alloc(di, dr);
  if (!s->bot) {
    box_init(a);
    for (int i = 0; i < di + dr; i++) itv_set_g(a->p[i], &s->d[i]);
  }
  return a;
}
/* how an operation is called: 0 functional, dense expression; 1 functional, sparse; 2 destructive, dense; 3 functional with a destination */
static int how_sparse, how_destr, how_dest;
#ifndef HOW
#define HOW 9
#endif
static void how(int n) { if (n > HOW) n = HOW; int k = vp_choice(n); how_sparse = k == 1; how_destr = k == (n == 2 ? 1 : 2); how_dest = k == 3; }
/* all the dimensions bounded, or all free */
static box_t *dest_in(gbox *s) { s->bot = 0; int f = vp_choice(2); for (int i = 0; i < DN; i++) { if (f) { s->d[i].linf = s->d[i].hinf = 1; s->d[i].lo = s->d[i].hi = 0; } else s->d[i] = gitv_fin(i < DI); } return box_of_g(s, DI, DR); }
static box_t *box_in(gbox *s, int maybot) { *s = gbox_in(maybot); return box_of_g(s, DI, DR); }
/* does a denote exactly s? */
static int box_is_g(box_t *a, const gbox *s, int di, int dr)
{
  if (a->intdim != (size_t)di || a->realdim != (size_t)dr) return 0;
  if (s->bot) return a->p == NULL;
  if (a->p == NULL) return 0;
  int r = 1; for (int i = 0; i < di + dr; i++) r &= itv_eq_g(a->p[i], &s->d[i]);
  return r;
}
static int box_mem(box_t *a, const g_t *x, int n)
{ if (a->p == NULL) return 0; int r = 1; for (int i = 0; i < n; i++) r &= itv_mem_g(a->p[i], x[i]); return r; }
static int gbox_mem(const gbox *s, const g_t *x, int n)
{ if (s->bot) return 0; int r = 1; for (int i = 0; i < n; i++) r &= gitv_mem(&s->d[i], x[i]); return r; }
static void point_in(g_t *x)
{ for (int i = 0; i < DN; i++) x[i] = g_in(i < DI); }
static int gitv_leq(const gitv *a, const gitv *b)
{ return (b->linf | (!a->linf & (b->lo <= a->lo))) & (b->hinf | (!a->hinf & (a->hi <= b->hi))); }
static int gitv_eq(const gitv *a, const gitv *b) { return gitv_leq(a, b) & gitv_leq(b, a); }

/* inclusion and equality tests are exact */
void h_box_order(void)
{
  setup();
  gbox s, t; box_t *a = box_in(&s, 1), *b = box_in(&t, 1);
  int leq = 1;
  if (!s.bot) { if (t.bot) leq = 0; else for (int i = 0; i < DN; i++) leq = leq & gitv_leq(&s.d[i], &t.d[i]); }
  int geq = 1;
  if (!t.bot) { if (s.bot) geq = 0; else for (int i = 0; i < DN; i++) geq = geq & gitv_leq(&t.d[i], &s.d[i]); }
  VP_ASSERT(!!box_is_leq(man, a, b) == leq, "box inclusion test is exact");
  VP_ASSERT(!!box_is_eq(man, a, b) == (leq && geq), "box equality test is exact");
  int top = !s.bot; for (int i = 0; i < DN; i++) top = top & s.d[i].linf & s.d[i].hinf;
  VP_ASSERT(!!box_is_top(man, a) == top, "box top test is exact");
  VP_ASSERT(!!box_is_bottom(man, a) == s.bot, "box bottom test is exact");
  VP_ASSERT(box_is_g(a, &s, DI, DR) && box_is_g(b, &t, DI, DR), "box tests leave operands unchanged");
  VP_COVER("box order");
}
/* equal boxes, built in different ways, have the same hash */
void h_box_hash(void)
{
  setup();
  gbox s; s.bot = PICK(bot, 2);
  for (int i = 0; i < DN; i++) { int k = vp_choice(INFS); s.d[i].linf = k & 1; s.d[i].hinf = k >> 1; s.d[i].lo = vp_in(-2, 2) / (i < DI ? 1 : 2); s.d[i].hi = vp_in(-2, 2) / (i < DI ? 1 : 2); if (!k) VP_ASSUME(s.d[i].lo <= s.d[i].hi); }
  box_t *a = box_of_g(&s, DI, DR), *b = box_top(man, DI, DR), *c = box_of_g(&s, DI, DR);
  b = box_meet(man, true, b, c);
  VP_ASSERT(box_is_eq(man, a, b), "meet with top is the identity");
  VP_ASSERT(box_hash(man, a) == box_hash(man, b), "equal boxes have equal hashes");
  VP_COVER("box hash");
}
static gbox g_meet(const gbox *s, const gbox *t, int n)
{
  gbox r; r.bot = s->bot || t->bot;
  for (int i = 0; i < n; i++) {
    const gitv *a = &s->d[i], *b = &t->d[i]; gitv *c = &r.d[i];
    c->linf = a->linf && b->linf; c->hinf = a->hinf && b->hinf;
    c->lo = a->linf ? b->lo : b->linf ? a->lo : a->lo > b->lo ? a->lo : b->lo;
    c->hi = a->hinf ? b->hi : b->hinf ? a->hi : a->hi < b->hi ? a->hi : b->hi;
    if (!gitv_nonempty(c)) r.bot = 1;
  }
  return r;
}
static gitv gitv_join(const gitv *a, const gitv *b)
{
  gitv c; c.linf = a->linf || b->linf; c.hinf = a->hinf || b->hinf;
  c.lo = a->lo < b->lo ? a->lo : b->lo; c.hi = a->hi > b->hi ? a->hi : b->hi; return c;
}
static gbox g_join(const gbox *s, const gbox *t, int n)
{
  if (s->bot) return *t;
  if (t->bot) return *s;
  gbox r; r.bot = 0;
  for (int i = 0; i < n; i++) r.d[i] = gitv_join(&s->d[i], &t->d[i]);
  return r;
}
/* meet, join, widening: exact results, in both the functional and the destructive version */
void h_box_meetjoin(void)
{
  setup();
  gbox s, t; box_t *a = box_in(&s, 1), *b = box_in(&t, 1);
  gbox m = g_meet(&s, &t, DN), j = g_join(&s, &t, DN);
  box_t *r = box_meet(man, false, a, b);
  VP_ASSERT(box_is_g(r, &m, DI, DR), "box meet is the exact intersection");
  r = box_join(man, false, a, b);
  VP_ASSERT(box_is_g(r, &j, DI, DR), "box join is the interval hull");
  VP_ASSERT(box_is_g(a, &s, DI, DR) && box_is_g(b, &t, DI, DR), "functional meet/join leave operands unchanged");
  box_t *tab[2] = { a, b };
  r = box_meet_array(man, tab, 2);
  VP_ASSERT(box_is_g(r, &m, DI, DR), "box meet_array is the exact intersection");
  r = box_join_array(man, tab, 2);
  VP_ASSERT(box_is_g(r, &j, DI, DR), "box join_array is the interval hull");
  VP_ASSERT(box_is_g(a, &s, DI, DR) && box_is_g(b, &t, DI, DR), "array meet/join leave operands unchanged");
  if (VP_BOOL()) { r = box_meet(man, true, a, b); VP_ASSERT(box_is_g(r, &m, DI, DR), "destructive box meet is the exact intersection"); }
  else { r = box_join(man, true, a, b); VP_ASSERT(box_is_g(r, &j, DI, DR), "destructive box join is the interval hull"); }
  VP_ASSERT(box_is_g(b, &t, DI, DR), "destructive meet/join leave the second operand unchanged");
  VP_COVER("box meetjoin");
}
void h_box_widening(void)
{
  setup();
  gbox s, t; box_t *a = box_in(&s, 1), *b = box_in(&t, 1);
  /* documented precondition: the first operand is included in the second */
  VP_ASSUME(s.bot || (!t.bot));
  if (!s.bot) for (int i = 0; i < DN; i++) VP_ASSUME(gitv_leq(&s.d[i], &t.d[i]));
  box_t *r = box_widening(man, a, b);
  gbox w;
  w.bot = t.bot;
  if (s.bot) w = t;
  else for (int i = 0; i < DN; i++) {
    w.d[i] = s.d[i];
    if (!t.d[i].linf ? (!s.d[i].linf && t.d[i].lo < s.d[i].lo) : 1) w.d[i].linf = 1;
    if (!t.d[i].hinf ? (!s.d[i].hinf && t.d[i].hi > s.d[i].hi) : 1) w.d[i].hinf = 1;
  }
  g_t x[DN]; point_in(x);
  VP_ASSERT(!(gbox_mem(&s, x, DN) | gbox_mem(&t, x, DN)) | box_mem(r, x, DN), "box widening is an upper bound");
  /* every bound is kept or dropped: chains are finite */
  if (!s.bot) for (int i = 0; i < DN; i++) {
    VP_ASSERT(r->p && (bound_infty(r->p[i]->sup) || (!s.d[i].hinf && bound_cmp_g(r->p[i]->sup, s.d[i].hi) == 0)), "box widening keeps or drops each bound");
    VP_ASSERT(r->p && (bound_infty(r->p[i]->inf) || (!s.d[i].linf && bound_cmp_g(r->p[i]->inf, -s.d[i].lo) == 0)), "box widening keeps or drops each bound");
  }
  VP_ASSERT(box_is_g(r, &w, DI, DR), "box widening drops exactly the unstable bounds");
  VP_ASSERT(box_is_g(a, &s, DI, DR) && box_is_g(b, &t, DI, DR), "widening leaves operands unchanged");
  VP_COVER("box widening");
}
#ifndef KIND
#define KIND 2
#endif
/* assignment of one dimension */
void h_box_assign(void)
{
  setup(); how(4);
  gbox s; box_t *a = box_in(&s, 0);
  g_t x[DN]; point_in(x); VP_ASSUME(gbox_mem(&s, x, DN));
  glin p; ap_linexpr0_t *e = linexpr_in(DN, KIND, &p, how_sparse);
  g_t v = glin_eval(&p, DN, x);
  int dim = PICK(dim, DN), destr = how_destr, usedest = how_dest;
  if (dim < DI) VP_ASSUME(vp_isint(v));
  gbox t; box_t *d = NULL;
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  y[dim] = v;
  if (usedest) { d = dest_in(&t); VP_ASSUME(gbox_mem(&t, y, DN)); }
  ap_dim_t td[1] = { dim }; ap_linexpr0_t *te[1] = { e };
  box_t *r = box_assign_linexpr_array(man, destr, a, td, te, 1, d);
  VP_ASSERT(box_mem(r, y, DN), "box assignment keeps every reachable state");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional assignment leaves its operand unchanged");
  if (usedest) VP_ASSERT(box_is_g(d, &t, DI, DR), "assignment leaves dest unchanged");
  VP_COVER("box assign");
}
/* simultaneous assignment of two dimensions (in either order) */
void h_box_assign_par(void)
{
  setup(); how(3);
  gbox s; box_t *a = box_in(&s, 0);
  g_t x[DN]; point_in(x); VP_ASSUME(gbox_mem(&s, x, DN));
  glin p, q; ap_linexpr0_t *e = linexpr_in(DN, 1, &p, 0), *f = linexpr_in(DN, 1, &q, 1);
  int sw = PICK(a, 2), destr = how_destr;
  ap_dim_t td[2]; td[0] = sw ? 1 : 0; td[1] = sw ? 0 : 1;
  ap_linexpr0_t *te[2] = { e, f };
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  y[td[0]] = glin_eval(&p, DN, x); y[td[1]] = glin_eval(&q, DN, x);
  box_t *r = box_assign_linexpr_array(man, destr, a, td, te, 2, NULL);
  VP_ASSERT(box_mem(r, y, DN), "parallel box assignment evaluates all right-hand sides in the old state");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional parallel assignment leaves its operand unchanged");
  VP_COVER("box assign par");
}
#ifndef SUBST
#define SUBST 0
#endif
/* simultaneous assignment (or substitution) of three dimensions, in any order, each from any dimension */
void h_box_assign_par3(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 0);
  g_t x[DN], y[DN], k[DN]; point_in(x);
  ap_dim_t td[DN]; ap_linexpr0_t *te[DN]; int used[DN] = { 0 }, destr = vp_choice(2), subst = SUBST, way = vp_choice(2);
  for (int i = 0; i < DN; i++) { int c = vp_choice(DN - i), v = 0; for (;; v++) if (!used[v] && !c--) break; used[v] = 1; td[i] = v; }
  for (int i = 0; i < DN; i++) {
    int src = (td[i] + 1 + way) % DN; k[i] = vp_real();
    te[i] = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0); ap_coeff_set_scalar_int(ap_linexpr0_coeffref(te[i], src), i == 1 ? -1 : 1); ap_coeff_set_g(&te[i]->cst, k[i]);
    y[td[i]] = (i == 1 ? -x[src] : x[src]) + k[i];
  }
  VP_ASSUME(gbox_mem(&s, subst ? y : x, DN));
  box_t *r = (subst ? box_substitute_linexpr_array : box_assign_linexpr_array)(man, destr, a, td, te, DN, NULL);
  VP_ASSERT(box_mem(r, subst ? x : y, DN), "parallel operations evaluate all right-hand sides in the old state");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional parallel operations leave their operand unchanged");
  VP_COVER("box assign par3");
}
/* best assignment: scalar linear expression => exact range */
void h_box_assign_best(void)
{
  setup(); how(3);
  gbox s; box_t *a = box_in(&s, 0);
  glin p; ap_linexpr0_t *e = linexpr_in(DN, 0, &p, how_sparse);
  int dim = PICK(dim, DN);
  ap_dim_t td[1] = { dim }; ap_linexpr0_t *te[1] = { e };
  gitv r; r.linf = r.hinf = 0; r.lo = r.hi = p.k;
  for (int i = 0; i < DN; i++) {
    g_t c = p.c[i];
    if (c == 0) continue;
    if (c > 0 ? s.d[i].linf : s.d[i].hinf) r.linf = 1; else r.lo = r.lo + vp_mul(c, (c > 0 ? s.d[i].lo : s.d[i].hi));
    if (c > 0 ? s.d[i].hinf : s.d[i].linf) r.hinf = 1; else r.hi = r.hi + vp_mul(c, (c > 0 ? s.d[i].hi : s.d[i].lo));
  }
  ap_interval_t *bi = box_bound_linexpr(man, a, e);
  VP_ASSERT(ap_interval_eq_g(bi, &r), "range of a linear expression over a box is exact");
  gbox t = s; t.d[dim] = r;
  box_t *b = box_assign_linexpr_array(man, how_destr, a, td, te, 1, NULL);
  VP_ASSERT(box_is_g(b, &t, DI, DR), "box assignment of a linear expression is the best one");
  VP_COVER("box assign best");
}
/* backward assignment */
void h_box_substitute(void)
{
  setup(); how(4);
  gbox s; box_t *a = box_in(&s, 0);
  g_t x[DN]; point_in(x);
  glin p; ap_linexpr0_t *e = linexpr_in(DN, KIND, &p, how_sparse);
  g_t v = glin_eval(&p, DN, x);
  int dim = PICK(dim, HOW == 1 ? 1 : DN), destr = how_destr, usedest = how_dest;
  if (dim < DI) VP_ASSUME(vp_isint(v));
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  y[dim] = v;
  VP_ASSUME(gbox_mem(&s, y, DN));
  gbox t; box_t *d = NULL;
  if (usedest) { d = dest_in(&t); VP_ASSUME(gbox_mem(&t, x, DN)); }
  ap_dim_t td[1] = { dim }; ap_linexpr0_t *te[1] = { e };
  box_t *r = box_substitute_linexpr_array(man, destr, a, td, te, 1, d);
  VP_ASSERT(box_mem(r, x, DN), "box substitution keeps every pre-state");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional substitution leaves its operand unchanged");
  VP_COVER("box substitute");
}
/* every transfer function maps bottom to bottom */
void h_box_bottom(void)
{
  setup();
  box_t *a = box_bottom(man, DI, DR), *r;
  glin p; ap_linexpr0_t *e = linexpr_in(DN, PICK(kind, 3), &p, 0);
  ap_dim_t td[1] = { PICK(dim, DN) }; ap_linexpr0_t *te[1] = { e };
  ap_lincons0_array_t ar = ap_lincons0_array_make(1); ar.p[0] = ap_lincons0_make(AP_CONS_SUPEQ, ap_linexpr0_copy(e), NULL);
  int destr = VP_BOOL();
  switch (PICK(o, 4)) {
  case 0: r = box_assign_linexpr_array(man, destr, a, td, te, 1, NULL); break;
  case 1: r = box_substitute_linexpr_array(man, destr, a, td, te, 1, NULL); break;
  case 2: r = box_meet_lincons_array(man, destr, a, &ar); break;
  default: r = box_forget_array(man, destr, a, td, 1, VP_BOOL()); break;
  }
  VP_ASSERT(box_is_bottom(man, r) && r->intdim == DI && r->realdim == DR, "operations on the empty box give the empty box");
  VP_COVER("box bottom");
}
/* meet with constraints */
#ifndef NC
#define NC 1
#endif
void h_box_meet_lincons(void)
{
  setup(); how(3);
  gbox s; box_t *a = box_in(&s, 0);
  g_t x[DN]; point_in(x); VP_ASSUME(gbox_mem(&s, x, DN));
  ap_lincons0_array_t ar = ap_lincons0_array_make(NC);
  for (int c = 0; c < NC; c++) {
    glin p; ar.p[c].linexpr0 = linexpr_in(DN, KIND, &p, how_sparse);
    int op = PICK(op, NC > 1 ? 3 : 5);
    ar.p[c].constyp = (ap_constyp_t)op;
    g_t m = 0;
    if (op == AP_CONS_EQMOD) { m = vp_choice(4); ar.p[c].scalar = ap_scalar_alloc(); ap_scalar_set_g(ar.p[c].scalar, m); }
    g_t v = glin_eval(&p, DN, x);
    VP_ASSUME(gcons_sat(op, v, m));
  }
  int destr = how_destr;
  box_t *r = box_meet_lincons_array(man, destr, a, &ar);
  VP_ASSERT(box_mem(r, x, DN), "meet with linear constraints keeps every solution");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional meet with constraints leaves its operand unchanged");
  VP_COVER("box meet lincons");
}
/* ... and never enlarges; definite emptiness is only claimed when true is the previous harness */
void h_box_meet_lincons_reductive(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  g_t x[DN]; point_in(x); VP_ASSUME(!gbox_mem(&s, x, DN));
  ap_lincons0_array_t ar = ap_lincons0_array_make(1);
  glin p; ar.p[0].linexpr0 = linexpr_in(DN, 1, &p, 0);
  ar.p[0].constyp = (ap_constyp_t)vp_choice(3);
  box_t *r = box_meet_lincons_array(man, VP_BOOL(), a, &ar);
  VP_ASSERT(!box_mem(r, x, DN), "meet with constraints never adds points");
  VP_COVER("box meet lincons reductive");
}
void h_box_sat(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  glin p; ap_lincons0_t c; c.linexpr0 = linexpr_in(DN, KIND, &p, PICK(sparse, 2));
  int op = PICK(op, 5); c.constyp = (ap_constyp_t)op; c.scalar = NULL; g_t m = 0;
  if (op == AP_CONS_EQMOD) { m = vp_choice(4); c.scalar = ap_scalar_alloc(); ap_scalar_set_g(c.scalar, m); }
  int sat = box_sat_lincons(man, a, &c);
  g_t x[DN]; point_in(x); VP_ASSUME(gbox_mem(&s, x, DN));
  VP_ASSERT(!sat || gcons_sat(op, glin_eval(&p, DN, x), m), "a constraint reported satisfied holds at every point");
  VP_COVER("box sat");
}
void h_box_satitv(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  gitv q = gitv_any(0); ap_interval_t *iv = ap_interval_alloc(); ap_interval_set_g(iv, &q);
  int dim = PICK(dim, DN);
  VP_ASSERT(!!box_sat_interval(man, a, dim, iv) == (s.bot | gitv_leq(&s.d[dim], &q)), "interval satisfaction is exact");
  if (!s.bot) VP_ASSERT(!box_is_dimension_unconstrained(man, a, dim) || (s.d[dim].linf && s.d[dim].hinf), "unconstrained dimension");
  VP_COVER("box sat");
}
/* conversions */
void h_box_convert(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  int dim = PICK(dim, DN);
  ap_interval_t *iv = box_bound_dimension(man, a, dim);
  if (!s.bot) VP_ASSERT(ap_interval_eq_g(iv, &s.d[dim]), "bound_dimension is exact");
  else VP_ASSERT(ap_interval_is_bottom(iv), "bound_dimension of bottom is empty");
  ap_interval_t **t = box_to_box(man, a);
  for (int i = 0; i < DN; i++) {
    if (!s.bot) VP_ASSERT(ap_interval_eq_g(t[i], &s.d[i]), "to_box is exact");
    else VP_ASSERT(ap_interval_is_bottom(t[i]), "to_box of bottom is empty");
  }
  box_t *b = box_of_box(man, DI, DR, t);
  VP_ASSERT(box_is_g(b, &s, DI, DR), "of_box inverts to_box");
  VP_ASSERT(box_is_g(box_copy(man, a), &s, DI, DR), "copy is equal");
  VP_COVER("box convert");
}
/* of_box from arbitrary intervals: integer dimensions lose no integer point, empty intervals give bottom */
void h_box_of_box(void)
{
  setup();
  ap_interval_t *t[DN]; gitv q[DN]; int empty = 0;
  for (int i = 0; i < DN; i++) { q[i] = gitv_any(0); t[i] = ap_interval_alloc(); ap_interval_set_g(t[i], &q[i]); if (!gitv_nonempty(&q[i])) empty = 1; }
  box_t *b = box_of_box(man, DI, DR, t);
  g_t x[DN]; point_in(x);
  int in = 1; for (int i = 0; i < DN; i++) in &= gitv_mem(&q[i], x[i]);
  VP_ASSERT(box_mem(b, x, DN) == in, "of_box contains exactly the points of the intervals");
  if (empty) VP_ASSERT(box_is_bottom(man, b), "of_box of an empty interval is bottom");
  VP_COVER("box of_box");
}
/* evaluates a (scalar) constraint / linear part of a generator at a point */
static g_t coeff_of(ap_linexpr0_t *e, int d)
{ /* small integer coefficients only: identified by comparison */
  ap_coeff_t *c = ap_linexpr0_coeffref(e, d); g_t r = 0;
  for (int v = -1; v <= 1; v++) if (ap_scalar_cmp_g(c->val.scalar, (g_t)v) == 0) r = v;
  return r;
}
void h_box_to_lincons(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  g_t x[DN]; point_in(x);
  ap_lincons0_array_t ar = box_to_lincons_array(man, a);
  int sat = 1;
  for (size_t i = 0; i < ar.size && i < 2 * DN; i++) {
    ap_linexpr0_t *e = ar.p[i].linexpr0;
    if (s.bot) { VP_ASSERT(ap_lincons0_is_unsat(&ar.p[i]), "bottom is converted to an unsatisfiable constraint"); sat = 0; continue; }
    /* e(x) = lin + cst  op 0 */
    g_t lin = 0; for (int d = 0; d < DN; d++) lin = lin + vp_mul(coeff_of(e, d), x[d]);
    int cmp = ap_scalar_cmp_g(e->cst.val.scalar, -lin); /* cst - (-lin) */
    if (ar.p[i].constyp == AP_CONS_EQ) { if (cmp != 0) sat = 0; }
    else if (ar.p[i].constyp == AP_CONS_SUPEQ) { if (cmp < 0) sat = 0; }
    else VP_ASSERT(0, "unexpected constraint type");
  }
  VP_ASSERT(ar.size <= 2 * DN, "number of constraints");
  VP_ASSERT(sat == gbox_mem(&s, x, DN), "to_lincons_array denotes exactly the box");
  VP_COVER("box to_lincons");
}
/* generators: every vertex is in the box, every ray keeps it inside, every line is free */
void h_box_to_generator(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  ap_generator0_array_t ar = box_to_generator_array(man, a);
  if (s.bot) { VP_ASSERT(ar.size == 0, "bottom has no generator"); VP_COVER("box to_generator bottom"); return; }
  int nv = 0, want = 1, wl = 0, wr = 0, nl = 0, nr = 0;
  for (int d = 0; d < DN; d++) { if (!s.d[d].linf && !s.d[d].hinf) want = want * 2; else if (s.d[d].linf && s.d[d].hinf) wl++; else wr++; }
  int k = vp_choice(8), seen = 0; /* target vertex: bit d selects the upper bound */
  for (size_t i = 0; i < ar.size && i < 20; i++) {
    ap_linexpr0_t *e = ar.p[i].linexpr0;
    int match = 1;
    for (int d = 0; d < DN; d++) {
      ap_coeff_t *c = ap_linexpr0_coeffref(e, d);
      gitv *q = &s.d[d];
      if (ar.p[i].gentyp == AP_GEN_VERTEX) {
        if (!q->linf && !q->hinf) {
          VP_ASSERT(ap_scalar_cmp_g(c->val.scalar, q->lo) == 0 || ap_scalar_cmp_g(c->val.scalar, q->hi) == 0, "vertex at a corner of the box");
          if (ap_scalar_cmp_g(c->val.scalar, ((k >> d) & 1) ? q->hi : q->lo) != 0) match = 0;
        } else if (!q->linf) VP_ASSERT(ap_scalar_cmp_g(c->val.scalar, q->lo) == 0, "vertex at the finite bound");
        else if (!q->hinf) VP_ASSERT(ap_scalar_cmp_g(c->val.scalar, q->hi) == 0, "vertex at the finite bound");
      } else {
        int sg = ap_scalar_sgn(c->val.scalar);
        VP_ASSERT(sg <= 0 || q->hinf, "ray/line stays in the box");
        VP_ASSERT(sg >= 0 || q->linf, "ray/line stays in the box");
        if (ar.p[i].gentyp == AP_GEN_LINE && sg != 0) VP_ASSERT(q->linf && q->hinf, "line stays in the box");
      }
    }
    if (ar.p[i].gentyp == AP_GEN_VERTEX) { nv++; if (match) seen = 1; }
    else {
      int nz = 0; for (int d = 0; d < DN; d++) if (ap_scalar_sgn(ap_linexpr0_coeffref(e, d)->val.scalar) != 0) nz++;
      VP_ASSERT(nz == 1, "rays and lines are axis-parallel and not null");
      if (ar.p[i].gentyp == AP_GEN_LINE) nl++; else nr++;
    }
  }
  VP_ASSERT(nv == want && nl == wl && nr == wr, "number of generators");
  VP_ASSERT(seen, "every corner is generated");
  VP_COVER("box to_generator");
}
/* dimension changes.  Each compares the result with the shadow box after the same change. */
void h_box_adddim(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  int ni = PICK(a, 2), nr = PICK(b, 2), project = VP_BOOL(), destr = PICK(destr, 2);
  ap_dimchange_t dc; ap_dimchange_init(&dc, ni, nr);
  int pi = PICK(c, DI + 1), pr = DI + PICK(d, DR + 1);
  if (ni) dc.dim[0] = pi;
  if (nr) dc.dim[ni] = pr;
  gbox t; t.bot = s.bot; int k = 0;
  gitv nw; nw.linf = nw.hinf = !project; nw.lo = nw.hi = 0;
  for (int i = 0; i <= DN; i++) {
    if (ni && pi == i) { t.d[k] = nw; k++; }
    if (nr && pr == i) { t.d[k] = nw; k++; }
    if (i < DN) { t.d[k] = s.d[i]; k++; }
  }
  box_t *r = box_add_dimensions(man, destr, a, &dc, project);
  VP_ASSERT(box_is_g(r, &t, DI + ni, DR + nr), "add_dimensions inserts exactly the new dimensions");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional add_dimensions leaves its operand unchanged");
  /* and removing them gives the original back */
  int kk = 0;
  if (ni) { dc.dim[kk] = pi; kk++; }
  if (nr) { dc.dim[kk] = pr + ni; kk++; }
  box_t *q = box_remove_dimensions(man, VP_BOOL(), r, &dc);
  VP_ASSERT(box_is_g(q, &s, DI, DR), "remove_dimensions undoes add_dimensions");
  VP_COVER("box adddim");
}
void h_box_remdim(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  int di = PICK(c, DI), dr = DI + PICK(d, DR), ri = PICK(a, 2), rr = PICK(b, 2), destr = PICK(destr, 2);
  ap_dimchange_t dc; ap_dimchange_init(&dc, ri, rr);
  if (ri) dc.dim[0] = di;
  if (rr) dc.dim[ri] = dr;
  gbox t; t.bot = s.bot; int k = 0;
  for (int i = 0; i < DN; i++) if (!(ri && i == di) && !(rr && i == dr)) { t.d[k] = s.d[i]; k++; }
  box_t *r = box_remove_dimensions(man, destr, a, &dc);
  VP_ASSERT(box_is_g(r, &t, DI - ri, DR - rr), "remove_dimensions projects exactly");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional remove_dimensions leaves its operand unchanged");
  VP_COVER("box remdim");
}
void h_box_permute(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  ap_dimperm_t pm; ap_dimperm_init(&pm, DN);
#if DI == 0 || DR == 0 /* every permutation */
  gbox t; t.bot = s.bot; int used[DN] = { 0 };
  for (int i = 0; i < DN; i++) { int k = vp_choice(DN - i), v = 0; for (;; v++) if (!used[v] && !k--) break; used[v] = 1; pm.dim[i] = v; t.d[v] = s.d[i]; }
#else
  gbox t; t.bot = s.bot; int sw = PICK(a, 4);
  for (int i = 0; i < DN; i++) {
    /* DI = DR = 2: swap the integer dimensions and/or the real ones */
    int v = i < DI ? (sw & 1 ? DI - 1 - i : i) : (sw & 2 ? DI + DN - 1 - i : i);
    pm.dim[i] = v; t.d[v] = s.d[i];
  }
#endif
  int destr = PICK(destr, 2);
  box_t *r = box_permute_dimensions(man, destr, a, &pm);
  VP_ASSERT(box_is_g(r, &t, DI, DR), "permute_dimensions moves dimension i to perm(i)");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional permute leaves its operand unchanged");
  VP_COVER("box permute");
}
void h_box_forget(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  int n = 1 + PICK(n, 2), project = VP_BOOL(), destr = PICK(destr, 2);
  ap_dim_t td[2]; td[0] = PICK(a, 2); td[1] = 1 - td[0];
  gbox t = s;
  for (int i = 0; i < n; i++) { t.d[td[i]].linf = t.d[td[i]].hinf = !project; t.d[td[i]].lo = t.d[td[i]].hi = 0; }
  box_t *r = box_forget_array(man, destr, a, td, n, project);
  VP_ASSERT(box_is_g(r, &t, DI, DR), "forget drops or zeroes exactly the given dimensions");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional forget leaves its operand unchanged");
  VP_COVER("box forget");
}
void h_box_expand(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  int dim = PICK(dim, DN), n = PICK(n, 4), destr = PICK(destr, 2), isint = dim < DI;
  gbox t; t.bot = s.bot; int k = 0;
  for (int i = 0; i <= DN; i++) {
    if (i == (isint ? DI : DN)) for (int j = 0; j < 3; j++) if (j < n) { t.d[k] = s.d[dim]; k++; }
    if (i < DN) { t.d[k] = s.d[i]; k++; }
  }
  box_t *r = box_expand(man, destr, a, dim, n);
  VP_ASSERT(box_is_g(r, &t, DI + (isint ? n : 0), DR + (isint ? 0 : n)), "expand duplicates exactly the dimension");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional expand leaves its operand unchanged");
  VP_COVER("box expand");
}
void h_box_fold(void)
{
  setup();
  gbox s; box_t *a = box_in(&s, 1);
  int destr = PICK(destr, 2);
  /* an increasing, non-empty set of dimensions of one sort */
  int isint = DI > 0 && PICK(a, 2);
  int mask = PICK(b, 1 << (DI > DR ? DI : DR)), off = isint ? 0 : DI, lim = isint ? DI : DR;
  ap_dim_t td[DN]; int n = 0;
  for (int i = 0; i < lim; i++) if ((mask >> i) & 1) { td[n] = off + i; n++; }
  VP_ASSUME(n > 0);
  gbox t; t.bot = s.bot; int k = 0;
  for (int i = 0; i < DN; i++) {
    int sel = i >= off && i < off + lim && ((mask >> (i - off)) & 1);
    if (sel && i != (int)td[0]) continue;
    t.d[k] = s.d[i];
    if (sel) for (int j = 0; j < DN; j++) if (j < n && j > 0) t.d[k] = gitv_join(&t.d[k], &s.d[td[j]]);
    k++;
  }
  box_t *r = box_fold(man, destr, a, td, n);
  VP_ASSERT(box_is_g(r, &t, DI - (isint ? n - 1 : 0), DR - (isint ? 0 : n - 1)), "fold joins the dimensions into the first one");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional fold leaves its operand unchanged");
  VP_COVER("box fold");
}
/* time elapse */
void h_box_addray(void)
{
  setup(); how(3);
  gbox s; box_t *a = box_in(&s, 0);
  g_t x[DN]; point_in(x); VP_ASSUME(gbox_mem(&s, x, DN));
  ap_generator0_array_t ar = ap_generator0_array_make(2);
  g_t y[DN]; for (int i = 0; i < DN; i++) y[i] = x[i];
  for (int c = 0; c < 2; c++) {
    glin p; ap_linexpr0_t *e = linexpr_in(DN, 0, &p, how_sparse);
    int line = VP_BOOL();
    ar.p[c] = ap_generator0_make(line ? AP_GEN_LINE : AP_GEN_RAY, e);
    g_t m = vp_real(); VP_ASSUME(line || m >= 0);
    for (int i = 0; i < DN; i++) y[i] = y[i] + vp_mul(m, p.c[i]);
  }
  int destr = how_destr;
  box_t *r = box_add_ray_array(man, destr, a, &ar);
  VP_ASSERT(box_mem(r, y, DN), "time elapse contains every translate along the rays");
  if (!destr) VP_ASSERT(box_is_g(a, &s, DI, DR), "functional add_ray leaves its operand unchanged");
  VP_COVER("box addray");
}
