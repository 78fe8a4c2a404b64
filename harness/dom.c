/* Tree expressions and constraints through the level-0 interface of whole domains (MAN: 0 polka, 1 polka strict, 2 boxes, 3 octagons, 4 equalities). */
#include "tree.c"
#include "ap_global0.h"
#include "ap_linearize.h"
#ifndef MAN
#define MAN 2
#endif
#if MAN < 2
#include "pk.h"
#elif MAN == 4
#include "pkeq.h"
#elif MAN == 2
#include "box.h"
#elif MAN == 3
#include "oct.h"
#endif
static ap_manager_t *man;
static void setup_man(void)
{
#if MAN < 2
  man = pk_manager_alloc(MAN == 1);
#elif MAN == 2
  man = box_manager_alloc();
#elif MAN == 3
  man = oct_manager_alloc();
#elif MAN == 4
  man = pkeq_manager_alloc();
#endif
}
static g_t scal_g(ap_scalar_t *s) { VP_ASSERT(!ap_scalar_infty(s), "finite number expected"); return s->discr == AP_SCALAR_DOUBLE ? s->val.dbl : s->discr == AP_SCALAR_MPQ ? mpq_get_d(s->val.mpq) : mpfr_get_d(s->val.mpfr, GMP_RNDN); }
static g_t coeff_g(ap_coeff_t *c) { VP_ASSERT(c->discr == AP_COEFF_SCALAR, "scalar coefficient expected"); if (c->discr != AP_COEFF_SCALAR) return 0; return scal_g(c->val.scalar); }
static int amem(ap_abstract0_t *a, const g_t *p)
{
  ap_lincons0_array_t t = ap_abstract0_to_lincons_array(man, a); int r = 1;
  for (size_t i = 0; i < t.size; i++) {
    ap_linexpr0_t *e = t.p[i].linexpr0; g_t v = coeff_g(&e->cst); size_t j; ap_dim_t d; ap_coeff_t *c;
    ap_linexpr0_ForeachLinterm(e, j, d, c) { if (d == AP_DIM_MAX) continue; VP_ASSERT(d < DN, "constraints of the result are over its dimensions"); g_t m = coeff_g(c); if (m != 0) v = v + m * p[d]; }
    switch (t.p[i].constyp) { case AP_CONS_EQ: r &= v == 0; break; case AP_CONS_SUPEQ: r &= v >= 0; break; case AP_CONS_SUP: r &= v > 0; break; default: break; }
  }
  ap_lincons0_array_clear(&t); return r;
}
/* ---- the operand: a box, maybe cut by a constraint ---- */
static ap_abstract0_t *of_gbox(const gitv *g)
{
  ap_interval_t *t[DN + 1]; for (int i = 0; i < DN; i++) { t[i] = ap_interval_alloc(); ap_interval_set_g(t[i], &g[i]); }
  ap_abstract0_t *a = ap_abstract0_of_box(man, DI, DR, t); for (int i = 0; i < DN; i++) ap_interval_free(t[i]); return a;
}
#ifndef RELS
#define RELS (MAN == 2 ? 1 : 3)
#endif
static int rel; static const int relc[][4] = { { 0, 0, 0, 0 }, { 1, -1, 1, AP_CONS_SUPEQ }, { -1, -1, 3, AP_CONS_SUPEQ }, { 1, -1, 0, AP_CONS_EQ } };
static g_t rel_at(const g_t *p) { return DN > 1 ? relc[rel][0] * p[0] + relc[rel][1] * p[DN - 1] + relc[rel][2] : 0; }
static int rel_ok(const g_t *p) { return !rel ? 1 : gcons_sat(relc[rel][3], rel_at(p), 0); }
static ap_abstract0_t *cut(ap_abstract0_t *a)
{
  rel = DN > 1 ? vp_choice(RELS) : 0; if (!rel) return a;
  ap_lincons0_array_t t = ap_lincons0_array_make(1); ap_linexpr0_t *e = ap_linexpr0_alloc(AP_LINEXPR_DENSE, DN);
  ap_coeff_set_g(&e->p.coeff[0], relc[rel][0]); ap_coeff_set_g(&e->p.coeff[DN - 1], relc[rel][1]); ap_coeff_set_g(&e->cst, relc[rel][2]);
  t.p[0] = ap_lincons0_make(relc[rel][3], e, NULL); a = ap_abstract0_meet_lincons_array(man, true, a, &t); ap_lincons0_array_clear(&t); return a;
}
static ap_abstract0_t *operand(void) { setup_man(); setup_env(); ap_abstract0_t *a = cut(of_gbox(genv)); VP_ASSUME(rel_ok(x)); return a; }
static int in_operand(const g_t *p) { int r = rel_ok(p); for (int i = 0; i < DN; i++) r &= gitv_mem(&genv[i], p[i]); return r; }
static g_t y[DN + 1];
static void any_point(void) { for (int i = 0; i < DN; i++) y[i] = i < DI ? vp_int() : vp_real(); }
static void unchanged(ap_abstract0_t *a) { any_point(); VP_ASSERT(amem(a, y) == in_operand(y) || (MAN >= 2 && (MAN != 3 || DI)) || (DI && rel), "a functional call leaves its operand unchanged"); if (MAN == 2 && !rel) VP_ASSERT(amem(a, y) == in_operand(y), "a functional call leaves its operand unchanged"); }
/* ---- linear expressions and constraints of the results, which may have interval coefficients ---- */
static void acc_ap(ap_coeff_t *c, g_t xi, gitv *s) { itv_t t; itv_init(t); itv_set_ap_coeff(in, t, c); VP_ASSERT(!itv_empty(t), "an empty coefficient"); acc(t, xi, s); itv_clear(t); }
static gitv lin0_at(ap_linexpr0_t *e, const g_t *p)
{
  gitv s = gitv_point(0); size_t j; ap_dim_t d; ap_coeff_t *c; acc_ap(&e->cst, 1, &s);
  ap_linexpr0_ForeachLinterm(e, j, d, c) { if (d == AP_DIM_MAX) continue; VP_ASSERT(d < DN, "dimensions of the result"); if (d < DN) acc_ap(c, p[d], &s); } return s;
}
static int may_sat(int op, gitv s) { switch (op) { case AP_CONS_EQ: return gitv_mem(&s, 0); case AP_CONS_SUPEQ: return s.hinf | (s.hi >= 0); case AP_CONS_SUP: return s.hinf | (s.hi > 0); case AP_CONS_DISEQ: return s.linf | s.hinf | (s.lo != 0) | (s.hi != 0); default: return 1; } }
static int must_sat(int op, gitv s) { switch (op) { case AP_CONS_EQ: return !s.linf & !s.hinf & (s.lo == 0) & (s.hi == 0); case AP_CONS_SUPEQ: return !s.linf & (s.lo >= 0); case AP_CONS_SUP: return !s.linf & (s.lo > 0); default: return !gitv_mem(&s, 0); } }
static void check_e0(ap_linexpr0_t *e, g_t v, int quasi)
{
  VP_ASSERT(e != NULL, "an expression is returned"); if (!e) return;
  gitv s = lin0_at(e, x); VP_ASSERT(gitv_mem(&s, v), "the linearization of an expression contains its values");
  if (quasi) VP_ASSERT(ap_linexpr0_is_quasilinear(e), "the result of quasilinearization is quasilinear");
}
/* bounds and linearization of expressions */
void h_dom_eval(void)
{
  ap_abstract0_t *a = operand(); tv t = tree(); bool ex; ap_interval_t *i = ap_abstract0_bound_texpr(man, a, t.e);
  VP_ASSERT(ap_interval_mem_g(i, t.v), "the bounds of an expression contain its values"); ap_interval_free(i);
  i = ap_eval_texpr0(man, a, t.e, AP_SCALAR_MPQ, &ex); VP_ASSERT(ap_interval_mem_g(i, t.v), "the evaluation of an expression contains its values"); ap_interval_free(i);
  unchanged(a); ap_abstract0_free(man, a); VP_COVER("dom eval");
}
void h_dom_lin(void)
{
  ap_abstract0_t *a = operand(); tv t = tree(); bool ex; int q = vp_choice(2), k = vp_choice(3);
  if (k == 0) { ap_linexpr0_t *e = ap_intlinearize_texpr0(man, a, t.e, &ex, AP_SCALAR_MPQ, q); check_e0(e, t.v, q); ap_linexpr0_free(e); }
  else if (k == 1) {
    ap_texpr0_t *two[2] = { ap_texpr0_dim(0), t.e }; ap_linexpr0_t **e = ap_intlinearize_texpr0_array(man, a, two, 2, &ex, AP_SCALAR_MPQ, q);
    check_e0(e[0], x[0], q); check_e0(e[1], t.v, q); ap_texpr0_free(two[0]); ap_linexpr0_array_free(e, 2);
  } else {
    ap_linexpr0_t *e = ap_intlinearize_texpr0_intlinear(man, t.e, AP_SCALAR_MPQ);
    if (ap_texpr0_is_interval_linear(t.e)) check_e0(e, t.v, 0);
    if (e) { gitv s = lin0_at(e, x); VP_ASSERT(gitv_mem(&s, t.v), "the linearization of an expression contains its values"); ap_linexpr0_free(e); }
  }
  ap_texpr0_free(t.e); ap_abstract0_free(man, a); VP_COVER("dom lin");
}
/* quasilinearization of interval linear expressions and constraints */
#ifndef KIND
#define KIND 2
#endif
void h_dom_quasi(void)
{
  ap_abstract0_t *a = operand(); glin l; ap_linexpr0_t *e = linexpr_in(DN, KIND, &l, KIND & 1); g_t v = glin_eval(&l, DN, x); bool ex = 0; int k = vp_choice(4);
  if (k == 0) {
    ap_interval_t *i = ap_eval_linexpr0(man, a, e, AP_SCALAR_MPQ, &ex); VP_ASSERT(ap_interval_mem_g(i, v), "the evaluation of a linear expression contains its values"); ap_interval_free(i);
    ap_linexpr0_t *r = ap_quasilinearize_linexpr0(man, a, e, &ex, AP_SCALAR_MPQ); check_e0(r, v, 1); if (r != e) ap_linexpr0_free(r);
  } else if (k == 1) {
    ap_linexpr0_t *two[2] = { e, e }, **r = ap_quasilinearize_linexpr0_array(man, a, two, 2, &ex, AP_SCALAR_MPQ); check_e0(r[0], v, 1); check_e0(r[1], v, 1); if (r != two) ap_linexpr0_array_free(r, 2);
  } else {
    static const int ops[] = { AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_DISEQ }; int op = ops[vp_choice(4)], m = vp_choice(2), ok = gcons_sat(op, v, 0); if (m) VP_ASSUME(ok); ap_lincons0_t c = ap_lincons0_make(op, e, NULL);
    if (k == 2) {
      ap_lincons0_t r = ap_quasilinearize_lincons0(man, a, &c, &ex, AP_SCALAR_MPQ, m); gitv s = lin0_at(r.linexpr0, x);
      if (r.linexpr0->size) VP_ASSERT(ap_linexpr0_is_quasilinear(r.linexpr0), "the result of quasilinearization is quasilinear");
      if (m) VP_ASSERT(may_sat(r.constyp, s), "solutions satisfy the quasilinear constraint"); else VP_ASSERT(!must_sat(r.constyp, s) | ok, "the quasilinear constraint implies the constraint when it is for satisfaction tests"); if (r.linexpr0 != e) ap_lincons0_clear(&r);
    } else {
      int li = vp_choice(2), all = 1; ap_lincons0_array_t t = ap_lincons0_array_make(2), r; t.p[0] = ap_lincons0_copy(&c); t.p[1] = ap_lincons0_make(AP_CONS_SUPEQ, ap_linexpr0_alloc(AP_LINEXPR_DENSE, DN), NULL);
      ex = 0; r = ap_quasilinearize_lincons0_array(man, a, &t, &ex, AP_SCALAR_MPQ, li, m);
      for (size_t i = 0; i < r.size; i++) { gitv s = lin0_at(r.p[i].linexpr0, x); all &= must_sat(r.p[i].constyp, s); if (m) VP_ASSERT(may_sat(r.p[i].constyp, s), "solutions satisfy the quasilinear constraints"); if (op != AP_CONS_DISEQ && r.p[i].linexpr0->size) VP_ASSERT(li ? ap_linexpr0_is_linear(r.p[i].linexpr0) : ap_linexpr0_is_quasilinear(r.p[i].linexpr0), "the result has the kind asked"); }
      if (!m) VP_ASSERT(!all | ok, "the quasilinear constraints imply the constraint when they are for satisfaction tests");
      if (r.p != t.p) ap_lincons0_array_clear(&r); ap_lincons0_array_clear(&t);
    }
  }
  ap_abstract0_free(man, a); VP_COVER("dom quasi");
}
#ifndef DOPS
#define DOPS 4
#endif
#ifdef VSUB /* compares with constants */
#define CMPV() ((g_t)vp_choice(VSUB))
#else
#define CMPV() 0
#endif
static ap_tcons0_t tcon(g_t *v)
{
  static const int ops[] = { AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP, AP_CONS_DISEQ }; tv t = tree(); g_t k = CMPV(); if (k != 0) { ap_coeff_t *c = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_g(c, k); t.e = ap_texpr0_binop(AP_TEXPR_SUB, t.e, ap_texpr0_cst(c), AP_RTYPE_REAL, AP_RDIR_RND); ap_coeff_free(c); }
  *v = t.v - k; return ap_tcons0_make(ops[vp_choice(DOPS)], t.e, NULL);
}
static ap_tcons0_t tcon2(g_t *v) /* a linear one */
{
  ap_coeff_t *c = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_g(c, 1); *v = x[0] - 1;
  ap_tcons0_t r = ap_tcons0_make(AP_CONS_SUPEQ, ap_texpr0_binop(AP_TEXPR_SUB, ap_texpr0_dim(0), ap_texpr0_cst(c), AP_RTYPE_REAL, AP_RDIR_RND), NULL); ap_coeff_free(c); return r;
}
void h_dom_lincons(void)
{
  ap_abstract0_t *a = operand(); g_t v; ap_tcons0_t c = tcon(&v); bool ex; int m = vp_choice(2), ok = gcons_sat(c.constyp, v, 0), dis = c.constyp == AP_CONS_DISEQ; if (m) VP_ASSUME(ok);
  if (vp_choice(2)) {
    int q = vp_choice(2); ap_lincons0_t r = ap_intlinearize_tcons0(man, a, &c, &ex, AP_SCALAR_MPQ, q, m); gitv s = lin0_at(r.linexpr0, x);
    if (m) VP_ASSERT(may_sat(r.constyp, s), "solutions satisfy the linearized constraint"); else VP_ASSERT(!must_sat(r.constyp, s) | ok, "the linearized constraint implies the constraint when it is for satisfaction tests");
    if (q && r.linexpr0->size) VP_ASSERT(ap_linexpr0_is_quasilinear(r.linexpr0), "the result has the kind asked"); ap_lincons0_clear(&r);
  } else {
    static const ap_linexpr_type_t ty[] = { AP_LINEXPR_INTLINEAR, AP_LINEXPR_QUASILINEAR, AP_LINEXPR_LINEAR }; int k = vp_choice(3), b = vp_choice(2), io = b ? vp_choice(2) : 0, all = 1; g_t w;
    ap_tcons0_array_t t = ap_tcons0_array_make(2); t.p[0] = ap_tcons0_copy(&c); t.p[1] = tcon2(&w); if (m) VP_ASSUME(w >= 0);
    ap_lincons0_array_t r = ap_intlinearize_tcons0_array(man, a, &t, &ex, AP_SCALAR_MPQ, ty[k], m, b, 2, io);
    for (size_t i = 0; i < r.size; i++) { gitv s = lin0_at(r.p[i].linexpr0, x); all &= must_sat(r.p[i].constyp, s); if (m) VP_ASSERT(may_sat(r.p[i].constyp, s), "solutions satisfy the linearized constraints"); if (k && !dis && r.p[i].linexpr0->size) VP_ASSERT(k == 1 ? ap_linexpr0_is_quasilinear(r.p[i].linexpr0) : ap_linexpr0_is_linear(r.p[i].linexpr0), "the result has the kind asked"); }
    if (!m) VP_ASSERT(!all | (ok & (w >= 0)), "the linearized constraints imply the constraints when they are for satisfaction tests");
    ap_lincons0_array_clear(&r); ap_tcons0_array_clear(&t);
  }
  ap_tcons0_clear(&c); ap_abstract0_free(man, a); VP_COVER("dom lincons");
}
/* meet with constraints over tree expressions, satisfaction */
void h_dom_meet(void)
{
  ap_abstract0_t *a = operand(), *r; g_t v, w = 0; ap_tcons0_t c = tcon(&v); int n = 1 + vp_choice(2), des = vp_choice(2);
  if (!des) { int s = ap_abstract0_sat_tcons(man, a, &c); if (s) VP_ASSERT(gcons_sat(c.constyp, v, 0), "a constraint declared satisfied is satisfied by every point"); }
  ap_tcons0_array_t t = ap_tcons0_array_make(n); t.p[0] = c; if (n > 1) t.p[1] = tcon2(&w);
  r = ap_abstract0_meet_tcons_array(man, des, a, &t);
  VP_ASSERT(!(gcons_sat(c.constyp, v, 0) & (w >= 0)) | amem(r, x), "the solutions are kept");
  any_point(); if (!(DI && rel)) VP_ASSERT(!amem(r, y) | in_operand(y) | (MAN == 4), "no point is added");
  if (!des) unchanged(a);
  if (!des) ap_abstract0_free(man, a); ap_abstract0_free(man, r); ap_tcons0_array_clear(&t); VP_COVER("dom meet");
}
/* assignments */
static int int_ok(int d, g_t v) { return d >= DI || vp_isint(v); }
void h_dom_assign(void)
{
  ap_abstract0_t *a = operand(), *r, *dest = NULL; tv t = tree(); int d = vp_choice(DN), des = vp_choice(2); if (d < DI) VP_ASSUME(vp_isint(t.v));
  for (int i = 0; i < DN; i++) y[i] = i == d ? t.v : x[i];
  gitv g[DN + 1]; int dst = vp_choice(2), dok = 1; if (dst) { for (int i = 0; i < DN; i++) { g[i].linf = 0; g[i].hinf = i; g[i].lo = i ? -1 : 0; g[i].hi = i ? 0 : 2; dok &= gitv_mem(&g[i], y[i]); } dest = of_gbox(g); }
  if (vp_choice(2) || DN < 2) r = ap_abstract0_assign_texpr(man, des, a, d, t.e, dest);
  else { ap_dim_t td[2] = { d, !d }; ap_texpr0_t *te[2] = { t.e, ap_texpr0_dim(d) }; y[!d] = x[d]; VP_ASSUME(int_ok(!d, x[d])); if (dst) { dok = 1; for (int i = 0; i < DN; i++) dok &= gitv_mem(&g[i], y[i]); } r = ap_abstract0_assign_texpr_array(man, des, a, td, te, 2, dest); ap_texpr0_free(te[1]); }
  VP_ASSERT(!dok | amem(r, y), "the states reached by an assignment are kept");
  if (dest) { g_t z[DN + 1]; int m = 1; for (int i = 0; i < DN; i++) { z[i] = i < DI ? vp_int() : vp_real(); m &= gitv_mem(&g[i], z[i]); } if (MAN != 4) VP_ASSERT(!amem(r, z) | m, "the result is in the destination"); ap_abstract0_free(man, dest); }
  if (!des) unchanged(a);
  if (!des) ap_abstract0_free(man, a); ap_abstract0_free(man, r); ap_texpr0_free(t.e); VP_COVER("dom assign");
}
/* substitutions: x is in the destination when there is one; its image in the operand */
void h_dom_subst(void)
{
  setup_man(); setup_env(); gitv g[DN + 1]; int dst = vp_choice(2), two, des = vp_choice(2); ap_abstract0_t *dest = dst ? of_gbox(genv) : NULL, *a, *r;
  tv t = tree(); int d = vp_choice(DN); if (d < DI) VP_ASSUME(vp_isint(t.v)); two = DN > 1 && vp_choice(2); ap_dim_t td[2] = { d, !d }; ap_texpr0_t *te[2] = { t.e, NULL };
  for (int i = 0; i < DN; i++) y[i] = i == d ? t.v : x[i]; if (two) { y[!d] = x[d]; VP_ASSUME(int_ok(!d, x[d])); }
  for (int i = 0; i < DN; i++) { g[i].linf = i; g[i].hinf = 0; g[i].lo = i ? 0 : -1; g[i].hi = i ? 2 : 3; VP_ASSUME(gitv_mem(&g[i], y[i])); }
  a = cut(of_gbox(g)); VP_ASSUME(rel_ok(y));
  if (!two) r = ap_abstract0_substitute_texpr(man, des, a, d, t.e, dest);
  else { te[1] = ap_texpr0_dim(d); r = ap_abstract0_substitute_texpr_array(man, des, a, td, te, 2, dest); ap_texpr0_free(te[1]); }
  VP_ASSERT(amem(r, x), "the states whose image is in the argument are kept");
  if (!des) ap_abstract0_free(man, a); ap_abstract0_free(man, r); if (dest) ap_abstract0_free(man, dest); ap_texpr0_free(t.e); VP_COVER("dom subst");
}
