/* Tree expressions: evaluation, linearization, interval arithmetic. */
#include "vpnum.h"
#include "ap_texpr0.h"
#include "ap_tcons0.h"
#include "itv_linexpr.h"
#include "itv_linearize.h"
#ifndef DI
#define DI 1
#endif
#ifndef DR
#define DR 1
#endif
#define DN (DI + DR)
static itv_internal_t *in;
static itv_t env[DN + 1];
static gitv genv[DN + 1];
static g_t x[DN + 1];
#ifdef CENV /* explicit bounds */
static gitv cint(int isint)
{
  static const double lo[] = { 0, -2, 0.5, -8, 4, 2, -1 }, hi[] = { 9, 3, 2, 0.25, 0, 1, -1 }; gitv s; int k = vp_choice(INFS); s.linf = k & 1; s.hinf = k >> 1 & 1;
  s.lo = s.linf ? 0 : lo[vp_choice(CENV)]; s.hi = s.hinf ? 0 : hi[vp_choice(CENV)];
  if (isint) { s.lo = vp_add(s.lo, s.lo); s.hi = 4 * s.hi; } if (!k) VP_ASSUME(s.lo <= s.hi); return s;
}
#endif
/* the environment and one of its points */
static void setup_env(void)
{
  in = itv_internal_alloc();
  for (int i = 0; i < DN; i++) {
    itv_init(env[i]);
#ifdef CENV /* explicit bounds */
    genv[i] = cint(i < DI);
    if (0)
#endif
#ifdef PATS /* fewer patterns of infinities: finite; top; half-bounded; ... */
    static const char pat[][3] = { { 0, 0, 0 }, { 1, 2, 0 }, { 2, 1, 3 }, { 3, 0, 0 }, { 0, 3, 1 }, { 3, 3, 3 } };
    static int pk; if (i == 0) pk = vp_choice(PATS); genv[i].linf = pat[pk][i] & 1; genv[i].hinf = pat[pk][i] >> 1; genv[i].lo = genv[i].linf ? 0 : g_in(i < DI); genv[i].hi = genv[i].hinf ? 0 : g_in(i < DI);
    if (!genv[i].linf && !genv[i].hinf) VP_ASSUME(genv[i].lo <= genv[i].hi);
    if (0)
#endif
#ifdef PT0 /* the first dimension may have a single value */
    if (i == 0 && vp_choice(2)) genv[i] = gitv_point(g_in(i < DI)); else
#endif
    genv[i] = gitv_in(i < DI); itv_set_g(env[i], &genv[i]); x[i] = g_pick(&genv[i], i < DI);
  }
}
/* ---- an expression and its value at the point ---- */
typedef struct { ap_texpr0_t *e; g_t v; int isint; } tv;
#ifndef LEAF
#define LEAF 15 /* bit 0: dim 0, bit 1: dim 1, bit 2: scalar, bit 3: interval */
#endif
#ifdef KPATS /* infinities of constant intervals */
static gitv kint(void) { gitv a; int k = vp_choice(KPATS); a.linf = k & 1; a.hinf = k >> 1; a.lo = a.linf ? 0 : vp_real(); a.hi = a.hinf ? 0 : vp_real(); if (!k) VP_ASSUME(a.lo <= a.hi); return a; }
#else
#define kint() gitv_in(0)
#endif
static tv leaf(int mask)
{
  tv r; int n = 0, l[4]; for (int i = 0; i < 4; i++) if (mask >> i & 1) l[n++] = i;
  int k = l[n == 1 ? 0 : vp_choice(n)];
  if (k < 2) { r.e = ap_texpr0_dim(k); r.v = x[k]; r.isint = k < DI; }
  else if (k == 2) {
#ifdef CSTS /* explicit constants */
    static const double cs[] = { 2, -3, 0.5, 0, 1, -1 }; r.v = cs[vp_choice(CSTS)]; r.isint = 0;
#else
    r.isint = 0; r.v = vp_real();
#endif
    ap_coeff_t *c = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_g(c, r.v); r.e = ap_texpr0_cst(c); ap_coeff_free(c); }
  else { gitv s = kint(); ap_coeff_t *c = ap_coeff_alloc(AP_COEFF_INTERVAL); ap_coeff_set_gitv(c, &s); r.v = g_pick(&s, 0); r.e = ap_texpr0_cst(c); ap_coeff_free(c); r.isint = 0; }
  return r;
}
static int is_rnd(int dir, g_t n, g_t a) /* is n (an integer) a rounding of a? */
{
  switch (dir) {
  case AP_RDIR_UP: return (n >= a) & (n < a + 1);
  case AP_RDIR_DOWN: return (n <= a) & (n > a - 1);
  case AP_RDIR_ZERO: return ((a >= 0) & (n <= a) & (n > a - 1)) | ((a < 0) & (n >= a) & (n < a + 1));
  case AP_RDIR_NEAREST: return (2 * n <= 2 * a + 1) & (2 * n >= 2 * a - 1);
  default: return (n < a + 1) & (n > a - 1);
  }
}
static g_t rnd(int type, int dir, g_t a)
{
  if (type != AP_RTYPE_INT) return a; /* floating-point types: exact here (see the rounding harnesses) */
  g_t n = vp_int(); VP_ASSUME(is_rnd(dir, n, a)); return n;
}
static g_t quot(g_t a, g_t b) { VP_ASSUME(b != 0); g_t v = vp_real(); VP_ASSUME(v * b == a); return v; }
#ifndef EXPO
#define EXPO 3
#endif
static tv node(int op, int type, int dir, tv a, tv b)
{
  tv r; r.isint = 0;
  switch (op) {
  case AP_TEXPR_NEG: r.v = -a.v; r.isint = a.isint; break;
  case AP_TEXPR_CAST: r.v = rnd(type, dir, a.v); break;
  case AP_TEXPR_SQRT: { g_t v = vp_real(); VP_ASSUME((v >= 0) & (v * v == a.v)); r.v = rnd(type, dir, v); break; }
  case AP_TEXPR_ADD: r.v = rnd(type, dir, a.v + b.v); break;
  case AP_TEXPR_SUB: r.v = rnd(type, dir, a.v - b.v); break;
  case AP_TEXPR_MUL: r.v = rnd(type, dir, a.v * b.v); break;
  case AP_TEXPR_DIV: r.v = rnd(type, dir, quot(a.v, b.v)); break;
  case AP_TEXPR_MOD: { g_t t = quot(a.v, b.v), q = vp_int(); VP_ASSUME(is_rnd(AP_RDIR_ZERO, q, t)); r.v = a.v - q * b.v; r.isint = a.isint & b.isint; break; }
  case AP_TEXPR_POW: { int n = vp_choice(EXPO); ap_texpr0_free(b.e); b.e = ap_texpr0_cst_scalar_int(n); r.v = 1; for (int i = 0; i < n; i++) r.v = r.v * a.v; r.v = rnd(type, dir, r.v); break; }
  }
  if (type == AP_RTYPE_INT) r.isint = 1;
  if (op == AP_TEXPR_NEG || op == AP_TEXPR_CAST || op == AP_TEXPR_SQRT) { r.e = ap_texpr0_unop(op, a.e, type, dir); if (b.e) ap_texpr0_free(b.e); }
  else r.e = ap_texpr0_binop(op, a.e, b.e, type, dir);
  return r;
}
/* operator sets, types */
#ifndef OPS
#define OPS "+-*/n"
#endif
#ifndef TYPES
#define TYPES "r" /* r: real; u d z n a: integer, rounded up, down, to zero, to nearest, anyhow; f: a floating-point type */
#endif
static int op_of(char c) { switch (c) { case '+': return AP_TEXPR_ADD; case '-': return AP_TEXPR_SUB; case '*': return AP_TEXPR_MUL; case '/': return AP_TEXPR_DIV; case 'n': return AP_TEXPR_NEG; case 'c': return AP_TEXPR_CAST; case 's': return AP_TEXPR_SQRT; case '%': return AP_TEXPR_MOD; default: return AP_TEXPR_POW; } }
static int pick_op(const char *s) { return op_of(s[vp_choice(strlen(s))]); }
static void pick_type(const char *s, int *type, int *dir)
{
  static const int ft[] = { AP_RTYPE_SINGLE, AP_RTYPE_DOUBLE, AP_RTYPE_EXTENDED, AP_RTYPE_QUAD };
  switch (s[vp_choice(strlen(s))]) {
  case 'r': *type = AP_RTYPE_REAL; *dir = AP_RDIR_RND; break;
  case 'u': *type = AP_RTYPE_INT; *dir = AP_RDIR_UP; break;
  case 'd': *type = AP_RTYPE_INT; *dir = AP_RDIR_DOWN; break;
  case 'z': *type = AP_RTYPE_INT; *dir = AP_RDIR_ZERO; break;
  case 'n': *type = AP_RTYPE_INT; *dir = AP_RDIR_NEAREST; break;
  case 'a': *type = AP_RTYPE_INT; *dir = AP_RDIR_RND; break;
  default: *type = ft[vp_choice(4)]; *dir = AP_RDIR_NEAREST; break;
  }
}
static int unary(int op) { return op == AP_TEXPR_NEG || op == AP_TEXPR_CAST || op == AP_TEXPR_SQRT; }
static tv none(void) { tv r; r.e = NULL; r.v = 0; r.isint = 0; return r; }
#ifndef LEAF2
#define LEAF2 LEAF
#endif
/* SHAPE 0: op(leaf, leaf); 1: op2(op(leaf, leaf), leaf); 2: op2(leaf, op(leaf, leaf)) */
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef OPS2
#define OPS2 OPS
#endif
#ifndef TYPES2
#define TYPES2 TYPES
#endif
static tv tree(void)
{
  int op = pick_op(OPS), type, dir, op2, type2, dir2; pick_type(TYPES, &type, &dir);
  tv a = leaf(LEAF), b = unary(op) || op == AP_TEXPR_POW ? none() : leaf(LEAF2), r;
  if (op == AP_TEXPR_MOD && type == AP_RTYPE_INT) VP_ASSUME(vp_isint(a.v) & vp_isint(b.v));
  r = node(op, type, dir, a, b);
  if (SHAPE == 0) return r;
  op2 = pick_op(OPS2); pick_type(TYPES2, &type2, &dir2);
  b = unary(op2) || op2 == AP_TEXPR_POW ? none() : leaf(LEAF2);
  return SHAPE == 1 ? node(op2, type2, dir2, r, b) : node(op2, type2, dir2, unary(op2) || op2 == AP_TEXPR_POW ? r : b, unary(op2) || op2 == AP_TEXPR_POW ? b : r);
}
/* the interval evaluation contains every value */
void h_tree_eval(void)
{
  setup_env(); tv t = tree(); itv_t r; itv_init(r);
  itv_eval_ap_texpr0(in, r, t.e, env);
  VP_ASSERT(itv_mem_g(r, t.v), "the evaluation of an expression contains its values");
  for (int i = 0; i < DN; i++) VP_ASSERT(itv_eq_g(env[i], &genv[i]), "evaluation leaves the environment unchanged");
  VP_COVER("tree eval");
}
/* adds the values of c * xi to s */
static g_t num_g(num_t n) { return mpq_get_d(n); }
static void acc1(bound_t b, g_t m, char *inf, g_t *v) { if (bound_infty(b)) { *inf |= bound_sgn(b) > 0; if (bound_sgn(b) < 0) VP_ASSERT(0, "an empty coefficient"); } else *v = *v + num_g(bound_numref(b)) * m; }
static void acc(itv_ptr c, g_t xi, gitv *s)
{
  g_t up = 0, dn = 0;
  if (xi == 0) return;
  if (xi > 0) { acc1(c->sup, xi, &s->hinf, &up); acc1(c->inf, xi, &s->linf, &dn); }
  else { acc1(c->inf, -xi, &s->hinf, &up); acc1(c->sup, -xi, &s->linf, &dn); }
  s->hi = s->hi + up; s->lo = s->lo - dn;
}
/* values of an interval linear form at the point */
static gitv lin_at(itv_linexpr_t *l)
{
  gitv s = gitv_point(0); size_t i; ap_dim_t d; itv_ptr c; bool *eq;
  acc(l->cst, 1, &s);
  itv_linexpr_ForeachLinterm(l, i, d, c, eq) { VP_ASSERT(d < DN, "dimensions of the result"); acc(c, x[d], &s); if (*eq) VP_ASSERT(itv_is_point(in, c), "coefficients marked as scalars are scalars"); }
  return s;
}
static void check_lin(itv_linexpr_t *l, g_t v)
{
  VP_ASSERT(!itv_empty(l->cst), "the linearization of an expression that has a value is not empty");
  gitv s = lin_at(l);
  VP_ASSERT(gitv_mem(&s, v), "the linearization of an expression contains its values");
  for (size_t i = 1; i < l->size; i++) VP_ASSERT(l->linterm[i - 1].dim < l->linterm[i].dim, "dimensions of the linearization are sorted");
}
void h_tree_lin(void)
{
  setup_env(); tv t = tree(); itv_linexpr_t l; itv_linexpr_init(&l, 0);
  int exc = itv_intlinearize_ap_texpr0(in, &l, t.e, env, DI);
  VP_ASSERT(!exc, "an expression that has a value has a linearization");
  check_lin(&l, t.v);
#ifdef QUASI
  itv_quasilinearize_linexpr(in, &l, env, vp_choice(2));
  VP_ASSERT(itv_linexpr_is_quasilinear(&l), "the result of quasilinearization is quasilinear");
  check_lin(&l, t.v);
#endif
  VP_COVER("tree lin");
}
/* expressions that are interval linear for syntactic reasons: no environment needed */
void h_tree_intlinear(void)
{
  setup_env(); tv t = tree(); VP_ASSUME(ap_texpr0_is_interval_linear(t.e));
  itv_linexpr_t l; itv_linexpr_init(&l, 0);
  int exc = itv_intlinearize_ap_texpr0_intlinear(in, &l, t.e);
  VP_ASSERT(!exc, "interval linear expressions are linearized");
  check_lin(&l, t.v);
  VP_COVER("tree intlinear");
}

/* backward evaluation (HC4): the points that satisfy a constraint are kept, no point is added */
static ap_texpr0_t *minus_range(ap_texpr0_t *e, g_t *k)
{
#ifdef CENV
  static const double klo[] = { 0, -1, 0.5, -8, 3 }, khi[] = { 0, 2, 0.75, -0.5, 8 }; gitv s; int c = vp_choice(INFS); s.linf = c & 1; s.hinf = c >> 1 & 1; s.lo = s.linf ? 0 : klo[vp_choice(CENV > 5 ? 5 : CENV)]; s.hi = s.hinf ? 0 : khi[vp_choice(CENV > 5 ? 5 : CENV)]; if (!c) VP_ASSUME(s.lo <= s.hi);
#else
  gitv s = kint();
#endif
  ap_coeff_t *c2 = ap_coeff_alloc(AP_COEFF_INTERVAL); ap_coeff_set_gitv(c2, &s); *k = g_pick(&s, 0);
  ap_texpr0_t *r = ap_texpr0_binop(AP_TEXPR_SUB, e, ap_texpr0_cst(c2), AP_RTYPE_REAL, AP_RDIR_RND); ap_coeff_free(c2); return r;
}
static ap_tcons0_array_t tcons_in(void)
{
  tv t = tree(); g_t v, k; ap_tcons0_array_t a = ap_tcons0_array_make(1); int op;
#ifdef CONSOP
  static const int ops[] = { AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_DISEQ }; op = ops[vp_choice(CONSOP)]; v = t.v; k = 0;
#else
  op = AP_CONS_EQ; t.e = minus_range(t.e, &k); v = t.v - k;
#endif
  a.p[0] = ap_tcons0_make(op, t.e, NULL); VP_ASSUME(gcons_sat(op, v, 0)); return a;
}
void h_tree_hc4(void)
{
  setup_env(); ap_tcons0_array_t a = tcons_in();
#ifndef ITERS
#define ITERS 1 + vp_choice(2)
#endif
  int empty = itv_meet_ap_tcons0_array(in, &a, env, DI, ITERS);
  VP_ASSERT(!empty, "a constraint that has a solution is not found unsatisfiable");
  for (int i = 0; i < DN; i++) {
    VP_ASSERT(itv_mem_g(env[i], x[i]), "the solutions of a constraint are kept");
    VP_ASSERT((genv[i].linf | (bound_cmp_g(env[i]->inf, -genv[i].lo) <= 0)) & (genv[i].hinf | (bound_cmp_g(env[i]->sup, genv[i].hi) <= 0)), "no point is added");
  }
  VP_COVER("tree hc4");
}
/* substitution by backward evaluation: the points whose image is in arg are kept */
#ifdef CENV
static gitv oint(void) { gitv s; s.hinf = 0; s.linf = vp_choice(2); s.lo = s.linf ? 0 : -4; s.hi = 5; return s; }
#define ARGI(i, d) ((i) == (d) ? cint((i) < DI) : oint())
#else
#define ARGI(i, d) ((i) == (d) ? kint() : gitv_fin((i) < DI))
#endif
void h_tree_subst(void)
{
  setup_env(); tv t = tree(); ap_dim_t d = vp_choice(DN); itv_t arg[DN + 1]; gitv garg[DN + 1];
  for (int i = 0; i < DN; i++) { garg[i] = ARGI(i, d); if (i == d && i < DI) { VP_ASSUME(vp_isint(garg[i].lo)); VP_ASSUME(vp_isint(garg[i].hi)); } itv_init(arg[i]); itv_set_g(arg[i], &garg[i]); VP_ASSUME(gitv_mem(&garg[i], i == d ? t.v : x[i])); }
  if (d < DI) VP_ASSUME(vp_isint(t.v));
  int empty = itv_subst_ap_texpr0_array(in, env, arg, &d, &t.e, 1, DI, DR, 1 + vp_choice(2));
  VP_ASSERT(!empty, "a substitution that has a solution is not found empty");
  for (int i = 0; i < DN; i++) { VP_ASSERT(itv_mem_g(env[i], x[i]), "the points whose image is in the argument are kept"); VP_ASSERT(itv_eq_g(arg[i], &garg[i]), "the argument is left unchanged"); }
  VP_COVER("tree subst");
}
/* linearization of constraints: a solution satisfies one instance of the result */
void h_tree_tcons(void)
{
  setup_env(); ap_tcons0_array_t a = tcons_in(); itv_lincons_array_t l; itv_lincons_array_init(&l, 0);
  int exc = itv_intlinearize_ap_tcons0_array(in, &l, &a, env, DI);
  VP_ASSERT(!exc, "a constraint that has a solution is not found unsatisfiable");
  VP_ASSERT(l.size == 1 && l.p[0].constyp == a.p[0].constyp, "the type of the constraint is kept");
  gitv s = lin_at(&l.p[0].linexpr); int op = l.p[0].constyp;
  VP_ASSERT(op == AP_CONS_EQ ? gitv_mem(&s, 0) : op == AP_CONS_SUPEQ ? s.hinf | (s.hi >= 0) : op == AP_CONS_SUP ? s.hinf | (s.hi > 0) : s.linf | s.hinf | (s.lo != 0) | (s.hi != 0), "solutions satisfy the linearization of the constraint");
  VP_COVER("tree tcons");
}
