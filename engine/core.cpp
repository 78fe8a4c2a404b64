#include "core.h"
#include <sys/time.h>
#include <signal.h>
#include <map>
#include <gmpxx.h>
std::vector<std::vector<Val>> aggs; std::vector<PS> psels; std::vector<Num> nums;
Z3_context C; Z3_solver S; Z3_sort RS, IS, BS; Stats *ST; std::vector<Input> inputs; std::string vdir; int FPMODE;
static Z3_model M; static std::vector<ast> PC; static bool unsure; static std::vector<pid_t> kids; static bool holdtok;
extern unsigned RLIMIT, RLIMIT2; unsigned RLIMIT = 8000000, RLIMIT2 = 60000000;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Lock { Lock() { sem_wait(&ST->mtx); } ~Lock() { sem_post(&ST->mtx); } };
#define INC(f) __sync_fetch_and_add(&ST->f, 1)
extern long icount; 
// CPU tokens: a pipe shared by all the harnesses of a run (VSX_JOBFD=r,w), else a local semaphore
static int jr = -1, jw = -1;
static bool tokget() { if (jr < 0) return sem_trywait(&ST->tok) == 0; char c; if (read(jr, &c, 1) != 1) return false; __sync_fetch_and_add(&ST->held, 1); return true; }
void tokput() { __sync_fetch_and_sub(&ST->held, 1); if (jr < 0) sem_post(&ST->tok); else { char c = '+'; if (write(jw, &c, 1) != 1) {} } }
void finish(bool path) {
  if (holdtok && !kids.empty()) { tokput(); holdtok = false; }
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) INC(crashed); }
  kids.clear();
  __sync_fetch_and_add(&ST->instrs, icount); icount = 0;
  if (path) INC(paths);
  fflush(stdout);
}
static bool ischild;
// A path ends by unwinding to explore(), which backtracks to the last decision with an unexplored alternative and
// re-executes the program up to it (the solver keeps the constraints of the common prefix).
[[noreturn]] void endpath() { throw PathEnd(); }
[[noreturn]] void unsupported(const std::string &m) {
  { Lock l; INC(unsup); bool dup = false; for (int i = 0; i < ST->nuns; i++) if (!strncmp(ST->uns[i], m.c_str(), 299)) dup = true;
    if (!dup && ST->nuns < 40) { strncpy(ST->uns[ST->nuns], m.c_str(), 299); ST->nuns++; } }
  endpath();
}
[[noreturn]] void cutpath(const char *why) {
  { Lock l; int i; for (i = 0; i < ST->ncut; i++) if (!strcmp(ST->cut[i].m, why)) break;
    if (i == ST->ncut && i < 100) { strncpy(ST->cut[i].m, why, 99); ST->ncut++; } if (i < 100) ST->cut[i].n++; }
  INC(killed); endpath();
}
static void checkstop() { if (ST->stop) endpath(); if (now() > ST->deadline) { INC(timeouts); ST->stop = 1; endpath(); } if (ST->paths > ST->maxpaths) { INC(timeouts); ST->stop = 1; endpath(); } }
// ---- solver
static volatile int qalarm; static void onalarm(int) { qalarm = 1; Z3_interrupt(C); }
static void setalarm(double sec) { itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = (long)sec; v.it_value.tv_usec = (long)((sec - (long)sec) * 1e6); v.it_interval.tv_usec = sec > 0 ? 200000 : 0; setitimer(ITIMER_REAL, &v, 0); }
static int rawcheck_(Z3_solver s);
static int rawcheck(Z3_solver s, double lim = 8) { double left = ST->deadline - now() + 2; if (ST->deadline > 0 && lim > left) lim = left < 0.1 ? 0.1 : left; qalarm = 0; setalarm(lim); int r = rawcheck_(s); setalarm(0); return r; }
static int rawcheck_(Z3_solver s) { double t = now(); INC(queries); int r = Z3_solver_check(C, s); double d = now() - t; { Lock l; ST->solver += d; } return r; }
static Z3_model getmodel(Z3_solver s) { Z3_model m = Z3_solver_get_model(C, s); if (m) Z3_model_inc_ref(C, m); return m; }
static void setrl(Z3_solver s, unsigned n) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), n); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
// second opinion: cvc5 on the same query
static int other(Z3_solver t, int ms) {
  char fn[300], cmd[500], b[64] = ""; snprintf(fn, 300, "%s/q%d.smt2", vdir.c_str(), getpid()); FILE *f = fopen(fn, "w"); if (!f) return Z3_L_UNDEF;
  fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(C, t)); fclose(f);
  snprintf(cmd, 500, "timeout %d cvc5 --tlimit=%d %s 2>/dev/null", ms / 1000 + 3, ms, fn); double t0 = now(); INC(queries);
  FILE *p = popen(cmd, "r"); if (p) { if (!fgets(b, 64, p)) b[0] = 0; pclose(p); } unlink(fn); { Lock l; ST->solver += now() - t0; }
  return !strncmp(b, "unsat", 5) ? Z3_L_FALSE : !strncmp(b, "sat", 3) ? Z3_L_TRUE : Z3_L_UNDEF;
}
// is PC and x satisfiable? on SAT, m gets a model
static int check(ast x, Z3_model *m) {
  Z3_solver_push(C, S); Z3_solver_assert(C, S, x);
  int r = rawcheck(S, 0.5);
  if (r == Z3_L_TRUE && m) *m = getmodel(S);
  Z3_solver_pop(C, S, 1);
  if (r == Z3_L_UNDEF) { // the incremental solver gives up early: cvc5, then a fresh Z3 with its preprocessing, then cvc5 for longer
    Z3_solver t = Z3_mk_solver(C); Z3_solver_inc_ref(C, t); setrl(t, RLIMIT2);
    for (ast a : PC) Z3_solver_assert(C, t, a); Z3_solver_assert(C, t, x);
    if (const char *dd = getenv("VSX_DUMP")) { char fn[300]; static int k; snprintf(fn, 300, "%s/q-%d-%d.smt2", dd, getpid(), k++); FILE *f = fopen(fn, "w"); fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(C, t)); fclose(f); }
    // unbounded integers may make the solvers diverge although small solutions exist: look for one first
    Z3_solver_push(C, t);
    for (auto &in : inputs) if (in.a && in.kind == 1) { Z3_sort so = Z3_get_sort(C, in.a); ast lo, hi;
      if (Z3_get_sort_kind(C, so) == Z3_INT_SORT) { lo = Z3_mk_int(C, -12, so); hi = Z3_mk_int(C, 12, so); }
      else if (Z3_get_sort_kind(C, so) == Z3_REAL_SORT) { lo = Z3_mk_real(C, -12, 1); hi = Z3_mk_real(C, 12, 1); }
      else continue;
      Z3_solver_assert(C, t, Z3_mk_le(C, lo, in.a)); Z3_solver_assert(C, t, Z3_mk_le(C, in.a, hi)); }
    if (rawcheck(t, 0.7) == Z3_L_TRUE) { r = Z3_L_TRUE; if (m) *m = getmodel(t); }
    Z3_solver_pop(C, t, 1);
    if (r == Z3_L_TRUE) { Z3_solver_dec_ref(C, t); return r; }
    int q = other(t, 1500);
    if (q == Z3_L_FALSE) r = q;
    else { r = rawcheck(t, 5); if (r == Z3_L_TRUE && m) *m = getmodel(t); if (r == Z3_L_UNDEF) r = q; }
    if (r == Z3_L_UNDEF && now() < ST->deadline) r = other(t, 25000);
    Z3_solver_dec_ref(C, t);
    if (r == Z3_L_UNDEF) INC(unknown);
  }
  return r;
}
// ---- trace of the current path: every event that depended on the solver, so that it can be re-executed without queries
struct Ev { char k; bool val, add; int c; ast a; };            // D decide, C choose, V failed assertion, N value picked
static std::vector<Ev> trace; static size_t rp;
struct Alt { size_t idx; int next, n; bool add, unsure; Z3_model m; }; // unexplored outcomes of trace[idx]; each owns a solver scope
static std::vector<Alt> alts;
static bool live() { return rp >= trace.size(); }
static void addpc(ast c) { PC.push_back(c); if (live()) Z3_solver_assert(C, S, c); }
static void record(Ev e) { trace.push_back(e); rp = trace.size(); }
static Ev &replayed(char k) { Ev &e = trace[rp++]; if (e.k != k) { fprintf(stderr, "engine: replay diverged (%c/%c)\n", e.k, k); _exit(9); } return e; }
static int meval(ast c) { // 1 true 0 false -1 unknown
  if (!M) return -1; Z3_ast r; if (!Z3_model_eval(C, M, c, true, &r)) return -1;
  Z3_lbool b = Z3_get_bool_value(C, r); if (b == Z3_L_TRUE) return 1; if (b == Z3_L_FALSE) return 0;
  r = Z3_simplify(C, r); b = Z3_get_bool_value(C, r); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
ast simp(ast a) { ast r = Z3_simplify(C, a); return r ? r : a; }
static int lit(ast a) { Z3_lbool b = Z3_get_bool_value(C, a); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1; }
ast bnot(ast a) { int l = lit(a); if (l >= 0) return l ? bFalse() : bTrue(); return Z3_mk_not(C, a); }
ast band(ast a, ast b) { int x = lit(a), y = lit(b); if (x == 0 || y == 0) return bFalse(); if (x == 1) return b; if (y == 1) return a; ast v[2] = {a, b}; return Z3_mk_and(C, 2, v); }
ast bor(ast a, ast b) { int x = lit(a), y = lit(b); if (x == 1 || y == 1) return bTrue(); if (x == 0) return b; if (y == 0) return a; ast v[2] = {a, b}; return Z3_mk_or(C, 2, v); }
ast bite(ast c, ast a, ast b) {
  int l = lit(c); if (l >= 0) return l ? a : b; if (Z3_is_eq_ast(C, a, b)) return a;
  int x = lit(a), y = lit(b); if (x == 1 && y == 0) return c; if (x == 0 && y == 1) return bnot(c);
  if (x == 1) return bor(c, b); if (x == 0) return band(bnot(c), b); if (y == 1) return bor(bnot(c), a); if (y == 0) return band(c, a);
  return Z3_mk_ite(C, c, a, b);
}
static int freshn;
ast fresh(const char *p, Z3_sort s) { char b[64]; snprintf(b, 64, "%s!%d", p, freshn++); return Z3_mk_const(C, Z3_mk_string_symbol(C, b), s); }
// an alternative is left for later; if a processor is free, the oldest one is given to a new process
static void later(Alt al) {
  Z3_solver_push(C, S); alts.push_back(al); INC(forks);
  for (;;) {
    size_t k = 0; while (k < alts.size() && alts[k].next >= alts[k].n) k++;
    if (k == alts.size() || !tokget()) return;
    Alt &o = alts[k]; int mine = o.next++;
    fflush(stdout); pid_t p = fork();
    if (p < 0) { INC(errors); tokput(); o.next--; return; }
    if (p) { kids.push_back(p); continue; }
    ischild = true; holdtok = true; kids.clear(); icount = 0;
    Alt x = o; Z3_solver_pop(C, S, alts.size() - k); alts.clear();
    trace.resize(x.idx + 1); trace[x.idx].val = trace[x.idx].c = mine; trace[x.idx].add = x.add; M = x.m; unsure = x.unsure;
    throw PathEnd(true);
  }
}
static bool backtrack() {
  while (!alts.empty()) {
    Alt x = alts.back(); Z3_solver_pop(C, S, 1);
    if (x.next >= x.n) { alts.pop_back(); continue; }
    trace.resize(x.idx + 1); trace[x.idx].val = trace[x.idx].c = x.next; trace[x.idx].add = x.add; M = x.m; unsure = x.unsure;
    if (x.next + 1 < x.n) { alts.back().next++; Z3_solver_push(C, S); } else alts.pop_back();
    return true;
  }
  return false;
}
void reset_mem(); void reset_lib(); void reset_exec();
static size_t nums0;
[[noreturn]] void explore(void (*entry)()) {
  nums0 = nums.size(); bool more = true;
  while (more) {
    rp = 0; void reset_floors(); reset_floors(); PC.clear(); inputs.clear(); freshn = 0; 
    for (size_t i = nums0; i < nums.size(); i++) if (nums[i].q) { mpq_clear(nums[i].q); delete nums[i].q; }
    nums.resize(nums0); reset_mem(); reset_lib(); reset_exec();
    bool forked = false;
    try { entry(); } catch (PathEnd &e) { forked = e.forked; }
    if (forked) continue;
    INC(paths); __sync_fetch_and_add(&ST->instrs, icount); icount = 0;
    if (ST->stop) break;
    more = backtrack();
  }
  finish(false); if (holdtok) tokput();
  _exit(0);
}
bool decide(ast c) {
  c = simp(c); int l = lit(c); if (l >= 0) return l;
  if (!live()) { Ev &e = replayed('D'); if (e.add) addpc(e.val ? c : bnot(c)); return e.val; }
  INC(branches); checkstop();
  int v = meval(c); Z3_model m1 = nullptr, m2 = nullptr; ast nc = bnot(c);
  if (v < 0) {
    int a = check(c, &m1);
    if (a == Z3_L_FALSE) { int b = check(nc, &m1); if (b == Z3_L_FALSE) endpath(); M = b == Z3_L_TRUE ? m1 : nullptr; if (b != Z3_L_TRUE) unsure = true; record({'D', false, true}); addpc(nc); return false; }
    int b = check(nc, &m2);
    M = a == Z3_L_TRUE ? m1 : nullptr;
    if (b == Z3_L_FALSE) { record({'D', true, true}); addpc(c); return true; }
    record({'D', true, true}); bool u = unsure;
    later({trace.size() - 1, 0, 1, true, u || b != Z3_L_TRUE, b == Z3_L_TRUE ? m2 : nullptr});
    if (a != Z3_L_TRUE) unsure = true; addpc(c); return true;
  }
  ast o = v ? nc : c; int r = check(o, &m1);
  if (r == Z3_L_FALSE) { record({'D', (bool)v, false}); return v; }
  record({'D', (bool)v, true});
  later({trace.size() - 1, !v, !v + 1, true, unsure || r != Z3_L_TRUE, r == Z3_L_TRUE ? m1 : nullptr});
  addpc(v ? c : nc); return v;
}
void assume(ast c) {
  c = simp(c); int l = lit(c); if (l == 1) return; if (l == 0) endpath();
  if (!live()) { addpc(c); return; }
  if (meval(c) == 1) { addpc(c); return; }
  Z3_model m = nullptr; int r = check(c, &m);
  if (r == Z3_L_FALSE) endpath();
  M = m; if (!M) unsure = true; addpc(c);
}
int choose(int n) {
  if (n <= 1) return 0;
  int r = 0;
  if (!live()) r = replayed('C').c;
  else { INC(branches); checkstop(); record({'C', false, false, 0}); later({trace.size() - 1, 1, n, false, unsure, M}); }
  Input in; in.kind = 0; in.c = r; in.a = nullptr; inputs.push_back(in); return r;
}
// ---- counterexamples
static std::string valstr(Z3_model m, const Input &in) {
  if (in.kind == 0) return std::to_string(in.c);
  Z3_ast r; Z3_model_eval(C, m, in.a, true, &r); r = Z3_simplify(C, r);
  if (in.kind == 2) { uint64_t u = 0; Z3_get_numeral_uint64(C, r, &u); return std::to_string((long)u); }
  if (Z3_is_numeral_ast(C, r)) return Z3_get_numeral_string(C, r);
  if (Z3_is_algebraic_number(C, r)) { Z3_ast lo = Z3_get_algebraic_number_lower(C, r, 30); return Z3_get_numeral_string(C, lo); }
  return "0";
}
static void writecex(Z3_model m, const std::string &msg, const char *q) {
  Lock l; int n = ST->nviol++; char fn[400]; snprintf(fn, 400, "%s/cex-%d", vdir.c_str(), n);
  FILE *f = fopen(fn, "w"); if (!f) return;
  fprintf(f, "# %s [%s]\n", msg.c_str(), q); for (auto &in : inputs) fprintf(f, "%s\n", valstr(m, in).c_str()); fclose(f);
}
static ast isint_range(ast a, double scale, long lim) {
  ast x = a; 
  if (scale != 1) { ast v[2] = {a, Z3_mk_real(C, (int)scale, 1)}; x = Z3_mk_mul(C, 2, v); }
  ast L = Z3_mk_real(C, (int)lim, 1), N = Z3_mk_real(C, -(int)lim, 1);
  return band(Z3_mk_is_int(C, x), band(Z3_mk_le(C, a, L), Z3_mk_ge(C, a, N)));
}
// PC and x is satisfiable (model m0): find nicer models
static void report(ast x, Z3_model m0, const std::string &msg) {
  static const struct { int s; long l; const char *n; } tries[] = {{1, 4, "int4"}, {1, 60, "int60"}, {4, 60, "quarter60"}, {1, 100000, "int1e5"}, {64, 100000, "dyadic"}};
  bool some = false; int wrote = 0;
  for (auto &t : tries) {
    Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); setrl(s, 20000000);
    for (ast a : PC) Z3_solver_assert(C, s, a); if (x) Z3_solver_assert(C, s, x);
    for (auto &in : inputs) if (in.kind == 1) Z3_solver_assert(C, s, isint_range(in.a, t.s, t.l));
    if (rawcheck(s) == Z3_L_TRUE) { Z3_model m = getmodel(s); writecex(m, msg, t.n); some = true; wrote++; }
    Z3_solver_dec_ref(C, s);
    if (wrote >= 1) break;
  }
  if (m0) writecex(m0, msg, "raw");
  (void)some;
}
static int msgid(const std::string &m) { for (int i = 0; i < ST->nmsg; i++) if (!strncmp(ST->msg[i].m, m.c_str(), 159)) return i; if (ST->nmsg >= 400) return 399; strncpy(ST->msg[ST->nmsg].m, m.c_str(), 159); return ST->nmsg++; }
static bool note(const std::string &m, bool fail) { Lock l; int i = msgid(m); ST->msg[i].n++; if (fail) { ST->msg[i].fails++; return ST->msg[i].fails <= 3; } return false; }
void violation(const std::string &msg, bool) {
  if (note(msg, true)) {
    if (!M || unsure) { Z3_model m = nullptr; int r = check(bTrue(), &m); if (r == Z3_L_FALSE) endpath(); if (r == Z3_L_TRUE) M = m; else { Lock l; INC(errors); } }
    report(nullptr, M, msg);
  }
  { Lock l; int t = 0; for (int i = 0; i < ST->nmsg; i++) t += ST->msg[i].fails > 0; if (t >= 4 || ST->nviol > 24) ST->stop = 1; }
}
void vassert(ast c, const std::string &msg) {
  c = simp(c); int l = lit(c);
  if (!live()) { if (l == 1) return; if (trace[rp].k == 'V') { rp++; addpc(c); } return; }
  INC(asserts); note(msg, false);
  if (l == 1) return;
  if (l == 0) { violation(msg, true); endpath(); }
  ast nc = bnot(c); Z3_model m = nullptr; int r;
  if (meval(c) == 0 && !unsure) { r = Z3_L_TRUE; m = M; } else r = check(nc, &m);
  if (r == Z3_L_FALSE) return;
  if (r == Z3_L_UNDEF) { INC(errors); { Lock k; if (ST->nuns < 40) { snprintf(ST->uns[ST->nuns], 299, "solver gave up on: %s", msg.c_str()); bool d = false; for (int i = 0; i < ST->nuns; i++) if (!strcmp(ST->uns[i], ST->uns[ST->nuns])) d = true; if (!d) ST->nuns++; } } record({'V'}); assume(c); return; }
  if (note(msg, true)) report(nc, m, msg);
  { Lock k; int t = 0; for (int i = 0; i < ST->nmsg; i++) t += ST->msg[i].fails > 0; if (t >= 4 || ST->nviol > 24) ST->stop = 1; }
  record({'V'}); assume(c);
}
void cover() { if (!live()) return; if (M && !unsure) INC(covered); else { Z3_model m = nullptr; if (check(bTrue(), &m) == Z3_L_TRUE) { INC(covered); M = m; unsure = false; } } }
// ---- numbers
static uint64_t push(NK k, bool i, mpq_ptr q, ast a) { nums.push_back({k, i, q, a}); return nums.size() - 1; }
uint64_t nq(mpq_srcptr q) { mpq_ptr r = new __mpq_struct; mpq_init(r); mpq_set(r, q); return push(NQ, mpz_cmp_ui(mpq_denref(r), 1) == 0, r, nullptr); }
uint64_t nsi(long x) { mpq_ptr r = new __mpq_struct; mpq_init(r); mpq_set_si(r, x, 1); return push(NQ, true, r, nullptr); }
uint64_t nspecial(NK k) { return push(k, false, nullptr, nullptr); }
uint64_t nsym(ast a, bool isint) {
  a = simp(a);
  if (Z3_is_numeral_ast(C, a)) { mpq_t q; mpq_init(q); mpq_set_str(q, Z3_get_numeral_string(C, a), 10); mpq_canonicalize(q); uint64_t r = nq(q); mpq_clear(q); return r; }
  return push(NS, isint, nullptr, a);
}
uint64_t ndouble(long double d) {
  if (d != d) return nspecial(NNAN); if (isinf(d)) return nspecial(d > 0 ? NPINF : NNINF);
  int e; long double m = frexpl(d, &e); mpq_t q; mpq_init(q); // m*2^64 is an integer
  m = ldexpl(fabsl(m), 64); unsigned long u = (unsigned long)m; mpz_set_ui(mpq_numref(q), u); e -= 64;
  if (e >= 0) mpq_mul_2exp(q, q, e); else mpq_div_2exp(q, q, -e);
  if (d < 0) mpq_neg(q, q); uint64_t r = nq(q); mpq_clear(q); return r;
}
ast nast(uint64_t i) {
  Num &n = nums[i]; if (n.a) return n.a;
  if (n.k == NQ) { char *s = mpq_get_str(nullptr, 10, n.q); n.a = Z3_mk_numeral(C, s, RS); free(s); return n.a; }
  unsupported("arithmetic term of a non-finite number");
}
static int qsgn(uint64_t a) { return mpq_sgn(nums[a].q); }
#define BIN(name, qop, zop, intres) { const Num x = nums[a], y = nums[b]; if (x.k == NQ && y.k == NQ) { mpq_t r; mpq_init(r); qop(r, x.q, y.q); uint64_t k = nq(r); mpq_clear(r); return k; } ast v[2] = {nast(a), nast(b)}; return nsym(zop(C, 2, v), intres); }
uint64_t nneg(uint64_t a) { const Num x = nums[a]; switch (x.k) { case NQ: { mpq_t r; mpq_init(r); mpq_neg(r, x.q); uint64_t k = nq(r); mpq_clear(r); return k; } case NS: return nsym(Z3_mk_unary_minus(C, x.a), x.isint); case NPINF: return nspecial(NNINF); case NNINF: return nspecial(NPINF); default: return a; } }
static ast alt_(ast x, ast y); static ast ale_(ast x, ast y); static ast aeq_(ast x, ast y);
uint64_t nadd(uint64_t a, uint64_t b) {
  if (nfin(a) && nfin(b)) { if (nums[a].k == NQ && qsgn(a) == 0) return b; if (nums[b].k == NQ && qsgn(b) == 0) return a; BIN(add, mpq_add, Z3_mk_add, x.isint && y.isint) }
  if (nums[a].k == NNAN || nums[b].k == NNAN) return nspecial(NNAN);
  if (nfin(a)) return b; if (nfin(b)) return a; return nums[a].k == nums[b].k ? a : nspecial(NNAN);
}
uint64_t nsub(uint64_t a, uint64_t b) {
  if (nfin(a) && nfin(b)) { if (nums[b].k == NQ && qsgn(b) == 0) return a; BIN(sub, mpq_sub, Z3_mk_sub, x.isint && y.isint) }
  return nadd(a, nneg(b));
}
int nsgnc(uint64_t a) {
  Num x = nums[a]; if (x.k == NQ) return qsgn(a); if (x.k == NPINF) return 1; if (x.k == NNINF) return -1; if (x.k == NNAN) return 0;
  ast z = Z3_mk_real(C, 0, 1); if (decide(alt_(z, x.a))) return 1; if (decide(alt_(x.a, z))) return -1; return 0;
}
uint64_t nmul(uint64_t a, uint64_t b) {
  if (nfin(a) && nfin(b)) {
    if (nums[a].k == NQ) { if (qsgn(a) == 0) return a; if (mpq_cmp_si(nums[a].q, 1, 1) == 0) return b; if (mpq_cmp_si(nums[a].q, -1, 1) == 0) return nneg(b); }
    if (nums[b].k == NQ) { if (qsgn(b) == 0) return b; if (mpq_cmp_si(nums[b].q, 1, 1) == 0) return a; if (mpq_cmp_si(nums[b].q, -1, 1) == 0) return nneg(a); }
    BIN(mul, mpq_mul, Z3_mk_mul, x.isint && y.isint)
  }
  if (nums[a].k == NNAN || nums[b].k == NNAN) return nspecial(NNAN);
  int s = nsgnc(a) * nsgnc(b); return nspecial(s > 0 ? NPINF : s < 0 ? NNINF : NNAN);
}
uint64_t ndiv(uint64_t a, uint64_t b) {
  if (nums[a].k == NNAN || nums[b].k == NNAN) return nspecial(NNAN);
  if (!nfin(b)) return nfin(a) ? nsi(0) : nspecial(NNAN);
  int sb; if (nums[b].k == NQ) sb = qsgn(b); else sb = decide(neq(b, nsi(0))) ? 0 : 1;
  if (sb == 0) { int sa = nsgnc(a); return nspecial(sa > 0 ? NPINF : sa < 0 ? NNINF : NNAN); }
  if (!nfin(a)) { int s = nsgnc(a) * nsgnc(b); return nspecial(s > 0 ? NPINF : NNINF); }
  const Num x = nums[a], y = nums[b];
  if (x.k == NQ && y.k == NQ) { mpq_t r; mpq_init(r); mpq_div(r, x.q, y.q); uint64_t k = nq(r); mpq_clear(r); return k; }
  if (x.k == NQ && qsgn(a) == 0) return a;
  if (y.k == NQ) { mpq_t r; mpq_init(r); mpq_inv(r, y.q); uint64_t k = nq(r); mpq_clear(r); return nmul(a, k); }
  // quotient as a fresh variable: q*b = a
  ast q = fresh("quo", RS); ast v[2] = {q, nast(b)}; assume(Z3_mk_eq(C, Z3_mk_mul(C, 2, v), nast(a))); return nsym(q, false);
}
uint64_t nabs_(uint64_t a) { Num x = nums[a]; if (x.k == NQ) return qsgn(a) < 0 ? nneg(a) : a; if (x.k == NS) return nsym(bite(ale_(Z3_mk_real(C, 0, 1), x.a), x.a, Z3_mk_unary_minus(C, x.a)), x.isint); if (x.k == NNINF) return nspecial(NPINF); return a; }
static ast alt_(ast x, ast y); static ast ale_(ast x, ast y); static ast aeq_(ast x, ast y);
static std::unordered_map<ast, uint64_t> floors;
// redundant facts that integer cuts would have to find: an integer k <= x (or -k <= x) is <= floor(x)
static std::vector<ast> ints; static std::vector<std::pair<ast, ast>> fls;
void reset_floors() { floors.clear(); ints.clear(); fls.clear(); }
static void hint(ast x, ast f, ast k) {
  for (int s = 0; s < 2; s++) { ast j = s ? Z3_mk_unary_minus(C, k) : k; ast c = simp(bor(alt_(x, j), ale_(j, f))); if (lit(c) < 0) addpc(c); }
}
void newint(ast k) { for (auto &p : fls) hint(p.first, p.second, k); ints.push_back(k); }
uint64_t nfloor(uint64_t a) {
  Num x = nums[a]; if (x.k > NS || x.isint) return a;
  if (x.k == NQ) { mpq_t r; mpq_init(r); mpz_fdiv_q(mpq_numref(r), mpq_numref(x.q), mpq_denref(x.q)); uint64_t k = nq(r); mpq_clear(r); return k; }
  auto &memo = floors; auto it = memo.find(x.a); if (it != memo.end()) return it->second;
  ast f = Z3_mk_int2real(C, fresh("fl", IS)); ast v[2] = {f, Z3_mk_real(C, 1, 1)};
  assume(ale_(f, x.a)); assume(alt_(x.a, Z3_mk_add(C, 2, v)));
  for (ast k : ints) hint(x.a, f, k); fls.push_back({x.a, f}); newint(f);
  return memo[x.a] = nsym(f, true);
}
// is this number an integer? if so it is replaced by an integer term
bool nisint(uint64_t &a) { Num x = nums[a]; if (x.k > NS) return false; if (x.isint) return true; if (x.k == NQ) return false; uint64_t f = nfloor(a); if (decide(neq(f, a))) { a = f; return true; } return false; }
uint64_t nceil(uint64_t a) { return nneg(nfloor(nneg(a))); }
uint64_t ntrunc(uint64_t a) { Num x = nums[a]; if (x.k > NS || x.isint) return a; if (x.k == NQ) return qsgn(a) >= 0 ? nfloor(a) : nceil(a); return decide(ale_(Z3_mk_real(C, 0, 1), x.a)) ? nfloor(a) : nceil(a); }
uint64_t nite(ast c, uint64_t a, uint64_t b) {
  int l = lit(simp(c)); if (l >= 0) return l ? a : b; if (a == b) return a;
  if (nfin(a) && nfin(b)) return nsym(bite(c, nast(a), nast(b)), nums[a].isint && nums[b].isint);
  return decide(c) ? a : b;
}
uint64_t nconc(uint64_t a) {
  for (int i = 0; nums[a].k == NS; i++) {
    if (i > 200) unsupported("too many values to concretise");
    ast v; if (!live()) { v = replayed('N').a; if (decide(Z3_mk_eq(C, nums[a].a, v))) return nsym(v, true); continue; }
    if (i == 0) INC(concretised);
    if (!M) { Z3_model m = nullptr; if (check(bTrue(), &m) != Z3_L_TRUE) unsupported("no model to concretise"); M = m; }
    Z3_ast r; Z3_model_eval(C, M, nums[a].a, true, &r); r = Z3_simplify(C, r); v = r;
    if (!Z3_is_numeral_ast(C, v)) unsupported("non-rational value to concretise");
    record({'N', false, false, 0, v});
    if (decide(Z3_mk_eq(C, nums[a].a, v))) return nsym(v, true);
    if (!M) unsupported("no model to concretise");
  }
  return a;
}
// ---- comparisons of terms over integers only are made over the Int sort (so that the solver tightens strict bounds)
struct Lin { std::map<ast, mpq_class> m; mpq_class k; };
static ast toint(ast r);
static bool lin(ast r, const mpq_class &f, Lin &o, int depth) {
  if (depth > 40) return false;
  if (Z3_is_numeral_ast(C, r)) { mpq_class q(Z3_get_numeral_string(C, r)); q.canonicalize(); o.k += f * q; return true; }
  if (Z3_get_ast_kind(C, r) != Z3_APP_AST) return false;
  Z3_app p = Z3_to_app(C, r); Z3_func_decl d = Z3_get_app_decl(C, p); unsigned n = Z3_get_app_num_args(C, p);
  switch (Z3_get_decl_kind(C, d)) {
  case Z3_OP_TO_REAL: { ast k = Z3_get_app_arg(C, p, 0); o.m[k] += f; return true; }
  case Z3_OP_ADD: for (unsigned i = 0; i < n; i++) if (!lin(Z3_get_app_arg(C, p, i), f, o, depth + 1)) return false; return true;
  case Z3_OP_SUB: for (unsigned i = 0; i < n; i++) if (!lin(Z3_get_app_arg(C, p, i), i ? mpq_class(-f) : f, o, depth + 1)) return false; return true;
  case Z3_OP_UMINUS: return lin(Z3_get_app_arg(C, p, 0), -f, o, depth + 1);
  case Z3_OP_MUL: { mpq_class g = f; int at = -1; for (unsigned i = 0; i < n; i++) { ast x = Z3_get_app_arg(C, p, i); if (Z3_is_numeral_ast(C, x)) { mpq_class q(Z3_get_numeral_string(C, x)); q.canonicalize(); g *= q; } else if (at >= 0) return false; else at = i; } if (at < 0) { o.k += g; return true; } return lin(Z3_get_app_arg(C, p, at), g, o, depth + 1); }
  case Z3_OP_ITE: { ast k = toint(r); if (!k) return false; o.m[k] += f; return true; }
  default: return false;
  }
}
static ast inum(const mpz_class &z) { return Z3_mk_numeral(C, z.get_str().c_str(), IS); }
static ast isum(const Lin &l, const mpz_class &s) { // s*l as an Int term
  std::vector<ast> v; mpq_class k = l.k * s; for (auto &p : l.m) { mpq_class c = p.second * s; if (c == 0) continue; if (c == 1) v.push_back(p.first); else { ast a[2] = {inum(c.get_num()), p.first}; v.push_back(Z3_mk_mul(C, 2, a)); } }
  if (k != 0 || v.empty()) v.push_back(inum(k.get_num())); return v.size() == 1 ? v[0] : Z3_mk_add(C, v.size(), v.data()); }
static mpz_class lcmden(const Lin &l) { mpz_class s = l.k.get_den(); for (auto &p : l.m) s = lcm(s, p.second.get_den()); return s; }
static std::unordered_map<ast, ast> intmemo;
static ast toint(ast r) {
  auto it = intmemo.find(r); if (it != intmemo.end()) return it->second;
  ast res = nullptr;
  if (Z3_get_ast_kind(C, r) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, r))) == Z3_OP_ITE) {
    Z3_app p = Z3_to_app(C, r); ast x = toint(Z3_get_app_arg(C, p, 1)), y = x ? toint(Z3_get_app_arg(C, p, 2)) : nullptr; if (x && y) res = Z3_mk_ite(C, Z3_get_app_arg(C, p, 0), x, y);
  } else { Lin l; if (lin(r, 1, l, 0) && lcmden(l) == 1) res = isum(l, 1); }
  return intmemo[r] = res;
}
// difference of two terms, as an Int term up to a positive factor; null if reals are involved
static ast intdiff(ast x, ast y) { Lin l; if (!lin(x, 1, l, 0) || !lin(y, -1, l, 0)) return nullptr; return isum(l, lcmden(l)); }
static ast alt_(ast x, ast y) { if (ast d = intdiff(x, y)) return Z3_mk_lt(C, d, inum(0)); return Z3_mk_lt(C, x, y); }
static ast ale_(ast x, ast y) { if (ast d = intdiff(x, y)) return Z3_mk_le(C, d, inum(0)); return Z3_mk_le(C, x, y); }
static ast aeq_(ast x, ast y) { if (ast d = intdiff(x, y)) return Z3_mk_eq(C, d, inum(0)); return Z3_mk_eq(C, x, y); }
ast nlt(uint64_t a, uint64_t b) {
  Num x = nums[a], y = nums[b]; if (x.k == NNAN || y.k == NNAN) return bFalse();
  if (x.k == NQ && y.k == NQ) return mpq_cmp(x.q, y.q) < 0 ? bTrue() : bFalse();
  if (nfin(a) && nfin(b)) return alt_(nast(a), nast(b));
  int s = x.k == NPINF ? 1 : x.k == NNINF ? -1 : 0, t = y.k == NPINF ? 1 : y.k == NNINF ? -1 : 0; return s < t ? bTrue() : bFalse();
}
ast neq(uint64_t a, uint64_t b) {
  Num x = nums[a], y = nums[b]; if (x.k == NNAN || y.k == NNAN) return bFalse(); if (a == b) return bTrue();
  if (x.k == NQ && y.k == NQ) return mpq_equal(x.q, y.q) ? bTrue() : bFalse();
  if (nfin(a) && nfin(b)) return aeq_(nast(a), nast(b));
  return x.k == y.k ? bTrue() : bFalse();
}
ast nle(uint64_t a, uint64_t b) {
  Num x = nums[a], y = nums[b]; if (x.k == NNAN || y.k == NNAN) return bFalse();
  if (x.k == NQ && y.k == NQ) return mpq_cmp(x.q, y.q) <= 0 ? bTrue() : bFalse();
  if (nfin(a) && nfin(b)) return ale_(nast(a), nast(b));
  int s = x.k == NPINF ? 1 : x.k == NNINF ? -1 : 0, t = y.k == NPINF ? 1 : y.k == NNINF ? -1 : 0; return s <= t ? bTrue() : bFalse();
}
std::unordered_map<ast, Cmp3> cmps; // comparisons of numbers, to recognise their tests against 0
Val cmp3(uint64_t a, uint64_t b) {
  ast lt = nlt(a, b), gt = nlt(b, a);
  if (lit(lt) == 1) return Val(0xffffffffu); if (lit(gt) == 1) return Val(1); if (lit(lt) == 0 && lit(gt) == 0) return Val(0);
  Z3_sort s = Z3_mk_bv_sort(C, 32);
  ast r = bite(lt, Z3_mk_int(C, -1, s), bite(gt, Z3_mk_int(C, 1, s), Z3_mk_int(C, 0, s)));
  cmps[r] = {simp(lt), simp(gt), simp(neq(a, b))}; return vast(r, BV);
}
// the rounded value of e: any number on the right side, with the sign and monotonicity facts that hold at every precision
uint64_t nround(uint64_t e, int mode) {
  if (!nfin(e)) return e;
  if (nums[e].k == NQ) { // small dyadic numbers are exact at the precisions in use
    mpq_ptr q = nums[e].q; if (mpz_popcount(mpq_denref(q)) == 1 && mpz_sizeinbase(mpq_numref(q), 2) <= 20 && mpz_sizeinbase(mpq_denref(q), 2) <= 60) return e;
  }
  ast x = nast(e), r = fresh("rnd", RS), z = Z3_mk_real(C, 0, 1);
  if (mode == 2) assume(Z3_mk_ge(C, r, x)); else if (mode == 3) assume(Z3_mk_le(C, r, x));
  if (mode == 1) unsupported("rounding to zero");
  if (mode != 3) assume(bor(Z3_mk_gt(C, x, z), Z3_mk_le(C, r, z)));
  if (mode != 2) assume(bor(Z3_mk_lt(C, x, z), Z3_mk_ge(C, r, z)));
  return nsym(r, false);
}
void initsolver() {
  ST = (Stats *)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(ST, 0, sizeof(Stats));
  if (const char *e = getenv("VSX_JOBFD")) { sscanf(e, "%d,%d", &jr, &jw); holdtok = true; ST->held = 1; }
  signal(SIGALRM, onalarm);
  sem_init(&ST->tok, 1, atoi(getenv("VSX_JOBS") ? getenv("VSX_JOBS") : "8") - 1); sem_init(&ST->mtx, 1, 1);
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, nullptr);
  RS = Z3_mk_real_sort(C); IS = Z3_mk_int_sort(C); BS = Z3_mk_bool_sort(C);
  S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S); setrl(S, RLIMIT);
  rawcheck(S); M = getmodel(S);
}

uint64_t concbv(ast a, int bits) {
  for (int i = 0; i < 4096; i++) {
    a = simp(a); uint64_t u; if (Z3_is_numeral_ast(C, a) && Z3_get_numeral_uint64(C, a, &u)) return u;
    if (!live()) { ast v = replayed('N').a; Z3_get_numeral_uint64(C, v, &u); if (decide(Z3_mk_eq(C, a, v))) return u; continue; }
    if (i == 0) INC(concretised);
    if (!M) { Z3_model m = nullptr; if (check(bTrue(), &m) != Z3_L_TRUE) unsupported("no model to concretise"); M = m; }
    Z3_ast r; Z3_model_eval(C, M, a, true, &r); r = Z3_simplify(C, r);
    if (!Z3_get_numeral_uint64(C, r, &u)) unsupported("no value to concretise");
    record({'N', false, false, 0, r});
    if (decide(Z3_mk_eq(C, a, r))) return u;
  }
  unsupported("too many values to concretise");
}
