// Built-in functions: the C library, GMP, MPFR (as exact numbers of the solver), and the harness interface.
#include "mem.h"
#include <limits.h>
#include <algorithm>
#include <math.h>
typedef std::vector<Val> A; typedef std::function<Val(A &)> Builtin;
std::unordered_map<std::string, Builtin> builtins;
extern int callbits; Val callptr(uint64_t p, A &args);
static const uint64_t HZ = 0x5A5AULL << 48, HD = 0x5B5BULL << 48, HN = 0x5C5CULL << 48, IDX = (1ULL << 48) - 1, TAGM = ~IDX;
static int DENMAX = 4;
uint64_t handle_merge(ast, uint64_t, uint64_t, bool &ok) { ok = false; return 0; }
[[noreturn]] static void bad(const char *m) { violation(std::string("contract: ") + m, true); endpath(); }
static Ty T(int bits, Kind k = KINT) { Ty t; t.k = k; t.bits = bits; t.bytes = bits == 80 ? 10 : bits / 8; return t; }
static uint64_t slot(uint64_t p) { Val v = mem_load(p, T(64)); if (v.t != INT) bad("use of an uninitialised number"); return v.u; }
static bool isden(uint64_t p, uint64_t &idx) { // is p the denominator of a rational?
  Val v = mem_load(p, T(64)); if (v.t != INT) bad("use of an uninitialised number"); idx = v.u & IDX; return (v.u & TAGM) == HD; }
// is p the numerator slot of a rational?
static bool peek(uint64_t p, uint64_t &v) { extern std::vector<Obj> objs; extern bool mem_ok(uint64_t, uint64_t); if (!mem_ok(p, 8)) return false; Val x = mem_load(p, T(64)); if (x.t != INT) return false; v = x.u; return true; }
static bool isnum(uint64_t p, uint64_t h) { uint64_t n; return peek(p + 8, n) && (n & TAGM) == HD && (n & IDX) == (h & IDX); }
static void splitq(uint64_t idx, uint64_t &n, uint64_t &d) {
  Num &x = nums[idx];
  if (x.k == NQ) { mpq_t q; mpq_init(q); mpz_set(mpq_numref(q), mpq_numref(x.q)); n = nq(q); mpz_set(mpq_numref(q), mpq_denref(x.q)); d = nq(q); mpq_clear(q); return; }
  if (x.isint) { n = idx; d = nsi(1); return; }
  { uint64_t m = idx; if (nisint(m)) { n = m; d = nsi(1); return; } }
  uint64_t f = nfloor(idx);
  for (int k = 2; k <= DENMAX; k++) for (int r = 1; r < k; r++) { if (std::__gcd(r, k) != 1) continue;
    mpq_t q; mpq_init(q); mpq_set_ui(q, r, k); uint64_t v = nadd(f, nq(q)); mpq_clear(q);
    if (decide(neq(idx, v))) { n = nadd(nmul(nsi(k), f), nsi(r)); d = nsi(k); return; } }
  { extern std::string where(); if (getenv("VSX_WHERE")) fprintf(stderr, "cut at %s\n", where().c_str()); cutpath("rational with a large denominator split into numerator and denominator"); }
}
static uint64_t rz(uint64_t p) {
  uint64_t h = slot(p), n, d;
  if ((h & TAGM) == HD) { splitq(h & IDX, n, d); return d; }
  if ((h & TAGM) == HN) { splitq(h & IDX, n, d); return n; }
  if ((h & TAGM) != HZ) bad("use of an uninitialised integer");
  if (isnum(p, h)) { splitq(h & IDX, n, d); return n; }
  return h & IDX;
}
// numerator and denominator of one rational: the quotient needs no splitting
static bool pairof(Val a, Val b, uint64_t &idx) { if (a.t != INT || b.t != INT) return false; uint64_t n = slot(a.u), d = slot(b.u); if ((d & TAGM) != HD || ((n & TAGM) != HZ && (n & TAGM) != HN) || (n & IDX) != (d & IDX)) return false; idx = n & IDX; return true; }
static uint64_t rzv(Val p) { if (p.t == PSEL) { PS s = psels[p.u]; return nite(s.c, rzv(s.a), rzv(s.b)); } return rz(conc(p, 64)); }
static void wz(Val pv, uint64_t idx) {
  uint64_t p = conc(pv, 64), h = 0; Val cur = mem_load(p, T(64));
  if (cur.t == INT) { h = cur.u; // a denominator is overwritten: its numerator becomes explicit (lazily); the converse needs nothing
    if ((h & TAGM) == HD) { uint64_t n, d, q = p - 8, v; if (peek(q, v) && v == (HZ | (h & IDX))) { if (nums[h & IDX].k == NQ || nums[h & IDX].isint) { splitq(h & IDX, n, d); w64(q, HZ | n); } else w64(q, HN | (h & IDX)); } } }
  w64(p, HZ | idx);
}
// writing a denominator of a rational whose numerator is overwritten anyway must not split it: wz is only lazy when the value is already an integer
static void iniz(Val pv, uint64_t idx) { w64(conc(pv, 64), HZ | idx); }
struct QV { bool fin; uint64_t i, n, d; };
static QV rq(uint64_t p) {
  uint64_t n = slot(p), d = slot(p + 8); QV r; r.n = n; r.d = d; r.fin = true;
  if ((n & TAGM) != HZ && (n & TAGM) != HN) bad("use of an uninitialised rational");
  if ((d & TAGM) == HD && (d & IDX) == (n & IDX)) { r.i = n & IDX; return r; }
  if ((d & TAGM) != HZ && (d & TAGM) != HD) bad("use of an uninitialised rational");
  uint64_t di = rz(p + 8), ni = rz(p);
  Num &y = nums[di]; int z = y.k == NQ ? mpq_sgn(y.q) == 0 : decide(neq(di, nsi(0)));
  if (z) { r.fin = false; r.i = ni; return r; }
  r.i = ndiv(ni, di); return r;
}
static QV rqv(Val p) {
  if (p.t == PSEL) { PS s = psels[p.u]; QV a = rqv(s.a), b = rqv(s.b); if (a.fin && b.fin) { QV r; r.fin = true; r.i = nite(s.c, a.i, b.i); r.n = HZ | r.i; r.d = HD | r.i; return r; } return decide(s.c) ? a : b; }
  return rq(conc(p, 64));
}
static uint64_t rqf(Val p) { QV q = rqv(p); if (!q.fin) bad("arithmetic on a rational with denominator 0"); return q.i; }
static void wq(Val pv, uint64_t i) { uint64_t p = conc(pv, 64); w64(p, HZ | i); w64(p + 8, HD | i); }
// integers by case split
static long csi(uint64_t i) { i = nconc(i); if (!mpz_fits_slong_p(mpq_numref(nums[i].q))) unsupported("integer out of range"); return mpz_get_si(mpq_numref(nums[i].q)); }
static mpz_ptr cz(uint64_t i) { i = nconc(i); return mpq_numref(nums[i].q); }
static uint64_t nz(mpz_srcptr z) { mpq_t q; mpq_init(q); mpq_set_z(q, z); uint64_t r = nq(q); mpq_clear(q); return r; }
static uint64_t nui(uint64_t u) { mpq_t q; mpq_init(q); mpz_set_ui(mpq_numref(q), u); uint64_t r = nq(q); mpq_clear(q); return r; }
static uint64_t nbv(Val v, int bits, bool sg) { if (v.t == INT) return sg ? nsi(bits == 32 ? (long)(int)v.u : (long)v.u) : nui(v.u); if (v.t == BOOL) return nite(v.a, nsi(sg && bits == 1 ? -1 : 1), nsi(0)); if (v.t == RB || v.t == REAL) unsupported("integer bits of a number");
  // if-then-else over constants
  if (Z3_get_ast_kind(C, v.a) == Z3_APP_AST) { Z3_app p = Z3_to_app(C, v.a); if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_ITE) return nite(Z3_get_app_arg(C, p, 0), nbv(mkbv(Z3_get_app_arg(C, p, 1), bits), bits, sg), nbv(mkbv(Z3_get_app_arg(C, p, 2), bits), bits, sg)); }
  return nsym(Z3_mk_int2real(C, Z3_mk_bv2int(C, v.a, sg)), true); }
static uint64_t npow2(long e) { mpq_t q; mpq_init(q); mpq_set_si(q, 1, 1); if (e >= 0) mpq_mul_2exp(q, q, e); else mpq_div_2exp(q, q, -e); uint64_t r = nq(q); mpq_clear(q); return r; }
static uint64_t npow(uint64_t a, unsigned long n) { uint64_t r = nsi(1); if (n > 16) unsupported("large power"); for (unsigned long i = 0; i < n; i++) r = nmul(r, a); return r; }
// floor division of integers
static uint64_t nfdiv(uint64_t a, uint64_t b) { if (nsgnc(b) == 0) bad("division by zero"); uint64_t q = ndiv(a, b); Num &x = nums[q]; if (x.k == NQ) return nfloor(q); 
  // q = floor(a/b)
  return nfloor(q); }
static uint64_t ncdiv(uint64_t a, uint64_t b) { return nneg(nfdiv(nneg(a), b)); }
static uint64_t ntdiv(uint64_t a, uint64_t b) { if (nsgnc(b) == 0) bad("division by zero"); int s = nsgnc(a) * nsgnc(b); return s >= 0 ? nfdiv(a, b) : ncdiv(a, b); }
static uint64_t asint(uint64_t i) { Num x = nums[i]; if (x.k == NS && !x.isint) return nsym(x.a, true); return i; }
static uint64_t nroot(uint64_t a, unsigned long n, bool &exact) { // floor of the n-th root, non-negative a
  if (nums[a].k == NQ) { mpz_t r; mpz_init(r); exact = mpz_root(r, mpq_numref(nums[a].q), n); uint64_t k = nz(r); mpz_clear(r); return k; }
  ast r = Z3_mk_int2real(C, fresh("root", IS)); uint64_t i = nsym(r, true); assume(Z3_mk_ge(C, r, Z3_mk_real(C, 0, 1)));
  uint64_t p = npow(i, n), q = npow(nadd(i, nsi(1)), n); assume(nle(p, a)); assume(nlt(a, q)); exact = decide(neq(p, a)); return i;
}
#define F(name) builtins[#name] = [](A &a) -> Val
#define RET0 return Val((uint64_t)0)
static double dsp(uint64_t i) { Num &n = nums[i]; return n.k == NPINF ? INFINITY : n.k == NNINF ? -INFINITY : n.k == NNAN ? NAN : mpq_get_d(n.q); }
// ---- MPFR: { long prec; long handle }
static uint64_t MPFRMODE; // 0: exact; 1: abstract rounding
static uint64_t rf(Val p) { if (p.t == PSEL) { PS s = psels[p.u]; return nite(s.c, rf(s.a), rf(s.b)); } uint64_t h = slot(conc(p, 64) + 8); if ((h & TAGM) != HZ) bad("use of an uninitialised mpfr number"); return h & IDX; }
static void wf(Val p, uint64_t i) { w64(conc(p, 64) + 8, HZ | i); }
static Val putf(Val p, uint64_t e, Val rnd) { // round e into p; ternary value
  if (!MPFRMODE || !nfin(e)) { wf(p, e); RET0; }
  uint64_t r = nround(e, (int)conc(rnd, 32)); wf(p, r); return cmp3(r, e); }
static uint64_t MPFRDEF = 53;
void reset_lib() { static int fp0 = FPMODE; FPMODE = fp0; MPFRMODE = 0; MPFRDEF = 53; }
bool mem_ok(uint64_t a, uint64_t n);
static uint64_t nintr(uint64_t a, int m) { return m == 2 ? nceil(a) : m == 3 ? nfloor(a) : m == 1 ? ntrunc(a) : (nums[a].k == NQ && nums[a].isint) || nums[a].isint ? a : (unsupported("rounding to nearest integer"), a); }
// comparison of a denominator with 1
static bool denis1(A &a) { if (a[0].t != INT || a[1].t != INT || a[1].u != 1) return false; uint64_t i; return isden(a[0].u, i) && nums[i].k == NS; }
void initlib() {
  // ---- harness
  F(vp_choice) { int n = conc(a[0], 32); return Val((uint64_t)choose(n)); };
  extern void newint(ast);
  F(vp_in) { long lo = (int)conc(a[0], 32), hi = (int)conc(a[1], 32); ast x = Z3_mk_int2real(C, fresh("in", IS)); Input in; in.kind = 1; in.a = x; inputs.push_back(in); assume(Z3_mk_ge(C, x, Z3_mk_real(C, lo, 1))); assume(Z3_mk_le(C, x, Z3_mk_real(C, hi, 1))); return vreal(nsym(x, true)); };
  F(vp_int) { ast x = Z3_mk_int2real(C, fresh("in", IS)); newint(x); Input in; in.kind = 1; in.a = x; inputs.push_back(in); return vreal(nsym(x, true)); };
  F(vp_real) { ast x = fresh("in", RS); Input in; in.kind = 1; in.a = x; inputs.push_back(in); return vreal(nsym(x, false)); };
  F(vp_long) { ast x = fresh("inl", Z3_mk_bv_sort(C, 64)); Input in; in.kind = 2; in.a = x; inputs.push_back(in); return vast(x, BV); };
  F(vp_assume_) { Val v = a[0]; ast c = v.t == INT ? (v.u ? bTrue() : bFalse()) : nullptr; if (!c) { Val z((uint64_t)0); extern Val icmp_ne0(Val, int); c = tobool(icmp_ne0(v, 32)); } assume(c); RET0; };
  F(vp_assert_) { Val v = a[0]; std::string m = mem_str(conc(a[1], 64)); ast c = v.t == INT ? (v.u ? bTrue() : bFalse()) : nullptr; if (!c) { extern Val icmp_ne0(Val, int); c = tobool(icmp_ne0(v, 32)); } vassert(c, m); RET0; };
  F(vp_cover_) { extern void cover(); cover(); RET0; };
  F(vp_add) { return vreal(nadd(a[0].u, a[1].u)); }; F(vp_sub) { return vreal(nsub(a[0].u, a[1].u)); }; F(vp_mul) { return vreal(nmul(a[0].u, a[1].u)); };
  F(vp_isint) { Num &n = nums[a[0].u]; if (!nfin(a[0].u)) RET0; if (n.isint) return Val(1); if (n.k == NQ) RET0; uint64_t k = a[0].u; return Val(nisint(k) ? 1 : 0); };
  F(vp_live) { return Val((uint64_t)live_heap()); };
  F(vp_mode) { FPMODE = conc(a[0], 32); MPFRMODE = conc(a[1], 32); RET0; };
  F(vp_print) { if (nums[a[0].u].k == NS) fprintf(stderr, "  sym %s\n", Z3_ast_to_string(C, nums[a[0].u].a)); else fprintf(stderr, "  num %g\n", dsp(a[0].u)); RET0; };
  F(vp_printi) { fprintf(stderr, "  int %ld\n", (long)conc(a[0], 64)); RET0; };
  // ---- memory and strings
  F(malloc) { return Val(mem_alloc(conc(a[0], 64), 2)); };
  F(calloc) { uint64_t n = conc(a[0], 64) * conc(a[1], 64), p = mem_alloc(n, 2); mem_set(p, 0, n); return Val(p); };
  F(realloc) { uint64_t p = conc(a[0], 64), n = conc(a[1], 64), q = mem_alloc(n, 2); if (p) { uint64_t o = 0; for (size_t i = objs.size() - 1; i > 0; i--) if (objs[i].base == p) { o = objs[i].size; break; } mem_copy(q, p, o < n ? o : n); mem_free(p, "realloc"); } return Val(q); };
  F(free) { mem_free(conc(a[0], 64), "free"); RET0; };
  F(_Znwm) { return Val(mem_alloc(conc(a[0], 64), 2)); }; builtins["_Znam"] = builtins["_Znwm"];
  F(_ZdlPv) { mem_free(conc(a[0], 64), "delete"); RET0; }; builtins["_ZdlPvm"] = builtins["_ZdaPv"] = builtins["_ZdaPvm"] = builtins["_ZdlPv"];
  builtins["llvm.memcpy"] = [](A &a) -> Val { mem_copy(conc(a[0], 64), conc(a[1], 64), conc(a[2], 64)); return a[0]; };
  builtins["memcpy"] = builtins["memmove"] = builtins["llvm.memmove"] = builtins["llvm.memcpy"];
  builtins["llvm.memset"] = [](A &a) -> Val { mem_set(conc(a[0], 64), conc(a[1], 8), conc(a[2], 64)); return a[0]; }; builtins["memset"] = builtins["llvm.memset"];
  F(memcmp) { uint64_t p = conc(a[0], 64), q = conc(a[1], 64), n = conc(a[2], 64); for (uint64_t i = 0; i < n; i++) { int x = mem_byte(p + i), y = mem_byte(q + i); if (x != y) return Val((uint64_t)(uint32_t)(x < y ? -1 : 1)); } RET0; };
  builtins["bcmp"] = builtins["memcmp"];
  F(strlen) { return Val(mem_str(conc(a[0], 64)).size()); };
  F(strcmp) { int r = mem_str(conc(a[0], 64)).compare(mem_str(conc(a[1], 64))); return Val((uint64_t)(uint32_t)(r < 0 ? -1 : r > 0)); };
  F(strncmp) { uint64_t n = conc(a[2], 64); int r = mem_str(conc(a[0], 64)).substr(0, n).compare(mem_str(conc(a[1], 64)).substr(0, n)); return Val((uint64_t)(uint32_t)(r < 0 ? -1 : r > 0)); };
  F(strcpy) { std::string s = mem_str(conc(a[1], 64)); uint64_t d = conc(a[0], 64); mem_copy(d, conc(a[1], 64), s.size() + 1); return a[0]; };
  F(strcat) { std::string d0 = mem_str(conc(a[0], 64)), s = mem_str(conc(a[1], 64)); mem_copy(conc(a[0], 64) + d0.size(), conc(a[1], 64), s.size() + 1); return a[0]; };
  F(strdup) { std::string s = mem_str(conc(a[0], 64)); uint64_t p = mem_alloc(s.size() + 1, 2); mem_copy(p, conc(a[0], 64), s.size() + 1); return Val(p); };
  builtins["strdup"] = builtins["strdup"]; builtins["__strdup"] = builtins["strdup"];
  for (const char *n : {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "fflush", "vfprintf", "perror"}) builtins[n] = [](A &) -> Val { RET0; };
  F(snprintf) { if (conc(a[1], 64)) mem_set(conc(a[0], 64), 0, 1); RET0; }; F(sprintf) { mem_set(conc(a[0], 64), 0, 1); RET0; };
  F(strerror) { uint64_t p = mem_alloc(2, 0); mem_set(p, 0, 2); return Val(p); };
  F(abort) { violation("abort() reached", true); endpath(); }; F(exit) { violation("exit() reached", true); endpath(); };
  F(__assert_fail) { violation("assertion in the library failed: " + mem_str(conc(a[0], 64)), true); endpath(); };
  F(clock) { RET0; }; F(ap_fpu_init) { return Val(1); }; F(fesetround) { RET0; }; F(fegetround) { return Val(0x800); };
  F(__cxa_atexit) { RET0; }; F(atexit) { RET0; };
  // ---- LLVM intrinsics
  auto sx = [](uint64_t u, int b) -> int64_t { return b >= 64 ? (int64_t)u : (int64_t)(u << (64 - b)) >> (64 - b); };
  extern Val icmp_p(int, Val, Val, int); extern Val select_p(Val, Val, Val, int);
  builtins["llvm.smax"] = [](A &a) -> Val { return select_p(icmp_p(P_SGT, a[0], a[1], callbits), a[0], a[1], callbits); };
  builtins["llvm.smin"] = [](A &a) -> Val { return select_p(icmp_p(P_SLT, a[0], a[1], callbits), a[0], a[1], callbits); };
  builtins["llvm.umax"] = [](A &a) -> Val { return select_p(icmp_p(P_UGT, a[0], a[1], callbits), a[0], a[1], callbits); };
  builtins["llvm.umin"] = [](A &a) -> Val { return select_p(icmp_p(P_ULT, a[0], a[1], callbits), a[0], a[1], callbits); };
  extern Val binop_p(int, Val, Val, int);
  builtins["llvm.abs"] = [](A &a) -> Val { return select_p(icmp_p(P_SLT, a[0], Val((uint64_t)0), callbits), binop_p(SUB, Val((uint64_t)0), a[0], callbits), a[0], callbits); };
  builtins["llvm.usub.sat"] = [](A &a) -> Val { return select_p(icmp_p(P_UGE, a[0], a[1], callbits), binop_p(SUB, a[0], a[1], callbits), Val((uint64_t)0), callbits); };
  builtins["llvm.ctpop"] = [](A &a) -> Val { return Val(__builtin_popcountll(conc(a[0], callbits))); };
  builtins["llvm.cttz"] = [](A &a) -> Val { uint64_t x = conc(a[0], callbits); return Val(x ? __builtin_ctzll(x) : callbits); };
  builtins["llvm.ctlz"] = [](A &a) -> Val { uint64_t x = conc(a[0], callbits); return Val(x ? __builtin_clzll(x) - (64 - callbits) : callbits); };
  builtins["llvm.fshl"] = [](A &a) -> Val { int b = callbits; uint64_t s = conc(a[2], b) % b, x = conc(a[0], b), y = conc(a[1], b); uint64_t r = s ? (x << s) | (y >> (b - s)) : x; return Val(b == 64 ? r : r & ((1ULL << b) - 1)); };
  builtins["llvm.fshr"] = [](A &a) -> Val { int b = callbits; uint64_t s = conc(a[2], b) % b, x = conc(a[0], b), y = conc(a[1], b); uint64_t r = s ? (x << (b - s)) | (y >> s) : y; return Val(b == 64 ? r : r & ((1ULL << b) - 1)); };
  builtins["llvm.bswap"] = [](A &a) -> Val { uint64_t x = conc(a[0], callbits); return Val(__builtin_bswap64(x) >> (64 - callbits)); };
  builtins["llvm.assume"] = [](A &) -> Val { RET0; }; builtins["llvm.expect"] = [](A &a) -> Val { return a[0]; };
  builtins["llvm.trap"] = [](A &) -> Val { violation("trap reached", true); endpath(); };
  builtins["llvm.stacksave"] = [](A &) -> Val { RET0; }; builtins["llvm.stackrestore"] = [](A &) -> Val { RET0; };
  builtins["llvm.va_end"] = [](A &) -> Val { RET0; }; extern void va_start_(uint64_t); builtins["llvm.va_start"] = [](A &a) -> Val { va_start_(conc(a[0], 64)); RET0; };
  builtins["llvm.va_copy"] = [](A &a) -> Val { mem_copy(conc(a[0], 64), conc(a[1], 64), 24); RET0; };
  F(qsort) { uint64_t p = conc(a[0], 64), n = conc(a[1], 64), w = conc(a[2], 64), f = conc(a[3], 64), t = mem_alloc(w ? w : 1, 1); extern Val icmp_p(int, Val, Val, int);
    for (uint64_t i = 1; i < n; i++) for (uint64_t j = i; j > 0; j--) { A c{Val(p + (j - 1) * w), Val(p + j * w)}; Val r = callptr(f, c); if (!condb(icmp_p(P_SGT, r, Val((uint64_t)0), 32))) break; mem_copy(t, p + j * w, w); mem_copy(p + j * w, p + (j - 1) * w, w); mem_copy(p + (j - 1) * w, t, w); }
    mem_release(t); RET0; };
  F(bsearch) { uint64_t k = conc(a[0], 64), p = conc(a[1], 64), lo = 0, hi = conc(a[2], 64), w = conc(a[3], 64), f = conc(a[4], 64); extern Val icmp_p(int, Val, Val, int);
    while (lo < hi) { uint64_t m = (lo + hi) / 2; A c{Val(k), Val(p + m * w)}; Val r = callptr(f, c); if (condb(icmp_p(P_EQ, r, Val((uint64_t)0), 32))) return Val(p + m * w); if (condb(icmp_p(P_SLT, r, Val((uint64_t)0), 32))) hi = m; else lo = m + 1; }
    RET0; };
  builtins["llvm.is.fpclass"] = [](A &a) -> Val { uint64_t m = conc(a[1], 32); Num &n = nums[a[0].u]; // snan qnan ninf nnormal nsub nzero pzero psub pnormal pinf
    if (n.k == NNAN) return Val((m & 3) != 0); if (n.k == NNINF) return Val((m >> 2) & 1); if (n.k == NPINF) return Val((m >> 9) & 1);
    if ((m & 0x1f8) == 0x1f8) return Val(1); if ((m & 0x1f8) == 0) RET0; int s = nsgnc(a[0].u); return Val(s < 0 ? (m >> 3) & 1 : s > 0 ? (m >> 8) & 1 : (m & 0x60) != 0); };
  auto ovf = [sx](int op, bool sg) { return [op, sg, sx](A &a) -> Val { int b = callbits; uint64_t x = conc(a[0], b), y = conc(a[1], b); u128 r; bool o; uint64_t res;
    if (sg) { __int128 p = sx(x, b), q = sx(y, b), z = op == 0 ? p + q : op == 1 ? p - q : p * q; res = (uint64_t)z; if (b < 64) res &= (1ULL << b) - 1; o = z != sx(res, b); }
    else { u128 p = x, q = y; r = op == 0 ? p + q : op == 1 ? p - q : p * q; res = (uint64_t)r; if (b < 64) res &= (1ULL << b) - 1; o = r != res; }
    aggs.push_back({Val(res), Val(o)}); Val v; v.t = AGG; v.u = aggs.size() - 1; return v; }; };
  builtins["llvm.uadd.with.overflow"] = ovf(0, false); builtins["llvm.usub.with.overflow"] = ovf(1, false); builtins["llvm.umul.with.overflow"] = ovf(2, false);
  builtins["llvm.sadd.with.overflow"] = ovf(0, true); builtins["llvm.ssub.with.overflow"] = ovf(1, true); builtins["llvm.smul.with.overflow"] = ovf(2, true);
  // ---- floating-point functions
  auto F1 = [](uint64_t (*f)(uint64_t)) { return [f](A &a) -> Val { return vreal(f(a[0].u)); }; };
  for (const char *n : {"floor", "floorl", "llvm.floor"}) builtins[n] = F1(nfloor);
  for (const char *n : {"ceil", "ceill", "llvm.ceil"}) builtins[n] = F1(nceil);
  for (const char *n : {"trunc", "truncl", "llvm.trunc"}) builtins[n] = F1(ntrunc);
  for (const char *n : {"fabs", "fabsl", "llvm.fabs"}) builtins[n] = F1(nabs_);
  for (const char *n : {"fmax", "fmaxl", "llvm.maxnum"}) builtins[n] = [](A &a) -> Val { if (nums[a[0].u].k == NNAN) return a[1]; if (nums[a[1].u].k == NNAN) return a[0]; return vreal(nite(nlt(a[0].u, a[1].u), a[1].u, a[0].u)); };
  for (const char *n : {"fmin", "fminl", "llvm.minnum"}) builtins[n] = [](A &a) -> Val { if (nums[a[0].u].k == NNAN) return a[1]; if (nums[a[1].u].k == NNAN) return a[0]; return vreal(nite(nlt(a[1].u, a[0].u), a[1].u, a[0].u)); };
  builtins["llvm.fmuladd"] = [](A &a) -> Val { return vreal(nadd(nmul(a[0].u, a[1].u), a[2].u)); };
  for (const char *n : {"ldexp", "ldexpl", "llvm.ldexp"}) builtins[n] = [](A &a) -> Val { if (!nfin(a[0].u)) return a[0]; return vreal(nmul(a[0].u, npow2((int)conc(a[1], 32)))); };
  for (const char *n : {"sqrt", "sqrtl", "llvm.sqrt"}) builtins[n] = [](A &a) -> Val { uint64_t x = a[0].u; if (nums[x].k == NPINF) return a[0]; if (!nfin(x) || nsgnc(x) < 0) return vreal(nspecial(NNAN)); if (nsgnc(x) == 0) return vreal(nsi(0));
    ast r = fresh("sqrt", RS); ast v[2] = {r, r}; assume(Z3_mk_gt(C, r, Z3_mk_real(C, 0, 1))); assume(Z3_mk_eq(C, Z3_mk_mul(C, 2, v), nast(x))); uint64_t k = nsym(r, false); return vreal(FPMODE ? nround(k, 2) : k); };
  for (const char *n : {"nextafter", "nextafterl"}) builtins[n] = [](A &a) -> Val { uint64_t x = a[0].u; if (!nfin(x)) return a[0]; ast r = fresh("next", RS); if (condb(mkbool(simp(nlt(x, a[1].u))))) assume(Z3_mk_gt(C, r, nast(x))); else assume(Z3_mk_lt(C, r, nast(x))); return vreal(nsym(r, false)); };
  for (const char *n : {"frexp", "frexpl"}) builtins[n] = [](A &a) -> Val { uint64_t x = nums[a[0].u].k == NS ? nconc(a[0].u) : a[0].u; int e = 0; double m = frexp(dsp(x), &e); mem_store(conc(a[1], 64), Val((uint64_t)(uint32_t)e), T(32)); return vreal(ndouble(m)); };
  // ---- GMP integers
  F(mpz_init) { iniz(a[0], nsi(0)); RET0; }; F(mpz_init_set) { iniz(a[0], rzv(a[1])); RET0; };
  F(mpz_init_set_si) { iniz(a[0], nbv(a[1], 64, true)); RET0; }; F(mpz_init_set_ui) { iniz(a[0], nbv(a[1], 64, false)); RET0; };
  F(mpz_clear) { uint64_t p = conc(a[0], 64); uint64_t h = slot(p); if ((h & TAGM) != HZ && (h & TAGM) != HD && (h & TAGM) != HN) bad("clear of an uninitialised or already cleared number"); w64(p, 0); RET0; };
  F(mpz_set) { wz(a[0], rzv(a[1])); RET0; }; F(mpz_set_si) { wz(a[0], nbv(a[1], 64, true)); RET0; }; F(mpz_set_ui) { wz(a[0], nbv(a[1], 64, false)); RET0; };
  F(mpz_set_d) { if (!nfin(a[1].u)) bad("mpz_set_d of a non-finite number"); wz(a[0], ntrunc(a[1].u)); RET0; };
  F(mpz_get_si) { uint64_t i = nconc(rzv(a[0])); return Val((uint64_t)mpz_get_si(mpq_numref(nums[i].q))); }; F(mpz_get_ui) { uint64_t i = nconc(rzv(a[0])); return Val((uint64_t)mpz_get_ui(mpq_numref(nums[i].q))); };
  F(mpz_get_d) { uint64_t i = rzv(a[0]); if (FPMODE) i = nround(i, 0); return vreal(i); };
  F(mpz_swap) { uint64_t x = rzv(a[0]), y = rzv(a[1]); wz(a[0], y); wz(a[1], x); RET0; };
  F(mpz_sgn) { if (a[0].t == INT) { uint64_t h = slot(a[0].u); if ((h & TAGM) == HD) return Val(1); if ((h & TAGM) == HZ || (h & TAGM) == HN) return cmp3(h & IDX, nsi(0)); bad("use of an uninitialised integer"); } return cmp3(rzv(a[0]), nsi(0)); };
  F(mpz_cmp) { return cmp3(rzv(a[0]), rzv(a[1])); }; F(mpz_cmp_si) { if (denis1(a)) { uint64_t m = slot(a[0].u) & IDX; return Val(nisint(m) ? 0 : 1); } return cmp3(rzv(a[0]), nbv(a[1], 64, true)); };
  F(mpz_cmp_ui) { if (denis1(a)) { uint64_t m = slot(a[0].u) & IDX; return Val(nisint(m) ? 0 : 1); } return cmp3(rzv(a[0]), nbv(a[1], 64, false)); };
  F(mpz_cmpabs) { return cmp3(nabs_(rzv(a[0])), nabs_(rzv(a[1]))); };
  F(mpz_neg) { wz(a[0], nneg(rzv(a[1]))); RET0; }; F(mpz_abs) { wz(a[0], nabs_(rzv(a[1]))); RET0; };
  F(mpz_add) { wz(a[0], nadd(rzv(a[1]), rzv(a[2]))); RET0; }; F(mpz_sub) { wz(a[0], nsub(rzv(a[1]), rzv(a[2]))); RET0; }; F(mpz_mul) { wz(a[0], nmul(rzv(a[1]), rzv(a[2]))); RET0; };
  F(mpz_add_ui) { wz(a[0], nadd(rzv(a[1]), nbv(a[2], 64, false))); RET0; }; F(mpz_sub_ui) { wz(a[0], nsub(rzv(a[1]), nbv(a[2], 64, false))); RET0; };
  F(mpz_mul_ui) { wz(a[0], nmul(rzv(a[1]), nbv(a[2], 64, false))); RET0; }; F(mpz_mul_si) { wz(a[0], nmul(rzv(a[1]), nbv(a[2], 64, true))); RET0; };
  F(mpz_addmul) { wz(a[0], nadd(rzv(a[0]), nmul(rzv(a[1]), rzv(a[2])))); RET0; }; F(mpz_submul) { wz(a[0], nsub(rzv(a[0]), nmul(rzv(a[1]), rzv(a[2])))); RET0; };
  F(mpz_mul_2exp) { wz(a[0], asint(nmul(rzv(a[1]), npow2(conc(a[2], 64))))); RET0; };
  F(mpz_tdiv_q) { uint64_t pi; if (pairof(a[1], a[2], pi)) { wz(a[0], ntrunc(pi)); RET0; } wz(a[0], ntdiv(rzv(a[1]), rzv(a[2]))); RET0; }; F(mpz_fdiv_q) { uint64_t pi; if (pairof(a[1], a[2], pi)) { wz(a[0], nfloor(pi)); RET0; } wz(a[0], nfdiv(rzv(a[1]), rzv(a[2]))); RET0; }; F(mpz_cdiv_q) { uint64_t pi; if (pairof(a[1], a[2], pi)) { wz(a[0], nceil(pi)); RET0; } wz(a[0], ncdiv(rzv(a[1]), rzv(a[2]))); RET0; };
  F(mpz_tdiv_r) { uint64_t x = rzv(a[1]), y = rzv(a[2]); wz(a[0], nsub(x, nmul(ntdiv(x, y), y))); RET0; };
  F(mpz_cdiv_qr) { uint64_t x = rzv(a[2]), y = rzv(a[3]), q = ncdiv(x, y); wz(a[0], q); wz(a[1], nsub(x, nmul(q, y))); RET0; };
  F(mpz_fdiv_qr) { uint64_t x = rzv(a[2]), y = rzv(a[3]), q = nfdiv(x, y); wz(a[0], q); wz(a[1], nsub(x, nmul(q, y))); RET0; };
  F(mpz_cdiv_q_ui) { uint64_t x = rzv(a[1]), y = nui(conc(a[2], 64)), q = ncdiv(x, y); wz(a[0], q); return Val((uint64_t)csi(nsub(nmul(q, y), x))); };
  F(mpz_tdiv_q_2exp) { wz(a[0], ntdiv(rzv(a[1]), npow2(conc(a[2], 64)))); RET0; }; F(mpz_fdiv_q_2exp) { wz(a[0], nfloor(nmul(rzv(a[1]), npow2(-(long)conc(a[2], 64))))); RET0; }; F(mpz_cdiv_q_2exp) { wz(a[0], nceil(nmul(rzv(a[1]), npow2(-(long)conc(a[2], 64))))); RET0; };
  F(mpz_divexact) { uint64_t x = rzv(a[1]), y = rzv(a[2]); if (nsgnc(y) == 0) bad("mpz_divexact by zero"); uint64_t q = ndiv(x, y); Num &n = nums[q]; if (n.k == NQ) { if (!n.isint) bad("mpz_divexact is not exact"); } else if (!n.isint) vassert(neq(nfloor(q), q), "contract: mpz_divexact is not exact"); wz(a[0], asint(q)); RET0; };
  F(mpz_mod) { uint64_t x = rzv(a[1]), y = nabs_(rzv(a[2])); wz(a[0], nsub(x, nmul(nfdiv(x, y), y))); RET0; };
  F(mpz_gcd) { uint64_t x = rzv(a[1]), y = rzv(a[2]); Num &p = nums[x], &q = nums[y];
    auto one = [](Num &n) { return n.k == NQ && mpz_cmpabs_ui(mpq_numref(n.q), 1) == 0; }; auto zero = [](Num &n) { return n.k == NQ && mpq_sgn(n.q) == 0; };
    if (one(p) || one(q)) { wz(a[0], nsi(1)); RET0; } if (zero(p)) { wz(a[0], nabs_(y)); RET0; } if (zero(q)) { wz(a[0], nabs_(x)); RET0; }
    mpz_t r; mpz_init(r); x = nconc(x); y = nconc(y); mpz_gcd(r, cz(x), cz(y)); wz(a[0], nz(r)); mpz_clear(r); RET0; };
  F(mpz_lcm) { mpz_t r; mpz_init(r); uint64_t x = nconc(rzv(a[1])), y = nconc(rzv(a[2])); mpz_lcm(r, cz(x), cz(y)); wz(a[0], nz(r)); mpz_clear(r); RET0; };
  F(mpz_gcdext) { mpz_t g, s, t; mpz_inits(g, s, t, nullptr); uint64_t x = nconc(rzv(a[3])), y = nconc(rzv(a[4])); mpz_gcdext(g, s, t, cz(x), cz(y)); wz(a[0], nz(g)); if (conc(a[1], 64)) wz(a[1], nz(s)); if (conc(a[2], 64)) wz(a[2], nz(t)); RET0; };
  F(mpz_divisible_p) { uint64_t x = rzv(a[0]), y = rzv(a[1]); if (nsgnc(y) == 0) return Val(nsgnc(x) == 0); uint64_t q = ndiv(x, y); return Val(nums[q].k == NQ ? nums[q].isint : nisint(q)); };
  F(mpz_sqrt) { uint64_t x = rzv(a[1]); if (nsgnc(x) < 0) bad("square root of a negative integer"); bool e; wz(a[0], nroot(x, 2, e)); RET0; };
  F(mpz_perfect_square_p) { uint64_t x = rzv(a[0]); if (nsgnc(x) < 0) RET0; bool e; nroot(x, 2, e); return Val(e); };
  F(mpz_pow_ui) { wz(a[0], npow(rzv(a[1]), conc(a[2], 64))); RET0; }; F(mpz_ui_pow_ui) { mpz_t r; mpz_init(r); mpz_ui_pow_ui(r, conc(a[1], 64), conc(a[2], 64)); wz(a[0], nz(r)); RET0; };
  F(mpz_root) { uint64_t x = rzv(a[1]); unsigned long n = conc(a[2], 64); int s = nsgnc(x); if (n == 0 || (s < 0 && n % 2 == 0)) bad("root outside its domain"); bool e; uint64_t r = nroot(nabs_(x), n, e); wz(a[0], s < 0 ? nneg(r) : r); return Val(e); };
  F(mpz_fits_slong_p) { uint64_t i = rzv(a[0]); Num &n = nums[i]; if (n.k == NQ) return Val(mpz_fits_slong_p(mpq_numref(n.q)) != 0); return mkbool(simp(band(nle(nsi(LONG_MIN), i), nle(i, nsi(LONG_MAX))))).t == INT ? Val(1) : Val(decide(band(nle(nsi(LONG_MIN), i), nle(i, nsi(LONG_MAX)))) ? 1 : 0); };
  F(mpz_fits_sint_p) { uint64_t i = rzv(a[0]); return Val(decide(band(nle(nsi(INT_MIN), i), nle(i, nsi(INT_MAX)))) ? 1 : 0); };
  F(mpz_sizeinbase) { return Val(mpz_sizeinbase(cz(rzv(a[0])), conc(a[1], 32))); }; F(mpz_size) { return Val(mpz_size(cz(rzv(a[0])))); };
  F(mpz_hash_) { return Val((uint64_t)csi(rzv(a[0]))); };
  F(mpz_export) { mpz_ptr z = cz(rzv(a[6])); uint8_t buf[4096]; size_t n = 0; if (mpz_sizeinbase(z, 2) > 8000) unsupported("mpz_export"); mpz_export(buf, &n, (int)conc(a[2], 32), conc(a[3], 64), (int)conc(a[4], 32), conc(a[5], 64), z); uint64_t p = conc(a[0], 64), sz = conc(a[3], 64); for (size_t i = 0; i < n * sz; i++) mem_set(p + i, buf[i], 1); if (conc(a[1], 64)) w64(conc(a[1], 64), n); return a[0]; };
  F(mpz_import) { size_t n = conc(a[1], 64), sz = conc(a[3], 64); uint64_t p = conc(a[6], 64); std::vector<uint8_t> b(n * sz + 1); for (size_t i = 0; i < n * sz; i++) b[i] = mem_byte(p + i); mpz_t z; mpz_init(z); mpz_import(z, n, (int)conc(a[2], 32), sz, (int)conc(a[4], 32), conc(a[5], 64), b.data()); wz(a[0], nz(z)); mpz_clear(z); RET0; };
  for (const char *n : {"mpz_out_str", "mpq_out_str", "mpfr_out_str", "mpfr_fprintf", "gmp_fprintf"}) builtins[n] = [](A &) -> Val { RET0; };
  for (const char *n : {"mpz_get_str", "mpq_get_str", "mpfr_get_str"}) builtins[n] = [](A &a) -> Val { uint64_t p = a[0].t == INT ? a[0].u : 0; if (!p) p = mem_alloc(2, 2); mem_set(p, 0, 1); return Val(p); };
  F(mpfr_free_str) { mem_free(conc(a[0], 64), "mpfr_free_str"); RET0; };
  builtins["mpz_init2"] = builtins["mpz_init"]; F(mpz_init_set_d) { if (!nfin(a[1].u)) bad("mpz_init_set_d of a non-finite number"); iniz(a[0], ntrunc(a[1].u)); RET0; };
  F(mpz_cmp_d) { return cmp3(rzv(a[0]), a[1].u); }; F(mpz_cmpabs_ui) { return cmp3(nabs_(rzv(a[0])), nbv(a[1], 64, false)); };
  F(mpz_fits_ulong_p) { uint64_t i = rzv(a[0]); return Val(decide(band(nle(nsi(0), i), nle(i, nui(ULONG_MAX)))) ? 1 : 0); }; F(mpz_fits_uint_p) { uint64_t i = rzv(a[0]); return Val(decide(band(nle(nsi(0), i), nle(i, nui(UINT_MAX)))) ? 1 : 0); };
  F(mpz_tdiv_q_ui) { uint64_t x = rzv(a[1]), y = nui(conc(a[2], 64)), q = ntdiv(x, y); wz(a[0], q); return Val((uint64_t)labs(csi(nsub(x, nmul(q, y))))); };
  F(mpz_fdiv_q_ui) { uint64_t x = rzv(a[1]), y = nui(conc(a[2], 64)), q = nfdiv(x, y); wz(a[0], q); return Val((uint64_t)csi(nsub(x, nmul(q, y)))); };
  F(mpz_fdiv_ui) { uint64_t x = rzv(a[0]), y = nui(conc(a[1], 64)), q = nfdiv(x, y); return Val((uint64_t)csi(nsub(x, nmul(q, y)))); };
  F(mpz_tdiv_ui) { uint64_t x = rzv(a[0]), y = nui(conc(a[1], 64)), q = ntdiv(x, y); return Val((uint64_t)labs(csi(nsub(x, nmul(q, y))))); };
  F(mpz_tdiv_qr) { uint64_t x = rzv(a[2]), y = rzv(a[3]), q = ntdiv(x, y); wz(a[0], q); wz(a[1], nsub(x, nmul(q, y))); RET0; };
  F(mpz_fdiv_r) { uint64_t x = rzv(a[1]), y = rzv(a[2]); wz(a[0], nsub(x, nmul(nfdiv(x, y), y))); RET0; }; F(mpz_cdiv_r) { uint64_t x = rzv(a[1]), y = rzv(a[2]); wz(a[0], nsub(x, nmul(ncdiv(x, y), y))); RET0; };
  F(mpz_ui_sub) { wz(a[0], nsub(nbv(a[1], 64, false), rzv(a[2]))); RET0; }; F(mpz_set_q) { wz(a[0], ntrunc(rqf(a[1]))); RET0; };
  F(mpz_odd_p) { uint64_t i = rzv(a[0]), q = nfdiv(i, nsi(2)); return Val(decide(Z3_mk_not(C, neq(nmul(q, nsi(2)), i))) ? 1 : 0); }; F(mpz_even_p) { uint64_t i = rzv(a[0]), q = nfdiv(i, nsi(2)); return Val(decide(neq(nmul(q, nsi(2)), i)) ? 1 : 0); };
  F(mpz_divisible_ui_p) { uint64_t x = rzv(a[0]), d = conc(a[1], 64); if (!d) return Val(nsgnc(x) == 0); uint64_t q = nfdiv(x, nui(d)); return Val(decide(neq(nmul(q, nui(d)), x)) ? 1 : 0); };
  F(mpz_addmul_ui) { wz(a[0], nadd(rzv(a[0]), nmul(rzv(a[1]), nbv(a[2], 64, false)))); RET0; }; F(mpz_submul_ui) { wz(a[0], nsub(rzv(a[0]), nmul(rzv(a[1]), nbv(a[2], 64, false)))); RET0; };
  F(mpq_cmp_z) { return cmp3(rqf(a[0]), rzv(a[1])); }; F(mpq_set_den) { uint64_t p = conc(a[0], 64); wz(Val(p + 8), rzv(a[1])); RET0; };
  // ---- GMP rationals
  F(mpq_init) { wq(a[0], nsi(0)); RET0; };
  F(mpq_clear) { uint64_t p = conc(a[0], 64), h = slot(p); if ((h & TAGM) != HZ && (h & TAGM) != HN) bad("clear of an uninitialised or already cleared number"); w64(p, 0); w64(p + 8, 0); RET0; };
  F(mpq_canonicalize) { QV q = rq(conc(a[0], 64)); if (!q.fin) bad("mpq_canonicalize with denominator 0"); wq(a[0], q.i); RET0; };
  F(mpq_set) { QV q = rqv(a[1]); if (q.fin) wq(a[0], q.i); else { uint64_t p = conc(a[0], 64); w64(p, q.n); w64(p + 8, q.d); } RET0; };
  F(mpq_set_si) { uint64_t d = conc(a[2], 64); uint64_t p = conc(a[0], 64); if (d == 1) wq(a[0], nbv(a[1], 64, true)); else { w64(p, HZ | nbv(a[1], 64, true)); w64(p + 8, HZ | nui(d)); } RET0; };
  F(mpq_set_ui) { uint64_t d = conc(a[2], 64); uint64_t p = conc(a[0], 64); if (d == 1) wq(a[0], nbv(a[1], 64, false)); else { w64(p, HZ | nbv(a[1], 64, false)); w64(p + 8, HZ | nui(d)); } RET0; };
  F(mpq_set_z) { wq(a[0], rzv(a[1])); RET0; }; F(mpq_set_d) { if (!nfin(a[1].u)) bad("mpq_set_d of a non-finite number"); wq(a[0], a[1].u); RET0; };
  F(ap_fpu_init) { return Val(1); }; F(__gmpq_set_num) { wz(a[0], rzv(a[1])); RET0; };
  F(mpq_get_d) { uint64_t i = rqf(a[0]); if (FPMODE) i = nround(i, 0); return vreal(i); };
  F(mpq_get_num) { wz(a[0], rzv(a[1])); RET0; }; F(mpq_get_den) { wz(a[0], rz(conc(a[1], 64) + 8)); RET0; };
  F(mpq_swap) { uint64_t p = conc(a[0], 64), q = conc(a[1], 64), x = slot(p), y = slot(p + 8), u = slot(q), v = slot(q + 8); w64(p, u); w64(p + 8, v); w64(q, x); w64(q + 8, y); RET0; };
  F(mpq_sgn) { QV q = rqv(a[0]); return cmp3(q.i, nsi(0)); };
  F(mpq_cmp) { return cmp3(rqf(a[0]), rqf(a[1])); };
  F(mpq_cmp_si) { return cmp3(rqf(a[0]), ndiv(nbv(a[1], 64, true), nui(conc(a[2], 64)))); }; F(mpq_cmp_ui) { return cmp3(rqf(a[0]), ndiv(nbv(a[1], 64, false), nui(conc(a[2], 64)))); };
  F(mpq_equal) { QV x = rqv(a[0]), y = rqv(a[1]); if (x.fin != y.fin) RET0; ast c = neq(x.i, y.i); Val b = mkbool(simp(c)); if (b.t == INT) return b; Z3_sort w = Z3_mk_bv_sort(C, 32); return vast(Z3_mk_ite(C, b.a, Z3_mk_int(C, 1, w), Z3_mk_int(C, 0, w)), BV); };
  F(mpq_neg) { QV q = rqv(a[1]); if (q.fin) wq(a[0], nneg(q.i)); else { uint64_t p = conc(a[0], 64); w64(p + 8, HZ | nsi(0)); w64(p, HZ | nneg(q.i)); } RET0; };
  F(mpq_abs) { QV q = rqv(a[1]); if (q.fin) wq(a[0], nabs_(q.i)); else { uint64_t p = conc(a[0], 64); w64(p + 8, HZ | nsi(0)); w64(p, HZ | nabs_(q.i)); } RET0; };
  F(mpq_inv) { uint64_t x = rqf(a[1]); if (nsgnc(x) == 0) bad("mpq_inv of zero"); wq(a[0], ndiv(nsi(1), x)); RET0; };
  F(mpq_add) { wq(a[0], nadd(rqf(a[1]), rqf(a[2]))); RET0; }; F(mpq_sub) { wq(a[0], nsub(rqf(a[1]), rqf(a[2]))); RET0; }; F(mpq_mul) { wq(a[0], nmul(rqf(a[1]), rqf(a[2]))); RET0; };
  F(mpq_div) { uint64_t y = rqf(a[2]); if (nsgnc(y) == 0) bad("mpq_div by zero"); wq(a[0], ndiv(rqf(a[1]), y)); RET0; };
  F(mpq_mul_2exp) { wq(a[0], nmul(rqf(a[1]), npow2(conc(a[2], 64)))); RET0; }; F(mpq_div_2exp) { wq(a[0], nmul(rqf(a[1]), npow2(-(long)conc(a[2], 64)))); RET0; };
  // ---- MPFR
  F(mpfr_set_default_prec) { MPFRDEF = conc(a[0], 64); RET0; }; F(mpfr_get_default_prec) { return Val(MPFRDEF); }; F(mpfr_get_prec) { return Val(r64(conc(a[0], 64))); };
  F(mpfr_init) { uint64_t p = conc(a[0], 64); w64(p, MPFRDEF); w64(p + 8, HZ | nspecial(NNAN)); RET0; }; F(mpfr_init2) { uint64_t p = conc(a[0], 64); w64(p, conc(a[1], 64)); w64(p + 8, HZ | nspecial(NNAN)); RET0; };
  builtins["mpfr_set_prec"] = builtins["mpfr_init2"];
  F(mpfr_clear) { uint64_t p = conc(a[0], 64), h = slot(p + 8); if ((h & TAGM) != HZ) bad("clear of an uninitialised or already cleared number"); w64(p + 8, 0); RET0; };
  F(mpfr_swap) { uint64_t p = conc(a[0], 64), q = conc(a[1], 64); for (int k = 0; k < 16; k += 8) { uint64_t x = slot(p + k), y = slot(q + k); w64(p + k, y); w64(q + k, x); } RET0; };
  F(mpfr_set) { uint64_t i = rf(a[1]); if (a[0].t == INT && a[1].t == INT && r64(a[0].u) >= r64(a[1].u)) { wf(a[0], i); RET0; } return putf(a[0], i, a[2]); };
  F(mpfr_set_si) { return putf(a[0], nbv(a[1], 64, true), a[2]); }; F(mpfr_set_ui) { return putf(a[0], nbv(a[1], 64, false), a[2]); }; builtins["mpfr_set_sj"] = builtins["mpfr_set_si"]; builtins["__gmpfr_set_sj"] = builtins["mpfr_set_si"];
  F(mpfr_set_si_2exp) { return putf(a[0], nmul(nbv(a[1], 64, true), npow2((long)conc(a[2], 64))), a[3]); };
  F(mpfr_set_d) { return putf(a[0], a[1].u, a[2]); }; builtins["mpfr_set_ld"] = builtins["mpfr_set_d"];
  F(mpfr_set_exact_) { wf(a[0], a[1].u); RET0; };
  F(mpfr_set_z) { return putf(a[0], rzv(a[1]), a[2]); }; F(mpfr_set_q) { QV q = rqv(a[1]); if (!q.fin) { int s = nsgnc(q.i); wf(a[0], nspecial(s > 0 ? NPINF : s < 0 ? NNINF : NNAN)); RET0; } return putf(a[0], q.i, a[2]); };
  F(mpfr_set_inf) { wf(a[0], nspecial((int)conc(a[1], 32) >= 0 ? NPINF : NNINF)); RET0; }; F(mpfr_set_nan) { wf(a[0], nspecial(NNAN)); RET0; };
  F(mpfr_set_zero) { wf(a[0], nsi(0)); RET0; };
  F(mpfr_get_d) { uint64_t i = rf(a[0]); if (MPFRMODE && !(a[0].t == INT && r64(a[0].u) <= 53)) i = nround(i, conc(a[1], 32)); return vreal(i); }; builtins["mpfr_get_ld"] = builtins["mpfr_get_d"];
  F(mpfr_get_exact_) { return vreal(rf(a[0])); };
  F(mpfr_get_si) { uint64_t i = rf(a[0]); if (!nfin(i)) bad("mpfr_get_si of a special value"); return Val((uint64_t)csi(nintr(i, conc(a[1], 32)))); }; builtins["mpfr_get_sj"] = builtins["__gmpfr_mpfr_get_sj"] = builtins["mpfr_get_si"];
  F(mpfr_get_z) { uint64_t i = rf(a[1]); if (!nfin(i)) bad("mpfr_get_z of a special value"); uint64_t r = nintr(i, conc(a[2], 32)); wz(a[0], r); return cmp3(r, i); };
  F(mpfr_get_q) { uint64_t i = rf(a[1]); if (!nfin(i)) bad("mpfr_get_q of a special value"); wq(a[0], i); RET0; };
  F(mpfr_get_z_exp) { uint64_t i = rf(a[1]); if (!nfin(i)) bad("mpfr_get_z_exp of a special value"); // value = z * 2^e, any such pair
    Num &n = nums[i]; if (n.k == NQ) { if (mpz_popcount(mpq_denref(n.q)) != 1) unsupported("mpfr value is not dyadic"); long e = -(long)(mpz_sizeinbase(mpq_denref(n.q), 2) - 1); wz(a[0], nz(mpq_numref(n.q))); return Val((uint64_t)e); }
    if (n.isint) { wz(a[0], i); RET0; }
    for (int k = 0; k <= 2; k++) { uint64_t m = nmul(i, npow2(k)); if (nums[m].k == NQ || decide(Z3_mk_is_int(C, nast(m)))) { wz(a[0], asint(m)); return Val((uint64_t)-(long)k); } } cutpath("mpfr value with a small exponent converted to an integer mantissa"); };
  builtins["mpfr_get_z_2exp"] = builtins["mpfr_get_z_exp"];
  F(mpfr_set_z_2exp) { return putf(a[0], nmul(rzv(a[1]), npow2((long)conc(a[2], 64))), a[3]); };
  F(mpfr_get_exp) { uint64_t i = nconc(rf(a[0])); Num &n = nums[i]; return Val((uint64_t)(long)(mpz_sizeinbase(mpq_numref(n.q), 2) - (mpz_sizeinbase(mpq_denref(n.q), 2) - 1))); };
  F(mpfr_get_emax) { return Val(1073741823); };
  F(mpfr_fits_slong_p) { return Val(nfin(rf(a[0])) && decide(band(nle(nsi(LONG_MIN), rf(a[0])), nle(rf(a[0]), nsi(LONG_MAX))))); }; builtins["mpfr_fits_intmax_p"] = builtins["mpfr_fits_slong_p"];
  F(mpfr_nan_p) { return Val(nums[rf(a[0])].k == NNAN); }; F(mpfr_inf_p) { NK k = nums[rf(a[0])].k; return Val(k == NPINF || k == NNINF); }; F(mpfr_number_p) { return Val(nfin(rf(a[0]))); };
  F(mpfr_zero_p) { uint64_t i = rf(a[0]); if (!nfin(i)) RET0; return Val(decide(neq(i, nsi(0)))); }; F(mpfr_integer_p) { uint64_t i = rf(a[0]); if (!nfin(i)) RET0; Num &n = nums[i]; return Val(n.isint ? 1 : n.k == NQ ? 0 : decide(Z3_mk_is_int(C, n.a))); };
  F(mpfr_sgn) { uint64_t i = rf(a[0]); if (!nfin(i)) return Val((uint64_t)(uint32_t)nsgnc(i)); return cmp3(i, nsi(0)); };
  F(mpfr_cmp) { return cmp3(rf(a[0]), rf(a[1])); }; builtins["mpfr_cmp3"] = builtins["mpfr_cmp"]; F(mpfr_cmp_si) { return cmp3(rf(a[0]), nbv(a[1], 64, true)); }; F(mpfr_cmp_ui) { return cmp3(rf(a[0]), nbv(a[1], 64, false)); };
  F(mpfr_cmp_d) { return cmp3(rf(a[0]), a[1].u); }; builtins["mpfr_cmp_ld"] = builtins["mpfr_cmp_d"]; F(mpfr_cmp_q) { return cmp3(rf(a[0]), rqf(a[1])); }; F(mpfr_cmp_z) { return cmp3(rf(a[0]), rzv(a[1])); };
  F(mpfr_equal_p) { return Val(condb(mkbool(simp(neq(rf(a[0]), rf(a[1])))))); };
  F(mpfr_neg) { wf(a[0], nneg(rf(a[1]))); RET0; }; F(mpfr_abs) { wf(a[0], nabs_(rf(a[1]))); RET0; };
  F(mpfr_add) { return putf(a[0], nadd(rf(a[1]), rf(a[2])), a[3]); }; F(mpfr_sub) { return putf(a[0], nsub(rf(a[1]), rf(a[2])), a[3]); }; F(mpfr_mul) { return putf(a[0], nmul(rf(a[1]), rf(a[2])), a[3]); }; F(mpfr_div) { return putf(a[0], ndiv(rf(a[1]), rf(a[2])), a[3]); };
  F(mpfr_add_ui) { return putf(a[0], nadd(rf(a[1]), nbv(a[2], 64, false)), a[3]); }; F(mpfr_sub_ui) { return putf(a[0], nsub(rf(a[1]), nbv(a[2], 64, false)), a[3]); };
  F(mpfr_add_si) { return putf(a[0], nadd(rf(a[1]), nbv(a[2], 64, true)), a[3]); };
  F(mpfr_add_d) { return putf(a[0], nadd(rf(a[1]), a[2].u), a[3]); };
  F(mpfr_div_si) { return putf(a[0], ndiv(rf(a[1]), nbv(a[2], 64, true)), a[3]); }; F(mpfr_div_ui) { return putf(a[0], ndiv(rf(a[1]), nbv(a[2], 64, false)), a[3]); }; F(mpfr_ui_div) { return putf(a[0], ndiv(nbv(a[1], 64, false), rf(a[2])), a[3]); };
  F(mpfr_mul_si) { return putf(a[0], nmul(rf(a[1]), nbv(a[2], 64, true)), a[3]); }; F(mpfr_mul_ui) { return putf(a[0], nmul(rf(a[1]), nbv(a[2], 64, false)), a[3]); };
  F(mpfr_mul_2si) { uint64_t i = rf(a[1]); if (nfin(i)) i = nmul(i, npow2((long)conc(a[2], 64))); wf(a[0], i); RET0; }; builtins["mpfr_mul_2ui"] = builtins["mpfr_mul_2exp"] = builtins["mpfr_mul_2si"];
  F(mpfr_div_2ui) { uint64_t i = rf(a[1]); if (nfin(i)) i = nmul(i, npow2(-(long)conc(a[2], 64))); wf(a[0], i); RET0; }; builtins["mpfr_div_2si"] = builtins["mpfr_div_2exp"] = builtins["mpfr_div_2ui"];
  F(mpfr_min) { uint64_t x = rf(a[1]), y = rf(a[2]); if (nums[x].k == NNAN) x = y; else if (nums[y].k != NNAN) x = nite(nlt(y, x), y, x); wf(a[0], x); RET0; }; F(mpfr_max) { uint64_t x = rf(a[1]), y = rf(a[2]); if (nums[x].k == NNAN) x = y; else if (nums[y].k != NNAN) x = nite(nlt(x, y), y, x); wf(a[0], x); RET0; };
  F(mpfr_sub_si) { return putf(a[0], nsub(rf(a[1]), nbv(a[2], 64, true)), a[3]); }; F(mpfr_sub_d) { return putf(a[0], nsub(rf(a[1]), a[2].u), a[3]); }; F(mpfr_mul_d) { return putf(a[0], nmul(rf(a[1]), a[2].u), a[3]); }; F(mpfr_div_d) { return putf(a[0], ndiv(rf(a[1]), a[2].u), a[3]); };
  F(mpfr_add_q) { return putf(a[0], nadd(rf(a[1]), rqf(a[2])), a[3]); }; F(mpfr_sub_q) { return putf(a[0], nsub(rf(a[1]), rqf(a[2])), a[3]); }; F(mpfr_mul_q) { return putf(a[0], nmul(rf(a[1]), rqf(a[2])), a[3]); }; F(mpfr_div_q) { return putf(a[0], ndiv(rf(a[1]), rqf(a[2])), a[3]); };
  F(mpfr_sqr) { uint64_t x = rf(a[1]); return putf(a[0], nmul(x, x), a[2]); }; F(mpfr_si_div) { return putf(a[0], ndiv(nbv(a[1], 64, true), rf(a[2])), a[3]); };
  F(mpfr_si_sub) { return putf(a[0], nsub(nbv(a[1], 64, true), rf(a[2])), a[3]); }; F(mpfr_ui_sub) { return putf(a[0], nsub(nbv(a[1], 64, false), rf(a[2])), a[3]); };
  F(mpfr_cmpabs) { return cmp3(nabs_(rf(a[0])), nabs_(rf(a[1]))); }; F(mpfr_signbit) { uint64_t i = rf(a[0]); return Val(nsgnc(i) < 0 ? 1 : 0); }; F(mpfr_regular_p) { uint64_t i = rf(a[0]); if (!nfin(i)) RET0; return Val(nsgnc(i) != 0); };
  auto rel = [](A &a, int k) -> Val { uint64_t x = rf(a[0]), y = rf(a[1]); if (nums[x].k == NNAN || nums[y].k == NNAN) return Val(0); return Val(condb(mkbool(simp(k == 0 ? nlt(x, y) : k == 1 ? nle(x, y) : k == 2 ? nlt(y, x) : nle(y, x)))) ? 1 : 0); };
  builtins["mpfr_less_p"] = [rel](A &a) { return rel(a, 0); }; builtins["mpfr_lessequal_p"] = [rel](A &a) { return rel(a, 1); }; builtins["mpfr_greater_p"] = [rel](A &a) { return rel(a, 2); }; builtins["mpfr_greaterequal_p"] = [rel](A &a) { return rel(a, 3); };
  F(mpfr_rint_floor) { return putf(a[0], nfloor(rf(a[1])), a[2]); }; F(mpfr_rint_ceil) { return putf(a[0], nceil(rf(a[1])), a[2]); }; F(mpfr_rint_trunc) { return putf(a[0], ntrunc(rf(a[1])), a[2]); };
  F(mpfr_floor) { wf(a[0], nfloor(rf(a[1]))); RET0; }; F(mpfr_ceil) { wf(a[0], nceil(rf(a[1]))); RET0; }; F(mpfr_trunc) { wf(a[0], ntrunc(rf(a[1]))); RET0; };
  F(mpfr_sqrt) { uint64_t x = rf(a[1]); if (nums[x].k == NPINF) { wf(a[0], x); RET0; } if (!nfin(x) || nsgnc(x) < 0) { wf(a[0], nspecial(NNAN)); RET0; } if (nsgnc(x) == 0) { wf(a[0], nsi(0)); RET0; }
    ast r = fresh("sqrt", RS); ast v[2] = {r, r}; assume(Z3_mk_gt(C, r, Z3_mk_real(C, 0, 1))); assume(Z3_mk_eq(C, Z3_mk_mul(C, 2, v), nast(x))); return putf(a[0], nsym(r, false), a[2]); };
  F(mpfr_pow_ui) { uint64_t x = rf(a[1]); unsigned long n = conc(a[2], 64); if (!nfin(x)) { wf(a[0], nums[x].k == NNINF && n % 2 == 0 ? nspecial(NPINF) : n == 0 ? nsi(1) : x); RET0; } return putf(a[0], npow(x, n), a[3]); };
  F(mpfr_rootn_ui) { uint64_t x = rf(a[1]); unsigned long n = conc(a[2], 64); if (n == 1) return putf(a[0], x, a[3]); if (n == 0) { wf(a[0], nspecial(NNAN)); RET0; } if (!nfin(x)) { wf(a[0], nums[x].k == NNINF && n % 2 == 0 ? nspecial(NNAN) : x); RET0; }
    int s = nsgnc(x); if (s < 0 && n % 2 == 0) { wf(a[0], nspecial(NNAN)); RET0; } if (s == 0) { wf(a[0], nsi(0)); RET0; }
    ast r = fresh("root", RS); uint64_t i = nsym(r, false); if (s > 0) assume(Z3_mk_gt(C, r, Z3_mk_real(C, 0, 1))); else assume(Z3_mk_lt(C, r, Z3_mk_real(C, 0, 1))); assume(neq(npow(i, n), x)); return putf(a[0], i, a[3]); };
  builtins["mpfr_root"] = builtins["mpfr_rootn_ui"];
  F(mpfr_get_str) { uint64_t p = mem_alloc(2, 2); mem_set(p, 0, 2); return Val(p); };
}
