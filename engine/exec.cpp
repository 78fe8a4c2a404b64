#include "mem.h"
#include <sys/resource.h>
#include <signal.h>
long icount; static std::vector<Val> cvals; static std::vector<uint64_t> gaddr;
struct Frame { Func *f; std::vector<Val> r; std::vector<uint64_t> allocas; uint32_t line = 0; std::vector<Val> *args = nullptr; };
static std::vector<Frame *> stack;
std::string where() { std::string s; int n = 0; for (int i = (int)stack.size() - 1; i >= 0 && n < 5; i--, n++) { s += (n ? " < " : "") + stack[i]->f->name + ":" + std::to_string(stack[i]->line); } return s; }
typedef std::function<Val(std::vector<Val> &)> Builtin;
extern std::unordered_map<std::string, Builtin> builtins;
static std::vector<const Builtin *> bcache;
static uint64_t sext(uint64_t u, int bits) { if (bits >= 64) return u; uint64_t m = 1ULL << (bits - 1); u &= (1ULL << bits) - 1; return (u ^ m) - m; }
static uint64_t mask(uint64_t u, int bits) { return bits >= 64 ? u : u & ((1ULL << bits) - 1); }
static bool iteof(ast a, ast &c, ast &x, ast &y) { if (Z3_get_ast_kind(C, a) != Z3_APP_AST) return false; Z3_app p = Z3_to_app(C, a); if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) != Z3_OP_ITE) return false; c = Z3_get_app_arg(C, p, 0); x = Z3_get_app_arg(C, p, 1); y = Z3_get_app_arg(C, p, 2); return true; }
static ast cmpast(int p, ast a, ast b) {
  switch (p) { case P_EQ: return Z3_mk_eq(C, a, b); case P_NE: return bnot(Z3_mk_eq(C, a, b)); case P_UGT: return Z3_mk_bvugt(C, a, b); case P_UGE: return Z3_mk_bvuge(C, a, b); case P_ULT: return Z3_mk_bvult(C, a, b); case P_ULE: return Z3_mk_bvule(C, a, b); case P_SGT: return Z3_mk_bvsgt(C, a, b); case P_SGE: return Z3_mk_bvsge(C, a, b); case P_SLT: return Z3_mk_bvslt(C, a, b); default: return Z3_mk_bvsle(C, a, b); }
}
// number of leaves of an if-then-else tree over constants, 1000 if it is something else
static int tree(ast a, int d = 0) { ast c, x, y; if (Z3_is_numeral_ast(C, a)) return 1; if (d > 12 || !iteof(a, c, x, y)) return 1000; return tree(x, d + 1) + tree(y, d + 1); }
static ast cmpite(int p, ast a, ast b, int) {
  ast c, x, y; uint64_t u;
  if (Z3_is_numeral_ast(C, b)) { auto it = cmps.find(a); if (it != cmps.end() && Z3_get_numeral_uint64(C, b, &u)) { int k = (int)u; const Cmp3 &m = it->second;
    if (p == P_EQ || p == P_NE) { ast e = k == 0 ? m.eq : k == 1 ? m.gt : k == -1 ? m.lt : bFalse(); return p == P_EQ ? e : bnot(e); }
    int cls = p == P_SLT ? k : p == P_SLE ? k + 1 : p == P_SGE ? k : p == P_SGT ? k + 1 : 99; // value < cls, or not
    if (cls >= -1 && cls <= 2) { ast l = cls == -1 ? bFalse() : cls == 0 ? m.lt : cls == 1 ? bnot(m.gt) : bTrue(); return p == P_SLT || p == P_SLE ? l : bnot(l); } } }
  int na = tree(a), nb = tree(b);
  if ((na == 1 && nb < 40) || (nb == 1 && na < 40) || na * nb <= 64) {
    if (na > 1) { iteof(a, c, x, y); return bite(c, cmpite(p, x, b, 0), cmpite(p, y, b, 0)); }
    if (nb > 1) { iteof(b, c, x, y); return bite(c, cmpite(p, a, x, 0), cmpite(p, a, y, 0)); }
    return simp(cmpast(p, a, b));
  }
  if (nb == 1 && iteof(a, c, x, y)) return bite(c, cmpite(p, x, b, 0), cmpite(p, y, b, 0));
  if (na == 1 && iteof(b, c, x, y)) return bite(c, cmpite(p, a, x, 0), cmpite(p, a, y, 0));
  return cmpast(p, a, b);
}
static bool icmpc(int p, uint64_t a, uint64_t b, int bits) {
  int64_t x = sext(a, bits), y = sext(b, bits); a = mask(a, bits); b = mask(b, bits);
  switch (p) { case P_EQ: return a == b; case P_NE: return a != b; case P_UGT: return a > b; case P_UGE: return a >= b; case P_ULT: return a < b; case P_ULE: return a <= b; case P_SGT: return x > y; case P_SGE: return x >= y; case P_SLT: return x < y; default: return x <= y; }
}
static Val icmp(int p, Val a, Val b, int bits) {
  if (a.t == INT && b.t == INT) return Val(icmpc(p, a.u, b.u, bits));
  if (bits == 1) { ast x = tobool(a), y = tobool(b); switch (p) { case P_EQ: return mkbool(simp(Z3_mk_iff(C, x, y))); case P_NE: return mkbool(simp(bnot(Z3_mk_iff(C, x, y)))); case P_UGT: return mkbool(band(x, bnot(y))); case P_ULT: return mkbool(band(bnot(x), y)); default: unsupported("i1 comparison"); } }
  if (a.t == RB || b.t == RB) { // sign tests on the bits of a double
    if (a.t == RB && b.t == INT) { uint64_t z = nsi(0); if ((p == P_SLT && b.u == 0) || (p == P_SLE && b.u == ~0ULL)) return mkbool(nlt(a.u, z)); if ((p == P_SGT && b.u == ~0ULL) || (p == P_SGE && b.u == 0)) return mkbool(bnot(nlt(a.u, z)));
      if (p == P_EQ && mask(b.u << 1, 64) == 0) return mkbool(neq(a.u, z)); if (p == P_NE && mask(b.u << 1, 64) == 0) return mkbool(bnot(neq(a.u, z))); }
    unsupported("comparison of the bits of a number at " + where());
  }
  if (a.t == PSEL && b.t == INT) { PS s = psels[a.u]; return mkbool(bite(s.c, tobool(icmp(p, s.a, b, 64)), tobool(icmp(p, s.b, b, 64)))); }
  if (b.t == PSEL && a.t == INT) { PS s = psels[b.u]; return mkbool(bite(s.c, tobool(icmp(p, a, s.a, 64)), tobool(icmp(p, a, s.b, 64)))); }
  return mkbool(cmpite(p, tobv(a, bits), tobv(b, bits), 0));
}
[[noreturn]] static void ubfail(const char *m) { violation(std::string("arithmetic: ") + m, true); endpath(); }
static Val binop(int op, Val a, Val b, int bits) {
  if (a.t == INT && b.t == INT) {
    uint64_t x = a.u, y = b.u;
    switch (op) {
    case ADD: return Val(mask(x + y, bits)); case SUB: return Val(mask(x - y, bits)); case MUL: return Val(mask(x * y, bits));
    case UDIV: if (!y) ubfail("division by zero"); return Val(x / y); case UREM: if (!y) ubfail("division by zero"); return Val(x % y);
    case SDIV: case SREM: { if (!y) ubfail("division by zero"); int64_t p = sext(x, bits), q = sext(y, bits); if (q == -1) return Val(op == SDIV ? mask(-(uint64_t)p, bits) : 0); return Val(mask(op == SDIV ? p / q : p % q, bits)); }
    case SHL: return Val(y >= (unsigned)bits ? 0 : mask(x << y, bits)); case LSHR: return Val(y >= (unsigned)bits ? 0 : x >> y); case ASHR: return Val(mask((uint64_t)((int64_t)sext(x, bits) >> (y >= (unsigned)bits ? bits - 1 : y)), bits));
    case AND: return Val(x & y); case OR: return Val(x | y); default: return Val(x ^ y);
    }
  }
  if (bits == 1) { ast x = tobool(a), y = tobool(b); switch (op) { case AND: return mkbool(band(x, y)); case OR: return mkbool(bor(x, y)); case XOR: case ADD: case SUB: if (b.t == INT) return b.u & 1 ? mkbool(bnot(x)) : a; return mkbool(simp(Z3_mk_xor(C, x, y))); default: unsupported("i1 arithmetic"); } }
  if (a.t == PSEL) a = Val(conc(a, 64)); if (b.t == PSEL) b = Val(conc(b, 64));
  if (a.t == INT && b.t == INT) return binop(op, a, b, bits);
  if (a.t == RB && b.t == INT) {
    if (op == AND && b.u == 0x7fffffffffffffffULL) { Val v; v.t = RB; v.u = nabs_(a.u); return v; }
    if (op == XOR && b.u == 0x8000000000000000ULL) { Val v; v.t = RB; v.u = nneg(a.u); return v; }
    if ((op == LSHR && b.u == 63)) { return condb(mkbool(nlt(a.u, nsi(0)))) ? Val(1) : Val(0); }
    unsupported("operation on the bits of a number at " + where());
  }
  // push into if-then-else trees over constants: no bit-vector arithmetic is left
  if ((a.t == BV || a.t == INT || a.t == BOOL) && (b.t == BV || b.t == INT || b.t == BOOL)) {
    ast A_ = tobv(a, bits), B_ = tobv(b, bits), c, p, q; int na = tree(A_), nb = tree(B_); bool dv = op == UDIV || op == SDIV || op == UREM || op == SREM;
    if (na < 1000 && nb < 1000 && (na * nb <= 64) && !(dv && nb > 1)) {
      if (na > 1) { iteof(A_, c, p, q); Val u = binop(op, mkbv(p, bits), b, bits), v = binop(op, mkbv(q, bits), b, bits); return mkbv(bite(c, tobv(u, bits), tobv(v, bits)), bits); }
      if (nb > 1) { iteof(B_, c, p, q); Val u = binop(op, a, mkbv(p, bits), bits), v = binop(op, a, mkbv(q, bits), bits); return mkbv(bite(c, tobv(u, bits), tobv(v, bits)), bits); } } }
  ast x = tobv(a, bits), y = tobv(b, bits), r;
  switch (op) {
  case ADD: r = Z3_mk_bvadd(C, x, y); break; case SUB: r = Z3_mk_bvsub(C, x, y); break; case MUL: r = Z3_mk_bvmul(C, x, y); break;
  case UDIV: case SDIV: case UREM: case SREM: vassert(bnot(Z3_mk_eq(C, y, Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, bits)))), "arithmetic: division by zero");
    r = op == UDIV ? Z3_mk_bvudiv(C, x, y) : op == SDIV ? Z3_mk_bvsdiv(C, x, y) : op == UREM ? Z3_mk_bvurem(C, x, y) : Z3_mk_bvsrem(C, x, y); break;
  case SHL: r = Z3_mk_bvshl(C, x, y); break; case LSHR: r = Z3_mk_bvlshr(C, x, y); break; case ASHR: r = Z3_mk_bvashr(C, x, y); break;
  case AND: r = Z3_mk_bvand(C, x, y); break; case OR: r = Z3_mk_bvor(C, x, y); break; default: r = Z3_mk_bvxor(C, x, y);
  }
  return mkbv(simp(r), bits);
}
static Val fcmp(int p, Val a, Val b) {
  // LLVM predicates: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
  uint64_t x = a.u, y = b.u; bool nan = nums[x].k == NNAN || nums[y].k == NNAN;
  if (nan) return Val((p >> 3) & 1);
  p &= 7; if (p == 0) return Val((uint64_t)0); if (p == 7) return Val(1);
  switch (p) { case 1: return mkbool(simp(neq(x, y))); case 2: return mkbool(simp(nlt(y, x))); case 3: return mkbool(simp(nle(y, x))); case 4: return mkbool(simp(nlt(x, y))); case 5: return mkbool(simp(nle(x, y))); default: return mkbool(simp(bnot(neq(x, y)))); }
}
static Val bvcast(int op, Val a, Ty s, Ty d) {
  if (a.t == INT) return op == TRUNC ? Val(mask(a.u, d.bits)) : op == ZEXT ? a : Val(mask(sext(a.u, s.bits), d.bits));
  if (a.t == PSEL || a.t == RB) { if (a.t == PSEL) return bvcast(op, Val(conc(a, 64)), s, d); unsupported("conversion of the bits of a number at " + where()); }
  if (s.bits == 1) { Z3_sort w = Z3_mk_bv_sort(C, d.bits); return vast(Z3_mk_ite(C, a.a, Z3_mk_int(C, op == ZEXT ? 1 : -1, w), Z3_mk_int(C, 0, w)), BV); }
  ast x = a.a, c, p, q; if (iteof(x, c, p, q) ) { Val u = bvcast(op, mkbv(p, s.bits), s, d), v = bvcast(op, mkbv(q, s.bits), s, d); if (d.bits == 1) return mkbool(bite(c, tobool(u), tobool(v))); return vast(bite(c, tobv(u, d.bits), tobv(v, d.bits)), BV); }
  ast r = op == TRUNC ? Z3_mk_extract(C, d.bits - 1, 0, x) : op == ZEXT ? Z3_mk_zero_ext(C, d.bits - s.bits, x) : Z3_mk_sign_ext(C, d.bits - s.bits, x);
  return mkbv(simp(r), d.bits);
}
static Val select(Val c, Val a, Val b, Ty t) {
  if (c.t == INT) return c.u & 1 ? a : b;
  if (t.k == KFP) { return vreal(nite(c.a, a.u, b.u)); }
  if (t.k == KPTR) { if (a.t == INT && b.t == INT && a.u == b.u) return a; if ((a.t == INT || a.t == PSEL) && (b.t == INT || b.t == PSEL)) { psels.push_back({c.a, a, b}); Val v; v.t = PSEL; v.u = psels.size() - 1; return v; } return decide(c.a) ? a : b; }
  if (t.k == KINT) { if (t.bits == 1) return mkbool(bite(c.a, tobool(a), tobool(b))); if (a.t == RB || b.t == RB || a.t == PSEL || b.t == PSEL) return decide(c.a) ? a : b; return mkbv(bite(c.a, tobv(a, t.bits), tobv(b, t.bits)), t.bits); }
  return decide(c.a) ? a : b;
}
uint64_t handle_merge(ast c, uint64_t a, uint64_t b, bool &ok);
Val loadv(Val p, Ty t) {
  if (p.t == PSEL) {
    PS s = psels[p.u]; Val x = loadv(s.a, t), y = loadv(s.b, t);
    if (t.k == KFP) return vreal(nite(s.c, x.u, y.u));
    if (x.t == INT && y.t == INT && x.u == y.u) return x;
    if (x.t == INT && y.t == INT && t.bytes == 8) { bool ok; uint64_t h = handle_merge(s.c, x.u, y.u, ok); if (ok) return Val(h); return decide(s.c) ? x : y; }
    return select(vast(s.c, BOOL), x, y, t);
  }
  return mem_load(conc(p, 64), t);
}
static Val cv(const Cst &k) {
  switch (k.k) { case Cst::INT: return Val(k.u); case Cst::FP: if (k.fp == "nan") return vreal(nspecial(NNAN)); if (k.fp == "inf") return vreal(nspecial(NPINF)); if (k.fp == "-inf") return vreal(nspecial(NNINF)); return vreal(ndouble(strtold(k.fp.c_str(), 0)));
  case Cst::ADDR_F: return Val(FNBASE + 16 * k.u); case Cst::ADDR_G: return Val(gaddr[k.u] + k.off); case Cst::AGG: { std::vector<Val> v; for (int e : k.elts) v.push_back(cv(P.csts[-1 - e])); aggs.push_back(v); Val r; r.t = AGG; r.u = aggs.size() - 1; return r; }
  default: if (k.ty.k == KFP) return vreal(nsi(0)); if (k.ty.k == KAGG) { aggs.push_back(std::vector<Val>(8)); Val r; r.t = AGG; r.u = aggs.size() - 1; return r; } return Val((uint64_t)0); }
}
static Val run(int fid, std::vector<Val> &args);
static Val callfn(int id, std::vector<Val> &args) {
  Func &f = P.fns[id];
  if (bcache[id]) return (*bcache[id])(args);
  if (!f.defined) {
    if (f.name.compare(0, 13, "llvm.lifetime") == 0 || f.name.compare(0, 8, "llvm.dbg") == 0 || f.name.compare(0, 17, "llvm.experimental") == 0) return Val();
    size_t d = f.name.rfind('.'); std::string base = f.name; (void)d;
    while (!builtins.count(base)) { size_t k = base.rfind('.'); if (k == std::string::npos || k <= 4) unsupported("call to external function " + f.name); base = base.substr(0, k); }
    bcache[id] = &builtins[base]; return (*bcache[id])(args);
  }
  return run(id, args);
}
Val callptr(uint64_t p, std::vector<Val> &args) {
  if (p < FNBASE || p >= FNBASE + 16 * P.fns.size() || (p & 15)) { violation("memory safety: call through an invalid function pointer", true); endpath(); }
  return callfn((p - FNBASE) / 16, args);
}
int callbits; // width of the first argument of the current builtin
static Val run(int fid, std::vector<Val> &args) {
  Func &F = P.fns[fid]; ST->fn[fid < 20000 ? fid : 0] = 1;
  if (stack.size() > 800) unsupported("recursion too deep at " + where());
  Frame fr; fr.f = &F; fr.args = &args; fr.r.resize(F.nregs + 1); for (int i = 0; i < F.nargs && i < (int)args.size(); i++) fr.r[i] = args[i];
  stack.push_back(&fr);
  Val *R = fr.r.data(); auto V = [&](int o) -> Val { return o >= 0 ? R[o] : cvals[-1 - o]; };
  int pc = 0; Val ret;
  auto go = [&](int e) { Edge &E = F.edges[e]; size_t n = E.moves.size(); if (n == 1) R[E.moves[0].dst] = V(E.moves[0].src); else if (n) { Val t[64]; if (n > 64) unsupported("phi"); for (size_t i = 0; i < n; i++) t[i] = V(E.moves[i].src); for (size_t i = 0; i < n; i++) R[E.moves[i].dst] = t[i]; } pc = E.target; };
  for (;;) {
    const Inst &I = F.code[pc++]; icount++; if (I.line) fr.line = I.line;
    if ((icount & 0xfffff) == 0) { if (ST->stop) endpath(); if (now() > ST->deadline) { __sync_fetch_and_add(&ST->timeouts, 1); ST->stop = 1; endpath(); } if (icount > 400000000L) unsupported("path too long"); }
    switch (I.op) {
    case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: R[I.dst] = binop(I.op, V(I.a), V(I.b), I.ty.bits); break;
    case ICMP: R[I.dst] = icmp(I.pred, V(I.a), V(I.b), I.sty.bits); break;
    case FADD: case FSUB: case FMUL: case FDIV: { uint64_t a = V(I.a).u, b = V(I.b).u, r = I.op == FADD ? nadd(a, b) : I.op == FSUB ? nsub(a, b) : I.op == FMUL ? nmul(a, b) : ndiv(a, b); if (FPMODE) r = nround(r, 2); R[I.dst] = vreal(r); break; }
    case FNEG: R[I.dst] = vreal(nneg(V(I.a).u)); break;
    case FCMP: R[I.dst] = fcmp(I.pred, V(I.a), V(I.b)); break;
    case TRUNC: case ZEXT: case SEXT: R[I.dst] = bvcast(I.op, V(I.a), I.sty, I.ty); break;
    case FPTRUNC: { uint64_t a = V(I.a).u; R[I.dst] = vreal(FPMODE ? nround(a, 2) : a); break; }
    case FPEXT: R[I.dst] = V(I.a); break;
    case SITOFP: case UITOFP: { Val a = V(I.a); if (a.t == INT) { if (I.op == SITOFP) R[I.dst] = vreal(nsi(sext(a.u, I.sty.bits))); else { mpq_t q; mpq_init(q); mpz_set_ui(mpq_numref(q), a.u); R[I.dst] = vreal(nq(q)); mpq_clear(q); } }
        else if (a.t == BOOL) { R[I.dst] = vreal(nite(a.a, nsi(I.op == SITOFP ? -1 : 1), nsi(0))); }
        else { ast x = tobv(a, I.sty.bits); R[I.dst] = vreal(nsym(Z3_mk_int2real(C, Z3_mk_bv2int(C, x, I.op == SITOFP)), true)); } break; }
    case FPTOSI: case FPTOUI: { uint64_t a = V(I.a).u; if (!nfin(a)) ubfail("conversion of an infinity or NaN to an integer"); a = ntrunc(a); a = nconc(a); mpz_ptr z = mpq_numref(nums[a].q); if (mpz_sizeinbase(z, 2) > 63) ubfail("conversion of a number too large for an integer"); R[I.dst] = Val(mask((uint64_t)mpz_get_si(z), I.ty.bits)); break; }
    case MOVE: { Val a = V(I.a); if (I.sty.k == KFP && I.ty.k == KINT) { if (a.t == REAL) a.t = RB; if (nums[a.u].k != NS) { double d; Num &n = nums[a.u]; if (n.k == NPINF) d = INFINITY; else if (n.k == NNINF) d = -INFINITY; else if (n.k == NNAN) d = NAN; else d = mpq_get_d(n.q); if (I.sty.bits != 64) unsupported("bit cast"); uint64_t u; memcpy(&u, &d, 8); a = Val(u); } }
        else if (I.sty.k == KINT && I.ty.k == KFP) { if (a.t == RB) a.t = REAL; else if (a.t == INT && I.ty.bits == 64) { double d; memcpy(&d, &a.u, 8); a = vreal(ndouble(d)); } else unsupported("bit cast to floating point at " + where()); }
        R[I.dst] = a; break; }
    case ALLOCA: { uint64_t n = conc(V(I.a), I.sty.bits) * I.c; uint64_t p = mem_alloc(n, 1); fr.allocas.push_back(p); R[I.dst] = Val(p); break; }
    case LOAD: R[I.dst] = loadv(V(I.a), I.ty); if (I.ty.k == KVOID) unsupported("load at " + where()); break;
    case STORE: mem_store(conc(V(I.b), 64), V(I.a), I.ty); break;
    case GEP: { Val b = V(I.a); const Gep &g = F.geps[I.ext]; uint64_t off = g.off; for (size_t i = 0; i < g.idx.size(); i++) off += sext(conc(V(g.idx[i].first), g.bits[i]), g.bits[i]) * g.idx[i].second;
        std::function<Val(Val)> addo = [&](Val p) -> Val { if (p.t == PSEL) { PS s = psels[p.u]; Val x = addo(s.a), y = addo(s.b); psels.push_back({s.c, x, y}); Val v; v.t = PSEL; v.u = psels.size() - 1; return v; } return Val(conc(p, 64) + off); };
        if (b.t == INT) R[I.dst] = Val(b.u + off); else R[I.dst] = off == 0 ? b : addo(b); break; }
    case SELECT: R[I.dst] = select(V(I.a), V(I.b), V(I.c), I.ty); break;
    case BR: go(I.b); break;
    case CBR: go(condb(V(I.a)) ? I.b : I.c); break;
    case SWITCH: { Val v = V(I.a); const Sw &s = F.sws[I.ext]; int e = s.def; for (size_t i = 0; i < s.vals.size(); i++) if (condb(icmp(P_EQ, v, Val(s.vals[i]), I.sty.bits))) { e = s.edges[i]; break; } go(e); break; }
    case RET: if (I.ty.k != KVOID) ret = V(I.a); goto done;
    case UNREACHABLE: violation("control reached an unreachable point", true); endpath();
    case CALL: {
      const Call &c = F.calls[I.ext]; std::vector<Val> a; a.reserve(c.args.size()); std::vector<uint64_t> tmp;
      for (size_t i = 0; i < c.args.size(); i++) { Val v = V(c.args[i]); if (c.byval[i]) { uint64_t p = mem_alloc(c.byval[i], 1); mem_copy(p, conc(v, 64), c.byval[i]); tmp.push_back(p); v = Val(p); } a.push_back(v); }
      callbits = c.tys.empty() ? 0 : c.tys[0].bits;
      Val r = c.callee >= 0 ? callfn(c.callee, a) : callptr(conc(V(I.a), 64), a);
      for (uint64_t p : tmp) mem_release(p);
      if (I.dst >= 0) R[I.dst] = r; break; }
    case EXTRACT: { Val a = V(I.a); for (unsigned k : F.idxs[I.ext]) a = aggs[a.u][k]; R[I.dst] = a; break; }
    case INSERT: { Val a = V(I.a); if (F.idxs[I.ext].size() != 1) unsupported("nested insertvalue"); std::vector<Val> v; if (a.t == AGG) v = aggs[a.u]; v.resize(I.c); v[F.idxs[I.ext][0]] = V(I.b); aggs.push_back(v); Val r; r.t = AGG; r.u = aggs.size() - 1; R[I.dst] = r; break; }
    default: unsupported("instruction " + (I.op == UNSUP ? F.msgs[I.ext] : std::to_string(I.op)) + " at " + where());
    }
  }
done:
  for (uint64_t p : fr.allocas) mem_release(p);
  stack.pop_back(); return ret;
}
void initsolver(); void initlib(); [[noreturn]] void explore(void (*)()); static int entryid; static void start() { std::vector<Val> none; run(entryid, none); }
void reset_exec() { stack.clear(); }
static std::string outp, entry; static double t0;
static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if ((unsigned char)c >= 32) r += c; } return r + "\""; }
static void atend() {
  FILE *f = fopen(outp.c_str(), "w");
  fprintf(f, "{\"paths\":%ld,\"forks\":%ld,\"branches\":%ld,\"queries\":%ld,\"unknown\":%ld,\"asserts\":%ld,\"instrs\":%ld,\"cut\":%ld,\"unsupported\":%ld,\"crashed\":%ld,\"errors\":%ld,\"timeouts\":%ld,\"covered\":%ld,\"concretised\":%ld,\"solver_s\":%.2f,\"wall_s\":%.2f,\"nviol\":%d,\n", ST->paths, ST->forks, ST->branches, ST->queries, ST->unknown, ST->asserts, ST->instrs, ST->killed, ST->unsup, ST->crashed, ST->errors, ST->timeouts, ST->covered, ST->concretised, ST->solver, now() - t0, ST->nviol);
  fprintf(f, "\"messages\":["); for (int i = 0; i < ST->nmsg; i++) fprintf(f, "%s[%s,%ld,%ld]", i ? "," : "", js(ST->msg[i].m).c_str(), ST->msg[i].n, ST->msg[i].fails);
  fprintf(f, "],\n\"uns\":["); for (int i = 0; i < ST->nuns; i++) fprintf(f, "%s%s", i ? "," : "", js(ST->uns[i]).c_str());
  fprintf(f, "],\n\"cuts\":["); for (int i = 0; i < ST->ncut; i++) fprintf(f, "%s[%s,%ld]", i ? "," : "", js(ST->cut[i].m).c_str(), ST->cut[i].n);
  fprintf(f, "],\n\"functions\":["); bool first = true; for (size_t i = 0; i < P.fns.size() && i < 20000; i++) if (ST->fn[i]) { fprintf(f, "%s%s", first ? "" : ",", js(P.fns[i].name + "@" + P.fns[i].file).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
int main(int argc, char **argv) {
  // vsx prog.bc entry out.json cexdir [fp=exact|up] [time=s] [paths=n]
  if (argc < 5) return 2; outp = argv[3]; entry = argv[2]; vdir = argv[4]; t0 = now();
  { struct rlimit l; l.rlim_cur = l.rlim_max = 6UL << 30; setrlimit(RLIMIT_AS, &l); }
  std::string err; if (!load(argv[1], P, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 2; }
  void tokput(); initsolver(); double tl = 600; ST->maxpaths = 10000000; std::vector<std::string> ex;
  for (int i = 5; i < argc; i++) { std::string a = argv[i]; if (a == "fp=up") FPMODE = 1; else if (a.compare(0, 5, "time=") == 0) tl = atof(a.c_str() + 5); else if (a.compare(0, 6, "paths=") == 0) ST->maxpaths = atol(a.c_str() + 6); }
  ST->deadline = now() + tl; initlib();
  for (auto &g : P.globs) gaddr.push_back(mem_alloc(g.external ? 256 : g.size ? g.size : 1, 0));
  for (size_t i = 0; i < P.globs.size(); i++) { Glob &g = P.globs[i]; if (g.external) { mem_set(gaddr[i], 0, 256); continue; } mem_set(gaddr[i], 0, g.size);
    for (size_t k = 0; k < g.bytes.size(); k++) if (g.bytes[k]) mem_set(gaddr[i] + k, g.bytes[k], 1);
    for (auto &r : g.rel) w64(gaddr[i] + r.off, (r.fn ? FNBASE + 16 * r.id : gaddr[r.id]) + r.add);
    g.bytes.clear(); }
  for (size_t i = 0; i < P.globs.size(); i++) if (P.globs[i].isconst) objs[i + 1].kind = 3;
  bcache.resize(P.fns.size(), nullptr); for (size_t i = 0; i < P.fns.size(); i++) if (!P.fns[i].defined || P.fns[i].name.compare(0, 3, "vp_") == 0 || P.fns[i].name == "ap_fpu_init") { auto it = builtins.find(P.fns[i].name); if (it != builtins.end()) bcache[i] = &it->second; }
  for (auto &k : P.csts) cvals.push_back(cv(k));
  if (!P.fid.count(entry) || !P.fns[P.fid[entry]].defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  // supervisor: the exploration runs in a child group; whatever happens, the verdict is written here
  { fflush(0); pid_t p = fork(); if (p < 0) return 2;
    if (p) { double lim = ST->deadline + 15; int st; for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "status %x\n", st); __sync_fetch_and_add(&ST->crashed, 1); } break; } if (now() > lim) { __sync_fetch_and_add(&ST->timeouts, 1); break; } usleep(3000); }
      kill(-p, SIGKILL); if (now() > lim) waitpid(p, &st, 0); while (ST->held > 0) tokput(); atend(); return 0; }
    setpgid(0, 0); }
  if (P.fns[P.fid[entry]].nargs) return 2;
  entryid = P.fid[entry]; void snapshot_mem(); snapshot_mem(); explore(start);
}
// the caller's variable arguments as an overflow area of 8-byte slots (both register areas are marked as used up)
void va_start_(uint64_t ap) {
  Frame *f = stack.back(); size_t n = f->args->size(), k = f->f->nargs; uint64_t area = mem_alloc(8 * (n > k ? n - k : 1), 1); f->allocas.push_back(area);
  Ty d; d.k = KFP; d.bits = 64; d.bytes = 8; Ty i; i.k = KINT; i.bits = 64; i.bytes = 8;
  for (size_t j = k; j < n; j++) { Val v = (*f->args)[j]; if (v.t == REAL) mem_store(area + 8 * (j - k), v, d); else if (v.t == INT) mem_store(area + 8 * (j - k), v, i); else if (v.t == PSEL) mem_store(area + 8 * (j - k), Val(conc(v, 64)), i); else unsupported("symbolic variable argument"); }
  w64(ap, 48 | (176ULL << 32)); w64(ap + 8, area); w64(ap + 16, 0);
}
Val icmp_ne0(Val v, int bits) { return icmp(P_NE, v, Val((uint64_t)0), bits); }
Val icmp_p(int p, Val a, Val b, int bits) { return icmp(p, a, b, bits); }
Val binop_p(int o, Val a, Val b, int bits) { return binop(o, a, b, bits); }
Val select_p(Val c, Val a, Val b, int bits) { Ty t; t.k = KINT; t.bits = bits; t.bytes = bits / 8; return select(c, a, b, t); }
