#include "mem.h"
std::vector<Obj> objs(1); Prog P;
static const uint64_t BASE = 0x100000000000ULL, CAP = 1ULL << 30;
static uint8_t *mem, *st; static uint32_t *gran; static uint64_t top = 64;
struct Cell { uint32_t size; Val v; };
static std::unordered_map<uint64_t, Cell> cells;
// state at the start of the program, restored before each path
static uint64_t top0; static size_t objs0; static size_t aggs0; static std::vector<uint8_t> mem0, st0;
void snapshot_mem() { if (!cells.empty()) { fprintf(stderr, "engine: symbolic globals\n"); _exit(9); } top0 = top; objs0 = objs.size(); aggs0 = aggs.size(); mem0.assign(mem, mem + top); st0.assign(st, st + top); }
void reset_mem() {
  cells.clear(); if (!mem) return;
  memcpy(mem, mem0.data(), top0); memcpy(st, st0.data(), top0); memset(mem + top0, 0, top - top0); memset(st + top0, 0, top - top0); memset(gran + top0 / 16, 0, (top - top0) / 16 * 4 + 4);
  top = top0; objs.resize(objs0); aggs.resize(aggs0); psels.clear();
}
static void init() {
  mem = (uint8_t *)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  st = (uint8_t *)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gran = (uint32_t *)mmap(0, CAP / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
uint64_t mem_alloc(uint64_t n, int kind) {
  if (!mem) init();
  uint64_t sz = (n + 15) / 16 * 16; if (n > (1u << 28) || top + sz + 64 > CAP) unsupported("allocation too large at " + where());
  uint64_t a = top; top += sz + 32; 
  Obj o; o.base = BASE + a; o.size = n; o.kind = kind; o.alive = true; objs.push_back(o);
  for (uint64_t g = a / 16; g < (a + sz + 16) / 16; g++) gran[g] = objs.size() - 1;
  return BASE + a;
}
static Obj *find(uint64_t a) { if (a < BASE || a >= BASE + CAP) return nullptr; uint32_t g = gran[(a - BASE) / 16]; return g ? &objs[g] : nullptr; }
[[noreturn]] static void memerr(const std::string &m) { violation("memory safety: " + m, true); endpath(); }
void chk(uint64_t a, uint64_t n, bool w) {
  Obj *o = find(a);
  if (!o) memerr(a < 4096 ? "null pointer dereference" : "access outside any object");
  if (!o->alive) memerr(o->kind == 1 ? "use of a dead local variable" : "use after free");
  if (a < o->base || a + n > o->base + o->size) memerr(w ? "out-of-bounds write" : "out-of-bounds read");
  if (w && o->kind == 3) memerr("write to a constant");
}
void mem_free(uint64_t a, const char *what) {
  if (!a) return; Obj *o = find(a);
  if (!o || o->base != a || o->kind != 2) memerr(std::string("invalid pointer passed to ") + what);
  if (!o->alive) memerr("double free");
  o->alive = false;
}
void mem_release(uint64_t a) { Obj *o = find(a); if (o) o->alive = false; }
long live_heap() { long n = 0; for (auto &o : objs) if (o.kind == 2 && o.alive && o.base) n++; return n; }
static std::pair<uint64_t, Cell> cellat(uint64_t a) { // the cell covering offset a
  for (int k = 0; k < 16; k++) { auto it = cells.find(a - k); if (it != cells.end() && it->second.size > (uint32_t)k) return {a - k, it->second}; }
  fprintf(stderr, "engine: lost cell\n"); _exit(9);
}
static ast bytebv(ast a, int i) { return Z3_mk_extract(C, 8 * i + 7, 8 * i, a); }
static void split(uint64_t s) { // break a cell into bytes
  Cell c = cells[s]; if (c.size == 1) return;
  if (c.v.t != BV) unsupported("partial access to a symbolic number at " + where());
  cells.erase(s); for (uint32_t i = 0; i < c.size; i++) { cells[s + i] = {1, vast(simp(bytebv(c.v.a, i)), BV)}; }
}
static void clearcells(uint64_t o, uint64_t n) {
  for (uint64_t i = o; i < o + n; i++) if (st[i] == 2) {
    auto c = cellat(i);
    if (c.first >= o && c.first + c.second.size <= o + n) { for (uint32_t k = 0; k < c.second.size; k++) st[c.first + k] = 0; cells.erase(c.first); }
    else { if (c.second.v.t != BV) { // overwriting part of a number: the rest becomes unknown
        cells.erase(c.first); for (uint32_t k = 0; k < c.second.size; k++) st[c.first + k] = 0; }
      else { split(c.first); st[i] = 0; cells.erase(i); } }
  }
}
static bool isdbl(uint64_t i, long double &d, bool ext) {
  Num &n = nums[i]; if (n.k == NPINF) { d = INFINITY; return true; } if (n.k == NNINF) { d = -INFINITY; return true; } if (n.k == NNAN) { d = NAN; return true; }
  if (n.k != NQ) return false;
  if (mpz_sizeinbase(mpq_numref(n.q), 2) > (ext ? 64 : 53) && mpz_popcount(mpq_numref(n.q)) > 0) { size_t tz = mpz_scan1(mpq_numref(n.q), 0); if (mpz_sizeinbase(mpq_numref(n.q), 2) - tz > (ext ? 64u : 53u)) return false; }
  if (mpz_popcount(mpq_denref(n.q)) != 1) return false;
  long dn = mpz_sizeinbase(mpq_denref(n.q), 2), nn = mpz_sizeinbase(mpq_numref(n.q), 2); if (dn > 1000 || nn > 1000) { if (nn - dn > 1020 || dn - nn > 1000) return false; }
  // exact: numerator has few bits, denominator is a power of two
  mpz_t t; mpz_init_set(t, mpq_numref(n.q)); long e = -(dn - 1); if (mpz_sgn(t)) { size_t tz = mpz_scan1(t, 0); mpz_tdiv_q_2exp(t, t, tz); e += tz; }
  unsigned long u = mpz_get_ui(t); d = ldexpl((long double)u, e); if (mpz_sgn(t) < 0) d = -d; mpz_clear(t);
  return true;
}
ast tobv(Val v, int bits) {
  if (v.t == INT) return Z3_mk_unsigned_int64(C, bits == 64 ? v.u : v.u & ((1ULL << bits) - 1), Z3_mk_bv_sort(C, bits));
  if (v.t == BV) return v.a;
  if (v.t == BOOL) return Z3_mk_ite(C, v.a, Z3_mk_int(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_int(C, 0, Z3_mk_bv_sort(C, 1)));
  if (v.t == PSEL) return Z3_mk_ite(C, psels[v.u].c, tobv(psels[v.u].a, 64), tobv(psels[v.u].b, 64));
  unsupported("bits of a number at " + where());
}
ast tobool(Val v) { if (v.t == INT) return v.u & 1 ? bTrue() : bFalse(); if (v.t == BOOL) return v.a; if (v.t == BV) return Z3_mk_eq(C, v.a, Z3_mk_int(C, 1, Z3_mk_bv_sort(C, 1))); unsupported("boolean"); }
Val mkbool(ast a);
Val mkbv(ast a, int bits) { if (bits == 1) return mkbool(simp(Z3_mk_eq(C, a, Z3_mk_int(C, 1, Z3_mk_bv_sort(C, 1))))); if (Z3_is_numeral_ast(C, a)) { uint64_t u; if (Z3_get_numeral_uint64(C, a, &u)) return Val(u); } (void)bits; return vast(a, BV); }
Val mkbool(ast a) { Z3_lbool b = Z3_get_bool_value(C, a); if (b == Z3_L_TRUE) return Val(1); if (b == Z3_L_FALSE) return Val((uint64_t)0); return vast(a, BOOL); }
bool condb(Val v) { if (v.t == INT) return v.u & 1; return decide(tobool(v)); }
uint64_t concbv(ast a, int bits);
uint64_t conc(Val v, int bits) {
  if (v.t == INT) return v.u; if (v.t == BOOL) return decide(v.a);
  if (v.t == PSEL) { PS p = psels[v.u]; return decide(p.c) ? conc(p.a, 64) : conc(p.b, 64); }
  if (v.t == BV) return concbv(v.a, bits);
  unsupported("concrete value of a number at " + where());
}
Val mem_load(uint64_t a, Ty t) {
  uint64_t n = t.bytes; chk(a, n, false); uint64_t o = a - BASE; INCM:
  bool allc = true; for (uint64_t i = 0; i < n; i++) if (st[o + i] != 1) { allc = false; break; }
  if (allc) {
    if (t.k == KFP) { long double d; if (n == 8) { double x; memcpy(&x, mem + o, 8); d = x; } else if (n == 4) { float x; memcpy(&x, mem + o, 4); d = x; } else { d = 0; memcpy(&d, mem + o, 10); } return vreal(ndouble(d)); }
    if (n > 8) unsupported("wide load at " + where());
    uint64_t u = 0; memcpy(&u, mem + o, n); if (t.bits < 64) u &= (1ULL << t.bits) - 1; return Val(u);
  }
  if (st[o] == 2) { auto it = cells.find(o); if (it != cells.end() && it->second.size == n) { Val v = it->second.v;
      if (t.k == KFP) { if (v.t == RB) v.t = REAL; if (v.t == REAL) return v; unsupported("floating-point load of symbolic bits at " + where()); }
      if (v.t == REAL) v.t = RB; if (v.t == BV && t.bits < 8 * n) return mkbv(simp(Z3_mk_extract(C, t.bits - 1, 0, v.a)), t.bits); 
      return v; } }
  if (t.k == KFP) { bool alln = true; for (uint64_t i = 0; i < n; i++) if (st[o + i] != 0) alln = false;
    if (alln) { Val v = vreal(nsym(fresh("uninit", RS), false)); mem_store(a, v, t); return v; }
    unsupported("floating-point load of mixed bytes at " + where()); }
  // bytewise
  if (n > 8) unsupported("wide load of symbolic bytes at " + where());
  ast r = nullptr;
  for (uint64_t i = 0; i < n; i++) {
    ast b;
    if (st[o + i] == 1) b = Z3_mk_unsigned_int64(C, mem[o + i], Z3_mk_bv_sort(C, 8));
    else if (st[o + i] == 0) { b = fresh("uninit", Z3_mk_bv_sort(C, 8)); st[o + i] = 2; cells[o + i] = {1, vast(b, BV)}; }
    else { auto c = cellat(o + i); if (c.second.v.t == PSEL) { uint64_t v = conc(c.second.v, 64); clearcells(c.first, c.second.size); Ty p; p.k = KPTR; p.bits = 64; p.bytes = 8; mem_store(BASE + c.first, Val(v), p); goto INCM; }
      if (c.second.v.t != BV) unsupported("partial read of a symbolic number at " + where()); b = bytebv(c.second.v.a, o + i - c.first); }
    r = r ? Z3_mk_concat(C, b, r) : b;
  }
  r = simp(r); if (t.bits < 8 * n) r = simp(Z3_mk_extract(C, t.bits - 1, 0, r));
  if (t.bits == 1) return mkbool(simp(Z3_mk_eq(C, r, Z3_mk_int(C, 1, Z3_mk_bv_sort(C, 1)))));
  return mkbv(r, t.bits);
}
void mem_store(uint64_t a, Val v, Ty t) {
  uint64_t n = t.bytes; chk(a, n, true); uint64_t o = a - BASE;
  for (uint64_t i = 0; i < n; i++) if (st[o + i] == 2) { clearcells(o, n); break; }
  if (v.t == REAL || v.t == RB) { long double d; if (isdbl(v.u, d, n == 10 || n == 16)) {
      if (n == 8) { double x = d; memcpy(mem + o, &x, 8); } else if (n == 4) { float x = d; memcpy(mem + o, &x, 4); } else memcpy(mem + o, &d, 10);
      memset(st + o, 1, n); return; } }
  if (v.t == INT) { if (n > 8) { memset(mem + o, 0, n); } memcpy(mem + o, &v.u, n < 8 ? n : 8); memset(st + o, 1, n); return; }
  if (v.t == AGG) unsupported("store of an aggregate at " + where());
  if (v.t == BOOL) v = vast(simp(Z3_mk_ite(C, v.a, Z3_mk_int(C, 1, Z3_mk_bv_sort(C, 8)), Z3_mk_int(C, 0, Z3_mk_bv_sort(C, 8)))), BV);
  else if (v.t == BV && t.bits < 8 * n) v = vast(simp(Z3_mk_zero_ext(C, 8 * n - t.bits, v.a)), BV);
  memset(st + o, 2, n); cells[o] = {(uint32_t)n, v};
}
void mem_copy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; chk(s, n, false); chk(d, n, true); uint64_t so = s - BASE, dof = d - BASE;
  std::vector<std::pair<uint64_t, Cell>> mv;
  for (uint64_t i = 0; i < n; i++) if (st[so + i] == 2) {
    auto c = cellat(so + i);
    if (c.first < so || c.first + c.second.size > so + n) { split(c.first); c = cellat(so + i); }
    mv.push_back({c.first - so, c.second}); i = c.first - so + c.second.size - 1;
  }
  std::vector<uint8_t> b(mem + so, mem + so + n), t(st + so, st + so + n);
  clearcells(dof, n); memcpy(mem + dof, b.data(), n); memcpy(st + dof, t.data(), n);
  for (auto &m : mv) cells[dof + m.first] = m.second;
}
void mem_set(uint64_t d, int c, uint64_t n) { if (!n) return; chk(d, n, true); uint64_t o = d - BASE; clearcells(o, n); memset(mem + o, c, n); memset(st + o, 1, n); }
static Ty i64() { Ty t; t.k = KINT; t.bits = 64; t.bytes = 8; return t; }
uint64_t r64(uint64_t a) { return conc(mem_load(a, i64()), 64); }
void w64(uint64_t a, uint64_t v) { mem_store(a, Val(v), i64()); }
int mem_byte(uint64_t a) { Ty t; t.k = KINT; t.bits = 8; t.bytes = 1; return conc(mem_load(a, t), 8); }
std::string mem_str(uint64_t a) { std::string s; for (;; a++) { int c = mem_byte(a); if (!c) return s; s += (char)c; } }
bool mem_ok(uint64_t a, uint64_t n) { Obj *o = find(a); return o && o->alive && a >= o->base && a + n <= o->base + o->size; }
