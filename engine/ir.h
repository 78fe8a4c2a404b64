// Compact form of the LLVM IR of the program under check.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
enum Op : uint16_t {
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, ICMP,
  FADD, FSUB, FMUL, FDIV, FREM, FNEG, FCMP,
  TRUNC, ZEXT, SEXT, FPTRUNC, FPEXT, FPTOUI, FPTOSI, UITOFP, SITOFP, MOVE /* bitcast, ptrtoint, inttoptr, freeze */,
  ALLOCA, LOAD, STORE, GEP, SELECT, BR, CBR, SWITCH, RET, CALL, UNREACHABLE, EXTRACT, INSERT, UNSUP
};
enum Kind : uint8_t { KVOID, KINT, KPTR, KFP, KAGG };
struct Ty { uint8_t k = KVOID; uint32_t bits = 0, bytes = 0; };
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
// operands: >=0 register, <0 constant -1-i
struct Inst {
  uint16_t op; uint8_t pred = 0; Ty ty, sty; // result type, source type
  int dst = -1, a = 0, b = 0, c = 0; int ext = -1; uint32_t line = 0;
};
struct Move { int dst, src; };
struct Edge { int target; std::vector<Move> moves; };
struct Call { int callee = -1; /* function id, or -1: indirect through a */ std::vector<int> args; std::vector<uint32_t> byval; std::vector<Ty> tys; };
struct Gep { int64_t off = 0; std::vector<std::pair<int,int64_t>> idx; std::vector<uint32_t> bits; };
struct Sw { std::vector<uint64_t> vals; std::vector<int> edges; int def; };
struct Func {
  std::string name, file; bool defined = false, vararg = false; int nregs = 0, nargs = 0;
  Ty ret; std::vector<Inst> code; std::vector<Edge> edges; std::vector<Call> calls; std::vector<Gep> geps; std::vector<Sw> sws;
  std::vector<std::vector<unsigned>> idxs; std::vector<std::string> msgs;
};
// constants
struct Cst { enum { INT, FP, ADDR_G, ADDR_F, UNDEF, AGG } k; uint64_t u = 0; std::string fp; int64_t off = 0; std::vector<int> elts; Ty ty; };
// global initialisers: bytes plus relocations
struct Reloc { uint64_t off; bool fn; int id; int64_t add; };
struct Glob { std::string name; uint64_t size = 0; bool isconst = false, external = false; std::vector<uint8_t> bytes; std::vector<Reloc> rel; };
struct Prog { std::vector<Func> fns; std::vector<Cst> csts; std::vector<Glob> globs; std::map<std::string,int> fid, gid; };
bool load(const char *path, Prog &p, std::string &err);
