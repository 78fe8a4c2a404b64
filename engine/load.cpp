#include "ir.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <memory>
using namespace llvm;
namespace {
struct Loader {
  Prog &P; const DataLayout *DL = nullptr; std::string err;
  std::map<const Constant *, int> cmap; std::map<const Value *, int> fmap, gmap;
  Loader(Prog &p) : P(p) {}
  Ty ty(Type *t) {
    Ty r;
    if (t->isVoidTy()) return r;
    if (t->isIntegerTy()) { r.k = KINT; r.bits = t->getIntegerBitWidth(); r.bytes = DL->getTypeStoreSize(t); return r; }
    if (t->isPointerTy()) { r.k = KPTR; r.bits = 64; r.bytes = 8; return r; }
    if (t->isFloatingPointTy()) { r.k = KFP; r.bits = t->getPrimitiveSizeInBits(); r.bytes = DL->getTypeStoreSize(t); return r; }
    if (t->isStructTy() || t->isArrayTy()) { r.k = KAGG; r.bytes = DL->getTypeStoreSize(t); return r; }
    r.k = KVOID; return r;
  }
  // base + offset of a constant address
  bool addr(const Constant *c, bool &fn, int &id, int64_t &off) {
    if (auto *g = dyn_cast<GlobalAlias>(c)) return addr(g->getAliasee(), fn, id, off);
    if (auto *f = dyn_cast<Function>(c)) { fn = true; id = fmap[f]; return true; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { fn = false; id = gmap[g]; return true; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
      if (e->getOpcode() == Instruction::GetElementPtr) {
        APInt o(64, 0);
        if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, o)) return false;
        off += o.getSExtValue();
        return addr(e->getOperand(0), fn, id, off);
      }
      if (e->isCast()) return addr(e->getOperand(0), fn, id, off);
    }
    return false;
  }
  int cst(const Constant *c) {
    auto it = cmap.find(c);
    if (it != cmap.end()) return it->second;
    Cst k; k.k = Cst::UNDEF; k.ty = ty(c->getType());
    if (auto *i = dyn_cast<ConstantInt>(c)) {
      k.k = Cst::INT;
      if (i->getBitWidth() > 64) { if (!i->getValue().isIntN(64)) k.k = Cst::UNDEF; else k.u = i->getValue().getZExtValue(); }
      else k.u = i->getZExtValue();
    } else if (auto *f = dyn_cast<ConstantFP>(c)) {
      k.k = Cst::FP; const APFloat &v = f->getValueAPF();
      if (v.isNaN()) k.fp = "nan"; else if (v.isInfinity()) k.fp = v.isNegative() ? "-inf" : "inf";
      else {
        APFloat x = v; bool li; x.convert(APFloat::x87DoubleExtended(), APFloat::rmNearestTiesToEven, &li);
        SmallVector<char, 64> hex; char buf[128]; x.convertToHexString(buf, 0, false, APFloat::rmNearestTiesToEven); k.fp = buf;
      }
    } else if (isa<ConstantPointerNull>(c)) { k.k = Cst::INT; k.u = 0; }
    else if (isa<UndefValue>(c)) { k.k = Cst::UNDEF; }
    else if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c)) {
      k.k = Cst::AGG; unsigned n = 0;
      if (auto *s = dyn_cast<StructType>(c->getType())) n = s->getNumElements();
      else if (auto *s = dyn_cast<ArrayType>(c->getType())) n = s->getNumElements();
      for (unsigned i = 0; i < n; i++) k.elts.push_back(cst(c->getAggregateElement(i)));
    } else if (auto *e = dyn_cast<ConstantExpr>(c); e && e->getOpcode() == Instruction::IntToPtr && isa<ConstantInt>(e->getOperand(0))) {
      k.k = Cst::INT; k.u = cast<ConstantInt>(e->getOperand(0))->getZExtValue();
    } else {
      bool fn = false; int id = -1; int64_t off = 0;
      if (addr(c, fn, id, off)) { k.k = fn ? Cst::ADDR_F : Cst::ADDR_G; k.u = id; k.off = off; }
      else { std::string s; raw_string_ostream o(s); c->print(o); err += "constant: " + o.str() + "\n"; }
    }
    P.csts.push_back(k);
    return cmap[c] = -(int)P.csts.size();
  }
  void init(Glob &g, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *i = dyn_cast<ConstantInt>(c)) { APInt v = i->getValue(); for (unsigned k = 0; k < DL->getTypeStoreSize(t); k++) { g.bytes[off + k] = v.extractBitsAsZExtValue(std::min(8u, v.getBitWidth() - 8 * k), 8 * k); } return; }
    if (auto *e = dyn_cast<ConstantExpr>(c); e && e->getOpcode() == Instruction::IntToPtr && isa<ConstantInt>(e->getOperand(0))) { uint64_t v = cast<ConstantInt>(e->getOperand(0))->getZExtValue(); for (int k = 0; k < 8; k++) g.bytes[off + k] = v >> 8 * k; return; }
    if (auto *f = dyn_cast<ConstantFP>(c)) { APInt v = f->getValueAPF().bitcastToAPInt(); for (unsigned k = 0; k * 8 < v.getBitWidth(); k++) g.bytes[off + k] = v.extractBitsAsZExtValue(8, 8 * k); return; }
    if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) init(g, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) init(g, off + i * es, c->getAggregateElement(i)); return; }
    bool fn = false; int id = -1; int64_t o = 0;
    if (addr(c, fn, id, o)) { g.rel.push_back({off, fn, id, o}); return; }
    std::string s; raw_string_ostream os(s); c->print(os); err += "initialiser: " + os.str() + "\n";
  }
  std::map<const Value *, int> reg; Func *F = nullptr;
  int opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    auto it = reg.find(v); if (it == reg.end()) { err += "operand?\n"; return 0; } return it->second;
  }
  void unsup(const Instruction &I, Inst &x) { x.op = UNSUP; std::string s; raw_string_ostream o(s); I.print(o); x.ext = F->msgs.size(); F->msgs.push_back(o.str()); }
  std::map<const BasicBlock *, int> bstart;
  std::vector<std::pair<int, const BasicBlock *>> fix;
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = -1;
    for (auto &phi : to->phis()) e.moves.push_back({reg[&phi], opnd(phi.getIncomingValueForBlock(from))});
    F->edges.push_back(e); fix.push_back({(int)F->edges.size() - 1, to}); return F->edges.size() - 1;
  }
  static uint8_t ipred(CmpInst::Predicate p) {
    switch (p) { case CmpInst::ICMP_EQ: return P_EQ; case CmpInst::ICMP_NE: return P_NE; case CmpInst::ICMP_UGT: return P_UGT; case CmpInst::ICMP_UGE: return P_UGE; case CmpInst::ICMP_ULT: return P_ULT; case CmpInst::ICMP_ULE: return P_ULE; case CmpInst::ICMP_SGT: return P_SGT; case CmpInst::ICMP_SGE: return P_SGE; case CmpInst::ICMP_SLT: return P_SLT; default: return P_SLE; }
  }
  void func(Function &f, Func &g) {
    F = &g; reg.clear(); bstart.clear(); fix.clear(); int n = 0;
    for (auto &a : f.args()) reg[&a] = n++;
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
    g.nregs = n; g.nargs = f.arg_size(); g.defined = true;
    for (auto &b : f) {
      bstart[&b] = g.code.size();
      for (auto &I : b) {
        if (isa<PHINode>(I)) continue;
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Inst x; x.op = UNSUP; x.ty = ty(I.getType()); if (!I.getType()->isVoidTy()) x.dst = reg[&I];
        if (auto dl = I.getDebugLoc()) x.line = dl.getLine();
        if (I.getType()->isVectorTy()) { unsup(I, x); g.code.push_back(x); continue; }
        unsigned oc = I.getOpcode();
        if (I.isBinaryOp()) {
          static const std::map<unsigned, Op> M = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::FAdd, FADD}, {Instruction::FSub, FSUB}, {Instruction::FMul, FMUL}, {Instruction::FDiv, FDIV}, {Instruction::FRem, FREM}};
          x.op = M.at(oc); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1));
        } else if (oc == Instruction::FNeg) { x.op = FNEG; x.a = opnd(I.getOperand(0)); }
        else if (auto *c = dyn_cast<ICmpInst>(&I)) { x.op = ICMP; x.pred = ipred(c->getPredicate()); x.sty = ty(c->getOperand(0)->getType()); x.a = opnd(c->getOperand(0)); x.b = opnd(c->getOperand(1)); }
        else if (auto *c = dyn_cast<FCmpInst>(&I)) { x.op = FCMP; x.pred = c->getPredicate(); x.a = opnd(c->getOperand(0)); x.b = opnd(c->getOperand(1)); }
        else if (auto *c = dyn_cast<CastInst>(&I)) {
          x.sty = ty(c->getSrcTy()); x.a = opnd(c->getOperand(0));
          switch (oc) { case Instruction::Trunc: x.op = TRUNC; break; case Instruction::ZExt: x.op = ZEXT; break; case Instruction::SExt: x.op = SEXT; break; case Instruction::FPTrunc: x.op = FPTRUNC; break; case Instruction::FPExt: x.op = FPEXT; break; case Instruction::FPToUI: x.op = FPTOUI; break; case Instruction::FPToSI: x.op = FPTOSI; break; case Instruction::UIToFP: x.op = UITOFP; break; case Instruction::SIToFP: x.op = SITOFP; break; default: x.op = MOVE; }
        } else if (isa<FreezeInst>(I)) { x.op = MOVE; x.sty = x.ty; x.a = opnd(I.getOperand(0)); }
        else if (auto *al = dyn_cast<AllocaInst>(&I)) { x.op = ALLOCA; x.a = opnd(al->getArraySize()); x.c = DL->getTypeAllocSize(al->getAllocatedType()); x.sty = ty(al->getArraySize()->getType()); }
        else if (auto *l = dyn_cast<LoadInst>(&I)) { x.op = LOAD; x.a = opnd(l->getPointerOperand()); }
        else if (auto *s = dyn_cast<StoreInst>(&I)) { x.op = STORE; x.ty = ty(s->getValueOperand()->getType()); x.a = opnd(s->getValueOperand()); x.b = opnd(s->getPointerOperand()); if (s->getValueOperand()->getType()->isVectorTy()) unsup(I, x); }
        else if (auto *gp = dyn_cast<GetElementPtrInst>(&I)) {
          x.op = GEP; x.a = opnd(gp->getPointerOperand()); Gep e;
          for (auto it = gep_type_begin(gp), en = gep_type_end(gp); it != en; ++it) {
            Value *ix = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { e.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) e.off += ci->getSExtValue() * sc;
            else { e.idx.push_back({opnd(ix), sc}); e.bits.push_back(ix->getType()->getIntegerBitWidth()); }
          }
          x.ext = g.geps.size(); g.geps.push_back(e);
        } else if (auto *s = dyn_cast<SelectInst>(&I)) { x.op = SELECT; x.a = opnd(s->getCondition()); x.b = opnd(s->getTrueValue()); x.c = opnd(s->getFalseValue()); }
        else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isUnconditional()) { x.op = BR; x.b = edge(&b, br->getSuccessor(0)); }
          else { x.op = CBR; x.a = opnd(br->getCondition()); x.b = edge(&b, br->getSuccessor(0)); x.c = edge(&b, br->getSuccessor(1)); }
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          x.op = SWITCH; x.a = opnd(sw->getCondition()); x.sty = ty(sw->getCondition()->getType()); Sw s;
          for (auto &cs : sw->cases()) { s.vals.push_back(cs.getCaseValue()->getZExtValue()); s.edges.push_back(edge(&b, cs.getCaseSuccessor())); }
          s.def = edge(&b, sw->getDefaultDest()); x.ext = g.sws.size(); g.sws.push_back(s);
        } else if (auto *r = dyn_cast<ReturnInst>(&I)) { x.op = RET; if (r->getReturnValue()) { x.ty = ty(r->getReturnValue()->getType()); x.a = opnd(r->getReturnValue()); } }
        else if (isa<UnreachableInst>(I)) x.op = UNREACHABLE;
        else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { x.op = EXTRACT; x.a = opnd(ev->getAggregateOperand()); x.ext = g.idxs.size(); g.idxs.push_back(std::vector<unsigned>(ev->idx_begin(), ev->idx_end())); }
        else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { x.op = INSERT; x.a = opnd(iv->getAggregateOperand()); x.b = opnd(iv->getInsertedValueOperand()); x.ext = g.idxs.size(); g.idxs.push_back(std::vector<unsigned>(iv->idx_begin(), iv->idx_end())); x.c = iv->getAggregateOperand()->getType()->isStructTy() ? iv->getAggregateOperand()->getType()->getStructNumElements() : iv->getAggregateOperand()->getType()->getArrayNumElements(); }
        else if (auto *cb = dyn_cast<CallBase>(&I)) {
          x.op = CALL; Call c; bool bad = false;
          if (cb->isInlineAsm()) { unsup(I, x); g.code.push_back(x); continue; }
          Value *callee = cb->getCalledOperand()->stripPointerCasts();
          if (auto *cf = dyn_cast<Function>(callee)) c.callee = fmap[cf]; else x.a = opnd(cb->getCalledOperand());
          for (unsigned i = 0; i < cb->arg_size(); i++) {
            Value *v = cb->getArgOperand(i);
            if (v->getType()->isMetadataTy()) { c.args.push_back(0); c.byval.push_back(0); c.tys.push_back(Ty()); continue; }
            if (v->getType()->isVectorTy()) bad = true;
            c.args.push_back(opnd(v)); c.tys.push_back(ty(v->getType()));
            c.byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
          }
          if (bad) { unsup(I, x); g.code.push_back(x); continue; }
          x.ext = g.calls.size(); g.calls.push_back(c);
          if (auto *inv = dyn_cast<InvokeInst>(&I)) { g.code.push_back(x); Inst y; y.op = BR; y.b = edge(&b, inv->getNormalDest()); g.code.push_back(y); continue; }
        } else unsup(I, x);
        g.code.push_back(x);
      }
    }
    for (auto &p : fix) g.edges[p.first].target = bstart[p.second];
  }
  bool run(Module &m) {
    DL = &m.getDataLayout();
    for (auto &g : m.globals()) { int id = P.globs.size(); gmap[&g] = id; Glob x; x.name = g.getName().str(); P.gid[x.name] = id; P.globs.push_back(x); }
    for (auto &f : m) { int id = P.fns.size(); fmap[&f] = id; Func x; x.name = f.getName().str(); x.vararg = f.isVarArg(); x.nargs = f.arg_size(); if (auto *sp = f.getSubprogram()) x.file = sp->getFilename().str(); P.fid[x.name] = id; P.fns.push_back(x); }
    for (auto &g : m.globals()) {
      Glob &x = P.globs[gmap[&g]]; x.size = DL->getTypeAllocSize(g.getValueType()); x.isconst = g.isConstant();
      x.external = !g.hasInitializer(); x.bytes.assign(x.size, 0);
      if (g.hasInitializer()) init(x, 0, g.getInitializer());
    }
    for (auto &f : m) { Func &g = P.fns[fmap[&f]]; g.ret = ty(f.getReturnType()); if (!f.isDeclaration()) func(f, g); }
    return err.empty();
  }
};
}
bool load(const char *path, Prog &p, std::string &err) {
  LLVMContext ctx; SMDiagnostic d;
  std::unique_ptr<Module> m = parseIRFile(path, d, ctx);
  if (!m) { err = d.getMessage().str(); return false; }
  Loader l(p); bool ok = l.run(*m); err = l.err; return ok;
}
