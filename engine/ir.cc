#include "ir.h"
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;

namespace {
struct Tr {
  Program& P; Module& M; const DataLayout& DL;
  std::map<std::string, u32> fileidx, funcidx;
  std::map<std::tuple<u32, u32, u32>, u32> locidx;
  std::string err;
  Tr(Program& p, Module& m) : P(p), M(m), DL(m.getDataLayout()) {}
  u32 nslots(Type* t) {
    if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
    if (auto* s = dyn_cast<StructType>(t)) { u32 n = 0; for (auto* e : s->elements()) n += nslots(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * nslots(v->getElementType());
    return 1;
  }
  u8 width(Type* t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) { err = "integer wider than 64 bits"; return 64; } return w; }
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isVectorTy()) return width(cast<VectorType>(t)->getElementType());
    if (t->isX86_FP80Ty()) { return 64; }   // long double is modelled as double
    return 64;
  }
  u64 size(Type* t) { return DL.getTypeAllocSize(t); }
  // ---- constants ----
  bool cval(const Constant* c, std::vector<u64>& out) {   // flattened scalar lanes
    Type* t = c->getType();
    if (auto* i = dyn_cast<ConstantInt>(c)) { out.push_back(i->getBitWidth() > 64 ? i->getValue().trunc(64).getZExtValue() : i->getZExtValue()); return true; }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
      if (t->isX86_FP80Ty()) { bool l; APFloat d = f->getValueAPF(); d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); out.push_back(d.bitcastToAPInt().getZExtValue()); return true; }
      out.push_back(f->getValueAPF().bitcastToAPInt().getZExtValue()); return true; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(0); return true; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (u32 i = 0; i < nslots(t); ++i) out.push_back(0); return true; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(P.gaddr[g->getName().str()]); return true; }
    if (auto* g = dyn_cast<GlobalAlias>(c)) return cval(g->getAliasee(), out);
    if (auto* f = dyn_cast<Function>(c)) { out.push_back(fn(f)->addr); return true; }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      std::vector<u64> k;
      switch (e->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(DL, off)) return false; cval(e->getOperand(0), k); out.push_back(k[0] + off.getSExtValue()); return true; }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
          if (!cval(e->getOperand(0), k)) return false; out.push_back(k[0] & maskw(width(t))); return true;
        case Instruction::Sub: case Instruction::Add: { if (!cval(e->getOperand(0), k) || !cval(e->getOperand(1), k)) return false; out.push_back((e->getOpcode() == Instruction::Sub ? k[0] - k[1] : k[0] + k[1]) & maskw(width(t))); return true; }
        case Instruction::ICmp: { if (!cval(e->getOperand(0), k) || !cval(e->getOperand(1), k)) return false; auto p = (CmpInst::Predicate)cast<ConstantExpr>(e)->getPredicate(); bool r = p == CmpInst::ICMP_EQ ? k[0] == k[1] : p == CmpInst::ICMP_NE ? k[0] != k[1] : p == CmpInst::ICMP_ULT ? k[0] < k[1] : k[0] > k[1]; out.push_back(r); return true; }
      }
      return false;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); ++i) if (!cval(d->getElementAsConstant(i), out)) return false; return true; }
    if (isa<ConstantAggregate>(c)) { for (auto& o : c->operands()) if (!cval(cast<Constant>(o), out)) return false; return true; }
    return false;
  }
  void cbytes(const Constant* c, u8* p) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { auto s = d->getRawDataValues(); memcpy(p, s.data(), s.size()); return; }
    if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL.getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) cbytes(s->getOperand(i), p + L->getElementOffset(i)); return; }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { Type* et = t->isArrayTy() ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType(); for (unsigned i = 0; i < c->getNumOperands(); ++i) cbytes(cast<Constant>(c->getOperand(i)), p + i * size(et)); return; }
    std::vector<u64> v;
    if (!cval(c, v) || v.size() != 1) { errs() << "unsupported constant initializer: " << *c << "\n"; return; }
    unsigned n = DL.getTypeStoreSize(t); memcpy(p, &v[0], n > 8 ? 8 : n);
  }
  Fn* fn(const Function* f) { return P.byname.at(f->getName().str()); }
  // ---- function bodies ----
  struct FT { Fn* F; std::unordered_map<const Value*, u32> slot; std::map<std::pair<u64, int>, i32> cidx; };
  i32 konst(FT& T, u64 v) { auto it = T.cidx.find({v, 0}); if (it != T.cidx.end()) return it->second; T.F->consts.push_back(Val{v, nullptr}); i32 r = -(i32)T.F->consts.size(); T.cidx[{v, 0}] = r; return r; }
  i32 op(FT& T, const Value* v, u32 lane = 0) {
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<u64> k; if (!cval(c, k)) { std::string s; raw_string_ostream o(s); o << *c; err = "unsupported constant " + s; return konst(T, 0); }
      return konst(T, lane < k.size() ? k[lane] : 0);
    }
    auto it = T.slot.find(v);
    if (it == T.slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return konst(T, 0); err = "operand without slot"; return konst(T, 0); }
    return it->second + lane;
  }
  u32 loc(const Instruction& I) {
    const DILocation* d = I.getDebugLoc().get(); if (!d) return 0;
    auto* sp = d->getScope()->getSubprogram();
    std::string f = d->getFilename().str(), dir = d->getDirectory().str(); if (!f.empty() && f[0] != '/' && !dir.empty()) f = dir + "/" + f;
    u32 fi = idx(fileidx, P.files, f), gi = idx(funcidx, P.funcs, sp ? sp->getName().str() : "?");
    auto key = std::make_tuple(fi, d->getLine(), gi); auto it = locidx.find(key); if (it != locidx.end()) return it->second;
    P.locs.push_back(Loc{fi, d->getLine(), gi}); return locidx[key] = P.locs.size() - 1;
  }
  u32 idx(std::map<std::string, u32>& m, std::vector<std::string>& v, const std::string& s) { auto it = m.find(s); if (it != m.end()) return it->second; v.push_back(s); return m[s] = v.size() - 1; }
  static u8 pred(CmpInst::Predicate p) {
    switch (p) { case CmpInst::ICMP_EQ: return P_EQ; case CmpInst::ICMP_NE: return P_NE; case CmpInst::ICMP_ULT: return P_ULT; case CmpInst::ICMP_ULE: return P_ULE; case CmpInst::ICMP_UGT: return P_UGT; case CmpInst::ICMP_UGE: return P_UGE;
      case CmpInst::ICMP_SLT: return P_SLT; case CmpInst::ICMP_SLE: return P_SLE; case CmpInst::ICMP_SGT: return P_SGT; default: return P_SGE; }
  }
  // offset of lane `l` inside type t when stored in memory, and its type
  void lanes(Type* t, u64 base, std::vector<std::pair<u64, Type*>>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) lanes(s->getElementType(i), base + L->getElementOffset(i), out); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); ++i) lanes(a->getElementType(), base + i * size(a->getElementType()), out); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 es = DL.getTypeStoreSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); ++i) out.push_back({base + i * es, v->getElementType()}); return; }
    out.push_back({base, t});
  }
  u32 aggoff(Type* t, ArrayRef<unsigned> ix) {
    u32 o = 0;
    for (unsigned i : ix) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) o += nslots(s->getElementType(j)); t = s->getElementType(i); }
      else { auto* a = cast<ArrayType>(t); o += i * nslots(a->getElementType()); t = a->getElementType(); }
    }
    return o;
  }
  void body(const Function& f) {
    Fn* F = fn(&f); FT T; T.F = F;
    u32 n = 0;
    for (auto& a : f.args()) { T.slot[&a] = n; F->argslots.push_back(nslots(a.getType())); n += nslots(a.getType()); }
    F->nargs = n;
    for (auto& I : instructions(f)) if (!I.getType()->isVoidTy()) { T.slot[&I] = n; n += nslots(I.getType()); }
    u32 tmp = n; n += 4;   // scratch
    F->nret = nslots(f.getReturnType());
    std::unordered_map<const BasicBlock*, u32> bip; u32 bi = 0; std::unordered_map<const BasicBlock*, u32> bnum;
    for (auto& B : f) bnum[&B] = bi++;
    std::vector<std::pair<u32, const BasicBlock*>> fix;   // edge -> target
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> u32 {
      Edge e; e.ip = 0; e.copies = F->pool.size(); e.ncopies = 0; e.block = bnum[to];
      for (auto& ph : to->phis()) { const Value* v = ph.getIncomingValueForBlock(from); u32 L = nslots(ph.getType()); if (isa<UndefValue>(v)) { }
        for (u32 l = 0; l < L; ++l) { F->pool.push_back(T.slot[&ph] + l); F->pool.push_back(op(T, v, l)); ++e.ncopies; } }
      F->edges.push_back(e); fix.push_back({(u32)F->edges.size() - 1, to}); return F->edges.size() - 1;
    };
    for (auto& B : f) {
      bip[&B] = F->code.size();
      for (auto& I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        Ins in; memset(&in, 0, sizeof in); in.loc = loc(I); in.dst = I.getType()->isVoidTy() ? tmp : T.slot[&I];
        u32 L = nslots(I.getType());
        auto emit = [&](const Ins& x) { F->code.push_back(x); };
        auto lanewise = [&](auto fill) { for (u32 l = 0; l < L; ++l) { Ins x = in; x.dst = in.dst + l; fill(x, l); emit(x); } };
        switch (I.getOpcode()) {
          case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
          case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
            lanewise([&](Ins& x, u32 l) { x.op = I_BIN; x.sub = m.at(I.getOpcode()); x.w = width(I.getType()); x.a = op(T, I.getOperand(0), l); x.b = op(T, I.getOperand(1), l); }); break; }
          case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Fop q = I.getOpcode() == Instruction::FAdd ? F_ADD : I.getOpcode() == Instruction::FSub ? F_SUB : I.getOpcode() == Instruction::FMul ? F_MUL : I.getOpcode() == Instruction::FDiv ? F_DIV : F_REM;
            lanewise([&](Ins& x, u32 l) { x.op = I_FBIN; x.sub = q; x.w = width(I.getType()); x.a = op(T, I.getOperand(0), l); x.b = op(T, I.getOperand(1), l); }); break; }
          case Instruction::FNeg: lanewise([&](Ins& x, u32 l) { x.op = I_FUN; x.sub = F_NEG; x.w = x.w2 = width(I.getType()); x.a = op(T, I.getOperand(0), l); }); break;
          case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
            Fop q; switch (I.getOpcode()) { case Instruction::FPExt: q = F_EXT; break; case Instruction::FPTrunc: q = F_TRUNC; break; case Instruction::SIToFP: q = F_SITOFP; break; case Instruction::UIToFP: q = F_UITOFP; break; case Instruction::FPToSI: q = F_TOSI; break; default: q = F_TOUI; }
            lanewise([&](Ins& x, u32 l) { x.op = I_FUN; x.sub = q; x.w = width(I.getType()); x.w2 = width(I.getOperand(0)->getType()); x.a = op(T, I.getOperand(0), l); if ((q == F_EXT || q == F_TRUNC) && x.w == x.w2) { x.op = I_COPY; } }); break; }
          case Instruction::ICmp: lanewise([&](Ins& x, u32 l) { x.op = I_ICMP; x.sub = pred(cast<ICmpInst>(I).getPredicate()); x.w = width(I.getOperand(0)->getType()); x.a = op(T, I.getOperand(0), l); x.b = op(T, I.getOperand(1), l); }); break;
          case Instruction::FCmp: lanewise([&](Ins& x, u32 l) { x.op = I_FCMP; x.sub = cast<FCmpInst>(I).getPredicate(); x.w = width(I.getOperand(0)->getType()); x.a = op(T, I.getOperand(0), l); x.b = op(T, I.getOperand(1), l); }); break;
          case Instruction::Select: { bool vc = I.getOperand(0)->getType()->isVectorTy();
            if (!vc) { in.op = I_SELECT; in.a = op(T, I.getOperand(0)); in.x = L; in.y = F->pool.size(); in.w = width(I.getType()); in.w2 = I.getType()->isPointerTy() ? 1 : I.getType()->isFPOrFPVectorTy() ? 2 : 0; for (u32 l = 0; l < L; ++l) { i32 p = op(T, I.getOperand(1), l), q = op(T, I.getOperand(2), l); F->pool.push_back(p); F->pool.push_back(q); } emit(in); }
            else lanewise([&](Ins& x, u32 l) { x.op = I_SELECT; x.w2 = I.getType()->isFPOrFPVectorTy() ? 2 : 0; x.a = op(T, I.getOperand(0), l); x.x = 1; x.w = width(I.getType()); i32 p = op(T, I.getOperand(1), l), q = op(T, I.getOperand(2), l); x.y = F->pool.size(); F->pool.push_back(p); F->pool.push_back(q); });
            break; }
          case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
            lanewise([&](Ins& x, u32 l) { x.op = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; x.w = width(I.getType()); x.w2 = width(I.getOperand(0)->getType()); x.a = op(T, I.getOperand(0), l); }); break;
          case Instruction::BitCast: {
            Type *s = I.getOperand(0)->getType(), *d = I.getType(); u32 sl = nslots(s), dl = nslots(d);
            if (sl == dl) lanewise([&](Ins& x, u32 l) { x.op = I_COPY; x.a = op(T, I.getOperand(0), l); });
            else if (sl == 1 && dl == 2) { // i64 -> <2 x 32>
              Ins x = in; x.op = I_TRUNC; x.w = 32; x.w2 = 64; x.a = op(T, I.getOperand(0)); emit(x);
              x = in; x.op = I_BIN; x.sub = O_LSHR; x.w = 64; x.dst = tmp; x.a = op(T, I.getOperand(0)); x.b = konst(T, 32); emit(x);
              x = in; x.op = I_TRUNC; x.w = 32; x.w2 = 64; x.a = tmp; x.dst = in.dst + 1; emit(x);
            } else if (sl == 2 && dl == 1) {
              Ins x = in; x.op = I_ZEXT; x.w = 64; x.w2 = 32; x.a = op(T, I.getOperand(0), 1); x.dst = tmp; emit(x);
              x.op = I_BIN; x.sub = O_SHL; x.a = tmp; x.b = konst(T, 32); x.dst = tmp + 1; emit(x);
              x.op = I_ZEXT; x.w = 64; x.w2 = 32; x.a = op(T, I.getOperand(0), 0); x.dst = tmp; emit(x);
              x.op = I_BIN; x.sub = O_OR; x.w = 64; x.a = tmp; x.b = tmp + 1; x.dst = in.dst; emit(x);
            } else err = "unsupported bitcast";
            break; }
          case Instruction::IntToPtr: case Instruction::PtrToInt: {
            u8 sw = width(I.getOperand(0)->getType()), dw = width(I.getType());
            lanewise([&](Ins& x, u32 l) { x.a = op(T, I.getOperand(0), l); x.w = dw; x.w2 = sw; x.op = dw == sw ? I_COPY : dw < sw ? I_TRUNC : I_ZEXT; }); break; }
          case Instruction::Freeze: lanewise([&](Ins& x, u32 l) { x.op = I_COPY; x.a = op(T, I.getOperand(0), l); }); break;
          case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); u32 o = aggoff(E.getAggregateOperand()->getType(), E.getIndices()); lanewise([&](Ins& x, u32 l) { x.op = I_COPY; x.a = op(T, E.getAggregateOperand(), o + l); }); break; }
          case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); u32 o = aggoff(I.getType(), E.getIndices()), k = nslots(E.getInsertedValueOperand()->getType());
            lanewise([&](Ins& x, u32 l) { x.op = I_COPY; x.a = l >= o && l < o + k ? op(T, E.getInsertedValueOperand(), l - o) : op(T, E.getAggregateOperand(), l); }); break; }
          case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { err = "variable extractelement"; break; } in.op = I_COPY; in.a = op(T, I.getOperand(0), ci->getZExtValue()); emit(in); break; }
          case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { err = "variable insertelement"; break; } u32 k = ci->getZExtValue(); lanewise([&](Ins& x, u32 l) { x.op = I_COPY; x.a = l == k ? op(T, I.getOperand(1)) : op(T, I.getOperand(0), l); }); break; }
          case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(I); u32 n0 = nslots(S.getOperand(0)->getType()); lanewise([&](Ins& x, u32 l) { x.op = I_COPY; int m = S.getMaskValue(l); x.a = m < 0 ? konst(T, 0) : (u32)m < n0 ? op(T, S.getOperand(0), m) : op(T, S.getOperand(1), m - n0); }); break; }
          case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); in.op = I_ALLOCA; in.imm = size(A.getAllocatedType()); in.a = op(T, A.getArraySize()); in.w = 64; emit(in); break; }
          case Instruction::Load: {
            std::vector<std::pair<u64, Type*>> ls; lanes(I.getType(), 0, ls); if (ls.size() != L) err = "load lanes";
            // load all lanes (pointer operand slot is never one of the destination slots)
            for (u32 l = 0; l < L; ++l) { Ins x = in; x.op = I_LOAD; x.dst = in.dst + l; x.a = op(T, I.getOperand(0)); x.imm = ls[l].first; x.w = width(ls[l].second); x.w2 = DL.getTypeStoreSize(ls[l].second); if (x.w2 > 8) x.w2 = 8; x.sub = cast<LoadInst>(I).isAtomic(); emit(x); }
            break; }
          case Instruction::Store: {
            std::vector<std::pair<u64, Type*>> ls; lanes(I.getOperand(0)->getType(), 0, ls);
            for (u32 l = 0; l < ls.size(); ++l) { Ins x = in; x.op = I_STORE; x.a = op(T, I.getOperand(0), l); x.b = op(T, I.getOperand(1)); x.imm = ls[l].first; x.w = width(ls[l].second); x.w2 = DL.getTypeStoreSize(ls[l].second); if (x.w2 > 8) x.w2 = 8; x.sub = cast<StoreInst>(I).isAtomic(); emit(x); }
            break; }
          case Instruction::GetElementPtr: {
            auto& G = cast<GEPOperator>(I); u64 off = 0; std::vector<std::tuple<const Value*, u64, u8>> vs;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
              const Value* ix = it.getOperand();
              if (auto* st = it.getStructTypeOrNull()) off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
              else { u64 es = size(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += (u64)(ci->getSExtValue() * (i64)es); else vs.push_back({ix, es, width(ix->getType())}); }
            }
            in.w = 64; in.op = I_GEPADD; in.a = op(T, G.getPointerOperand()); in.imm = off;
            if (vs.empty()) { emit(in); break; }
            for (size_t k = 0; k < vs.size(); ++k) { Ins x = in; x.op = I_GEP; x.a = k == 0 ? op(T, G.getPointerOperand()) : (i32)in.dst; x.b = op(T, std::get<0>(vs[k])); x.x = (u32)std::get<1>(vs[k]); x.w2 = std::get<2>(vs[k]); x.imm = k == 0 ? off : 0; emit(x); }
            break; }
          case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isUnconditional()) { in.op = I_BR; in.x = edge(&B, b.getSuccessor(0)); } else { in.op = I_CBR; in.a = op(T, b.getCondition()); in.x = edge(&B, b.getSuccessor(0)); in.y = edge(&B, b.getSuccessor(1)); } emit(in); break; }
          case Instruction::Switch: { auto& s = cast<SwitchInst>(I); in.op = I_SWITCH; in.a = op(T, s.getCondition()); in.w = width(s.getCondition()->getType()); in.x = F->cases.size(); in.y = s.getNumCases(); std::vector<u64> cs; for (auto& c : s.cases()) { cs.push_back(c.getCaseValue()->getZExtValue()); cs.push_back(edge(&B, c.getCaseSuccessor())); } in.imm = edge(&B, s.getDefaultDest()); in.x = F->cases.size(); F->cases.insert(F->cases.end(), cs.begin(), cs.end()); emit(in); break; }
          case Instruction::Ret: { in.op = I_RET; in.x = F->pool.size(); in.y = F->nret; if (F->nret) { std::vector<i32> r; for (u32 l = 0; l < F->nret; ++l) r.push_back(op(T, I.getOperand(0), l)); in.x = F->pool.size(); F->pool.insert(F->pool.end(), r.begin(), r.end()); } emit(in); break; }
          case Instruction::Unreachable: in.op = I_UNREACH; emit(in); break;
          case Instruction::Resume: in.op = I_RESUME; in.a = op(T, I.getOperand(0), 0); in.b = op(T, I.getOperand(0), 1); emit(in); break;
          case Instruction::LandingPad: { auto& lp = cast<LandingPadInst>(I); in.op = I_LANDINGPAD; in.sub = lp.isCleanup(); in.x = F->pool.size(); in.y = lp.getNumClauses(); std::vector<i32> cl; for (unsigned k = 0; k < lp.getNumClauses(); ++k) { if (lp.isCatch(k)) cl.push_back(op(T, lp.getClause(k))); else cl.push_back(konst(T, ~0ull)); } in.x = F->pool.size(); F->pool.insert(F->pool.end(), cl.begin(), cl.end()); emit(in); break; }
          case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); in.op = I_RMW; in.sub = r.getOperation(); in.a = op(T, r.getPointerOperand()); in.b = op(T, r.getValOperand()); in.w = width(I.getType()); in.w2 = DL.getTypeStoreSize(I.getType()); emit(in); break; }
          case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.a = op(T, r.getPointerOperand()); in.b = op(T, r.getCompareOperand()); in.c = op(T, r.getNewValOperand()); in.w = width(r.getCompareOperand()->getType()); in.w2 = DL.getTypeStoreSize(r.getCompareOperand()->getType()); emit(in); break; }
          case Instruction::Fence: in.op = I_FENCE; emit(in); break;
          case Instruction::Call: case Instruction::Invoke: {
            auto& C = cast<CallBase>(I); const Function* cf = C.getCalledFunction(); bool done = false;
            if (!cf) if (auto* al = dyn_cast<GlobalAlias>(C.getCalledOperand())) cf = dyn_cast<Function>(al->getAliasee());
            if (C.isInlineAsm()) { if (isa<InvokeInst>(I)) { in.op = I_BR; in.x = edge(&B, cast<InvokeInst>(I).getNormalDest()); emit(in); } break; }
            if (cf && cf->isIntrinsic()) {
              done = true; in.op = I_INTR; in.w = I.getType()->isVoidTy() ? 0 : width(I.getType());
              auto A = [&](int k) { return op(T, C.getArgOperand(k)); };
              Intr n0 = N_NOP; bool simple = false;
              switch (cf->getIntrinsicID()) {
                case Intrinsic::memcpy: case Intrinsic::memcpy_inline: n0 = N_MEMCPY; in.a = A(0); in.b = A(1); in.c = A(2); simple = true; break;
                case Intrinsic::memmove: n0 = N_MEMMOVE; in.a = A(0); in.b = A(1); in.c = A(2); simple = true; break;
                case Intrinsic::memset: n0 = N_MEMSET; in.a = A(0); in.b = A(1); in.c = A(2); simple = true; break;
                case Intrinsic::umax: n0 = N_UMAX; break; case Intrinsic::umin: n0 = N_UMIN; break; case Intrinsic::smax: n0 = N_SMAX; break; case Intrinsic::smin: n0 = N_SMIN; break;
                case Intrinsic::abs: n0 = N_ABS; break; case Intrinsic::bswap: n0 = N_BSWAP; break; case Intrinsic::ctpop: n0 = N_CTPOP; break; case Intrinsic::ctlz: n0 = N_CTLZ; break; case Intrinsic::cttz: n0 = N_CTTZ; break;
                case Intrinsic::fshl: n0 = N_FSHL; break; case Intrinsic::fshr: n0 = N_FSHR; break; case Intrinsic::usub_sat: n0 = N_USUBSAT; break; case Intrinsic::uadd_sat: n0 = N_UADDSAT; break;
                case Intrinsic::minnum: case Intrinsic::minimum: n0 = N_FMINNUM; break; case Intrinsic::maxnum: case Intrinsic::maximum: n0 = N_FMAXNUM; break; case Intrinsic::copysign: n0 = N_COPYSIGN; break;
                case Intrinsic::fmuladd: case Intrinsic::fma: n0 = N_FMULADD; break;
                case Intrinsic::trap: n0 = N_TRAP; simple = true; break;
                case Intrinsic::eh_typeid_for: n0 = N_TYPEID; in.a = A(0); simple = true; break;
                case Intrinsic::is_fpclass: n0 = N_ISFPCLASS; in.imm = cast<ConstantInt>(C.getArgOperand(1))->getZExtValue(); in.a = A(0); in.w2 = width(C.getArgOperand(0)->getType()); simple = true; break;
                case Intrinsic::objectsize: in.op = I_COPY; in.a = konst(T, cast<ConstantInt>(C.getArgOperand(1))->isOne() ? 0 : ~0ull); emit(in); goto next;
                case Intrinsic::is_constant: in.op = I_COPY; in.a = konst(T, 0); emit(in); goto next;
                case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: lanewise([&](Ins& x, u32 l) { x.op = I_COPY; x.a = op(T, C.getArgOperand(0), l); }); goto next;
                case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
                  in.op = I_OVF; auto id = cf->getIntrinsicID(); in.sub = id == Intrinsic::uadd_with_overflow ? 0 : id == Intrinsic::usub_with_overflow ? 1 : id == Intrinsic::umul_with_overflow ? 2 : id == Intrinsic::sadd_with_overflow ? 3 : id == Intrinsic::ssub_with_overflow ? 4 : 5;
                  in.w = width(C.getArgOperand(0)->getType()); in.a = A(0); in.b = A(1); emit(in); goto next; }
                case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sin: case Intrinsic::cos: {
                  Fop q; switch (cf->getIntrinsicID()) { case Intrinsic::fabs: q = F_ABS; break; case Intrinsic::sqrt: q = F_SQRT; break; case Intrinsic::exp: q = F_EXP; break; case Intrinsic::log: q = F_LOG; break; case Intrinsic::floor: q = F_FLOOR; break; case Intrinsic::ceil: q = F_CEIL; break; case Intrinsic::round: q = F_ROUND; break; case Intrinsic::exp2: q = F_EXP2; break; case Intrinsic::log2: q = F_LOG2; break; case Intrinsic::log10: q = F_LOG10; break; case Intrinsic::sin: q = F_SIN; break; case Intrinsic::cos: q = F_COS; break; default: q = F_RINT; }
                  lanewise([&](Ins& x, u32 l) { x.op = I_FUN; x.sub = q; x.w = x.w2 = width(I.getType()); x.a = op(T, C.getArgOperand(0), l); }); goto next; }
                case Intrinsic::pow: in.op = I_FBIN; in.sub = F_POW; in.w = width(I.getType()); in.a = A(0); in.b = A(1); emit(in); goto next;
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: goto next;
                case Intrinsic::stacksave: in.op = I_COPY; in.a = konst(T, 0); emit(in); goto next;
                default: err = "unsupported intrinsic " + cf->getName().str(); goto next;
              }
              in.sub = n0;
              if (simple) emit(in);
              else lanewise([&](Ins& x, u32 l) { x.w = width(I.getType()); unsigned na = C.arg_size(); x.a = op(T, C.getArgOperand(0), l); if (na > 1) x.b = op(T, C.getArgOperand(1), C.getArgOperand(1)->getType()->isVectorTy() ? l : 0); if (na > 2) x.c = op(T, C.getArgOperand(2), l); });
            next:;
              if (isa<InvokeInst>(I)) { Ins b; memset(&b, 0, sizeof b); b.op = I_BR; b.loc = in.loc; b.x = edge(&B, cast<InvokeInst>(I).getNormalDest()); emit(b); }
            }
            if (!done) {
              in.op = I_CALL; in.w = L;
              std::vector<i32> as; for (auto& a : C.args()) { u32 k = nslots(a->getType()); for (u32 l = 0; l < k; ++l) as.push_back(op(T, a, l)); }
              in.y = as.size();
              if (cf) { in.imm = (u64)(uintptr_t)fn(cf); in.a = 0; in.sub = 0; } else { in.sub = 1; in.a = op(T, C.getCalledOperand()); }
              i32 e1 = -1, e2 = -1; if (auto* iv = dyn_cast<InvokeInst>(&I)) { e1 = edge(&B, iv->getNormalDest()); e2 = edge(&B, iv->getUnwindDest()); }
              in.b = e1; in.c = e2; in.x = F->pool.size(); F->pool.insert(F->pool.end(), as.begin(), as.end());
              emit(in);
            }
            break; }
          default: { std::string s; raw_string_ostream o(s); o << I; err = "unsupported instruction " + s; }
        }
        if (!err.empty()) { // reaching it is an engine error; not reaching it is fine
          errs() << "warning: " << f.getName() << ": " << err << "\n"; err.clear();
          Ins u; memset(&u, 0, sizeof u); u.op = I_INTR; u.sub = N_TRAP; u.imm = 1; u.loc = in.loc; F->code.push_back(u);
        }
      }
    }
    for (auto& p : fix) F->edges[p.first].ip = bip[p.second];
    F->nslots = n;
    F->body = true;
  }
};
}  // namespace

bool load_program(const std::string& bc, Program& P, std::string& err) {
  static LLVMContext C; SMDiagnostic d;
  static std::unique_ptr<Module> M; M = parseIRFile(bc, d, C);
  if (!M) { err = d.getMessage().str(); return false; }
  Tr T(P, *M);
  P.files.push_back("?"); P.funcs.push_back("?"); P.locs.push_back(Loc{0, 0, 0});
  u32 id = 0;
  for (auto& f : *M) {
    Fn* F = new Fn; F->name = f.getName().str(); F->addr = FN_BASE + 16 * id; F->id = id++; F->llvm = &f; F->vararg = f.isVarArg();
    P.fns.push_back(F); P.byname[F->name] = F; P.byaddr[F->addr] = F;
    F->builtin = builtin_id(F->name);
  }
  u64 a = G_BASE + 64;
  for (auto& g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? M->getDataLayout().getTypeAllocSize(g.getValueType()) : 8;
    if (sz == 0) sz = 1;
    a = (a + 31) & ~31ull; P.gaddr[g.getName().str()] = a;
    GlobalInit gi; gi.addr = a; gi.size = sz; gi.name = g.getName().str(); gi.constant = g.isConstant(); P.globals.push_back(gi);
    a += sz + 32;
  }
  P.gend = (a + 63) & ~63ull;
  size_t k = 0;
  for (auto& g : M->globals()) { auto& gi = P.globals[k++]; gi.bytes.assign(gi.size, 0); if (g.hasInitializer()) T.cbytes(g.getInitializer(), gi.bytes.data()); }
  for (auto& f : *M) {
    Fn* F = P.byname[f.getName().str()];
    F->pretty = demangle(F->name);
    if (auto* sp = f.getSubprogram()) { F->file = sp->getFilename().str(); if (!F->file.empty() && F->file[0] != '/') F->file = sp->getDirectory().str() + "/" + F->file; F->line = sp->getLine(); }
    if (F->builtin >= 0 || f.isDeclaration()) continue;
    T.body(f);
    std::set<std::string> s;
    for (auto& I : instructions(f)) for (const DILocation* dl = I.getDebugLoc().get(); dl; dl = dl->getInlinedAt()) if (auto* sp = dl->getScope()->getSubprogram()) { std::string fi = sp->getFilename().str(); if (!fi.empty() && fi[0] != '/') fi = sp->getDirectory().str() + "/" + fi; s.insert(fi + ":" + (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()))); }
    F->inl.assign(s.begin(), s.end());
  }
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto& o : ca->operands()) if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) P.ctors.push_back(P.byname[f->getName().str()]);
  // exception type hierarchy
  for (auto& g : M->globals()) {
    std::string n = g.getName().str(); if (n.rfind("_ZTI", 0) != 0) continue;
    u64 ga = P.gaddr[n]; P.tinames[ga] = demangle(n);
    if (!g.hasInitializer()) continue;
    auto* cs = dyn_cast<ConstantStruct>(g.getInitializer()); if (!cs) continue;
    for (unsigned i = 2; i < cs->getNumOperands(); ++i) { auto* q = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()); if (q && q->getName().starts_with("_ZTI")) P.bases[ga].push_back(P.gaddr[q->getName().str()]); }
  }
  return true;
}
