#include "ir.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <unordered_map>
using namespace llvm;
namespace {
struct Loader {
  Program& P;
  const DataLayout* DL = nullptr;
  std::unordered_map<llvm::Type*, ::Type*> tm;
  std::unordered_map<const Value*, int> gm, fm;
  std::unordered_map<const Constant*, int> cm;
  std::map<std::pair<std::string, unsigned>, int> lm;
  explicit Loader(Program& p) : P(p) { P.locs.push_back("?"); }
  ::Type* ty(llvm::Type* t) {
    auto it = tm.find(t);
    if (it != tm.end()) return it->second;
    auto* r = new ::Type();
    tm[t] = r;
    if (t->isVoidTy()) { r->k = ::Type::Void; return r; }
    if (t->isIntegerTy()) { r->k = ::Type::Int; r->w = t->getIntegerBitWidth(); }
    else if (t->isFloatTy()) { r->k = ::Type::F; r->w = 32; }
    else if (t->isDoubleTy()) { r->k = ::Type::D; r->w = 64; }
    else if (t->isPointerTy()) { r->k = ::Type::Ptr; r->w = 64; }
    else if (auto* s = dyn_cast<StructType>(t)) {
      r->k = ::Type::Struct;
      if (s->isOpaque()) { r->k = ::Type::Other; return r; }
      auto* sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) { r->el.push_back(ty(s->getElementType(i))); r->off.push_back(sl->getElementOffset(i)); }
      r->n = r->el.size();
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
      r->k = ::Type::Array; r->el.push_back(ty(a->getElementType())); r->n = a->getNumElements();
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
      r->k = ::Type::Vec; r->el.push_back(ty(v->getElementType())); r->n = v->getNumElements();
    } else { r->k = ::Type::Other; if (!t->isSized()) return r; r->w = 0; }
    if (t->isSized()) { r->size = DL->getTypeAllocSize(t); r->store = DL->getTypeStoreSize(t); }
    return r;
  }
  COp cop(const Constant* c) {
    COp o;
    o.t = ty(c->getType());
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      o.lo = ci->getValue().getLoBits(64 < ci->getBitWidth() ? 64 : ci->getBitWidth()).getZExtValue();
      if (ci->getBitWidth() > 64) o.hi = ci->getValue().lshr(64).getZExtValue();
      return o;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (c->getType()->isFloatTy() || c->getType()->isDoubleTy()) o.lo = cf->getValueAPF().bitcastToAPInt().getZExtValue();
      else o.k = COp::Undef;
      return o;
    }
    if (isa<ConstantPointerNull>(c)) return o;
    if (isa<UndefValue>(c)) { o.k = COp::Undef; return o; }
    if (auto* f = dyn_cast<Function>(c)) { o.k = COp::Func; o.idx = fm.at(f); return o; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { o.k = COp::Global; o.idx = gm.at(g); return o; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return cop(a->getAliasee());
    if (isa<ConstantAggregateZero>(c)) {
      if (!o.t->agg()) return o;
      o.k = COp::Agg;
      uint64_t n = o.t->n;
      if (o.t->k == ::Type::Array && n > 4096) { o.op = 1; return o; }  // big zero array: handled at store time
      for (uint64_t i = 0; i < n; i++) o.sub.push_back(cop(c->getAggregateElement((unsigned)i)));
      return o;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      o.k = COp::Agg;
      for (unsigned i = 0; i < cd->getNumElements(); i++) o.sub.push_back(cop(cd->getElementAsConstant(i)));
      return o;
    }
    if (isa<ConstantAggregate>(c)) {
      o.k = COp::Agg;
      for (unsigned i = 0; i < c->getNumOperands(); i++) o.sub.push_back(cop(cast<Constant>(c->getOperand(i))));
      return o;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      o.k = COp::Expr;
      if (auto* ge = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (ge->accumulateConstantOffset(*DL, off)) {
          o.op = 1; o.konst = off.getSExtValue(); o.sub.push_back(cop(cast<Constant>(ge->getPointerOperand()))); return o;
        }
      }
      switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          o.op = 2; o.sub.push_back(cop(ce->getOperand(0))); return o;
        case Instruction::Sub: o.op = 3; break;
        case Instruction::Add: o.op = 4; break;
        case Instruction::Trunc: o.op = 5; o.sub.push_back(cop(ce->getOperand(0))); return o;
        case Instruction::ICmp: o.op = 6; o.konst = ce->getPredicate(); break;
        default: o.op = 99; return o;
      }
      o.sub.push_back(cop(ce->getOperand(0))); o.sub.push_back(cop(ce->getOperand(1)));
      return o;
    }
    o.k = COp::Undef;
    return o;
  }
  int cidx(const Constant* c) {
    auto it = cm.find(c);
    if (it != cm.end()) return it->second;
    COp o = cop(c);
    P.consts.push_back(o);
    return cm[c] = P.consts.size() - 1;
  }
  int loc(const Instruction& I) {
    DebugLoc d = I.getDebugLoc();
    if (!d) return 0;
    auto* s = d->getScope();
    std::string f = s ? s->getFilename().str() : "";
    auto key = std::make_pair(f, d.getLine());
    auto it = lm.find(key);
    if (it != lm.end()) return it->second;
    P.locs.push_back(f + ":" + std::to_string(d.getLine()));
    return lm[key] = P.locs.size() - 1;
  }
  static K binK(unsigned op) {
    switch (op) {
      case Instruction::Add: return kAdd; case Instruction::Sub: return kSub; case Instruction::Mul: return kMul;
      case Instruction::UDiv: return kUDiv; case Instruction::SDiv: return kSDiv; case Instruction::URem: return kURem;
      case Instruction::SRem: return kSRem; case Instruction::And: return kAnd; case Instruction::Or: return kOr;
      case Instruction::Xor: return kXor; case Instruction::Shl: return kShl; case Instruction::LShr: return kLShr;
      case Instruction::AShr: return kAShr; case Instruction::FAdd: return kFAdd; case Instruction::FSub: return kFSub;
      case Instruction::FMul: return kFMul; case Instruction::FDiv: return kFDiv; default: return kFRem;
    }
  }
  void func(Function& F, ::Func& o) {
    o.decl = false;
    std::unordered_map<const Value*, int> rm;
    std::unordered_map<const BasicBlock*, int> bm;
    int r = 0;
    for (auto& A : F.args()) {
      rm[&A] = r++;
      o.argt.push_back(ty(A.getType()));
      o.byvalSize.push_back(A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()) : 0);
    }
    o.nargs = r;
    int bi = 0;
    for (auto& B : F) {
      bm[&B] = bi++;
      for (auto& I : B) if (!I.getType()->isVoidTy()) rm[&I] = r++;
    }
    o.nregs = r;
    auto opnd = [&](const Value* v) {
      Opnd x;
      auto it = rm.find(v);
      if (it != rm.end()) x.reg = it->second;
      else if (auto* c = dyn_cast<Constant>(v)) x.cst = cidx(c);
      else { static const Constant* dummy = nullptr; if (!dummy) dummy = ConstantInt::get(llvm::Type::getInt64Ty(F.getContext()), 0); x.cst = cidx(dummy); }
      return x;
    };
    o.b.resize(bi);
    bi = 0;
    for (auto& B : F) {
      auto& ob = o.b[bi++];
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
          auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) {
            if (I.getType()->isVoidTy()) continue;
          }
        }
        Inst n;
        n.dbg = loc(I);
        n.t = ty(I.getType());
        if (!I.getType()->isVoidTy()) n.dst = rm[&I];
        auto ops = [&](std::initializer_list<const Value*> l) { for (auto v : l) n.a.push_back(opnd(v)); };
        switch (I.getOpcode()) {
          case Instruction::FNeg: n.op = oFNeg; ops({I.getOperand(0)}); break;
          case Instruction::ICmp: n.op = oICmp; n.sub = cast<ICmpInst>(I).getPredicate() - CmpInst::ICMP_EQ; n.t2 = ty(I.getOperand(0)->getType()); ops({I.getOperand(0), I.getOperand(1)}); break;
          case Instruction::FCmp: n.op = oFCmp; n.sub = cast<FCmpInst>(I).getPredicate(); n.t2 = ty(I.getOperand(0)->getType()); ops({I.getOperand(0), I.getOperand(1)}); break;
          case Instruction::Alloca: {
            auto& A = cast<AllocaInst>(I);
            n.op = oAlloca; n.x.push_back(DL->getTypeAllocSize(A.getAllocatedType())); ops({A.getArraySize()});
            break;
          }
          case Instruction::Load: n.op = oLoad; ops({cast<LoadInst>(I).getPointerOperand()}); break;
          case Instruction::Store: n.op = oStore; n.t = ty(cast<StoreInst>(I).getValueOperand()->getType()); ops({cast<StoreInst>(I).getValueOperand(), cast<StoreInst>(I).getPointerOperand()}); break;
          case Instruction::GetElementPtr: {
            auto& G = cast<GetElementPtrInst>(I);
            n.op = oGep;
            ops({G.getPointerOperand()});
            uint64_t k = 0;
            std::vector<uint64_t> sc;
            if (G.getType()->isVectorTy()) { n.op = oUnsupported; break; }
            for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
              Value* ix = gi.getOperand();
              if (StructType* st = gi.getStructTypeOrNull()) {
                k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
              } else {
                uint64_t s = gi.getSequentialElementStride(*DL);
                if (auto* ci = dyn_cast<ConstantInt>(ix)) k += (uint64_t)ci->getSExtValue() * s;
                else { n.a.push_back(opnd(ix)); sc.push_back(s); sc.push_back(ix->getType()->getIntegerBitWidth()); }
              }
            }
            n.x.push_back(k);
            for (auto s : sc) n.x.push_back(s);
            break;
          }
          case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP:
          case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
            n.op = oCast; n.sub = I.getOpcode() - Instruction::Trunc; n.t2 = ty(I.getOperand(0)->getType()); ops({I.getOperand(0)});
            // order of LLVM casts: Trunc ZExt SExt FPToUI FPToSI UIToFP SIToFP FPTrunc FPExt PtrToInt IntToPtr BitCast
            break;
          case Instruction::PHI: {
            auto& Ph = cast<PHINode>(I);
            n.op = oPhi;
            for (unsigned i = 0; i < Ph.getNumIncomingValues(); i++) { n.a.push_back(opnd(Ph.getIncomingValue(i))); n.blocks.push_back(bm[Ph.getIncomingBlock(i)]); }
            break;
          }
          case Instruction::Select: n.op = oSelect; n.t2 = ty(I.getOperand(0)->getType()); ops({I.getOperand(0), I.getOperand(1), I.getOperand(2)}); break;
          case Instruction::Call: case Instruction::Invoke: {
            auto& C = cast<CallBase>(I);
            n.op = I.getOpcode() == Instruction::Call ? oCall : oInvoke;
            const Value* cal = C.getCalledOperand()->stripPointerCasts();
            if (auto* al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliaseeObject();
            if (auto* fn = dyn_cast<Function>(cal)) n.fn = fm.at(fn);
            else if (isa<InlineAsm>(cal)) { n.op = oUnsupported; if (I.getType()->isVoidTy()) { continue; } break; }
            for (auto& ar : C.args()) n.a.push_back(isa<MetadataAsValue>(ar.get()) ? opnd(ConstantInt::get(llvm::Type::getInt64Ty(F.getContext()), 0)) : opnd(ar.get()));
            for (auto& ar : C.args()) n.x.push_back((uint64_t)(uintptr_t)(isa<MetadataAsValue>(ar.get()) ? nullptr : ty(ar->getType())));
            if (n.fn < 0) n.a.push_back(opnd(C.getCalledOperand()));
            if (n.op == oInvoke) { n.b0 = bm[cast<InvokeInst>(I).getNormalDest()]; n.b1 = bm[cast<InvokeInst>(I).getUnwindDest()]; }
            break;
          }
          case Instruction::Ret: n.op = oRet; if (I.getNumOperands()) ops({I.getOperand(0)}); break;
          case Instruction::Br: {
            auto& Br = cast<BranchInst>(I);
            if (Br.isConditional()) { n.op = oCondBr; ops({Br.getCondition()}); n.b0 = bm[Br.getSuccessor(0)]; n.b1 = bm[Br.getSuccessor(1)]; }
            else { n.op = oBr; n.b0 = bm[Br.getSuccessor(0)]; }
            break;
          }
          case Instruction::Switch: {
            auto& Sw = cast<SwitchInst>(I);
            n.op = oSwitch; ops({Sw.getCondition()}); n.t2 = ty(Sw.getCondition()->getType()); n.b0 = bm[Sw.getDefaultDest()];
            for (auto& cs : Sw.cases()) { n.x.push_back(cs.getCaseValue()->getZExtValue()); n.blocks.push_back(bm[cs.getCaseSuccessor()]); }
            break;
          }
          case Instruction::Unreachable: n.op = oUnreachable; break;
          case Instruction::LandingPad: {
            auto& L = cast<LandingPadInst>(I);
            n.op = oLandingPad; n.flag = L.isCleanup();
            for (unsigned i = 0; i < L.getNumClauses(); i++) { n.a.push_back(opnd(L.getClause(i))); n.x.push_back(L.isCatch(i)); }
            break;
          }
          case Instruction::Resume: n.op = oResume; ops({I.getOperand(0)}); break;
          case Instruction::ExtractValue: n.op = oExtractValue; ops({I.getOperand(0)}); for (auto ix : cast<ExtractValueInst>(I).indices()) n.x.push_back(ix); break;
          case Instruction::InsertValue: n.op = oInsertValue; ops({I.getOperand(0), I.getOperand(1)}); for (auto ix : cast<InsertValueInst>(I).indices()) n.x.push_back(ix); break;
          case Instruction::ExtractElement: n.op = oExtractElement; n.t2 = ty(I.getOperand(0)->getType()); ops({I.getOperand(0), I.getOperand(1)}); break;
          case Instruction::InsertElement: n.op = oInsertElement; ops({I.getOperand(0), I.getOperand(1), I.getOperand(2)}); break;
          case Instruction::ShuffleVector: {
            n.op = oShuffle; n.t2 = ty(I.getOperand(0)->getType()); ops({I.getOperand(0), I.getOperand(1)});
            for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) n.x.push_back((uint64_t)(int64_t)m);
            break;
          }
          case Instruction::Freeze: n.op = oFreeze; ops({I.getOperand(0)}); break;
          case Instruction::AtomicRMW: n.op = oAtomicRMW; n.sub = cast<AtomicRMWInst>(I).getOperation(); ops({I.getOperand(0), I.getOperand(1)}); break;
          case Instruction::AtomicCmpXchg: n.op = oCmpXchg; n.t2 = ty(I.getOperand(1)->getType()); ops({I.getOperand(0), I.getOperand(1), I.getOperand(2)}); break;
          case Instruction::Fence: continue;
          default:
            if (I.isBinaryOp()) { n.op = oBin; n.sub = binK(I.getOpcode()); ops({I.getOperand(0), I.getOperand(1)}); }
            else n.op = oUnsupported;
        }
        ob.in.push_back(std::move(n));
      }
    }
  }
};
}  // namespace
bool loadProgram(const std::string& file, Program& P, std::string& err) {
  static LLVMContext ctx;
  SMDiagnostic d;
  auto M = parseIRFile(file, d, ctx);
  if (!M) { err = d.getMessage().str(); return false; }
  Loader L(P);
  L.DL = &M->getDataLayout();
  for (auto& F : *M) {
    ::Func o;
    o.name = F.getName().str();
    o.vararg = F.isVarArg();
    L.fm[&F] = P.f.size();
    P.fidx[o.name] = P.f.size();
    P.f.push_back(o);
  }
  for (auto& G : M->globals()) {
    Global o;
    o.name = G.getName().str();
    o.isConst = G.isConstant();
    o.size = G.getValueType()->isSized() ? (uint64_t)L.DL->getTypeAllocSize(G.getValueType()) : 8;
    L.gm[&G] = P.g.size();
    P.gidx[o.name] = P.g.size();
    P.g.push_back(o);
  }
  for (auto& A : M->aliases()) {
    if (auto* f = dyn_cast<Function>(A.getAliaseeObject())) P.fidx[A.getName().str()] = L.fm[f];
  }
  for (auto& G : M->globals()) {
    if (G.getName() == "llvm.global_ctors" || G.getName().starts_with("llvm.")) {
      if (G.getName() == "llvm.global_ctors" && G.hasInitializer()) {
        std::vector<std::pair<uint64_t, int>> v;
        if (auto* ca = dyn_cast<ConstantArray>(G.getInitializer()))
          for (auto& o : ca->operands()) {
            auto* cs = cast<ConstantStruct>(o);
            if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), L.fm[f]});
          }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& x : v) P.ctors.push_back(x.second);
      }
      continue;
    }
    auto& o = P.g[L.gm[&G]];
    if (G.hasInitializer()) { o.hasInit = true; o.init = L.cop(G.getInitializer()); }
  }
  int i = 0;
  for (auto& F : *M) {
    auto& o = P.f[i++];
    o.ret = L.ty(F.getReturnType());
    o.pretty = llvm::demangle(o.name);
    o.visqol = o.pretty.find("Visqol::") != std::string::npos;
    if (!F.isDeclaration()) L.func(F, o);
  }
  return true;
}
