// ffsym: LLVM-18 instrumentation pass (see ENGINE.md).
//
// Every function with a body in the module is instrumented so that next to each
// concrete SSA value it carries a "shadow" (Expr*, null = concrete).  All
// symbolic reasoning is done by the runtime (runtime.cpp).
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <fstream>
using namespace llvm;

namespace {

// numbering shared with runtime.cpp
enum Op { O_ADD = 1, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
          O_UMIN, O_UMAX, O_SMIN, O_SMAX, O_UADDSAT, O_USUBSAT,
          O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO };
enum Pred { P_EQ = 1, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum Cast { C_ZEXT = 1, C_SEXT, C_TRUNC };
enum Un { U_BSWAP = 1, U_CTPOP, U_CTLZ, U_CTTZ, U_ABS };
enum Fp { F_UITOFP = 1, F_SITOFP, F_FPTOUI, F_FPTOSI, F_ADD, F_SUB, F_MUL, F_DIV, F_EXT, F_TRUNC };

struct Pass {
  Module& M;
  LLVMContext& C;
  Type *I1, *I8, *I32, *I64, *I128, *Void;
  PointerType* P;
  const DataLayout& DL;
  std::map<std::string, FunctionCallee> rt;
  GlobalVariable *GArgs, *GCallee, *GRet, *GRetFn;
  std::set<std::string> externals, redirected;
  std::map<std::string, Function*> models;
  std::vector<std::string> fnNames;
  unsigned site = 0;
  static constexpr unsigned MAXA = 64;

  Pass(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    I128 = Type::getInt128Ty(C); Void = Type::getVoidTy(C); P = PointerType::getUnqual(C);
    auto decl = [&](const char* n, Type* r, std::vector<Type*> a) { rt[n] = M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
    decl("_sym_bin", P, {I32, I32, P, I64, P, I64});
    decl("_sym_bin128", P, {I32, I32, P, P, P, P});
    decl("_sym_cmp", P, {I32, I32, P, I64, P, I64});
    decl("_sym_cmp128", P, {I32, I32, P, P, P, P});
    decl("_sym_cast", P, {I32, I32, I32, P});
    decl("_sym_un", P, {I32, I32, P});
    decl("_sym_fsh", P, {I32, I32, P, I64, P, I64, P, I64});
    decl("_sym_select", P, {P, I1, P, I64, P, I64, I32});
    decl("_sym_select128", P, {P, I1, P, P, P, P, I32});
    decl("_sym_branch", Void, {P, I1, I32});
    decl("_sym_switch", Void, {P, I64, I32, P, I32});
    decl("_sym_pin", Void, {P});
    decl("_sym_load", P, {P, I32, I64});
    decl("_sym_load128", P, {P, I32, P});
    decl("_sym_pinmem", Void, {P, I64});
    decl("_sym_store", Void, {P, I32, P});
    decl("_sym_clear", Void, {P, I64});
    decl("_sym_memcpy", Void, {P, P, I64});
    decl("_sym_memset", Void, {P, P, I64});
    decl("_sym_gepoff", P, {P, P, I64, I64, I32});
    decl("_sym_gepfin", P, {P, P, P});
    decl("_sym_fn", Void, {I32});
    decl("_sym_unconsumed", Void, {I32});
    decl("_sym_external", Void, {P});
    Type* FP80 = Type::getX86_FP80Ty(C);
    decl("_sym_i2f", P, {I32, I32, P, FP80});
    decl("_sym_f2i", P, {I32, I32, P, FP80, I64});
    decl("_sym_fbin", P, {I32, I32, P, FP80, P, FP80, FP80});
    decl("_sym_fext", P, {I32, I32, P, FP80});
    auto gv = [&](const char* n, Type* t) {
      auto* g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
      return g;
    };
    GArgs = gv("_sym_args", ArrayType::get(P, MAXA));
    GCallee = gv("_sym_callee", P);
    GRet = gv("_sym_ret", ArrayType::get(P, MAXA));
    GRetFn = gv("_sym_ret_fn", P);
  }

  static bool isRuntime(StringRef n) { return n.starts_with("_sym_") || n.starts_with("sym_"); }

  // ------------------------------------------------------------ leaves
  void leaves(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out, std::vector<unsigned> idx,
              std::vector<std::vector<unsigned>>& idxs) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        auto ix = idx; ix.push_back(i);
        leaves(st->getElementType(i), off + sl->getElementOffset(i), out, ix, idxs);
      }
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      for (unsigned i = 0; i < at->getNumElements(); ++i) {
        auto ix = idx; ix.push_back(i);
        leaves(at->getElementType(), off + i * DL.getTypeAllocSize(at->getElementType()), out, ix, idxs);
      }
    } else {
      out.push_back({t, off});
      idxs.push_back(idx);
    }
  }
  struct Leaf { Type* t; uint64_t off; std::vector<unsigned> idx; };
  std::map<Type*, std::vector<Leaf>> leafCache;
  const std::vector<Leaf>& leafs(Type* t) {
    auto it = leafCache.find(t);
    if (it != leafCache.end()) return it->second;
    std::vector<std::pair<Type*, uint64_t>> o;
    std::vector<std::vector<unsigned>> ix;
    leaves(t, 0, o, {}, ix);
    std::vector<Leaf> r;
    for (size_t i = 0; i < o.size(); ++i) r.push_back({o[i].first, o[i].second, ix[i]});
    return leafCache[t] = r;
  }

  // ------------------------------------------------------------ per function
  Function* F = nullptr;
  typedef std::vector<Value*> SV;
  DenseMap<Value*, SV> sh;
  Constant* nul() { return ConstantPointerNull::get(P); }
  bool isNull(Value* v) { return isa<ConstantPointerNull>(v); }

  SV shadow(Value* v) {
    size_t n = leafs(v->getType()).size();
    if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return SV(n, nul());
    auto it = sh.find(v);
    if (it == sh.end()) return SV(n, nul());
    return it->second;
  }
  Value* s1(Value* v) { auto s = shadow(v); return s.empty() ? nul() : s[0]; }
  static unsigned bits(const DataLayout& DL, Type* t) { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0; }
  unsigned bits(Type* t) { return bits(DL, t); }
  bool okInt(Type* t) { unsigned b = bits(t); return b > 0 && b <= 256; }
  bool isFP(Type* t) { return t->isDoubleTy() || t->isX86_FP80Ty() || t->isFloatTy(); }
  AllocaInst* slots[2] = {nullptr, nullptr};
  Value* conc(IRBuilder<>& B, Value* v, bool wide, int slot = 0) {
    if (wide) {
      if (!slots[slot]) {
        IRBuilder<> E(&*F->getEntryBlock().getFirstInsertionPt());
        slots[slot] = E.CreateAlloca(ArrayType::get(I64, 4));
        slots[slot]->setAlignment(Align(32));
      }
      if (v->getType()->isPointerTy()) v = B.CreatePtrToInt(v, I64);
      B.CreateStore(v, slots[slot]);
      return slots[slot];
    }
    Type* T = I64;
    if (v->getType()->isPointerTy()) v = B.CreatePtrToInt(v, I64);
    if (v->getType() == T) return v;
    return B.CreateZExt(v, T);
  }
  Value* call(IRBuilder<>& B, const char* n, std::vector<Value*> a) { return B.CreateCall(rt[n], a); }
  Value* c32(unsigned v) { return ConstantInt::get(I32, v); }
  Value* c64(uint64_t v) { return ConstantInt::get(I64, v); }
  void pin(IRBuilder<>& B, Value* s) { if (!isNull(s)) call(B, "_sym_pin", {s}); }
  void pinAll(IRBuilder<>& B, Value* v) { for (Value* s : shadow(v)) pin(B, s); }

  Value* bin(IRBuilder<>& B, unsigned op, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sa) && isNull(sb)) return nul();
    unsigned w = bits(a->getType());
    if (w == 0 || w > 256) { pin(B, sa); pin(B, sb); return nul(); }
    bool wide = w > 64;
    return call(B, wide ? "_sym_bin128" : "_sym_bin", {c32(op), c32(w), sa, conc(B, a, wide), sb, conc(B, b, wide, 1)});
  }
  Value* cmp(IRBuilder<>& B, unsigned pr, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sa) && isNull(sb)) return nul();
    unsigned w = bits(a->getType());
    if (w == 0 || w > 256) { pin(B, sa); pin(B, sb); return nul(); }
    bool wide = w > 64;
    return call(B, wide ? "_sym_cmp128" : "_sym_cmp", {c32(pr), c32(w), sa, conc(B, a, wide), sb, conc(B, b, wide, 1)});
  }
  Value* select(IRBuilder<>& B, Value* c, Value* sc, Value* t, Value* st, Value* f, Value* sf) {
    if (isNull(sc)) {
      if (isNull(st) && isNull(sf)) return nul();
      return B.CreateSelect(c, st, sf);
    }
    unsigned w = bits(t->getType());
    if (w == 0 || w > 256) {
      pin(B, sc);
      if (isNull(st) && isNull(sf)) return nul();
      return B.CreateSelect(c, st, sf);
    }
    bool wide = w > 64;
    return call(B, wide ? "_sym_select128" : "_sym_select",
                {sc, c, st, conc(B, t, wide), sf, conc(B, f, wide, 1), c32(w)});
  }
  static unsigned pred(ICmpInst::Predicate p) {
    switch (p) {
      case ICmpInst::ICMP_EQ: return P_EQ; case ICmpInst::ICMP_NE: return P_NE;
      case ICmpInst::ICMP_ULT: return P_ULT; case ICmpInst::ICMP_ULE: return P_ULE;
      case ICmpInst::ICMP_UGT: return P_UGT; case ICmpInst::ICMP_UGE: return P_UGE;
      case ICmpInst::ICMP_SLT: return P_SLT; case ICmpInst::ICMP_SLE: return P_SLE;
      case ICmpInst::ICMP_SGT: return P_SGT; default: return P_SGE;
    }
  }
  Value* loadLeaf(IRBuilder<>& B, Type* t, Value* addr, Value* val) {
    // val: the loaded concrete leaf
    if (okInt(t)) {
      unsigned w = bits(t);
      if (w % 8 == 0) {
        bool wide = w > 64;
        return call(B, wide ? "_sym_load128" : "_sym_load", {addr, c32(w / 8), conc(B, val, wide)});
      }
    }
    if (isFP(t)) {
      // symbolic fp values are stored through _sym_store with their Expr; see runtime
      return call(B, "_sym_load", {addr, c32(0x100 | (unsigned)DL.getTypeStoreSize(t)), c64(0)});
    }
    call(B, "_sym_pinmem", {addr, c64(DL.getTypeStoreSize(t))});
    return nul();
  }
  void storeLeaf(IRBuilder<>& B, Type* t, Value* addr, Value* s) {
    unsigned n = DL.getTypeStoreSize(t);
    if (okInt(t) && bits(t) % 8 == 0) { call(B, "_sym_store", {addr, c32(n), s}); return; }
    if (isFP(t)) { call(B, "_sym_store", {addr, c32(n | 0x100), s}); return; }
    pin(B, s);
    call(B, "_sym_clear", {addr, c64(n)});
  }
  Value* at(IRBuilder<>& B, Value* p, uint64_t off) { return off ? B.CreateConstGEP1_64(I8, p, off) : p; }
  Value* fp80(IRBuilder<>& B, Value* v) {
    Type* X = Type::getX86_FP80Ty(C);
    return v->getType() == X ? v : B.CreateFPExt(v, X);
  }
  unsigned fmt(Type* t) { return t->isX86_FP80Ty() ? 80 : t->isDoubleTy() ? 64 : 32; }

  bool instrumented(Function* f) { return f && !f->isDeclaration() && !isRuntime(f->getName()); }

  void handleCall(CallBase* CB, SV& out) {
    Function* cf = CB->getCalledFunction();
    IRBuilder<> B(CB);
    // insertion point after the call
    auto after = [&]() -> Instruction* {
      if (auto* inv = dyn_cast<InvokeInst>(CB)) {
        BasicBlock* nd = inv->getNormalDest();
        return &*nd->getFirstInsertionPt();
      }
      return CB->getNextNode();
    };
    size_t nret = leafs(CB->getType()).size();
    if (CB->getType()->isVoidTy()) nret = 0;
    out.assign(nret, nul());
    if (CB->isInlineAsm()) {
      for (auto& a : CB->args()) pinAll(B, a);
      return;
    }
    if (auto* II = dyn_cast<IntrinsicInst>(CB)) { handleIntrinsic(II, out); return; }
    StringRef name = cf ? cf->getName() : "";
    if (cf && isRuntime(name) && !name.starts_with("sym_")) return;
    // runtime API (sym_*): pass shadows through the same channel, the runtime picks them up
    bool api = cf && name.starts_with("sym_");
    bool def = instrumented(cf);
    bool ext = cf && !def && !api;
    if (ext) {
      externals.insert(name.str());
      for (auto& a : CB->args()) pinAll(B, a);
      if (name == "_Znwm" || name == "_Znam" || name == "malloc") {
        Instruction* ip = after();
        IRBuilder<> B2(ip);
        call(B2, "_sym_clear", {CB, B2.CreateZExtOrTrunc(CB->getArgOperand(0), I64)});
        return;
      }
      if (name == "_ZnwmRKSt9nothrow_t" || name == "_ZnamRKSt9nothrow_t" || name == "_ZnwmSt11align_val_t") {
        Instruction* ip = after();
        IRBuilder<> B2(ip);
        call(B2, "_sym_clear", {CB, CB->getArgOperand(0)});
        return;
      }
      if (name == "calloc") {
        Instruction* ip = after();
        IRBuilder<> B2(ip);
        call(B2, "_sym_clear", {CB, B2.CreateMul(CB->getArgOperand(0), CB->getArgOperand(1))});
        return;
      }
      // externals that read a memory buffer: pin what they read
      if (name == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l" ||
          name == "_ZNSo5writeEPKcl") {
        call(B, "_sym_pinmem", {CB->getArgOperand(1), CB->getArgOperand(2)});
      } else if (name == "write" || name == "fwrite") {
        call(B, "_sym_pinmem", {CB->getArgOperand(name == "write" ? 1 : 0), name == "write" ? CB->getArgOperand(2) : B.CreateMul(CB->getArgOperand(1), CB->getArgOperand(2))});
      }
      static const StringSet<> quiet = {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_allocate_exception",
        "__cxa_throw", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "__cxa_free_exception", "__cxa_rethrow",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", "_Unwind_Resume"};
      if (!quiet.contains(name)) {
        Value* str = B.CreateGlobalStringPtr(name);
        call(B, "_sym_external", {str});
      }
      return;
    }
    // instrumented / unknown callee
    unsigned k = 0;
    bool any = false;
    std::vector<Value*> flat;
    for (auto& a : CB->args())
      for (Value* s : shadow(a)) { flat.push_back(s); if (!isNull(s)) any = true; }
    if (flat.size() > MAXA) { for (auto* s : flat) pin(B, s); any = false; }
    for (unsigned i = 0; i < CB->arg_size(); ++i)
      if (CB->isByValArgument(i)) call(B, "_sym_pinmem", {CB->getArgOperand(i), c64(DL.getTypeAllocSize(CB->getParamByValType(i)))});
    if (api || any) {
      for (Value* s : flat) B.CreateStore(s, B.CreateConstInBoundsGEP2_32(ArrayType::get(P, MAXA), GArgs, 0, k++));
      if (!api) B.CreateStore(CB->getCalledOperand(), GCallee);
    }
    if (CB->isMustTailCall()) return;
    if (any && !def && !api) { IRBuilder<> B3(after()); call(B3, "_sym_unconsumed", {c32(k)}); }
    if (nret == 0) return;
    if (nret > MAXA) return;
    if (!def) B.CreateStore(nul(), GRetFn);
    if (api) B.CreateStore(nul(), B.CreateConstInBoundsGEP2_32(ArrayType::get(P, MAXA), GRet, 0, 0));
    Instruction* ip = after();
    IRBuilder<> B2(ip);
    Value* okv = nullptr;
    if (!def && !api) okv = B2.CreateICmpEQ(B2.CreateLoad(P, GRetFn), CB->getCalledOperand());
    for (unsigned i = 0; i < nret; ++i) {
      Value* s = B2.CreateLoad(P, B2.CreateConstInBoundsGEP2_32(ArrayType::get(P, MAXA), GRet, 0, i));
      if (okv) s = B2.CreateSelect(okv, s, nul());
      out[i] = s;
    }
  }

  void handleIntrinsic(IntrinsicInst* II, SV& out) {
    IRBuilder<> B(II);
    auto A = [&](unsigned i) { return II->getArgOperand(i); };
    auto b2 = [&](unsigned op) { out[0] = bin(B, op, A(0), s1(A(0)), A(1), s1(A(1))); };
    switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        pinAll(B, A(0)); pinAll(B, A(1)); pinAll(B, A(2));
        call(B, "_sym_memcpy", {A(0), A(1), B.CreateZExtOrTrunc(A(2), I64)});
        return;
      }
      case Intrinsic::memset: {
        pinAll(B, A(0)); pinAll(B, A(2));
        call(B, "_sym_memset", {A(0), s1(A(1)), B.CreateZExtOrTrunc(A(2), I64)});
        return;
      }
      case Intrinsic::lifetime_start: call(B, "_sym_clear", {A(1), B.CreateSelect(B.CreateICmpEQ(A(0), c64(~0ull)), c64(0), A(0))}); return;
      case Intrinsic::umin: return b2(O_UMIN);
      case Intrinsic::umax: return b2(O_UMAX);
      case Intrinsic::smin: return b2(O_SMIN);
      case Intrinsic::smax: return b2(O_SMAX);
      case Intrinsic::uadd_sat: return b2(O_UADDSAT);
      case Intrinsic::usub_sat: return b2(O_USUBSAT);
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned o1, o2;
        switch (II->getIntrinsicID()) {
          case Intrinsic::uadd_with_overflow: o1 = O_ADD; o2 = O_UADDO; break;
          case Intrinsic::usub_with_overflow: o1 = O_SUB; o2 = O_USUBO; break;
          case Intrinsic::umul_with_overflow: o1 = O_MUL; o2 = O_UMULO; break;
          case Intrinsic::sadd_with_overflow: o1 = O_ADD; o2 = O_SADDO; break;
          case Intrinsic::ssub_with_overflow: o1 = O_SUB; o2 = O_SSUBO; break;
          default: o1 = O_MUL; o2 = O_SMULO; break;
        }
        out[0] = bin(B, o1, A(0), s1(A(0)), A(1), s1(A(1)));
        out[1] = bin(B, o2, A(0), s1(A(0)), A(1), s1(A(1)));
        return;
      }
      case Intrinsic::bswap: out[0] = un(B, U_BSWAP, A(0)); return;
      case Intrinsic::ctpop: out[0] = un(B, U_CTPOP, A(0)); return;
      case Intrinsic::ctlz: out[0] = un(B, U_CTLZ, A(0)); return;
      case Intrinsic::cttz: out[0] = un(B, U_CTTZ, A(0)); return;
      case Intrinsic::abs: out[0] = un(B, U_ABS, A(0)); return;
      case Intrinsic::fshl: case Intrinsic::fshr: {
        if (isNull(s1(A(0))) && isNull(s1(A(1))) && isNull(s1(A(2)))) return;
        unsigned w = bits(A(0)->getType());
        if (w == 0 || w > 64) { for (int i = 0; i < 3; ++i) pinAll(B, A(i)); return; }
        out[0] = call(B, "_sym_fsh", {c32(II->getIntrinsicID() == Intrinsic::fshl), c32(w), s1(A(0)), conc(B, A(0), false), s1(A(1)), conc(B, A(1), false),
                                      s1(A(2)), conc(B, A(2), false)});
        return;
      }
      case Intrinsic::expect: case Intrinsic::ssa_copy: out[0] = s1(A(0)); return;
      case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::donothing: case Intrinsic::is_constant: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::prefetch: case Intrinsic::objectsize:
        return;
      default:
        for (auto& a : II->args()) pinAll(B, a);
        return;
    }
  }
  Value* un(IRBuilder<>& B, unsigned op, Value* a) {
    Value* s = s1(a);
    if (isNull(s)) return nul();
    unsigned w = bits(a->getType());
    if (w == 0 || w > 64) { pin(B, s); return nul(); }
    return call(B, "_sym_un", {c32(op), c32(w), s});
  }

  void runFunction(Function& Fn) {
    F = &Fn;
    sh.clear();
    slots[0] = slots[1] = nullptr;
    EliminateUnreachableBlocks(Fn);
    {
      std::vector<InvokeInst*> iv;
      for (auto& b : Fn) if (auto* i = dyn_cast<InvokeInst>(b.getTerminator())) iv.push_back(i);
      for (auto* i : iv) if (!i->getNormalDest()->getSinglePredecessor()) SplitEdge(i->getParent(), i->getNormalDest());
    }
    std::vector<BasicBlock*> order;
    {
      ReversePostOrderTraversal<Function*> R(&Fn);
      for (BasicBlock* b : R) order.push_back(b);
    }
    // prologue
    Instruction* ip = &*Fn.getEntryBlock().getFirstInsertionPt();
    {
      // keep allocas first
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      unsigned n = 0;
      bool hasArg = false;
      for (auto& a : Fn.args()) { n += leafs(a.getType()).size(); hasArg = true; }
      if (hasArg && n <= MAXA && n > 0) {
        Value* ok = B.CreateICmpEQ(B.CreateLoad(P, GCallee), &Fn);
        unsigned k = 0;
        for (auto& a : Fn.args()) {
          SV v;
          for (size_t i = 0; i < leafs(a.getType()).size(); ++i) {
            Value* s = B.CreateLoad(P, B.CreateConstInBoundsGEP2_32(ArrayType::get(P, MAXA), GArgs, 0, k++));
            v.push_back(B.CreateSelect(ok, s, nul()));
          }
          sh[&a] = v;
        }
        B.CreateStore(nul(), GCallee);
      }
      // only name functions of the code under test (not libstdc++)
      // and those inlined into this one (from the debug locations)
      std::set<std::string> nms;
      auto firefly = [&](StringRef n) { if (n.contains("7firefly") && !n.starts_with("_ZNSt") && !n.starts_with("_ZSt") && !n.starts_with("_ZNKSt") && !n.starts_with("_ZN9__gnu_cxx")) nms.insert(n.str()); };
      firefly(Fn.getName());
      for (auto& b : Fn) for (auto& i : b)
        for (const DILocation* l = i.getDebugLoc().get(); l; l = l->getInlinedAt())
          if (auto* sp = l->getScope()->getSubprogram()) firefly(sp->getLinkageName());
      if (!nms.empty()) {
        std::string all;
        for (auto& n : nms) all += (all.empty() ? "" : "|") + n;
        call(B, "_sym_fn", {c32(fnNames.size())});
        fnNames.push_back(all);
      }
      for (auto& a : Fn.args())
        if (a.hasByValAttr()) call(B, "_sym_clear", {&a, c64(DL.getTypeAllocSize(a.getParamByValType()))});
    }
    // phis first
    std::vector<PHINode*> phis;
    std::vector<Instruction*> insts;
    for (BasicBlock* b : order)
      for (Instruction& I : *b) insts.push_back(&I);
    // drop instrumentation code of the prologue from the list: all instrs that were added before ip
    std::set<Instruction*> skip;
    for (Instruction& I : Fn.getEntryBlock()) {
      if (&I == ip) break;
      if (!isa<AllocaInst>(&I)) skip.insert(&I);
    }
    for (Instruction* I : insts) {
      auto* ph = dyn_cast<PHINode>(I);
      if (!ph) continue;
      auto& L = leafs(ph->getType());
      SV v;
      bool ok = true;
      for (auto& l : L) if (!okInt(l.t) && !isFP(l.t)) ok = false;
      (void)ok;
      IRBuilder<> B(ph);
      for (size_t i = 0; i < L.size(); ++i) v.push_back(B.CreatePHI(P, ph->getNumIncomingValues()));
      sh[ph] = v;
      phis.push_back(ph);
    }
    for (Instruction* I : insts) {
      if (skip.count(I) || isa<PHINode>(I)) continue;
      SV out;
      IRBuilder<> B(I);
      switch (I->getOpcode()) {
        case Instruction::Alloca: {
          auto* AI = cast<AllocaInst>(I);
          // place clear after the alloca group
          Instruction* q = I->getNextNode();
          while (isa<AllocaInst>(q)) q = q->getNextNode();
          IRBuilder<> B2(q);
          Value* sz = c64(DL.getTypeAllocSize(AI->getAllocatedType()));
          if (AI->isArrayAllocation()) { pinAll(B, AI->getArraySize()); sz = B2.CreateMul(sz, B2.CreateZExtOrTrunc(AI->getArraySize(), I64)); }
          call(B2, "_sym_clear", {AI, sz});
          break;
        }
        case Instruction::Load: {
          auto* LI = cast<LoadInst>(I);
          pinAll(B, LI->getPointerOperand());
          IRBuilder<> B2(I->getNextNode());
          auto& L = leafs(LI->getType());
          for (auto& l : L) {
            Value* v = LI;
            if (!l.idx.empty()) v = B2.CreateExtractValue(LI, l.idx);
            out.push_back(loadLeaf(B2, l.t, at(B2, LI->getPointerOperand(), l.off), v));
          }
          break;
        }
        case Instruction::Store: {
          auto* SI = cast<StoreInst>(I);
          pinAll(B, SI->getPointerOperand());
          IRBuilder<> B2(I->getNextNode());
          auto& L = leafs(SI->getValueOperand()->getType());
          SV s = shadow(SI->getValueOperand());
          for (size_t i = 0; i < L.size(); ++i) storeLeaf(B2, L[i].t, at(B2, SI->getPointerOperand(), L[i].off), s[i]);
          break;
        }
        case Instruction::GetElementPtr: {
          auto* G = cast<GetElementPtrInst>(I);
          if (G->getType()->isVectorTy()) { for (auto& o : G->operands()) pinAll(B, o); out.assign(leafs(I->getType()).size(), nul()); break; }
          Value* base = s1(G->getPointerOperand());
          Value* off = nul();
          for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            Value* ix = gi.getOperand();
            if (gi.isStruct()) continue;
            Value* s = s1(ix);
            if (isNull(s)) continue;
            uint64_t sc = DL.getTypeAllocSize(gi.getIndexedType());
            off = call(B, "_sym_gepoff", {off, s, B.CreateSExtOrTrunc(ix, I64), c64(sc), c32(bits(ix->getType()))});
          }
          if (isNull(base) && isNull(off)) { out.push_back(nul()); break; }
          IRBuilder<> B2(I->getNextNode());
          out.push_back(call(B2, "_sym_gepfin", {I, base, off}));
          break;
        }
        case Instruction::ICmp: {
          auto* IC = cast<ICmpInst>(I);
          if (IC->getOperand(0)->getType()->isVectorTy()) { pinAll(B, I->getOperand(0)); pinAll(B, I->getOperand(1)); out.assign(1, nul()); break; }
          out.push_back(cmp(B, pred(IC->getPredicate()), I->getOperand(0), s1(I->getOperand(0)), I->getOperand(1), s1(I->getOperand(1))));
          break;
        }
        case Instruction::Select: {
          auto* S = cast<SelectInst>(I);
          if (S->getCondition()->getType()->isVectorTy()) { for (auto& o : S->operands()) pinAll(B, o); out.assign(leafs(I->getType()).size(), nul()); break; }
          auto& L = leafs(S->getType());
          if (L.size() == 1 && L[0].idx.empty())
            out.push_back(select(B, S->getCondition(), s1(S->getCondition()), S->getTrueValue(), s1(S->getTrueValue()), S->getFalseValue(), s1(S->getFalseValue())));
          else {
            pinAll(B, S->getCondition());
            SV a = shadow(S->getTrueValue()), b = shadow(S->getFalseValue());
            for (size_t i = 0; i < L.size(); ++i)
              out.push_back(isNull(a[i]) && isNull(b[i]) ? (Value*)nul() : B.CreateSelect(S->getCondition(), a[i], b[i]));
          }
          break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
          Value* s = s1(I->getOperand(0));
          unsigned f = bits(I->getOperand(0)->getType()), t = bits(I->getType());
          if (isNull(s)) { out.push_back(nul()); break; }
          if (!f || !t || f > 256 || t > 256) { pin(B, s); out.assign(leafs(I->getType()).size(), nul()); break; }
          if (f == t) out.push_back(s);
          else out.push_back(call(B, "_sym_cast", {c32(f > t ? C_TRUNC : I->getOpcode() == Instruction::SExt ? C_SEXT : C_ZEXT), c32(f), c32(t), s}));
          break;
        }
        case Instruction::Freeze: out = shadow(I->getOperand(0)); break;
        case Instruction::BitCast:
          if (I->getType() == I->getOperand(0)->getType() || (I->getType()->isPointerTy())) out = shadow(I->getOperand(0));
          else { pinAll(B, I->getOperand(0)); out.assign(leafs(I->getType()).size(), nul()); }
          break;
        case Instruction::UIToFP: case Instruction::SIToFP: {
          Value* s = s1(I->getOperand(0));
          if (isNull(s) || !isFP(I->getType()) || bits(I->getOperand(0)->getType()) > 64) { pin(B, s); out.push_back(nul()); break; }
          IRBuilder<> B2(I->getNextNode());
          out.push_back(call(B2, "_sym_i2f", {c32(I->getOpcode() == Instruction::UIToFP ? F_UITOFP : F_SITOFP), c32(fmt(I->getType())), s, fp80(B2, I)}));
          break;
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
          Value* s = s1(I->getOperand(0));
          if (isNull(s)) { out.push_back(nul()); break; }
          IRBuilder<> B2(I->getNextNode());
          out.push_back(call(B2, "_sym_f2i", {c32(I->getOpcode() == Instruction::FPToUI ? F_FPTOUI : F_FPTOSI), c32(bits(I->getType())), s, fp80(B2, I->getOperand(0)), conc(B2, I, false)}));
          break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
          Value *a = s1(I->getOperand(0)), *b = s1(I->getOperand(1));
          if (isNull(a) && isNull(b)) { out.assign(leafs(I->getType()).size(), nul()); break; }
          if (!isFP(I->getType())) { pin(B, a); pin(B, b); out.assign(1, nul()); break; }
          unsigned op = I->getOpcode() == Instruction::FAdd ? F_ADD : I->getOpcode() == Instruction::FSub ? F_SUB : I->getOpcode() == Instruction::FMul ? F_MUL : F_DIV;
          IRBuilder<> B2(I->getNextNode());
          out.push_back(call(B2, "_sym_fbin", {c32(op), c32(fmt(I->getType())), a, fp80(B2, I->getOperand(0)), b, fp80(B2, I->getOperand(1)), fp80(B2, I)}));
          break;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
          Value* a = s1(I->getOperand(0));
          if (isNull(a)) { out.push_back(nul()); break; }
          IRBuilder<> B2(I->getNextNode());
          out.push_back(call(B2, "_sym_fext", {c32(I->getOpcode() == Instruction::FPExt ? F_EXT : F_TRUNC), c32(fmt(I->getType())), a, fp80(B2, I)}));
          break;
        }
        case Instruction::ExtractValue: {
          auto* E = cast<ExtractValueInst>(I);
          SV s = shadow(E->getAggregateOperand());
          auto& L = leafs(E->getAggregateOperand()->getType());
          std::vector<unsigned> pre(E->idx_begin(), E->idx_end());
          for (size_t i = 0; i < L.size(); ++i)
            if (L[i].idx.size() >= pre.size() && std::equal(pre.begin(), pre.end(), L[i].idx.begin())) out.push_back(s[i]);
          break;
        }
        case Instruction::InsertValue: {
          auto* E = cast<InsertValueInst>(I);
          SV s = shadow(E->getAggregateOperand());
          SV v = shadow(E->getInsertedValueOperand());
          auto& L = leafs(E->getType());
          std::vector<unsigned> pre(E->idx_begin(), E->idx_end());
          size_t k = 0;
          for (size_t i = 0; i < L.size(); ++i)
            out.push_back(L[i].idx.size() >= pre.size() && std::equal(pre.begin(), pre.end(), L[i].idx.begin()) ? v[k++] : s[i]);
          break;
        }
        case Instruction::Call: case Instruction::Invoke: handleCall(cast<CallBase>(I), out); break;
        case Instruction::Br: {
          auto* Br = cast<BranchInst>(I);
          if (Br->isConditional()) {
            Value* s = s1(Br->getCondition());
            if (!isNull(s)) call(B, "_sym_branch", {s, Br->getCondition(), c32(++site)});
          }
          break;
        }
        case Instruction::Switch: {
          auto* S = cast<SwitchInst>(I);
          Value* s = s1(S->getCondition());
          if (isNull(s)) break;
          unsigned w = bits(S->getCondition()->getType());
          if (w > 64) { pin(B, s); break; }
          std::vector<uint64_t> cs;
          for (auto& c : S->cases()) cs.push_back(c.getCaseValue()->getZExtValue());
          auto* arr = ConstantDataArray::get(C, cs);
          auto* g = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "sw");
          call(B, "_sym_switch", {s, conc(B, S->getCondition(), false), c32(cs.size()), g, c32(++site)});
          break;
        }
        case Instruction::Ret: {
          if (I->getNumOperands() == 0) break;
          if (auto* pc = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (pc->isMustTailCall()) break;
          SV s = shadow(I->getOperand(0));
          if (s.size() <= MAXA) {
            unsigned k = 0;
            for (Value* v : s) B.CreateStore(v, B.CreateConstInBoundsGEP2_32(ArrayType::get(P, MAXA), GRet, 0, k++));
            B.CreateStore(&Fn, GRetFn);
          }
          break;
        }
        case Instruction::AtomicRMW: {
          pinAll(B, I->getOperand(0)); pinAll(B, I->getOperand(1));
          call(B, "_sym_pinmem", {I->getOperand(0), c64(DL.getTypeStoreSize(I->getType()))});
          call(B, "_sym_clear", {I->getOperand(0), c64(DL.getTypeStoreSize(I->getType()))});
          out.push_back(nul());
          break;
        }
        case Instruction::AtomicCmpXchg: {
          for (auto& o : I->operands()) pinAll(B, o);
          uint64_t n = DL.getTypeStoreSize(I->getOperand(1)->getType());
          call(B, "_sym_pinmem", {I->getOperand(0), c64(n)});
          call(B, "_sym_clear", {I->getOperand(0), c64(n)});
          out.assign(2, nul());
          break;
        }
        case Instruction::LandingPad: out.assign(leafs(I->getType()).size(), nul()); break;
        default:
          if (I->isBinaryOp() && okInt(I->getType())) {
            unsigned op = 0;
            switch (I->getOpcode()) {
              case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break;
              case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break;
              case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break;
              case Instruction::SRem: op = O_SREM; break; case Instruction::And: op = O_AND; break;
              case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break;
              case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break;
              case Instruction::AShr: op = O_ASHR; break;
            }
            out.push_back(bin(B, op, I->getOperand(0), s1(I->getOperand(0)), I->getOperand(1), s1(I->getOperand(1))));
          } else {
            for (auto& o : I->operands()) if (!isa<BasicBlock>(o)) pinAll(B, o);
            if (!I->getType()->isVoidTy()) out.assign(leafs(I->getType()).size(), nul());
          }
      }
      if (!I->getType()->isVoidTy()) {
        size_t n = leafs(I->getType()).size();
        while (out.size() < n) out.push_back(nul());
        sh[I] = out;
      }
    }
    // fill phis
    for (PHINode* ph : phis) {
      SV& v = sh[ph];
      for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) {
        SV s = shadow(ph->getIncomingValue(i));
        for (size_t k = 0; k < v.size(); ++k) cast<PHINode>(v[k])->addIncoming(s[k], ph->getIncomingBlock(i));
      }
    }
  }

  // |x| of wide integers in elementary operations
  void wideAbs(Function& f) {
    std::vector<IntrinsicInst*> v;
    for (auto& b : f) for (auto& i : b)
      if (auto* II = dyn_cast<IntrinsicInst>(&i)) {
        auto id = II->getIntrinsicID();
        if (II->getType()->isIntegerTy() && II->getType()->getIntegerBitWidth() > 64 && (id == Intrinsic::abs || id == Intrinsic::umin || id == Intrinsic::umax || id == Intrinsic::smin || id == Intrinsic::smax)) v.push_back(II);
      }
    for (auto* II : v) {
      IRBuilder<> B(II);
      Value *x = II->getArgOperand(0), *y = II->getArgOperand(1), *r;
      switch (II->getIntrinsicID()) {
        case Intrinsic::abs: r = B.CreateSelect(B.CreateICmpSLT(x, ConstantInt::get(x->getType(), 0)), B.CreateNeg(x), x); break;
        case Intrinsic::umin: r = B.CreateSelect(B.CreateICmpULT(x, y), x, y); break;
        case Intrinsic::umax: r = B.CreateSelect(B.CreateICmpUGT(x, y), x, y); break;
        case Intrinsic::smin: r = B.CreateSelect(B.CreateICmpSLT(x, y), x, y); break;
        default: r = B.CreateSelect(B.CreateICmpSGT(x, y), x, y);
      }
      II->replaceAllUsesWith(r); II->eraseFromParent();
    }
  }
  void run() {
    std::vector<Function*> fs;
    for (Function& f : M) if (instrumented(&f)) fs.push_back(&f);
    for (Function* f : fs) wideAbs(*f);
    for (Function* f : fs) {
      // byval arguments would need a shadow copy; copy in the caller's frame is done by codegen, so transfer is done via pointer arg
      f->removeFnAttr(Attribute::Memory);
      runFunction(*f);
    }
    for (Function& f : M) {
      f.removeFnAttr(Attribute::Memory);
      f.removeFnAttr(Attribute::NoSync);
      f.removeFnAttr(Attribute::WillReturn);
      f.removeFnAttr(Attribute::NoFree);
      for (auto& a : f.args()) {
        a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::WriteOnly); a.removeAttr(Attribute::NoCapture);
        a.removeAttr(Attribute::NoAlias);
      }
      for (auto& b : f)
        for (auto& i : b)
          if (auto* cb = dyn_cast<CallBase>(&i)) { cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::WillReturn); }
    }
    StripDebugInfo(M);
    // function name table
    std::vector<Constant*> names;
    for (auto& n : fnNames) {
      auto* c = ConstantDataArray::getString(C, n);
      auto* g = new GlobalVariable(M, c->getType(), true, GlobalValue::PrivateLinkage, c, "fnname");
      names.push_back(g);
    }
    auto* at = ArrayType::get(P, names.size());
    new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, names), "_sym_fn_names");
    new GlobalVariable(M, I32, true, GlobalValue::ExternalLinkage, ConstantInt::get(I32, names.size()), "_sym_fn_count");
    if (const char* p = getenv("FFSYM_EXT_OUT")) {
      std::ofstream o(p);
      for (auto& e : externals) o << "ext " << e << "\n";
      for (auto& e : redirected) o << "model " << e << "\n";
    }
  }
};

// runs before optimisation: redirect uses of X to a definition named ffmodel_X, keep redirect targets out of line
struct PrePass : PassInfoMixin<PrePass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    std::vector<Function*> ms;
    for (Function& f : M) if (f.getName().starts_with("ffmodel_") && !f.isDeclaration()) ms.push_back(&f);
    std::ofstream o;
    if (const char* p = getenv("FFSYM_EXT_OUT")) o.open(std::string(p) + ".models");
    for (Function* m : ms) {
      std::string t = m->getName().substr(8).str();
      std::vector<Function*> fs; // t itself and its file-local copies renamed by the linker (t.N)
      for (Function& f : M) {
        StringRef n = f.getName();
        if (n == t) fs.push_back(&f);
        else if (f.hasLocalLinkage() && n.starts_with(t + ".") && n.substr(t.size() + 1).find_first_not_of("0123456789") == StringRef::npos) fs.push_back(&f);
      }
      for (Function* f : fs) {
      f->addFnAttr(Attribute::NoInline);
      std::vector<Use*> us;
      for (Use& u : f->uses()) {
        if (auto* I = dyn_cast<Instruction>(u.getUser())) {
          if (I->getFunction() == m) continue;
          if (I->getFunction()->getName().starts_with("ffkeep_")) continue;
          us.push_back(&u);
        }
      }
      for (Use* u : us) u->set(m);
      o << f->getName().str() << " " << us.size() << "\n";
      }
    }
    // optional: functions to replace by a trap-free empty body are handled by models as well
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    Pass(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "ffsym", "1", [](PassBuilder& PB) {
            PB.registerPipelineParsingCallback([](StringRef Name, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (Name == "ffsym") { MPM.addPass(SymPass()); return true; }
              if (Name == "ffsym-pre") { MPM.addPass(PrePass()); return true; }
              return false;
            });
          }};
}
