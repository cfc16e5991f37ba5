// Concolic instrumentation pass (LLVM 18, new pass manager plugin).
//
// Every integer/pointer SSA value gets a shadow: a 32-bit id of a bit-vector expression (0 = concrete).
// The pass adds the code that propagates shadows through the function, and calls into the runtime
// (engine/runtime.cpp) at symbolic branches, memory accesses and calls.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;

namespace {

typedef SmallVector<Value *, 2> Leaves;

struct Rt {
    FunctionCallee bin, cmp, cast, select, load, store, branch, sw, conc, memcpy_, memmove_, memset_, concmem, clearmem, gep;
    GlobalVariable *args, *callee, *ret, *retfn;
};

static const char *WRAP[] = {
    "memcmp", "bcmp", "memchr", "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "strpbrk", "strnlen",
    "memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strdup", "memrchr", "strtol", "__isoc23_strtol", "strtoul", "__isoc23_strtoul", "strtoll", "__isoc23_strtoll", "strtoull", "__isoc23_strtoull",
    "atoi", "isspace", "isalpha", "isdigit", "isalnum", "isupper", "islower", "ispunct", "isxdigit", "iscntrl", "isprint", "isgraph", "toupper", "tolower",
    "snprintf", "vsnprintf", "sprintf", "realloc", "read", "write", "fread", "fwrite", "fputs", "abs",
    "open", "close", "fopen", "fdopen", "fclose", "feof", "ferror", "fflush", "fileno", "open64", "fopen64",
};

struct SymFn {
    Function &F;
    Module &M;
    Rt &rt;
    LLVMContext &C;
    const DataLayout &DL;
    Type *I32, *I64, *PtrTy, *I1;
    DenseMap<Value *, Leaves> sh;
    SmallVector<std::pair<PHINode *, Leaves>, 16> phis;
    Constant *fname;
    Constant *Z;

    SymFn(Function &F, Rt &rt) : F(F), M(*F.getParent()), rt(rt), C(F.getContext()), DL(M.getDataLayout()) {
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        I1 = Type::getInt1Ty(C);
        PtrTy = PointerType::getUnqual(C);
        Z = ConstantInt::get(I32, 0);
    }

    static void flatten(Type *T, SmallVectorImpl<Type *> &out) {
        if (auto *S = dyn_cast<StructType>(T)) { for (auto *E : S->elements()) flatten(E, out); return; }
        if (auto *A = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), out); return; }
        out.push_back(T);
    }
    static unsigned nleaves(Type *T) { if (T->isVoidTy()) return 0; SmallVector<Type *, 4> o; flatten(T, o); return o.size(); }
    static bool ok(Type *T) { return T->isPointerTy() || (T->isIntegerTy() && T->getIntegerBitWidth() <= 64); }
    static bool okAny(Type *T) { SmallVector<Type *, 4> o; flatten(T, o); for (auto *t : o) if (t->isIntegerTy() && ok(t)) return true; return false; }
    unsigned bitsOf(Type *T) { return T->isPointerTy() ? 64 : T->getIntegerBitWidth(); }
    static unsigned leafIndex(Type *T, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for (unsigned i : idx) {
            if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) off += nleaves(S->getElementType(k)); T = S->getElementType(i); }
            else { auto *A = cast<ArrayType>(T); off += i * nleaves(A->getElementType()); T = A->getElementType(); }
        }
        return off;
    }

    Leaves get(Value *V) {
        if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return Leaves(std::max(1u, nleaves(V->getType())), Z);
        auto it = sh.find(V);
        if (it != sh.end()) return it->second;
        return Leaves(std::max(1u, nleaves(V->getType())), Z);
    }
    Value *get1(Value *V) { return get(V)[0]; }
    bool zero(Value *s) { return s == Z; }

    Value *ext(IRBuilder<> &B, Value *V) {
        Type *T = V->getType();
        if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
        if (T->getIntegerBitWidth() == 64) return V;
        return B.CreateZExt(V, I64);
    }
    Constant *c32(unsigned v) { return ConstantInt::get(I32, v); }

    Value *orAll(IRBuilder<> &B, ArrayRef<Value *> v) {
        Value *o = nullptr;
        for (auto *s : v) { if (zero(s)) continue; o = o ? B.CreateOr(o, s) : s; }
        return o;
    }

    // emits: if (or != 0) r = fn(args) else r = 0 before instruction `at`; returns shadow
    template <class Fn> Value *guarded(Instruction *at, Value *o, Fn emit) {
        IRBuilder<> B(at);
        Value *c = B.CreateICmpNE(o, Z);
        BasicBlock *head = at->getParent();
        Instruction *t = SplitBlockAndInsertIfThen(c, at, false, MDBuilder(C).createBranchWeights(1, 2000));
        head = cast<Instruction>(c)->getParent();
        IRBuilder<> B2(t);
        Value *r = emit(B2);
        if (!r) return nullptr;
        BasicBlock *thenEnd = t->getParent();
        IRBuilder<> B3(at->getParent(), at->getParent()->begin());
        PHINode *p = B3.CreatePHI(I32, 2);
        p->addIncoming(Z, head);
        p->addIncoming(r, thenEnd);
        return p;
    }

    void conc(Instruction *at, Value *V) {   // value must be concrete from here on
        SmallVector<Type *, 4> T; flatten(V->getType(), T);
        if (T.size() != 1 || !ok(T[0])) return;
        Value *s = get1(V);
        if (zero(s)) return;
        guarded(at, s, [&](IRBuilder<> &B) -> Value * { B.CreateCall(rt.conc, {s, ext(B, V), c32(bitsOf(V->getType())), fname}); return nullptr; });
    }

    void visitCall(CallBase *CB);
    void run();
    void visit(Instruction *I);
};

void SymFn::visit(Instruction *I) {
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        if (!ok(BO->getType())) { if (BO->getType()->isIntegerTy()) { } return; }
        Value *a = get1(BO->getOperand(0)), *b = get1(BO->getOperand(1));
        if (zero(a) && zero(b)) return;
        IRBuilder<> B(I);
        Value *o = orAll(B, {a, b});
        Value *r = guarded(I, o, [&](IRBuilder<> &B) { return B.CreateCall(rt.bin, {c32(BO->getOpcode()), c32(bitsOf(BO->getType())), a, ext(B, BO->getOperand(0)), b, ext(B, BO->getOperand(1))}); });
        sh[I] = {r};
        return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
        if (!ok(IC->getOperand(0)->getType())) return;
        Value *a = get1(IC->getOperand(0)), *b = get1(IC->getOperand(1));
        if (zero(a) && zero(b)) return;
        IRBuilder<> B(I);
        Value *o = orAll(B, {a, b});
        Value *r = guarded(I, o, [&](IRBuilder<> &B) { return B.CreateCall(rt.cmp, {c32(IC->getPredicate()), c32(bitsOf(IC->getOperand(0)->getType())), a, ext(B, IC->getOperand(0)), b, ext(B, IC->getOperand(1))}); });
        sh[I] = {r};
        return;
    }
    if (auto *CI = dyn_cast<CastInst>(I)) {
        Type *S = CI->getSrcTy(), *D = CI->getDestTy();
        if (!ok(S)) return;
        Value *a = get1(CI->getOperand(0));
        if (zero(a)) return;
        if (!ok(D)) { conc(I, CI->getOperand(0)); return; }
        unsigned sb = bitsOf(S), db = bitsOf(D);
        if (sb == db) { sh[I] = {a}; return; }
        unsigned kind = isa<SExtInst>(CI) ? 2 : (db > sb ? 1 : 0);
        Value *r = guarded(I, a, [&](IRBuilder<> &B) { return B.CreateCall(rt.cast, {c32(kind), c32(sb), c32(db), a, ext(B, CI->getOperand(0))}); });
        sh[I] = {r};
        return;
    }
    if (auto *FI = dyn_cast<FreezeInst>(I)) { sh[I] = get(FI->getOperand(0)); return; }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
        Value *c = get1(SI->getCondition());
        if (!SI->getCondition()->getType()->isIntegerTy(1)) return;
        SmallVector<Type *, 4> T; flatten(SI->getType(), T);
        Leaves a = get(SI->getTrueValue()), b = get(SI->getFalseValue());
        bool scalar = T.size() == 1 && ok(T[0]) && !T[0]->isPointerTy();
        if (scalar) {
            if (zero(c) && zero(a[0]) && zero(b[0])) return;
            IRBuilder<> B(I);
            Value *o = orAll(B, {c, a[0], b[0]});
            Value *r = guarded(I, o, [&](IRBuilder<> &B) { return B.CreateCall(rt.select, {c, ext(B, SI->getCondition()), a[0], ext(B, SI->getTrueValue()), b[0], ext(B, SI->getFalseValue()), c32(bitsOf(T[0]))}); });
            sh[I] = {r};
            return;
        }
        // pointers / aggregates: decide the condition
        if (!zero(c)) guarded(I, c, [&](IRBuilder<> &B) -> Value * { B.CreateCall(rt.branch, {c, ext(B, SI->getCondition()), fname}); return nullptr; });
        Leaves r;
        bool any = false;
        IRBuilder<> B(I);
        for (unsigned i = 0; i < a.size(); ++i) {
            if (zero(a[i]) && zero(b[i])) { r.push_back(Z); continue; }
            any = true;
            r.push_back(B.CreateSelect(SI->getCondition(), a[i], b[i]));
        }
        if (any) sh[I] = r;
        return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
        Leaves a = get(EV->getAggregateOperand());
        unsigned off = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
        unsigned n = nleaves(EV->getType());
        Leaves r;
        for (unsigned i = 0; i < n; ++i) r.push_back(a[off + i]);
        sh[I] = r;
        return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I)) {
        Leaves a = get(IV->getAggregateOperand()), b = get(IV->getInsertedValueOperand());
        unsigned off = leafIndex(IV->getType(), IV->getIndices());
        for (unsigned i = 0; i < b.size() && off + i < a.size(); ++i) a[off + i] = b[i];
        sh[I] = a;
        return;
    }
    if (auto *GEP = dyn_cast<GetElementPtrInst>(I)) {
        if (GEP->getType()->isVectorTy()) return;
        SmallVector<Value *, 4> all;
        all.push_back(get1(GEP->getPointerOperand()));
        for (auto it = GEP->idx_begin(); it != GEP->idx_end(); ++it) all.push_back(get1(*it));
        bool any = false;
        for (auto *s : all) if (!zero(s)) any = true;
        if (!any) return;
        IRBuilder<> B(I);
        Value *o = orAll(B, all);
        // r = base; for each symbolic-able index r = gep(r, rv, idx, idxv, scale)
        Instruction *at = I;
        Value *r = guarded(at, o, [&](IRBuilder<> &B) {
            Value *accS = all[0];
            Value *accV = ext(B, GEP->getPointerOperand());
            gep_type_iterator gti = gep_type_begin(GEP);
            unsigned k = 1;
            for (auto it = GEP->idx_begin(); it != GEP->idx_end(); ++it, ++gti, ++k) {
                Value *idx = *it;
                uint64_t scale; Value *iv;
                if (StructType *ST = gti.getStructTypeOrNull()) {
                    uint64_t off = DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    scale = 1; iv = ConstantInt::get(I64, off);
                } else {
                    scale = DL.getTypeAllocSize(gti.getIndexedType());
                    iv = B.CreateSExtOrTrunc(idx, I64);
                }
                accS = B.CreateCall(rt.gep, {accS, accV, all[k], iv, ConstantInt::get(I64, scale), c32(idx->getType()->getIntegerBitWidth())});
                accV = B.CreateAdd(accV, B.CreateMul(iv, ConstantInt::get(I64, scale)));
            }
            return accS;
        });
        sh[I] = {r};
        return;
    }
    if (auto *LI = dyn_cast<LoadInst>(I)) {
        Type *T = LI->getType();
        Instruction *at = I->getNextNode();
        Value *ps = get1(LI->getPointerOperand());
        if (T->isPointerTy()) { conc(I, LI->getPointerOperand()); return; }
        if (!ok(T)) {
            IRBuilder<> B(at);
            B.CreateCall(rt.concmem, {LI->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(T)), fname});
            return;
        }
        IRBuilder<> B(at);
        Value *r = B.CreateCall(rt.load, {LI->getPointerOperand(), ps, c32(DL.getTypeStoreSize(T)), c32(bitsOf(T)), ext(B, LI), fname});
        sh[I] = {r};
        return;
    }
    if (auto *SI = dyn_cast<StoreInst>(I)) {
        Value *V = SI->getValueOperand();
        Type *T = V->getType();
        if (T->isPointerTy()) { conc(I, V); conc(I, SI->getPointerOperand()); return; }
        IRBuilder<> B(I->getNextNode());
        if (!ok(T)) { B.CreateCall(rt.clearmem, {SI->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(T))}); return; }
        B.CreateCall(rt.store, {SI->getPointerOperand(), get1(SI->getPointerOperand()), c32(DL.getTypeStoreSize(T)), c32(bitsOf(T)), get1(V), ext(B, V), fname});
        return;
    }
    if (auto *BI = dyn_cast<BranchInst>(I)) {
        if (!BI->isConditional()) return;
        Value *s = get1(BI->getCondition());
        if (zero(s)) return;
        guarded(I, s, [&](IRBuilder<> &B) -> Value * { B.CreateCall(rt.branch, {s, ext(B, BI->getCondition()), fname}); return nullptr; });
        return;
    }
    if (auto *SW = dyn_cast<SwitchInst>(I)) {
        if (!ok(SW->getCondition()->getType())) return;
        Value *s = get1(SW->getCondition());
        if (zero(s)) return;
        std::map<BasicBlock *, unsigned> ids;
        ids[SW->getDefaultDest()] = 0;
        std::vector<Constant *> vals, dests;
        for (auto &c : SW->cases()) {
            unsigned &id = ids.emplace(c.getCaseSuccessor(), ids.size()).first->second;
            vals.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
            dests.push_back(ConstantInt::get(I32, id));
        }
        // a destination with phi nodes whose value depends on the edge: same block => same predecessor => same phi value
        auto *va = ArrayType::get(I64, vals.size());
        auto *da = ArrayType::get(I32, dests.size());
        auto *gv = new GlobalVariable(M, va, true, GlobalValue::PrivateLinkage, ConstantArray::get(va, vals));
        auto *gd = new GlobalVariable(M, da, true, GlobalValue::PrivateLinkage, ConstantArray::get(da, dests));
        guarded(I, s, [&](IRBuilder<> &B) -> Value * {
            B.CreateCall(rt.sw, {s, ext(B, SW->getCondition()), c32(bitsOf(SW->getCondition()->getType())), c32(vals.size()), gv, gd, fname});
            return nullptr;
        });
        return;
    }
    if (auto *RI = dyn_cast<ReturnInst>(I)) {
        Value *V = RI->getReturnValue();
        if (!V) return;
        if (auto *prev = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (prev->isMustTailCall()) return;
        if (V->getType()->isPointerTy()) { conc(I, V); return; }
        if (!okAny(V->getType())) return;
        Leaves l = get(V);
        IRBuilder<> B(I);
        Value *o = orAll(B, l);
        if (!o) { B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), rt.retfn); return; }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), rt.retfn);
        guarded(I, o, [&](IRBuilder<> &B) -> Value * {
            for (unsigned i = 0; i < l.size() && i < 8; ++i) B.CreateStore(l[i], B.CreateConstGEP1_32(I32, rt.ret, i));
            B.CreateStore(&F, rt.retfn);
            return nullptr;
        });
        return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
        Value *P = I->getOperand(0);
        IRBuilder<> B(I);
        Type *T = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I)->getValOperand()->getType() : cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType();
        B.CreateCall(rt.concmem, {P, ConstantInt::get(I64, DL.getTypeStoreSize(T)), fname});
        B.CreateCall(rt.clearmem, {P, ConstantInt::get(I64, DL.getTypeStoreSize(T))});
        for (unsigned i = 1; i < I->getNumOperands(); ++i) if (ok(I->getOperand(i)->getType())) conc(I, I->getOperand(i));
        return;
    }
}

void SymFn::visitCall(CallBase *CB) {
    if (CB->isInlineAsm()) {
        for (auto &A : CB->args()) if (ok(A->getType())) conc(CB, A);
        return;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            conc(CB, II->getArgOperand(0)); conc(CB, II->getArgOperand(1)); conc(CB, II->getArgOperand(2));
            IRBuilder<> B(CB);
            B.CreateCall(II->getIntrinsicID() == Intrinsic::memmove ? rt.memmove_ : rt.memcpy_, {II->getArgOperand(0), II->getArgOperand(1), ext(B, II->getArgOperand(2))});
            return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            conc(CB, II->getArgOperand(0)); conc(CB, II->getArgOperand(2));
            IRBuilder<> B(CB);
            B.CreateCall(rt.memset_, {II->getArgOperand(0), get1(II->getArgOperand(1)), ext(B, II->getArgOperand(2))});
            return; }
        case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
            sh[CB] = {get1(II->getArgOperand(0))}; return;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            if (!ok(II->getType())) return;
            Value *x = II->getArgOperand(0), *y = II->getArgOperand(1);
            Value *a = get1(x), *b = get1(y);
            if (zero(a) && zero(b)) return;
            unsigned p = 0;
            switch (II->getIntrinsicID()) { case Intrinsic::umin: p = CmpInst::ICMP_ULT; break; case Intrinsic::umax: p = CmpInst::ICMP_UGT; break; case Intrinsic::smin: p = CmpInst::ICMP_SLT; break; default: p = CmpInst::ICMP_SGT; }
            IRBuilder<> B(CB);
            Value *o = orAll(B, {a, b});
            sh[CB] = {guarded(CB, o, [&](IRBuilder<> &B) {
                Value *c = B.CreateCall(rt.cmp, {c32(p), c32(bitsOf(x->getType())), a, ext(B, x), b, ext(B, y)});
                Value *cv = B.CreateICmp((CmpInst::Predicate)p, x, y);
                return B.CreateCall(rt.select, {c, ext(B, cv), a, ext(B, x), b, ext(B, y), c32(bitsOf(x->getType()))});
            })};
            return; }
        case Intrinsic::abs: {
            if (!ok(II->getType())) return;
            Value *x = II->getArgOperand(0); Value *a = get1(x);
            if (zero(a)) return;
            unsigned bits = bitsOf(x->getType());
            sh[CB] = {guarded(CB, a, [&](IRBuilder<> &B) {
                Value *zero = ConstantInt::get(x->getType(), 0);
                Value *c = B.CreateCall(rt.cmp, {c32(CmpInst::ICMP_SLT), c32(bits), a, ext(B, x), Z, ConstantInt::get(I64, 0)});
                Value *n = B.CreateCall(rt.bin, {c32(Instruction::Sub), c32(bits), Z, ConstantInt::get(I64, 0), a, ext(B, x)});
                Value *cv = B.CreateICmpSLT(x, zero), *nv = B.CreateSub(zero, x);
                return B.CreateCall(rt.select, {c, ext(B, cv), n, ext(B, nv), a, ext(B, x), c32(bits)});
            })};
            return; }
        case Intrinsic::usub_sat: {
            if (!ok(II->getType())) return;
            Value *x = II->getArgOperand(0), *y = II->getArgOperand(1);
            Value *a = get1(x), *b = get1(y);
            if (zero(a) && zero(b)) return;
            unsigned bits = bitsOf(x->getType());
            IRBuilder<> B(CB);
            Value *o = orAll(B, {a, b});
            sh[CB] = {guarded(CB, o, [&](IRBuilder<> &B) {
                Value *c = B.CreateCall(rt.cmp, {c32(CmpInst::ICMP_ULT), c32(bits), a, ext(B, x), b, ext(B, y)});
                Value *cv = B.CreateICmpULT(x, y);
                Value *d = B.CreateCall(rt.bin, {c32(Instruction::Sub), c32(bits), a, ext(B, x), b, ext(B, y)});
                Value *dv = B.CreateSub(x, y);
                return B.CreateCall(rt.select, {c, ext(B, cv), Z, ConstantInt::get(I64, 0), d, ext(B, dv), c32(bits)});
            })};
            return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (!ok(II->getType()) || !isa<ConstantInt>(II->getArgOperand(2))) break;
            Value *x = II->getArgOperand(0), *y = II->getArgOperand(1);
            Value *a = get1(x), *b = get1(y);
            if (zero(a) && zero(b)) return;
            unsigned bits = bitsOf(x->getType());
            unsigned k = cast<ConstantInt>(II->getArgOperand(2))->getZExtValue() % bits;
            if (II->getIntrinsicID() == Intrinsic::fshr) k = (bits - k) % bits;
            if (!k) { sh[CB] = {a}; return; }
            IRBuilder<> B(CB);
            Value *o = orAll(B, {a, b});
            sh[CB] = {guarded(CB, o, [&](IRBuilder<> &B) {
                Value *h = B.CreateCall(rt.bin, {c32(Instruction::Shl), c32(bits), a, ext(B, x), Z, ConstantInt::get(I64, k)});
                Value *l = B.CreateCall(rt.bin, {c32(Instruction::LShr), c32(bits), b, ext(B, y), Z, ConstantInt::get(I64, bits - k)});
                Value *hv = B.CreateShl(x, ConstantInt::get(x->getType(), k)), *lv = B.CreateLShr(y, ConstantInt::get(x->getType(), bits - k));
                return B.CreateCall(rt.bin, {c32(Instruction::Or), c32(bits), h, ext(B, hv), l, ext(B, lv)});
            })};
            return; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
            break;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::trap: case Intrinsic::is_constant:
            return;
        case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return;
        default: break;
        }
        for (auto &A : CB->args()) if (ok(A->getType())) conc(CB, A);
        return;
    }
    Function *callee = CB->getCalledFunction();
    if (callee && callee->getName().starts_with("_sr_")) return;
    // redirect selected libc functions to modelled versions
    if (callee && callee->isDeclaration()) {
        for (auto *w : WRAP) if (callee->getName() == w) {
            auto fc = M.getOrInsertFunction(std::string("_sw_") + w, callee->getFunctionType());
            CB->setCalledFunction(fc);
            callee = cast<Function>(fc.getCallee());
            CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::Builtin);
            break;
        }
    }
    if (auto *s = CB->getCalledOperand()) if (!isa<Constant>(s)) conc(CB, s);
    SmallVector<std::pair<unsigned, Value *>, 8> sargs; // slot, shadow
    SmallVector<Value *, 8> vals;
    unsigned slot = 0;
    SmallVector<Value *, 8> sset;
    unsigned fixed = CB->getFunctionType()->getNumParams();
    unsigned ai = 0;
    for (auto &A : CB->args()) {
        Value *V = A.get();
        if (ai++ >= fixed) { bool sw = callee && callee->getName().starts_with("_sw_"); if (!sw) { if (ok(V->getType())) conc(CB, V); continue; } }
        if (V->getType()->isPointerTy()) { if (!callee || !callee->getName().starts_with("_sw_")) conc(CB, V); else { conc(CB, V); } sargs.push_back({slot++, Z}); vals.push_back(V); continue; }
        Leaves l = get(V);
        for (auto *s : l) { sargs.push_back({slot++, s}); sset.push_back(s); }
        vals.push_back(V);
    }
    if (slot > 60) { sargs.clear(); sset.clear(); }
    IRBuilder<> B(CB);
    Value *o = orAll(B, sset);
    Value *fp = CB->getCalledOperand();
    bool known = callee && (callee->getName().starts_with("_sw_"));
    if (o) {
        guarded(CB, o, [&](IRBuilder<> &B) -> Value * {
            for (auto &p : sargs) B.CreateStore(p.second, B.CreateConstGEP1_32(I32, rt.args, p.first));
            B.CreateStore(fp, rt.callee);
            return nullptr;
        });
    }
    if (auto *ci = dyn_cast<CallInst>(CB)) if (ci->isMustTailCall()) return;
    // after the call
    Instruction *after;
    if (auto *inv = dyn_cast<InvokeInst>(CB)) {
        if (!o && CB->getType()->isVoidTy()) return;
        BasicBlock *nd = inv->getNormalDest();
        after = &*nd->getFirstInsertionPt();
        if (isa<LandingPadInst>(nd->getFirstNonPHI())) return;
    } else after = CB->getNextNode();
    if (o && !known) {
        IRBuilder<> B2(after);
        guarded(after, o, [&](IRBuilder<> &B) -> Value * {
            Value *cur = B.CreateLoad(PtrTy, rt.callee);
            Value *eq = B.CreateICmpEQ(cur, fp);
            Instruction *pt = &*B.GetInsertPoint();
            Instruction *t = SplitBlockAndInsertIfThen(eq, pt, false, MDBuilder(C).createBranchWeights(1, 2000));
            IRBuilder<> B3(t);
            B3.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), rt.callee);
            unsigned k = 0;
            for (auto *V : vals) {
                unsigned n = std::max(1u, nleaves(V->getType()));
                if (n == 1 && ok(V->getType()) && !zero(sargs[k].second)) B3.CreateCall(rt.conc, {sargs[k].second, ext(B3, V), c32(bitsOf(V->getType())), fname});
                k += n;
            }
            return nullptr;
        });
    }
    if (CB->getType()->isVoidTy()) return;
    unsigned n = nleaves(CB->getType());
    SmallVector<Type *, 4> T; flatten(CB->getType(), T);
    if (!okAny(CB->getType()) || n > 8) return;
    IRBuilder<> B4(after);
    Value *rf = B4.CreateLoad(PtrTy, rt.retfn);
    Value *eq = B4.CreateICmpEQ(rf, fp);
    Instruction *t = SplitBlockAndInsertIfThen(eq, after, false, MDBuilder(C).createBranchWeights(1, 2000));
    BasicBlock *head = cast<Instruction>(eq)->getParent();
    IRBuilder<> B5(t);
    B5.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), rt.retfn);
    Leaves r;
    SmallVector<Value *, 4> lds;
    for (unsigned i = 0; i < n; ++i) lds.push_back(B5.CreateLoad(I32, B5.CreateConstGEP1_32(I32, rt.ret, i)));
    IRBuilder<> B6(after->getParent(), after->getParent()->begin());
    for (unsigned i = 0; i < n; ++i) {
        PHINode *p = B6.CreatePHI(I32, 2);
        p->addIncoming(Z, head); p->addIncoming(lds[i], t->getParent());
        r.push_back(p);
    }
    sh[CB] = r;
}

void SymFn::run() {
    // strip attributes that the inserted code invalidates
    F.removeFnAttr(Attribute::Memory);
    F.removeFnAttr(Attribute::Speculatable);
    for (auto &A : F.args()) A.removeAttr(Attribute::ReadNone), A.removeAttr(Attribute::ReadOnly), A.removeAttr(Attribute::WriteOnly);

    auto *str = ConstantDataArray::getString(C, F.getName());
    auto *g = new GlobalVariable(M, str->getType(), true, GlobalValue::PrivateLinkage, str);
    fname = g;

    // invoke results are read in the normal destination: give each its own block first
    {
        std::vector<InvokeInst *> inv;
        for (auto &BB : F) if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
        for (auto *II : inv) if (!II->getNormalDest()->getSinglePredecessor()) SplitEdge(II->getParent(), II->getNormalDest());
    }

    // blocks in RPO so that shadows of operands exist before their uses
    std::vector<Instruction *> work;
    {
        ReversePostOrderTraversal<Function *> rpo(&F);
        for (auto *BB : rpo) for (auto &I : *BB) work.push_back(&I);
    }
    // phi placeholders
    for (auto *I : work) if (auto *P = dyn_cast<PHINode>(I)) {
        SmallVector<Type *, 4> T; flatten(P->getType(), T);
        Leaves l; bool any = false;
        for (auto *t : T) {
            if (ok(t)) { any = true; l.push_back(PHINode::Create(I32, P->getNumIncomingValues(), "", P)); } else l.push_back(Z);
        }
        if (any) { sh[P] = l; phis.push_back({P, l}); }
    }
    // parameters
    Instruction *entry = &*F.getEntryBlock().getFirstInsertionPt();
    while (isa<AllocaInst>(entry)) entry = entry->getNextNode();
    unsigned slot = 0; bool any = false;
    for (auto &A : F.args()) { SmallVector<Type *, 4> T; flatten(A.getType(), T); for (auto *t : T) if (ok(t) && !t->isPointerTy()) any = true; slot += std::max<size_t>(1, T.size()); }
    if (any && slot <= 60 && F.getName() != "main") {
        IRBuilder<> B(entry);
        Value *cur = B.CreateLoad(PtrTy, rt.callee);
        Value *eq = B.CreateICmpEQ(cur, &F);
        Instruction *t = SplitBlockAndInsertIfThen(eq, entry, false, MDBuilder(C).createBranchWeights(1, 2000));
        BasicBlock *head = cast<Instruction>(eq)->getParent();
        IRBuilder<> B2(t);
        B2.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrTy)), rt.callee);
        unsigned k = 0;
        std::vector<std::pair<Argument *, std::vector<Value *>>> lds;
        for (auto &A : F.args()) {
            unsigned n = std::max(1u, nleaves(A.getType()));
            std::vector<Value *> v;
            for (unsigned i = 0; i < n; ++i) v.push_back(B2.CreateLoad(I32, B2.CreateConstGEP1_32(I32, rt.args, k++)));
            lds.push_back({&A, v});
        }
        BasicBlock *te = t->getParent();
        IRBuilder<> B3(entry->getParent(), entry->getParent()->begin());
        for (auto &p : lds) {
            SmallVector<Type *, 4> T; flatten(p.first->getType(), T);
            Leaves l;
            for (unsigned i = 0; i < p.second.size(); ++i) {
                if (i < T.size() && ok(T[i]) && !T[i]->isPointerTy()) { PHINode *ph = B3.CreatePHI(I32, 2); ph->addIncoming(Z, head); ph->addIncoming(p.second[i], te); l.push_back(ph); }
                else l.push_back(Z);
            }
            sh[p.first] = l;
        }
    }
    for (auto *I : work) if (!isa<PHINode>(I)) visit(I);
    // fill phis
    for (auto &p : phis) {
        for (unsigned i = 0; i < p.first->getNumIncomingValues(); ++i) {
            Leaves l = get(p.first->getIncomingValue(i));
            for (unsigned k = 0; k < p.second.size(); ++k)
                if (auto *ph = dyn_cast<PHINode>(p.second[k])) ph->addIncoming(l[k], p.first->getIncomingBlock(i));
        }
    }
    // drop phis that are trivially zero (iterate)
    bool changed = true;
    while (changed) {
        changed = false;
        for (auto &p : phis) for (auto &v : p.second) {
            auto *ph = dyn_cast_or_null<PHINode>(v);
            if (!ph) continue;
            Value *u = nullptr; bool same = true;
            for (auto &in : ph->incoming_values()) { if (in == ph) continue; if (!u) u = in; else if (u != in) { same = false; break; } }
            if (same && u && u == Z) { ph->replaceAllUsesWith(Z); ph->eraseFromParent(); v = nullptr; changed = true; }
        }
    }
}

struct SymPass : PassInfoMixin<SymPass> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        LLVMContext &C = M.getContext();
        Type *V = Type::getVoidTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *P = PointerType::getUnqual(C);
        Rt rt;
        rt.bin = M.getOrInsertFunction("_sr_bin", I32, I32, I32, I32, I64, I32, I64);
        rt.cmp = M.getOrInsertFunction("_sr_cmp", I32, I32, I32, I32, I64, I32, I64);
        rt.cast = M.getOrInsertFunction("_sr_cast", I32, I32, I32, I32, I32, I64);
        rt.select = M.getOrInsertFunction("_sr_select", I32, I32, I64, I32, I64, I32, I64, I32);
        rt.load = M.getOrInsertFunction("_sr_load", I32, P, I32, I32, I32, I64, P);
        rt.store = M.getOrInsertFunction("_sr_store", V, P, I32, I32, I32, I32, I64, P);
        rt.branch = M.getOrInsertFunction("_sr_branch", V, I32, I64, P);
        rt.sw = M.getOrInsertFunction("_sr_switch", V, I32, I64, I32, I32, P, P, P);
        rt.conc = M.getOrInsertFunction("_sr_conc", V, I32, I64, I32, P);
        rt.memcpy_ = M.getOrInsertFunction("_sr_memcpy", V, P, P, I64);
        rt.memmove_ = M.getOrInsertFunction("_sr_memmove", V, P, P, I64);
        rt.memset_ = M.getOrInsertFunction("_sr_memset", V, P, I32, I64);
        rt.concmem = M.getOrInsertFunction("_sr_concmem", V, P, I64, P);
        rt.clearmem = M.getOrInsertFunction("_sr_clearmem", V, P, I64);
        rt.gep = M.getOrInsertFunction("_sr_gep", I32, I32, I64, I32, I64, I64, I32);
        auto gv = [&](const char *n, Type *T) {
            auto *g = cast<GlobalVariable>(M.getOrInsertGlobal(n, T));
            g->setDSOLocal(true);
            return g;
        };
        rt.args = gv("_s_args", ArrayType::get(I32, 64));
        rt.callee = gv("_s_callee", P);
        rt.ret = gv("_s_ret", ArrayType::get(I32, 8));
        rt.retfn = gv("_s_retfn", P);
        std::vector<Function *> fs;
        for (auto &F : M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("_sr_") && !F.getName().starts_with("_sw_") && !F.hasFnAttribute(Attribute::Naked)) fs.push_back(&F);
        for (auto *F : fs) {
            if (F->hasSection() && F->getSection() == "nosym") continue;
            SymFn(*F, rt).run();
        }
        return PreservedAnalyses::none();
    }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
    }};
}
