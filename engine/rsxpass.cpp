// LLVM pass: instruments every function of the real engine so that, alongside
// the concrete run, each SSA value carries a symbolic expression ("shadow").
// The shadow operations are implemented by rsx.cpp.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <string>
#include "rsxabi.h"
using namespace llvm;

namespace {

// libc / libm / ICU functions that have a model in rsx.cpp or rsxlibc.c.
static const std::set<std::string> WRAPPED = {
    "memcmp", "bcmp", "strlen", "strcmp", "strchr", "strrchr", "memchr", "strcasecmp", "strncmp",
    "malloc", "free", "realloc", "calloc",
    "floor", "ceil", "trunc", "fabs", "fmod", "round", "sqrt", "rint", "nearbyint",
    "pow", "exp", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "atan2",
    "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt", "hypot", "nextafter",
    "memcpy", "memmove", "memset",
    "isalpha", "isdigit", "isalnum", "isspace", "tolower", "toupper", "abs",
    "rand", "time", "gettimeofday", "clock_gettime", "snprintf",
};
// externals without a model that cannot carry symbolic data anywhere; a call of any other one is reported
static const std::set<std::string> HARMLESS = {
    "__assert_fail", "__ctype_b_loc", "__errno_location", "abort", "atexit", "fprintf", "vfprintf", "fputs", "fputc", "fwrite", "fflush",
    "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once",
    "srand", "tzset", "getenv", "isatty", "exit", "_exit", "vsnprintf", "strerror",
};
static bool harmless(const std::string &n) {
    return HARMLESS.count(n) || n.compare(0, 9, "ucnv_open") == 0 || n.compare(0, 10, "ucnv_close") == 0 || n.compare(0, 10, "unorm2_get") == 0;
}
static const std::set<std::string> ICU = {
    "u_charType", "u_hasBinaryProperty", "u_isUWhiteSpace", "u_foldCase", "uscript_getScript", "uscript_hasScript",
    "u_strToLower", "u_strToUpper", "u_errorName", "unorm2_normalize", "unorm_compare", "ucnv_convertEx",
};

struct Inst {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *I8, *I32, *I64, *PtrTy, *VoidTy;
    GlobalVariable *Args, *Ret, *Bloom, *Active;
    FunctionCallee FBin, FCmpF, FCast, FSel, FGep, FLoad, FStore, FBranch, FSwitch, FIntr, FIntr2, FClear, FDrop, FDropMem,
        FMemcpy, FMemset, FRmw, FCas, FReg, FOvf, FFsh;
    unsigned site = 0;
    unsigned skipped = 0;

    Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        PtrTy = PointerType::get(C, 0);
        VoidTy = Type::getVoidTy(C);
        Args = gv("__rsx_args", ArrayType::get(PtrTy, RSX_MAXARGS));
        Ret = gv("__rsx_ret", PtrTy);
        Bloom = gv("__rsx_bloom", ArrayType::get(I8, RSX_BLOOM));
        Active = gv("__rsx_active", I8);
        FBin = fn("__rsx_bin", PtrTy, {I32, PtrTy, PtrTy, I64, I64});
        FCmpF = fn("__rsx_cmp", PtrTy, {I32, PtrTy, PtrTy, I64, I64});
        FCast = fn("__rsx_cast", PtrTy, {I32, PtrTy, I64});
        FSel = fn("__rsx_select", PtrTy, {I32, PtrTy, I8, PtrTy, PtrTy, I64, I64});
        FGep = fn("__rsx_gep", PtrTy, {PtrTy, I64, PtrTy, I64, I64});
        FLoad = fn("__rsx_load", PtrTy, {PtrTy, I32, PtrTy});
        FStore = fn("__rsx_store", VoidTy, {PtrTy, I32, PtrTy, PtrTy});
        FBranch = fn("__rsx_branch", VoidTy, {PtrTy, I8, I32});
        FSwitch = fn("__rsx_switch", VoidTy, {PtrTy, I64, I32, PtrTy, I32});
        FIntr = fn("__rsx_intr1", PtrTy, {I32, PtrTy, I64});
        FIntr2 = fn("__rsx_intr2", PtrTy, {I32, PtrTy, PtrTy, I64, I64});
        FFsh = fn("__rsx_fsh", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64, I64, I64});
        FClear = fn("__rsx_clear", VoidTy, {PtrTy, I64});
        FDropMem = fn("__rsx_drop_mem", VoidTy, {PtrTy, I64, PtrTy});
        FDrop = fn("__rsx_drop", VoidTy, {PtrTy, PtrTy, I32});
        FMemcpy = fn("__rsx_memcpy", VoidTy, {PtrTy, PtrTy, I64, PtrTy, PtrTy, PtrTy});
        FMemset = fn("__rsx_memset", VoidTy, {PtrTy, I8, I64, PtrTy, PtrTy, PtrTy});
        FRmw = fn("__rsx_rmw", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64});
        FCas = fn("__rsx_cas", PtrTy, {I32, PtrTy, PtrTy, PtrTy, I64, PtrTy, I64});
        FReg = fn("__rsx_reg_global", VoidTy, {PtrTy, I64});
        FOvf = fn("__rsx_ovf", PtrTy, {I32, PtrTy, PtrTy, I64, I64});
    }
    GlobalVariable *gv(const char *n, Type *t) {
        if (auto *g = M.getGlobalVariable(n)) return g;
        return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
    }
    FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a) {
        return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    }
    static bool scalar(Type *t) {
        if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
        return t->isPointerTy() || t->isDoubleTy() || t->isFloatTy();
    }
    unsigned width(Type *t) {
        if (t->isPointerTy()) return 64;
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        return t->getIntegerBitWidth();
    }
    unsigned tcode(Type *t) { return width(t) | (t->isFloatingPointTy() ? RSX_FP : 0); }

    // per-function state
    DenseMap<Value *, Value *> sh;   // shadow of value
    DenseMap<Value *, Value *> sh2;  // overflow flag shadow for with.overflow / cas success
    Constant *null() { return ConstantPointerNull::get(cast<PointerType>(PtrTy)); }
    Value *S(Value *v) {
        auto it = sh.find(v);
        return it == sh.end() ? null() : it->second;
    }
    bool isNull(Value *s) { return isa<ConstantPointerNull>(s); }
    Value *toI64(IRBuilder<> &B, Value *v) {
        Type *t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->getIntegerBitWidth() == 64) return v;
        return B.CreateZExt(v, I64);
    }
    Value *anyNonNull(IRBuilder<> &B, ArrayRef<Value *> ss) {
        Value *acc = nullptr;
        for (Value *s : ss) {
            if (isNull(s)) continue;
            Value *x = B.CreatePtrToInt(s, I64);
            acc = acc ? B.CreateOr(acc, x) : x;
        }
        if (!acc) return nullptr;
        return B.CreateICmpNE(acc, ConstantInt::get(I64, 0));
    }
    // Emits "cond ? call : null" before I, returns the phi.
    template <class F> Value *guarded(Instruction *before, Value *cond, F body, Value *dflt = nullptr) {
        Instruction *thenTerm = SplitBlockAndInsertIfThen(cond, before, false, unlikely());
        BasicBlock *head = cast<Instruction>(cond)->getParent();
        (void)head;
        BasicBlock *pred = thenTerm->getParent()->getSinglePredecessor();
        IRBuilder<> B(thenTerm);
        Value *r = body(B);
        IRBuilder<> P(before->getParent(), before->getParent()->begin());
        PHINode *phi = P.CreatePHI(PtrTy, 2);
        phi->addIncoming(r, thenTerm->getParent());
        phi->addIncoming(dflt ? dflt : null(), pred);
        return phi;
    }
    template <class F> void guardedVoid(Instruction *before, Value *cond, F body) {
        Instruction *t = SplitBlockAndInsertIfThen(cond, before, false, unlikely());
        IRBuilder<> B(t);
        body(B);
    }
    MDNode *unl = nullptr;
    MDNode *unlikely() {
        if (!unl) unl = MDBuilder(C).createBranchWeights(1, 1000);
        return unl;
    }
    Value *bloomHit(IRBuilder<> &B, Value *addr) {
        Value *a = B.CreatePtrToInt(addr, I64);
        Value *ix = B.CreateAnd(B.CreateLShr(a, 12), ConstantInt::get(I64, RSX_BLOOM - 1));
        Value *p = B.CreateInBoundsGEP(Bloom->getValueType(), Bloom, {ConstantInt::get(I64, 0), ix});
        return B.CreateICmpNE(B.CreateLoad(I8, p), ConstantInt::get(I8, 0));
    }
    ConstantInt *c32(unsigned v) { return ConstantInt::get(cast<IntegerType>(I32), v); }

    bool isRsx(Function *f) { return f && (f->getName().starts_with("__rsx") ); }

    void instrumentFunction(Function &F) {
        sh.clear();
        sh2.clear();
        std::vector<Instruction *> work;
        ReversePostOrder(F, work);
        // entry
        Instruction *ip = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
        {
            IRBuilder<> B(ip);
            unsigned i = 0;
            for (Argument &a : F.args()) {
                if (i < RSX_MAXARGS && scalar(a.getType())) {
                    Value *p = B.CreateInBoundsGEP(Args->getValueType(), Args, {ConstantInt::get(I64, 0), ConstantInt::get(I64, i)});
                    sh[&a] = B.CreateLoad(PtrTy, p);
                }
                i++;
            }
            std::vector<std::pair<Value *, uint64_t>> al;
            for (Instruction &I : F.getEntryBlock())
                if (auto *A = dyn_cast<AllocaInst>(&I)) {
                    auto sz = A->getAllocationSize(DL);
                    if (sz && !sz->isScalable()) al.push_back({A, sz->getFixedValue()});
                }
            if (!al.empty()) {
                Value *act = B.CreateICmpNE(B.CreateLoad(I8, Active), ConstantInt::get(I8, 0));
                guardedVoid(ip, act, [&](IRBuilder<> &G) {
                    for (auto &x : al) G.CreateCall(FClear, {x.first, ConstantInt::get(I64, x.second)});
                });
            }
        }
        // shadow phis first
        for (Instruction *I : work)
            if (auto *P = dyn_cast<PHINode>(I))
                if (scalar(P->getType())) {
                    bool allc = true;
                    for (Value *v : P->incoming_values())
                        if (!isa<Constant>(v)) allc = false;
                    if (allc) continue;
                    IRBuilder<> B(P);
                    sh[P] = B.CreatePHI(PtrTy, P->getNumIncomingValues());
                }
        std::vector<PHINode *> phis;
        for (Instruction *I : work) {
            if (auto *P = dyn_cast<PHINode>(I)) {
                if (sh.count(P)) phis.push_back(P);
                continue;
            }
            visit(I);
        }
        for (PHINode *P : phis) {
            PHINode *Q = cast<PHINode>(sh[P]);
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++) Q->addIncoming(S(P->getIncomingValue(i)), P->getIncomingBlock(i));
        }
    }
    void ReversePostOrder(Function &F, std::vector<Instruction *> &out);

    void visit(Instruction *I) {
        if (auto *x = dyn_cast<BinaryOperator>(I)) return visitBin(x);
        if (auto *x = dyn_cast<UnaryOperator>(I)) {  // fneg
            if (!scalar(x->getType())) { skip(I, "vec"); return; }
            return un(I, RSX_FNEG, x->getOperand(0));
        }
        if (auto *x = dyn_cast<CmpInst>(I)) return visitCmp(x);
        if (auto *x = dyn_cast<CastInst>(I)) return visitCast(x);
        if (auto *x = dyn_cast<SelectInst>(I)) return visitSelect(x);
        if (auto *x = dyn_cast<GetElementPtrInst>(I)) return visitGEP(x);
        if (auto *x = dyn_cast<LoadInst>(I)) return visitLoad(x);
        if (auto *x = dyn_cast<StoreInst>(I)) return visitStore(x);
        if (auto *x = dyn_cast<BranchInst>(I)) return visitBr(x);
        if (auto *x = dyn_cast<SwitchInst>(I)) return visitSwitch(x);
        if (auto *x = dyn_cast<CallInst>(I)) return visitCall(x);
        if (auto *x = dyn_cast<ReturnInst>(I)) return visitRet(x);
        if (auto *x = dyn_cast<AtomicRMWInst>(I)) return visitRMW(x);
        if (auto *x = dyn_cast<AtomicCmpXchgInst>(I)) return visitCas(x);
        if (auto *x = dyn_cast<ExtractValueInst>(I)) {
            Value *agg = x->getAggregateOperand();
            if (x->getNumIndices() == 1) {
                if (x->getIndices()[0] == 0 && sh.count(agg)) sh[x] = sh[agg];
                else if (x->getIndices()[0] == 1 && sh2.count(agg)) sh[x] = sh2[agg];
                else if (!sh.count(agg)) skip(I, "extractvalue");
            }
            return;
        }
        if (auto *x = dyn_cast<FreezeInst>(I)) {
            Value *s = S(x->getOperand(0));
            if (!isNull(s)) sh[x] = s;
            return;
        }
        if (isa<AllocaInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
        skip(I, "other");
    }
    // An instruction without a model: any symbolic operand (or symbolic memory it reads) is reported at run time.
    void skip(Instruction *I, const char *why) {
        skipped++;
        if (getenv("RSX_VERBOSE")) errs() << "rsxpass: skip(" << why << ") in " << I->getFunction()->getName() << ": " << *I << "\n";
        Instruction *at = isa<PHINode>(I) ? &*I->getParent()->getFirstInsertionPt() : I;
        IRBuilder<> B(at);
        Value *nm = nullptr;
        for (Use &u : I->operands()) {
            if (isa<PHINode>(I)) break;
            Value *a = u.get(), *s = scalar(a->getType()) ? S(a) : (Value *)null();
            if (isNull(s)) continue;
            IRBuilder<> B2(at);
            if (!nm) nm = B2.CreateGlobalString(std::string("ir:") + why + ":" + I->getFunction()->getName().str());
            guardedVoid(at, anyNonNull(B2, {s}), [&](IRBuilder<> &G) { G.CreateCall(FDrop, {s, nm, c32(2)}); });
        }
        if (auto *L = dyn_cast<LoadInst>(I)) {
            Value *p = L->getPointerOperand();
            IRBuilder<> B2(I);
            Value *nm2 = B2.CreateGlobalString(std::string("ir:load:") + I->getFunction()->getName().str());
            guardedVoid(I, bloomHit(B2, p), [&](IRBuilder<> &G) { G.CreateCall(FDropMem, {p, ConstantInt::get(I64, DL.getTypeStoreSize(L->getType())), nm2}); });
        }
    }
    void un(Instruction *I, unsigned op, Value *a) {
        Value *s = S(a);
        if (isNull(s)) return;
        IRBuilder<> B(I);
        Value *c = anyNonNull(B, {s});
        sh[I] = guarded(I, c, [&](IRBuilder<> &G) { return G.CreateCall(FIntr, {c32(op | tcode(a->getType()) << 8), s, toI64(G, a)}); });
    }
    void visitBin(BinaryOperator *I) {
        if (!scalar(I->getType())) return skip(I, "vec");
        Value *a = I->getOperand(0), *b = I->getOperand(1), *sa = S(a), *sb = S(b);
        if (isNull(sa) && isNull(sb)) return;
        unsigned op;
        switch (I->getOpcode()) {
        case Instruction::Add: op = RSX_ADD; break;
        case Instruction::Sub: op = RSX_SUB; break;
        case Instruction::Mul: op = RSX_MUL; break;
        case Instruction::UDiv: op = RSX_UDIV; break;
        case Instruction::SDiv: op = RSX_SDIV; break;
        case Instruction::URem: op = RSX_UREM; break;
        case Instruction::SRem: op = RSX_SREM; break;
        case Instruction::And: op = RSX_AND; break;
        case Instruction::Or: op = RSX_OR; break;
        case Instruction::Xor: op = RSX_XOR; break;
        case Instruction::Shl: op = RSX_SHL; break;
        case Instruction::LShr: op = RSX_LSHR; break;
        case Instruction::AShr: op = RSX_ASHR; break;
        case Instruction::FAdd: op = RSX_FADD; break;
        case Instruction::FSub: op = RSX_FSUB; break;
        case Instruction::FMul: op = RSX_FMUL; break;
        case Instruction::FDiv: op = RSX_FDIV; break;
        case Instruction::FRem: op = RSX_FREM; break;
        default: return skip(I, "bin");
        }
        bin(I, FBin, op | tcode(I->getType()) << 8, a, b);
    }
    void bin(Instruction *I, FunctionCallee f, unsigned code, Value *a, Value *b) {
        Value *sa = S(a), *sb = S(b);
        if (isNull(sa) && isNull(sb)) return;
        IRBuilder<> B(I);
        Value *c = anyNonNull(B, {sa, sb});
        sh[I] = guarded(I, c, [&](IRBuilder<> &G) { return G.CreateCall(f, {c32(code), sa, sb, toI64(G, a), toI64(G, b)}); });
    }
    void visitCmp(CmpInst *I) {
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        if (!scalar(a->getType())) return skip(I, "vec");
        bin(I, FCmpF, (unsigned)I->getPredicate() | tcode(a->getType()) << 8, a, b);
    }
    void visitCast(CastInst *I) {
        Value *a = I->getOperand(0), *s = S(a);
        if (!scalar(I->getType()) || !scalar(a->getType())) {
            if (!isa<Constant>(a)) skip(I, "cast");
            return;
        }
        if (isNull(s)) return;
        unsigned op;
        switch (I->getOpcode()) {
        case Instruction::Trunc: op = RSX_TRUNC; break;
        case Instruction::ZExt: op = RSX_ZEXT; break;
        case Instruction::SExt: op = RSX_SEXT; break;
        case Instruction::FPToSI: op = RSX_FPTOSI; break;
        case Instruction::FPToUI: op = RSX_FPTOUI; break;
        case Instruction::SIToFP: op = RSX_SITOFP; break;
        case Instruction::UIToFP: op = RSX_UITOFP; break;
        case Instruction::FPTrunc: op = RSX_FPTRUNC; break;
        case Instruction::FPExt: op = RSX_FPEXT; break;
        case Instruction::BitCast: op = RSX_BITCAST; break;
        case Instruction::PtrToInt:
            op = RSX_TRUNC;
            if (width(I->getType()) == 64) { sh[I] = s; return; }
            break;
        case Instruction::IntToPtr:
            op = RSX_ZEXT;
            if (width(a->getType()) == 64) { sh[I] = s; return; }
            break;
        default: return skip(I, "castop");
        }
        if (op == RSX_BITCAST && I->getType()->isFloatingPointTy() == a->getType()->isFloatingPointTy()) { sh[I] = s; return; }
        IRBuilder<> B(I);
        Value *c = anyNonNull(B, {s});
        unsigned code = op | tcode(a->getType()) << 8 | tcode(I->getType()) << 16;
        sh[I] = guarded(I, c, [&](IRBuilder<> &G) { return G.CreateCall(FCast, {c32(code), s, toI64(G, a)}); });
    }
    void visitSelect(SelectInst *I) {
        if (!scalar(I->getType())) return skip(I, "select");
        Value *c = I->getCondition(), *t = I->getTrueValue(), *f = I->getFalseValue();
        Value *sc = S(c), *st = S(t), *sf = S(f);
        if (isNull(sc) && isNull(st) && isNull(sf)) return;
        IRBuilder<> B(I);
        Value *base = (isNull(st) && isNull(sf)) ? (Value *)null() : B.CreateSelect(c, st, sf);
        if (isNull(sc)) { sh[I] = base; return; }
        Value *g = anyNonNull(B, {sc});
        sh[I] = guarded(I, g, [&](IRBuilder<> &G) {
            return G.CreateCall(FSel, {c32(tcode(I->getType())), sc, G.CreateZExt(c, I8), st, sf, toI64(G, t), toI64(G, f)});
        }, base);
    }
    void visitGEP(GetElementPtrInst *I) {
        if (!I->getType()->isPointerTy()) return skip(I, "gep");
        Value *base = I->getPointerOperand();
        Value *cur = S(base);
        unsigned bw = 64;
        MapVector<Value *, APInt> var;
        APInt coff(bw, 0);
        if (!cast<GEPOperator>(I)->collectOffset(DL, bw, var, coff)) return skip(I, "gepoff");
        bool any = !isNull(cur);
        for (auto &kv : var) any |= !isNull(S(kv.first));
        if (!any) return;
        IRBuilder<> B(I);
        std::vector<Value *> ss{cur};
        for (auto &kv : var) ss.push_back(S(kv.first));
        Value *g = anyNonNull(B, ss);
        sh[I] = guarded(I, g, [&](IRBuilder<> &G) {
            Value *s = cur;
            Value *addr = G.CreatePtrToInt(base, I64);
            Value *k = ConstantInt::get(I64, coff.getZExtValue());
            s = G.CreateCall(FGep, {s, addr, null(), k, ConstantInt::get(I64, 1)});
            addr = G.CreateAdd(addr, k);
            for (auto &kv : var) {
                Value *ix = kv.first, *six = S(ix);
                Value *ix64 = ix;
                if (width(ix->getType()) < 64) {
                    ix64 = G.CreateSExt(ix, I64);
                    if (!isNull(six))
                        six = G.CreateCall(FCast, {c32(RSX_SEXT | tcode(ix->getType()) << 8 | 64 << 16), six, toI64(G, ix)});
                }
                Value *sc = ConstantInt::get(I64, kv.second.getZExtValue());
                s = G.CreateCall(FGep, {s, addr, six, ix64, sc});
                addr = G.CreateAdd(addr, G.CreateMul(ix64, sc));
            }
            return s;
        });
    }
    void visitLoad(LoadInst *I) {
        Value *p = I->getPointerOperand(), *sp = S(p);
        if (!scalar(I->getType())) return skip(I, "load");
        if (isa<GlobalVariable>(p) && cast<GlobalVariable>(p)->isConstant()) return;
        IRBuilder<> B(I);
        Value *hit = bloomHit(B, p);
        if (!isNull(sp)) hit = B.CreateOr(hit, B.CreateICmpNE(sp, null()));
        unsigned code = DL.getTypeStoreSize(I->getType()) | tcode(I->getType()) << 8;
        sh[I] = guarded(I, hit, [&](IRBuilder<> &G) { return G.CreateCall(FLoad, {p, c32(code), sp}); });
    }
    void visitStore(StoreInst *I) {
        Value *p = I->getPointerOperand(), *sp = S(p), *v = I->getValueOperand();
        IRBuilder<> B(I);
        uint64_t sz = DL.getTypeStoreSize(v->getType());
        Value *hit = bloomHit(B, p);
        if (!scalar(v->getType())) {
            guardedVoid(I, hit, [&](IRBuilder<> &G) { G.CreateCall(FClear, {p, ConstantInt::get(I64, sz)}); });
            if (!isa<Constant>(v)) skip(I, "store");
            return;
        }
        Value *sv = S(v);
        if (!isNull(sp)) hit = B.CreateOr(hit, B.CreateICmpNE(sp, null()));
        if (!isNull(sv)) hit = B.CreateOr(hit, B.CreateICmpNE(sv, null()));
        guardedVoid(I, hit, [&](IRBuilder<> &G) { G.CreateCall(FStore, {p, c32(sz | tcode(v->getType()) << 8), sv, sp}); });
    }
    void visitBr(BranchInst *I) {
        if (!I->isConditional()) return;
        Value *c = I->getCondition(), *s = S(c);
        if (isNull(s)) return;
        IRBuilder<> B(I);
        Value *g = anyNonNull(B, {s});
        unsigned id = newsite();
        guardedVoid(I, g, [&](IRBuilder<> &G) { G.CreateCall(FBranch, {s, G.CreateZExt(c, I8), c32(id)}); });
    }
    unsigned newsite() { return ++site; }
    void visitSwitch(SwitchInst *I) {
        Value *c = I->getCondition(), *s = S(c);
        if (isNull(s)) return;
        std::vector<Constant *> cs;
        for (auto &k : I->cases()) cs.push_back(ConstantInt::get(I64, k.getCaseValue()->getZExtValue()));
        auto *at = ArrayType::get(I64, cs.size());
        auto *g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cs), "__rsx_cases");
        IRBuilder<> B(I);
        Value *nn = anyNonNull(B, {s});
        unsigned id = newsite();
        guardedVoid(I, nn, [&](IRBuilder<> &G) {
            G.CreateCall(FSwitch, {s, toI64(G, c), c32(cs.size()), g, c32(id)});
        });
    }
    void visitRet(ReturnInst *I) {
        IRBuilder<> B(I);
        Value *v = I->getReturnValue();
        if (!v || !scalar(v->getType())) {
            B.CreateStore(null(), Ret);
            return;
        }
        B.CreateStore(S(v), Ret);
    }
    void visitRMW(AtomicRMWInst *I) {
        unsigned op;
        switch (I->getOperation()) {
        case AtomicRMWInst::Xchg: op = RSX_XCHG; break;
        case AtomicRMWInst::Add: op = RSX_ADD; break;
        case AtomicRMWInst::Sub: op = RSX_SUB; break;
        case AtomicRMWInst::And: op = RSX_AND; break;
        case AtomicRMWInst::Or: op = RSX_OR; break;
        case AtomicRMWInst::Xor: op = RSX_XOR; break;
        default: return skip(I, "rmw");
        }
        Value *v = I->getValOperand(), *p = I->getPointerOperand();
        if (!scalar(v->getType())) return skip(I, "rmw");
        IRBuilder<> B(I);
        Value *hit = bloomHit(B, p);
        if (!isNull(S(p))) hit = B.CreateOr(hit, B.CreateICmpNE(S(p), null()));
        if (!isNull(S(v))) hit = B.CreateOr(hit, B.CreateICmpNE(S(v), null()));
        sh[I] = guarded(I, hit, [&](IRBuilder<> &G) {
            return G.CreateCall(FRmw, {c32(op | tcode(v->getType()) << 8), p, S(p), S(v), toI64(G, v)});
        });
    }
    void visitCas(AtomicCmpXchgInst *I) {
        Value *p = I->getPointerOperand(), *cv = I->getCompareOperand(), *nv = I->getNewValOperand();
        IRBuilder<> B(I);
        Value *hit = bloomHit(B, p);
        for (Value *s : {S(p), S(cv), S(nv)})
            if (!isNull(s)) hit = B.CreateOr(hit, B.CreateICmpNE(s, null()));
        sh[I] = guarded(I, hit, [&](IRBuilder<> &G) {
            return G.CreateCall(FCas, {c32(tcode(cv->getType()) << 8), p, S(p), S(cv), toI64(G, cv), S(nv), toI64(G, nv)});
        });
        sh2[I] = null();
    }
    void visitIntrinsic(IntrinsicInst *I) {
        auto id = I->getIntrinsicID();
        switch (id) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: {
            IRBuilder<> B(I);
            Value *d = I->getArgOperand(0), *s = I->getArgOperand(1), *n = I->getArgOperand(2);
            Value *act = B.CreateICmpNE(B.CreateLoad(I8, Active), ConstantInt::get(I8, 0));
            guardedVoid(I, act, [&](IRBuilder<> &G) {
                G.CreateCall(FMemcpy, {d, s, G.CreateZExtOrTrunc(n, I64), S(d), S(s), S(n)});
            });
            return;
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline: {
            IRBuilder<> B(I);
            Value *d = I->getArgOperand(0), *v = I->getArgOperand(1), *n = I->getArgOperand(2);
            Value *act = B.CreateICmpNE(B.CreateLoad(I8, Active), ConstantInt::get(I8, 0));
            guardedVoid(I, act, [&](IRBuilder<> &G) {
                G.CreateCall(FMemset, {d, v, G.CreateZExtOrTrunc(n, I64), S(d), S(v), S(n)});
            });
            return;
        }
        case Intrinsic::umin: return in2(I, RSX_UMIN);
        case Intrinsic::umax: return in2(I, RSX_UMAX);
        case Intrinsic::smin: return in2(I, RSX_SMIN);
        case Intrinsic::smax: return in2(I, RSX_SMAX);
        case Intrinsic::usub_sat: return in2(I, RSX_USUBSAT);
        case Intrinsic::uadd_sat: return in2(I, RSX_UADDSAT);
        case Intrinsic::copysign: return in2(I, RSX_COPYSIGN);
        case Intrinsic::abs: return un(I, RSX_ABS, I->getArgOperand(0));
        case Intrinsic::bswap: return un(I, RSX_BSWAP, I->getArgOperand(0));
        case Intrinsic::ctlz: return un(I, RSX_CTLZ, I->getArgOperand(0));
        case Intrinsic::cttz: return un(I, RSX_CTTZ, I->getArgOperand(0));
        case Intrinsic::ctpop: return un(I, RSX_CTPOP, I->getArgOperand(0));
        case Intrinsic::fabs: return un(I, RSX_FABS, I->getArgOperand(0));
        case Intrinsic::floor: return un(I, RSX_FLOOR, I->getArgOperand(0));
        case Intrinsic::ceil: return un(I, RSX_CEIL, I->getArgOperand(0));
        case Intrinsic::trunc: return un(I, RSX_FTRUNC, I->getArgOperand(0));
        case Intrinsic::sqrt: return un(I, RSX_SQRT, I->getArgOperand(0));
        case Intrinsic::is_fpclass: {
            Value *a = I->getArgOperand(0), *s = S(a);
            if (isNull(s)) return;
            unsigned mask = cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
            IRBuilder<> B(I);
            Value *c = anyNonNull(B, {s});
            sh[I] = guarded(I, c, [&](IRBuilder<> &G) {
                return G.CreateCall(FIntr, {c32(RSX_FPCLASS | tcode(a->getType()) << 8 | mask << 16), s, toI64(G, a)});
            });
            return;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *n = I->getArgOperand(2);
            if (!scalar(I->getType())) return skip(I, "fsh");
            if (isNull(S(a)) && isNull(S(b)) && isNull(S(n))) return;
            IRBuilder<> B(I);
            Value *c = anyNonNull(B, {S(a), S(b), S(n)});
            unsigned code = (id == Intrinsic::fshl ? RSX_SHL : RSX_LSHR) | tcode(I->getType()) << 8;
            sh[I] = guarded(I, c, [&](IRBuilder<> &G) {
                return G.CreateCall(FFsh, {c32(code), S(a), S(b), S(n), toI64(G, a), toI64(G, b), toI64(G, n)});
            });
            return;
        }
        case Intrinsic::fmuladd: {
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *n = I->getArgOperand(2);
            if (isNull(S(a)) && isNull(S(b)) && isNull(S(n))) return;
            return skip(I, "fmuladd");
        }
        case Intrinsic::sadd_with_overflow: return ovf(I, RSX_ADD, true);
        case Intrinsic::uadd_with_overflow: return ovf(I, RSX_ADD, false);
        case Intrinsic::ssub_with_overflow: return ovf(I, RSX_SUB, true);
        case Intrinsic::usub_with_overflow: return ovf(I, RSX_SUB, false);
        case Intrinsic::smul_with_overflow: return ovf(I, RSX_MUL, true);
        case Intrinsic::umul_with_overflow: return ovf(I, RSX_MUL, false);
        case Intrinsic::expect: {
            Value *s = S(I->getArgOperand(0));
            if (!isNull(s)) sh[I] = s;
            return;
        }
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::assume:
        case Intrinsic::vastart:
        case Intrinsic::vaend:
        case Intrinsic::vacopy:
        case Intrinsic::stacksave:
        case Intrinsic::stackrestore:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::prefetch:
        case Intrinsic::objectsize:
        case Intrinsic::trap: return;
        default: return skip(I, "intrinsic");
        }
    }
    void ovf(IntrinsicInst *I, unsigned op, bool sgn) {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        Value *sa = S(a), *sb = S(b);
        if (isNull(sa) && isNull(sb)) { sh[I] = null(); sh2[I] = null(); return; }
        if (!scalar(a->getType())) return skip(I, "ovf");
        IRBuilder<> B(I);
        Value *c = anyNonNull(B, {sa, sb});
        unsigned code = op | tcode(a->getType()) << 8;
        sh[I] = guarded(I, c, [&](IRBuilder<> &G) { return G.CreateCall(FBin, {c32(code), sa, sb, toI64(G, a), toI64(G, b)}); });
        IRBuilder<> B2(I);
        Value *c2 = anyNonNull(B2, {sa, sb});
        sh2[I] = guarded(I, c2, [&](IRBuilder<> &G) {
            return G.CreateCall(FOvf, {c32(code | (sgn ? 1u << 31 : 0)), sa, sb, toI64(G, a), toI64(G, b)});
        });
    }
    void in2(IntrinsicInst *I, unsigned op) {
        if (!scalar(I->getType())) return skip(I, "vec");
        bin(I, FIntr2, op | tcode(I->getType()) << 8, I->getArgOperand(0), I->getArgOperand(1));
    }
    void visitCall(CallInst *I) {
        if (auto *II = dyn_cast<IntrinsicInst>(I)) return visitIntrinsic(II);
        if (I->isInlineAsm()) return skip(I, "asm");
        Function *cal = dyn_cast<Function>(I->getCalledOperand()->stripPointerCasts());  // K&R calls too
        if (cal && isRsx(cal) && !cal->getName().starts_with("__rsxa_")) return;
        bool external = false;
        std::string name = cal ? cal->getName().str() : "";
        if (cal && cal->isDeclaration()) {
            std::string base = name;
            size_t us = base.rfind('_');
            bool icu = false;
            if (us != std::string::npos && us + 1 < base.size() && isdigit(base[us + 1])) {
                std::string b2 = base.substr(0, us);
                if (ICU.count(b2)) { base = b2; icu = true; }
            }
            if (WRAPPED.count(name) || icu) {
                auto w = M.getOrInsertFunction("__rsxw_" + base, I->getFunctionType());
                I->setCalledFunction(w);
                I->setAttributes(AttributeList());
            } else if (!(name.compare(0, 4, "rjs_") == 0 || name.compare(0, 6, "__rsxa") == 0 || name.compare(0, 4, "rsx_") == 0))
                external = true;
        }
        // another translation unit may define (and so instrument) the callee: every unit exports a marker for each
        // function it defines, and the reference to it is weak, so the linker decides
        Constant *absent = nullptr;
        if (external && !harmless(name)) {
            std::string mn = "__rsxd_" + name;
            GlobalVariable *mk = M.getGlobalVariable(mn);
            if (!mk) mk = new GlobalVariable(M, I8, true, GlobalValue::ExternalWeakLinkage, nullptr, mn);
            absent = mk;
            IRBuilder<> B0(I);
            Value *nm = B0.CreateGlobalString(name);
            Value *cond = B0.CreateICmpEQ(absent, ConstantPointerNull::get(cast<PointerType>(PtrTy)));
            guardedVoid(I, cond, [&](IRBuilder<> &G) { G.CreateCall(M.getOrInsertFunction("__rsx_external", VoidTy, PtrTy), {nm}); });
        }
        IRBuilder<> B(I);
        unsigned n = I->arg_size();
        bool wrapped = cal && I->getCalledOperand() != cal;
        bool variadic = I->getFunctionType()->isVarArg();
        unsigned fixed = I->getFunctionType()->getNumParams();
        for (unsigned i = 0; i < n && i < RSX_MAXARGS; i++) {
            Value *a = I->getArgOperand(i);
            Value *s = scalar(a->getType()) ? S(a) : (Value *)null();
            Value *p = B.CreateInBoundsGEP(Args->getValueType(), Args, {ConstantInt::get(I64, 0), ConstantInt::get(I64, i)});
            B.CreateStore(s, p);
        }
        if ((external || variadic) && !wrapped) {
            for (unsigned i = variadic && !external ? fixed : 0; i < n; i++) {
                Value *a = I->getArgOperand(i), *s = scalar(a->getType()) ? S(a) : (Value *)null();
                if (isNull(s)) continue;
                IRBuilder<> B3(I);
                Value *c = anyNonNull(B3, {s});
                if (absent) c = B3.CreateAnd(c, B3.CreateICmpEQ(absent, ConstantPointerNull::get(cast<PointerType>(PtrTy))));
                Value *nm = B3.CreateGlobalString(name.empty() ? "<indirect>" : name);
                guardedVoid(I, c, [&](IRBuilder<> &G) { G.CreateCall(FDrop, {s, nm, c32(external)}); });
            }
        }
        if (I->isMustTailCall()) return;
        IRBuilder<> B4(I);
        B4.CreateStore(null(), Ret);
        if (scalar(I->getType()) && !I->use_empty()) {
            IRBuilder<> A(I->getNextNode());
            sh[I] = A.CreateLoad(PtrTy, Ret);
        }
    }

    bool run() {
        std::vector<Function *> fs;
        for (Function &F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__rsx")) fs.push_back(&F);
        std::vector<GlobalVariable *> gs;
        for (GlobalVariable &g : M.globals())
            if (g.hasInitializer() && !g.getName().starts_with("__rsx") && !g.getName().starts_with("llvm.")) gs.push_back(&g);
        for (Function *F : fs) {
            F->removeFnAttr(Attribute::Memory);
            F->removeFnAttr(Attribute::NoSync);
            F->removeFnAttr(Attribute::NoFree);
            F->removeFnAttr(Attribute::WillReturn);
            instrumentFunction(*F);
        }
        for (Function &F : M) { F.removeFnAttr(Attribute::Memory); }
        for (Function *F : fs) {
            std::string mn = "__rsxd_" + F->getName().str();
            if (F->hasLocalLinkage() || F->getName().starts_with("rjs_")) continue;
            if (GlobalVariable *g = M.getGlobalVariable(mn)) { g->setLinkage(GlobalValue::WeakAnyLinkage); g->setInitializer(ConstantInt::get(I8, 1)); }
            else new GlobalVariable(M, I8, true, GlobalValue::WeakAnyLinkage, ConstantInt::get(I8, 1), mn);
        }
        // constructor that registers the globals (object bounds for symbolic addresses)
        Function *ctor = Function::Create(FunctionType::get(VoidTy, false), GlobalValue::InternalLinkage, "__rsx_ctor", M);
        IRBuilder<> B(BasicBlock::Create(C, "", ctor));
        for (auto *g : gs) {
            uint64_t sz = DL.getTypeAllocSize(g->getValueType());
            if (sz >= 4) B.CreateCall(FReg, {g, ConstantInt::get(I64, sz)});
        }
        B.CreateRetVoid();
        appendToGlobalCtors(M, ctor, 0);
        return true;
    }
};

void Inst::ReversePostOrder(Function &F, std::vector<Instruction *> &out) {
    // Dominance order is needed so that operand shadows exist before their uses.
    std::vector<BasicBlock *> post;
    std::set<BasicBlock *> seen;
    std::vector<std::pair<BasicBlock *, unsigned>> st;
    seen.insert(&F.getEntryBlock());
    st.push_back({&F.getEntryBlock(), 0});
    while (!st.empty()) {
        auto &top = st.back();
        Instruction *t = top.first->getTerminator();
        if (top.second < t->getNumSuccessors()) {
            BasicBlock *s = t->getSuccessor(top.second++);
            if (seen.insert(s).second) st.push_back({s, 0});
        } else {
            post.push_back(top.first);
            st.pop_back();
        }
    }
    for (auto it = post.rbegin(); it != post.rend(); ++it)
        for (Instruction &I : **it) out.push_back(&I);
}

struct RsxPass : PassInfoMixin<RsxPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        Inst(M).run();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "rsx", "1", [](PassBuilder &PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(RsxPass()); });
            }};
}
