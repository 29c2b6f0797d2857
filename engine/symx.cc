#include <map>
// symx: a bounded symbolic executor for LLVM IR.
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <atomic>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;

static Options opt;
static std::unique_ptr<Module> M;
static LLVMContext LC;
static const DataLayout *DL;
static std::vector<DFunc *> funcs;
static std::unordered_map<const Function *, DFunc *> funcOf;
static std::unordered_map<const GlobalVariable *, uint64_t> globAddr;
static std::vector<const GlobalVariable *> globById;
static std::vector<uint64_t> cpool;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Shared {
    std::atomic<int> slots, viol, seq, stop, unsup;
};
static Shared *sh;
static FILE *outf;
static std::vector<State *> work;

struct Stats {
    uint64_t paths = 0, killed = 0, forks = 0, steps = 0, checks = 0, checksSym = 0, states = 0;
} st;
static std::map<std::string, uint64_t> reachCount, checkCount;
static std::map<std::string, int> violCount;
static bool incomplete = false;

// thrown to end the current state
struct PathEnd {};

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void emit(const std::string &line) { fputs((line + "\n").c_str(), outf); fflush(outf); }
static void unsupported(State &S, const std::string &what);

// ---------------------------------------------------------------- decoding
static void leaves(Type *t, uint64_t off, std::vector<uint8_t> &w, std::vector<uint32_t> &o, bool &ok) {
    if (t->isIntegerTy()) {
        unsigned b = t->getIntegerBitWidth();
        if (b > 64) { ok = false; b = 64; }
        w.push_back(b); o.push_back(off);
    } else if (t->isPointerTy() || t->isDoubleTy()) { w.push_back(64); o.push_back(off); }
    else if (t->isFloatTy()) { w.push_back(32); o.push_back(off); }
    else if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), w, o, ok);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, w, o, ok);
    } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeAllocSize(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * es, w, o, ok);
    } else if (t->isVoidTy()) {}
    else { ok = false; w.push_back(64); o.push_back(off); }
}
static unsigned nLeaves(Type *t) {
    std::vector<uint8_t> w; std::vector<uint32_t> o; bool ok = true;
    leaves(t, 0, w, o, ok);
    return w.size();
}
static unsigned widthOf(Type *t) { // scalar or vector element
    if (t->isVectorTy()) t = cast<VectorType>(t)->getElementType();
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    return 64;
}
static DFunc *getFunc(const Function *F) {
    auto it = funcOf.find(F);
    return it == funcOf.end() ? nullptr : it->second;
}
static std::set<std::string> builtinNames;
static int builtinId(const std::string &n);

static uint64_t constScalar(const Constant *c);
static void constLeaves(const Constant *c, std::vector<uint64_t> &out) {
    Type *t = c->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
        unsigned n;
        if (auto *s = dyn_cast<StructType>(t)) n = s->getNumElements();
        else if (auto *a = dyn_cast<ArrayType>(t)) n = a->getNumElements();
        else n = cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Constant *e = c->getAggregateElement(i);
            if (!e) { out.push_back(0); continue; }
            constLeaves(e, out);
        }
    } else out.push_back(constScalar(c));
}
static uint64_t constScalar(const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().trunc(64).getZExtValue();
    if (auto *f = dyn_cast<ConstantFP>(c)) {
        APInt b = f->getValueAPF().bitcastToAPInt();
        return b.getBitWidth() <= 64 ? b.getZExtValue() : 0;
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *f = dyn_cast<Function>(c)) {
        DFunc *d = getFunc(f);
        if (!d) return 0;
        return mkAddr(R_FUNC, d->id);
    }
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        auto it = globAddr.find(g);
        return it == globAddr.end() ? 0 : it->second;
    }
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = widthOf(ce->getType());
        auto op = [&](unsigned i) { return constScalar(ce->getOperand(i)); };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            uint64_t a = op(0);
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: constant gep\n"); exit(3); }
            return a + off.getSExtValue();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
            return op(0) & maskw(w);
        case Instruction::Add: return (op(0) + op(1)) & maskw(w);
        case Instruction::Sub: return (op(0) - op(1)) & maskw(w);
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "symx: unsupported constant %s\n", s.c_str());
    exit(3);
}

struct Decoder {
    DFunc *D;
    std::unordered_map<const Value *, int32_t> slot;
    std::unordered_map<const BasicBlock *, uint32_t> bpc;
    Opnd op(const Value *v) {
        Opnd o;
        if (auto *c = dyn_cast<Constant>(v)) {
            Type *t = c->getType();
            if (t->isAggregateType() || t->isVectorTy()) {
                o.r = -2; o.c = cpool.size();
                std::vector<uint64_t> l;
                constLeaves(c, l);
                cpool.insert(cpool.end(), l.begin(), l.end());
            } else o.c = constScalar(c);
            return o;
        }
        auto it = slot.find(v);
        if (it == slot.end()) { o.c = 0; return o; } // metadata and such
        o.r = it->second;
        return o;
    }
    Edge edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e{bpc[to], -1};
        std::vector<Move> mv;
        for (auto &phi : to->phis()) {
            unsigned n = nLeaves(phi.getType());
            Opnd src = op(phi.getIncomingValueForBlock(from));
            for (unsigned i = 0; i < n; i++) {
                Opnd s = src;
                if (s.r >= 0) s.r += i;
                else if (s.r == -2) { s.c = cpool[s.c + i]; s.r = -1; }
                mv.push_back({slot[&phi] + (int)i, s});
            }
        }
        if (!mv.empty()) { e.moves = D->moveSets.size(); D->moveSets.push_back(mv); }
        return e;
    }
    void run();
    void inst(const Instruction &I, DInst &d);
};

void Decoder::run() {
    const Function &F = *D->F;
    for (auto &a : F.args()) { slot[&a] = D->nregs; D->nregs += nLeaves(a.getType()); }
    uint32_t pc = 0;
    for (auto &B : F) {
        bpc[&B] = pc;
        for (auto &I : B) {
            if (!I.getType()->isVoidTy()) { slot[&I] = D->nregs; D->nregs += nLeaves(I.getType()); }
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            pc++;
        }
    }
    D->insts.resize(pc);
    D->covered.resize(pc);
    D->lineOf.resize(pc);
    pc = 0;
    for (auto &B : F)
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            DInst &d = D->insts[pc];
            d.I = &I;
            if (I.getDebugLoc()) D->lineOf[pc] = I.getDebugLoc().getLine();
            auto it = slot.find(&I);
            d.dst = it == slot.end() ? -1 : it->second;
            inst(I, d);
            pc++;
        }
    D->decoded = true;
}

void Decoder::inst(const Instruction &I, DInst &d) {
    bool ok = true;
    auto unsup = [&](const char *w) { d.op = I_UNSUP; d.why = w; };
    Type *T = I.getType();
    std::vector<uint32_t> tmpo;
    auto setW = [&](Type *t) { d.w = std::min(255u, widthOf(t)); if (widthOf(t) > 64) ok = false; d.n = t->isVoidTy() ? 0 : nLeaves(t); };
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        d.op = I_BIN;
        static const std::map<unsigned, Op> m = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV},
            {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR},
            {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
        d.sub = m.at(I.getOpcode());
        setW(T);
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
        break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        d.op = I_FBIN;
        if (T->getScalarType()->isX86_FP80Ty()) return unsup("long double");
        d.sub = I.getOpcode() == Instruction::FAdd ? FADD : I.getOpcode() == Instruction::FSub ? FSUB : I.getOpcode() == Instruction::FMul ? FMUL : FDIV;
        setW(T);
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
        break;
    case Instruction::FNeg:
        if (T->getScalarType()->isX86_FP80Ty()) return unsup("long double");
        d.op = I_FNEG; setW(T); d.a = op(I.getOperand(0));
        break;
    case Instruction::ICmp: case Instruction::FCmp: {
        d.op = I.getOpcode() == Instruction::ICmp ? I_ICMP : I_FCMP;
        d.sub = cast<CmpInst>(I).getPredicate();
        Type *ot = I.getOperand(0)->getType();
        if (ot->getScalarType()->isX86_FP80Ty()) return unsup("long double");
        setW(ot);
        d.n = nLeaves(T);
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
        break;
    }
    case Instruction::Select:
        d.op = I_SELECT;
        leaves(T, 0, d.widths, tmpo, ok);
        d.n = d.widths.size();
        d.flag = I.getOperand(0)->getType()->isVectorTy();
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.c = op(I.getOperand(2));
        break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::BitCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::FPToSI: case Instruction::FPToUI: {
        d.op = I_CAST;
        d.sub = I.getOpcode();
        Type *ot = I.getOperand(0)->getType();
        if (T->getScalarType()->isX86_FP80Ty() || ot->getScalarType()->isX86_FP80Ty()) return unsup("long double");
        setW(T);
        d.w2 = std::min(255u, widthOf(ot));
        if (widthOf(ot) > 64) ok = false;
        if (nLeaves(ot) != d.n) return unsup("vector bitcast");
        d.a = op(I.getOperand(0));
        break;
    }
    case Instruction::Freeze:
        d.op = I_COPY; d.n = nLeaves(T); d.a = op(I.getOperand(0));
        break;
    case Instruction::GetElementPtr: {
        if (T->isVectorTy()) return unsup("vector gep");
        d.op = I_GEP;
        d.a = op(I.getOperand(0));
        for (auto ti = gep_type_begin(&I), te = gep_type_end(&I); ti != te; ++ti) {
            Value *ix = ti.getOperand();
            if (StructType *s = ti.getStructTypeOrNull()) d.imm += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else {
                uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
                if (auto *ci = dyn_cast<ConstantInt>(ix)) d.imm += ci->getSExtValue() * es;
                else d.idx.push_back({op(ix), es, (uint8_t)widthOf(ix->getType())});
            }
        }
        break;
    }
    case Instruction::Load:
        d.op = I_LOAD;
        leaves(T, 0, d.widths, d.offs, ok);
        d.n = d.widths.size();
        d.imm = DL->getTypeStoreSize(T);
        d.a = op(I.getOperand(0));
        if (T->isX86_FP80Ty()) return unsup("long double");
        break;
    case Instruction::Store: {
        d.op = I_STORE;
        Type *vt = I.getOperand(0)->getType();
        leaves(vt, 0, d.widths, d.offs, ok);
        d.n = d.widths.size();
        d.imm = DL->getTypeStoreSize(vt);
        d.a = op(I.getOperand(1)); d.b = op(I.getOperand(0));
        if (vt->isX86_FP80Ty()) return unsup("long double");
        break;
    }
    case Instruction::Alloca: {
        d.op = I_ALLOCA;
        auto &A = cast<AllocaInst>(I);
        d.imm = DL->getTypeAllocSize(A.getAllocatedType());
        d.a = op(A.getArraySize());
        break;
    }
    case Instruction::Br: {
        auto &B = cast<BranchInst>(I);
        d.t = edge(I.getParent(), B.getSuccessor(0));
        if (B.isConditional()) { d.op = I_CONDBR; d.a = op(B.getCondition()); d.f = edge(I.getParent(), B.getSuccessor(1)); }
        else d.op = I_BR;
        break;
    }
    case Instruction::Switch: {
        auto &S = cast<SwitchInst>(I);
        d.op = I_SWITCH;
        d.w = widthOf(S.getCondition()->getType());
        d.a = op(S.getCondition());
        d.t = edge(I.getParent(), S.getDefaultDest());
        for (auto &c : S.cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
        break;
    }
    case Instruction::Ret: {
        d.op = I_RET;
        d.n = 0;
        if (auto *v = cast<ReturnInst>(I).getReturnValue()) { d.a = op(v); d.n = nLeaves(v->getType()); }
        break;
    }
    case Instruction::Call: case Instruction::Invoke: {
        auto &C = cast<CallBase>(I);
        d.op = I_CALL;
        d.invoke = isa<InvokeInst>(I);
        d.n = nLeaves(T);
        leaves(T, 0, d.widths, tmpo, ok);
        ok = true;
        if (d.invoke) {
            auto &V = cast<InvokeInst>(I);
            d.t = edge(I.getParent(), V.getNormalDest());
            d.f = edge(I.getParent(), V.getUnwindDest());
        }
        if (C.isInlineAsm()) {
            if (d.n == 0) { d.op = I_NOP; break; }
            return unsup("inline asm");
        }
        for (auto &a : C.args()) {
            if (a->getType()->isMetadataTy()) continue;
            Opnd o = op(a);
            unsigned n = nLeaves(a->getType());
            std::vector<uint8_t> aw; std::vector<uint32_t> ao; bool aok = true;
            leaves(a->getType(), 0, aw, ao, aok);
            if (n == 1) { d.args.push_back(o); d.argW.push_back(aw[0]); }
            else for (unsigned i = 0; i < n; i++) {
                Opnd s = o;
                if (s.r >= 0) s.r += i; else if (s.r == -2) { s.r = -1; s.c = cpool[s.c + i]; }
                d.args.push_back(s);
                d.argW.push_back(aw[i]);
            }
        }
        const Value *cal = C.getCalledOperand()->stripPointerCastsAndAliases();
        if (auto *F = dyn_cast<Function>(cal)) {
            if (F->isDeclaration()) {
                std::string n = F->getName().str();
                if (F->isIntrinsic()) {
                    auto id = F->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
                        id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start ||
                        id == Intrinsic::invariant_end || id == Intrinsic::prefetch) { d.op = I_NOP; break; }
                    n = "llvm." + Intrinsic::getBaseName(id).str().substr(5);
                }
                d.builtin = builtinId(n);
                if (d.builtin < 0) d.callee = getFunc(F);
            } else d.callee = getFunc(F);
        } else d.a = op(C.getCalledOperand());
        break;
    }
    case Instruction::ExtractValue: {
        auto &X = cast<ExtractValueInst>(I);
        d.op = I_COPY;
        d.n = nLeaves(T);
        Type *t = X.getAggregateOperand()->getType();
        unsigned off = 0;
        for (unsigned ix : X.indices()) {
            for (unsigned k = 0; k < ix; k++) off += nLeaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
            t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        }
        d.a = op(X.getAggregateOperand());
        if (d.a.r >= 0) d.a.r += off; else if (d.a.r == -2) d.a.c += off;
        break;
    }
    case Instruction::InsertValue: {
        auto &X = cast<InsertValueInst>(I);
        d.op = I_INSERTV;
        d.n = nLeaves(T);
        Type *t = T;
        unsigned off = 0;
        for (unsigned ix : X.indices()) {
            for (unsigned k = 0; k < ix; k++) off += nLeaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
            t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        }
        d.imm = off;
        d.w = nLeaves(t);
        d.a = op(X.getAggregateOperand());
        d.b = op(X.getInsertedValueOperand());
        break;
    }
    case Instruction::InsertElement: {
        auto *ci = dyn_cast<ConstantInt>(I.getOperand(2));
        if (!ci) return unsup("variable insertelement");
        d.op = I_INSERTV; d.n = nLeaves(T); d.imm = ci->getZExtValue(); d.w = 1;
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
        break;
    }
    case Instruction::ExtractElement: {
        auto *ci = dyn_cast<ConstantInt>(I.getOperand(1));
        if (!ci) return unsup("variable extractelement");
        d.op = I_COPY; d.n = 1;
        d.a = op(I.getOperand(0));
        if (d.a.r >= 0) d.a.r += ci->getZExtValue(); else if (d.a.r == -2) d.a.c += ci->getZExtValue();
        break;
    }
    case Instruction::ShuffleVector: {
        auto &X = cast<ShuffleVectorInst>(I);
        d.op = I_SHUFFLE; d.n = nLeaves(T);
        d.imm = nLeaves(X.getOperand(0)->getType());
        for (int m : X.getShuffleMask()) d.offs.push_back(m < 0 ? 0 : m);
        d.a = op(X.getOperand(0)); d.b = op(X.getOperand(1));
        break;
    }
    case Instruction::LandingPad: {
        auto &L = cast<LandingPadInst>(I);
        d.op = I_LPAD;
        d.n = 2;
        d.flag = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses(); i++) d.clauses.push_back({L.isCatch(i) ? 0 : 1, L.getClause(i)});
        break;
    }
    case Instruction::Resume: d.op = I_RESUME; d.a = op(I.getOperand(0)); break;
    case Instruction::Unreachable: d.op = I_UNREACH; break;
    case Instruction::AtomicCmpXchg:
        d.op = I_CMPXCHG; d.w = widthOf(I.getOperand(1)->getType()); d.n = 2;
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.c = op(I.getOperand(2));
        break;
    case Instruction::AtomicRMW:
        d.op = I_RMW; d.w = widthOf(T); d.sub = cast<AtomicRMWInst>(I).getOperation();
        d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1));
        break;
    case Instruction::Fence: d.op = I_NOP; break;
    default: unsup(I.getOpcodeName()); break;
    }
    if (!ok && d.op != I_NOP) unsup("wide integer");
}
static void decodeFunc(DFunc *f) {
    Decoder d;
    d.D = f;
    d.run();
}

// ---------------------------------------------------------------- state helpers
static inline Val rd(const State &S, uint32_t base, const Opnd &o, unsigned k = 0) {
    if (o.r >= 0) return S.regs[base + o.r + k];
    if (o.r == -1) return cv(o.c);
    return cv(cpool[o.c + k]);
}
static std::string where(const State &S, int maxFrames = 8) {
    std::string r;
    int n = 0;
    for (size_t i = S.fr.size(); i-- > 0 && n < maxFrames; n++) {
        const Frame &f = S.fr[i];
        std::string nm = demangle(f.f->name);
        if (nm.size() > 120) nm = nm.substr(0, 120) + "...";
        uint32_t ln = 0;
        std::string inl;
        if (f.pc < f.f->insts.size()) {
            ln = f.f->lineOf[f.pc];
            if (const Instruction *I = f.f->insts[f.pc].I) {
                const DILocation *l = I->getDebugLoc().get();
                if (l) inl = l->getFilename().str();
            }
        }
        r += (n ? " < " : "") + nm + " (" + inl.substr(inl.rfind('/') + 1) + ":" + std::to_string(ln) + ")";
    }
    return r;
}

static std::string inputsJson(const State &S) {
    std::string r = "[";
    newEvalGen();
    for (size_t i = 0; i < S.inputs.size(); i++) {
        auto &in = S.inputs[i];
        uint64_t v = in.v.e ? evalExprSameGen(in.v.e, S.model) : in.v.c;
        r += (i ? ",[" : "[") + jstr(in.name) + "," + std::to_string(v) + "]";
    }
    return r + "]";
}
static std::string obsJson(const State &S) {
    std::string r = "[";
    newEvalGen();
    for (size_t i = 0; i < S.obs.size(); i++) {
        auto &o = S.obs[i];
        uint64_t v = o.v.e ? evalExprSameGen(o.v.e, S.model) : o.v.c;
        r += (i ? ",[" : "[") + jstr(o.name) + "," + std::to_string(v) + "]";
    }
    return r + "]";
}
static bool undefInvolved(const State &S) {
    for (E c : S.cons) if (c->vs->undef) return true;
    return false;
}
static void violation(State &S, const std::string &kind, const std::string &id, const std::string &msg) {
    int &n = violCount[kind + ":" + id];
    if (n++ < 4) {
        emit("{\"t\":\"viol\",\"kind\":" + jstr(kind) + ",\"check\":" + jstr(id) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where(S)) +
             ",\"undef\":" + (undefInvolved(S) ? "true" : "false") + ",\"inputs\":" + inputsJson(S) + "}");
        if (++sh->viol >= opt.maxViol) sh->stop = 1;
    }
}
[[noreturn]] static void fail(State &S, const std::string &kind, const std::string &id, const std::string &msg) {
    violation(S, kind, id, msg);
    throw PathEnd();
}
static void unsupported(State &S, const std::string &what) {
    if (sh->unsup++ < 20) emit("{\"t\":\"unsup\",\"what\":" + jstr(what) + ",\"where\":" + jstr(where(S)) + ",\"inputs\":" + inputsJson(S) + "}");
    throw PathEnd();
}

static bool known(const State &S, E c) {
    for (size_t i = S.cons.size(); i-- > 0;) if (S.cons[i] == c) return true;
    return false;
}
static void addCons(State &S, E c) {
    if (c->op == CONST) return;
    if (c->op == AND && c->w == 1) { addCons(S, c->k[0]); addCons(S, c->k[1]); return; }
    if (!known(S, c)) S.cons.push_back(c);
}
static std::map<std::string, std::pair<uint64_t, uint64_t>> forkProf;
// Branch on cond; the current state takes the side its model satisfies, a sibling (re-executing the same
// instruction) takes the other one if it is feasible.
// Can the value of cond really change with the uninitialised bytes it mentions? If not, they are replaced by zeros.
static bool undefMatters(State &S, E &cond) {
    std::unordered_map<uint32_t, E> twin, zero;
    for (auto v : cond->vs->v) if (g_vars[v].undef) {
        twin[v] = mkVar(g_vars[v].name + "'", g_vars[v].w, true);
        zero[v] = mkConst(g_vars[v].w, 0);
    }
    E other = substVars(cond, twin), plain = substVars(cond, zero);
    Model om;
    E ne = mkNot(mkBin(EQ, cond, other));
    if (ne->op == CONST ? !ne->c : solverCheck(S.cons, ne, S.model, om) == UNSAT) { cond = plain; return false; }
    return true;
}
static bool decide(State &S, E cond) {
    if (cond->op != CONST && cond->vs->undef && undefMatters(S, cond)) violation(S, "uninit", "uninit", "branch on an uninitialised value");
    if (cond->op == CONST) return cond->c;
    if (known(S, cond)) return true;
    E ncond = mkNot(cond);
    if (known(S, ncond)) return false;
    bool v = evalExpr(cond, S.model);
    E mine = v ? cond : ncond, other = v ? ncond : cond;
    Model om;
    static bool prof = getenv("SYMX_PROF") != nullptr;
    uint64_t q0 = g_sstats.queries;
    SatRes r = solverCheck(S.cons, other, S.model, om);
    if (prof) { auto &p = forkProf[where(S)]; p.first += r == SAT; p.second += g_sstats.queries - q0; }
    if (r == UNKNOWN) unsupported(S, "solver gave no answer");
    if (r == SAT) {
        State *n = new State(S);
        addCons(*n, other);
        n->model = om;
        n->nfork++;
        work.push_back(n);
        st.forks++;
        addCons(S, mine);
    }
    return v;
}
static bool decideV(State &S, const Val &v) { return v.e ? decide(S, v.e) : v.c & 1; }
static uint64_t concretize(State &S, const Val &v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t x = evalExpr(v.e, S.model);
    decide(S, mkBin(EQ, v.e, mkConst(w, x)));
    addCons(S, mkBin(EQ, v.e, mkConst(w, x)));
    return x;
}

// ---------------------------------------------------------------- memory access
static ObjTable &table(State &S, unsigned region) { return region == R_GLOBAL ? S.glob : region == R_HEAP ? S.heap : S.stk; }
static Obj *objAt(const State &S, uint64_t addr) {
    unsigned r = addrRegion(addr);
    if (r == R_GLOBAL) return S.glob.get(addrId(addr));
    if (r == R_HEAP) return S.heap.get(addrId(addr));
    if (r == R_STACK) return S.stk.get(addrId(addr));
    return nullptr;
}
static std::string describe(const State &S, uint64_t addr) {
    char b[200];
    unsigned r = addrRegion(addr);
    int64_t off = (int64_t)(addr & 0xffffffff) - (int64_t)OBJ_OFF;
    Obj *o = objAt(S, addr);
    if (r == 0 || r > R_FUNC) snprintf(b, sizeof b, addr < 65536 ? "null pointer + %lu" : "wild pointer 0x%lx", (unsigned long)addr);
    else if (o) snprintf(b, sizeof b, "offset %ld of a %lu-byte %s object", (long)off, (unsigned long)o->size,
                         r == R_GLOBAL ? "global" : r == R_HEAP ? (o->kind == K_MAP ? "mapped" : "heap") : "stack");
    else if (r == R_HEAP && addrId(addr) < S.heap.n) snprintf(b, sizeof b, "freed heap object #%u offset %ld", addrId(addr), (long)off);
    else snprintf(b, sizeof b, "invalid address 0x%lx", (unsigned long)addr);
    return b;
}
static inline bool inBounds(const Obj *o, uint64_t addr, uint64_t n) {
    uint64_t off = (addr & 0xffffffff) - OBJ_OFF;
    return off <= o->size && n <= o->size - off;
}
static Obj *access(State &S, uint64_t addr, uint64_t n, bool write, const char *what) {
    Obj *o = objAt(S, addr);
    if (!o) fail(S, "memory", objAt(S, addr) ? "bad" : addr < 65536 ? "null" : addrRegion(addr) == R_HEAP ? "use-after-free" : "wild",
                 std::string(what) + " of " + std::to_string(n) + " bytes at " + describe(S, addr));
    if (!inBounds(o, addr, n)) fail(S, "memory", "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes at " + describe(S, addr));
    if (write) {
        if (o->kind == K_CONST) fail(S, "memory", "write-to-const", std::string(what) + " at " + describe(S, addr));
        o = table(S, addrRegion(addr)).getw(addrId(addr));
    }
    return o;
}
static E undefByte(State &S) { return mkVar("undef" + std::to_string(S.undefCount++), 8, true); }

static inline Val byteAt(State &S, Obj *o, uint64_t off, uint64_t addr) {
    Page *p = o->pg[off / PS];
    unsigned i = off % PS;
    if (p->nsym && p->sym[i]) return {0, p->sym[i]};
    if (p->ninit != p->n && !p->isInit(i)) {
        // uninitialised: an arbitrary value, fixed from now on
        Obj *w = table(S, addrRegion(addr)).getw(addrId(addr));
        Page *q = pageW(w, off / PS);
        E u = undefByte(S);
        if (!q->sym) q->sym = (E *)calloc(q->n, sizeof(E));
        q->sym[i] = u;
        q->nsym++;
        if (!q->init) { q->init = (uint8_t *)calloc(1, PS / 8); if (q->ninit == q->n) memset(q->init, 255, PS / 8); }
        q->init[i >> 3] |= 1 << (i & 7);
        q->ninit++;
        return {0, u};
    }
    return cv(p->b[i]);
}
static inline void putByte(Page *p, unsigned i, const Val &v) {
    if (p->ninit != p->n) {
        if (!p->init) p->init = (uint8_t *)calloc(1, PS / 8);
        if (!(p->init[i >> 3] >> (i & 7) & 1)) { p->init[i >> 3] |= 1 << (i & 7); p->ninit++; }
    }
    if (v.e) {
        if (!p->sym) p->sym = (E *)calloc(p->n, sizeof(E));
        if (!p->sym[i]) p->nsym++;
        p->sym[i] = v.e;
    } else {
        if (p->nsym && p->sym[i]) { p->sym[i] = nullptr; p->nsym--; if (!p->nsym) { free(p->sym); p->sym = nullptr; } }
        p->b[i] = v.c;
    }
}
// little endian read of n bytes at an in-bounds concrete position
static Val readObj(State &S, Obj *o, uint64_t addr, unsigned n) {
    uint64_t off = (addr & 0xffffffff) - OBJ_OFF;
    Page *p = o->pg[off / PS];
    unsigned i = off % PS;
    if (i + n <= p->n && !p->nsym && p->ninit == p->n) {
        uint64_t v = 0;
        memcpy(&v, p->b + i, n);
        return cv(v);
    }
    bool sym = false;
    Val bs[8];
    for (unsigned k = 0; k < n; k++) {
        bs[k] = byteAt(S, o, off + k, addr);
        if (bs[k].e) { sym = true; o = objAt(S, addr); }
    }
    if (!sym) {
        uint64_t v = 0;
        for (unsigned k = 0; k < n; k++) v |= bs[k].c << (8 * k);
        return cv(v);
    }
    E e = toE(bs[n - 1], 8);
    if (n == 1 && e->op == EXTRACT) return ev(mkExtract(e->k[0], e->c, 8));
    for (unsigned k = n - 1; k-- > 0;) e = mkConcat(e, toE(bs[k], 8));
    return ev(e);
}
static void writeObj(State &S, Obj *o, uint64_t addr, unsigned n, const Val &v) {
    uint64_t off = (addr & 0xffffffff) - OBJ_OFF;
    Page *p = pageW(o, off / PS);
    unsigned i = off % PS;
    if (!v.e && i + n <= p->n && !p->nsym && p->ninit == p->n) { memcpy(p->b + i, &v.c, n); return; }
    for (unsigned k = 0; k < n; k++) {
        Page *q = pageW(o, (off + k) / PS);
        Val b = v.e ? ev(mkByte(v.e, 8 * k)) : cv(v.c >> (8 * k) & 255);
        putByte(q, (off + k) % PS, b);
    }
}

// unary domain of a variable under the path condition
static bool varDomain(const State &S, uint32_t v, std::vector<uint64_t> &dom, size_t limit) {
    unsigned w = g_vars[v].w;
    uint64_t lo = 0, hi = maskw(w);
    std::vector<E> un;
    for (E c : S.cons) {
        if (c->vs->v.size() != 1 || c->vs->v[0] != v) continue;
        un.push_back(c);
        auto isV = [&](E e) { while (e->op == ZEXT) e = e->k[0]; return e->op == VAR; };
        if (c->op == ULT && isV(c->k[0]) && c->k[1]->op == CONST) { if (c->k[1]->c) hi = std::min(hi, c->k[1]->c - 1); }
        else if (c->op == ULT && isV(c->k[1]) && c->k[0]->op == CONST) lo = std::max(lo, c->k[0]->c + 1);
        else if (c->op == EQ && isV(c->k[0]) && c->k[1]->op == CONST) lo = std::max(lo, c->k[1]->c), hi = std::min(hi, c->k[1]->c);
    }
    if (hi - lo >= 65536) return false;
    Model m(v + 1, 0);
    for (uint64_t x = lo; x <= hi; x++) {
        m[v] = x;
        bool ok = true;
        for (E c : un) if (!evalExpr(c, m)) { ok = false; break; }
        if (ok) { dom.push_back(x); if (dom.size() > limit) return false; }
        if (x == hi) break;
    }
    return true;
}
// possible values of e over-approximated by the product of unary domains
static bool valueSet(const State &S, E e, std::vector<uint64_t> &out, size_t limit) {
    auto &vs = e->vs->v;
    if (vs.size() > 4) return false;
    std::vector<std::vector<uint64_t>> doms(vs.size());
    size_t prod = 1;
    for (size_t i = 0; i < vs.size(); i++) {
        if (!varDomain(S, vs[i], doms[i], limit)) return false;
        prod *= std::max<size_t>(1, doms[i].size());
        if (prod > limit) return false;
    }
    Model m = S.model;
    m.resize(std::max<size_t>(m.size(), vs.empty() ? 0 : vs.back() + 1), 0);
    std::unordered_set<uint64_t> seen;
    std::vector<size_t> ix(vs.size(), 0);
    for (auto &d : doms) if (d.empty()) return false;
    for (;;) {
        for (size_t i = 0; i < vs.size(); i++) m[vs[i]] = doms[i][ix[i]];
        seen.insert(evalExpr(e, m));
        size_t k = 0;
        while (k < vs.size() && ++ix[k] == doms[k].size()) ix[k++] = 0;
        if (k == vs.size()) break;
    }
    out.assign(seen.begin(), seen.end());
    std::sort(out.begin(), out.end());
    return true;
}

static bool constIte(E e, std::vector<std::pair<E, uint64_t>> &out, E guard, int &budget) {
    if (--budget < 0) return false;
    if (e->op == CONST) { out.push_back({guard, e->c}); return true; }
    if (e->op != ITE) return false;
    E g1 = guard ? mkBin(AND, guard, e->k[0]) : e->k[0];
    E g2 = guard ? mkBin(AND, guard, mkNot(e->k[0])) : mkNot(e->k[0]);
    return constIte(e->k[1], out, g1, budget) && constIte(e->k[2], out, g2, budget);
}
struct Cands { std::vector<uint64_t> addrs; bool ite = false; std::vector<std::pair<E, uint64_t>> guarded; E addr; };
// find the possible concrete addresses of a symbolic pointer (forks when they span several objects or may be invalid)
static void resolveSym(State &S, E addr, uint64_t n, size_t maxCands, Cands &out) {
    out.addr = addr;
    int budget = 64;
    if (constIte(addr, out.guarded, nullptr, budget)) {
        bool ok = true;
        for (auto &g : out.guarded) { Obj *o = objAt(S, g.second); if (!o || !inBounds(o, g.second, n)) ok = false; }
        if (ok) { out.ite = true; return; }
    }
    uint64_t cur = evalExpr(addr, S.model);
    Obj *o = objAt(S, cur);
    if (!o || !inBounds(o, cur, n)) {
        // the pointer can be bad here: report with this model
        access(S, cur, n, false, "access");
    }
    uint64_t base = (cur & ~0xffffffffull) + OBJ_OFF;
    E off = mkBin(SUB, addr, mkConst(64, base));
    E inb = mkBin(ULE, off, mkConst(64, o->size - n));
    if (!decide(S, inb)) throw PathEnd(); // cannot happen: the model satisfies inb
    std::vector<uint64_t> vals;
    if (valueSet(S, off, vals, 20000)) {
        for (uint64_t v : vals) if (v <= o->size - n) out.addrs.push_back(base + v);
    } else {
        uint64_t stride = 1ull << std::min(20u, trailingZeros(off));
        uint64_t hi = std::min(o->size - n, maxVal(off));
        if (hi / stride < 8192) for (uint64_t v = 0; v <= hi; v += stride) out.addrs.push_back(base + v);
    }
    if (out.addrs.empty() || out.addrs.size() > maxCands) {
        uint64_t a = concretize(S, {0, addr}, 64);
        out.addrs.assign(1, a);
    }
}
static Val readSym(State &S, E addr, unsigned n) {
    Cands c;
    resolveSym(S, addr, n, 20000, c);
    if (c.ite) {
        Val r = readObj(S, objAt(S, c.guarded.back().second), c.guarded.back().second, n);
        for (size_t i = c.guarded.size() - 1; i-- > 0;) {
            Val x = readObj(S, objAt(S, c.guarded[i].second), c.guarded[i].second, n);
            r = ev(mkIte(c.guarded[i].first, toE(x, 8 * n), toE(r, 8 * n)));
        }
        return r;
    }
    Obj *o = objAt(S, c.addrs[0]);
    if (c.addrs.size() == 1) return readObj(S, o, c.addrs[0], n);
    std::unordered_map<E, std::vector<size_t>> groups;
    std::vector<E> order;
    for (size_t i = 0; i < c.addrs.size(); i++) {
        Val v = readObj(S, objAt(S, c.addrs[i]), c.addrs[i], n);
        E e = toE(v, 8 * n);
        auto &g = groups[e];
        if (g.empty()) order.push_back(e);
        g.push_back(i);
    }
    if (order.size() == 1) return ev(order[0]);
    std::stable_sort(order.begin(), order.end(), [&](E a, E b) { return groups[a].size() > groups[b].size(); });
    E r = order[0];
    for (size_t k = 1; k < order.size(); k++) {
        auto &g = groups[order[k]];
        E cond = nullptr;
        for (size_t i = 0; i < g.size();) {
            size_t j = i;
            while (j + 1 < g.size() && g[j + 1] == g[j] + 1) j++;
            E one;
            if (j == i) one = mkBin(EQ, addr, mkConst(64, c.addrs[g[i]]));
            else one = mkBin(AND, mkBin(ULE, mkConst(64, c.addrs[g[i]]), addr), mkBin(ULE, addr, mkConst(64, c.addrs[g[j]])));
            cond = cond ? mkBin(OR, cond, one) : one;
            i = j + 1;
        }
        r = mkIte(cond, order[k], r);
    }
    return ev(r);
}
static void writeSym(State &S, E addr, unsigned n, const Val &v) {
    Cands c;
    resolveSym(S, addr, n, 128, c);
    E ve = toE(v, 8 * n);
    if (!c.ite && c.addrs.size() == 1) { writeObj(S, access(S, c.addrs[0], n, true, "write"), c.addrs[0], n, v); return; }
    std::vector<std::pair<E, uint64_t>> l = c.guarded;
    if (!c.ite) { l.clear(); for (uint64_t a : c.addrs) l.push_back({mkBin(EQ, addr, mkConst(64, a)), a}); }
    for (auto &p : l) {
        Obj *o = access(S, p.second, n, true, "write");
        Val old = readObj(S, o, p.second, n);
        o = access(S, p.second, n, true, "write");
        writeObj(S, o, p.second, n, ev(mkIte(p.first, ve, toE(old, 8 * n))));
    }
}
// a pointer chosen by a condition: fork when following it, so that walks over linked structures stay concrete
static Val forkPointer(State &S, const Val &addr, unsigned bits) {
    std::vector<std::pair<E, uint64_t>> g;
    int budget = 64;
    if (!constIte(addr.e, g, nullptr, budget)) return addr;
    bool ptr = false;
    for (auto &p : g) if (p.second >> 32 != g[0].second >> 32 && addrRegion(p.second) == R_HEAP) ptr = true; // different blocks
    if (bits == 64) for (auto &p : g) {
        Obj *o = objAt(S, p.second);
        if (!o || !inBounds(o, p.second, 8)) { ptr = true; break; }
        Val x = readObj(S, o, p.second, 8);
        if (!x.e && addrRegion(x.c) >= R_GLOBAL && addrRegion(x.c) <= R_FUNC) { ptr = true; break; }
    }
    if (!ptr) return addr;
    E e = addr.e;
    while (e->op == ITE) e = decide(S, e->k[0]) ? e->k[1] : e->k[2];
    return ev(e);
}
static Val load(State &S, const Val &addr0, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    Val r, addr = addr0;
    if (addr.e && addr.e->op == ITE) addr = forkPointer(S, addr, bits);
    if (addr.e) r = readSym(S, addr.e, n);
    else r = readObj(S, access(S, addr.c, n, false, "read"), addr.c, n);
    if (bits % 8) r = r.e ? ev(mkExtract(r.e, 0, bits)) : cv(r.c & maskw(bits));
    return r;
}
static void store(State &S, const Val &addr, unsigned bits, const Val &v0) {
    unsigned n = (bits + 7) / 8;
    Val v = v0;
    if (bits % 8 && v.e) v = ev(mkZext(v.e, n * 8));
    if (addr.e) writeSym(S, addr.e, n, v);
    else writeObj(S, access(S, addr.c, n, true, "write"), addr.c, n, v);
}
static uint64_t heapAlloc(State &S, uint64_t size, ObjKind k, int fill, const void *site) {
    if (size > 0xf0000000ull) unsupported(S, "allocation of " + std::to_string(size) + " bytes");
    Obj *o = objNew(size, k, fill);
    o->site = site;
    uint32_t id = S.heap.add(o);
    if (id == 0) { id = S.heap.add(objNew(0, k, -1)); } // never hand out id 0
    if (id > 0xfffff0) unsupported(S, "too many allocations");
    if (k == K_MAP) S.liveMaps++; else S.liveHeap++;
    return mkAddr(R_HEAP, id);
}
static void heapFree(State &S, uint64_t a, ObjKind k, const char *fn) {
    if (a == 0) return;
    Obj *o = objAt(S, a);
    if (addrRegion(a) != R_HEAP || (a & 0xffffffff) != OBJ_OFF)
        fail(S, "memory", "bad-free", std::string(fn) + " of " + describe(S, a));
    if (!o) fail(S, "memory", "double-free", std::string(fn) + " of " + describe(S, a));
    if (o->kind != k) fail(S, "memory", "mismatched-free", std::string(fn) + " of " + describe(S, a));
    if (k == K_MAP) S.liveMaps--; else S.liveHeap--;
    S.heap.clear(addrId(a));
}
static void copyBytes(State &S, uint64_t dst, uint64_t src, uint64_t n, const char *what) {
    if (!n) return;
    Obj *so = access(S, src, n, false, what);
    std::vector<Val> tmp;
    uint64_t soff = (src & 0xffffffff) - OBJ_OFF;
    // plain fast path
    bool plain = true;
    for (uint64_t pi = soff / PS; pi <= (soff + n - 1) / PS; pi++) if (so->pg[pi]->nsym || so->pg[pi]->ninit != so->pg[pi]->n) { plain = false; break; }
    if (plain) {
        std::vector<uint8_t> b(n);
        for (uint64_t k = 0; k < n;) {
            Page *p = so->pg[(soff + k) / PS];
            unsigned i = (soff + k) % PS;
            uint64_t m = std::min<uint64_t>(n - k, p->n - i);
            memcpy(&b[k], p->b + i, m);
            k += m;
        }
        Obj *d = access(S, dst, n, true, what);
        uint64_t doff = (dst & 0xffffffff) - OBJ_OFF;
        for (uint64_t k = 0; k < n;) {
            Page *p = pageW(d, (doff + k) / PS);
            unsigned i = (doff + k) % PS;
            uint64_t m = std::min<uint64_t>(n - k, p->n - i);
            if (!p->nsym && p->ninit == p->n) memcpy(p->b + i, &b[k], m);
            else if (m == p->n) { if (p->sym) { free(p->sym); p->sym = nullptr; p->nsym = 0; } if (p->init) { free(p->init); p->init = nullptr; } p->ninit = p->n; memcpy(p->b, &b[k], m); }
            else for (uint64_t j = 0; j < m; j++) putByte(p, i + j, cv(b[k + j]));
            k += m;
        }
        return;
    }
    // byte-wise, keeping uninitialised bytes uninitialised
    struct B { Val v; bool init; };
    std::vector<B> b(n);
    for (uint64_t k = 0; k < n; k++) {
        Page *p = so->pg[(soff + k) / PS];
        unsigned i = (soff + k) % PS;
        b[k].init = p->ninit == p->n || p->isInit(i);
        b[k].v = p->nsym && p->sym[i] ? Val{0, p->sym[i]} : cv(p->b[i]);
    }
    Obj *d = access(S, dst, n, true, what);
    uint64_t doff = (dst & 0xffffffff) - OBJ_OFF;
    for (uint64_t k = 0; k < n; k++) {
        Page *p = pageW(d, (doff + k) / PS);
        unsigned i = (doff + k) % PS;
        if (b[k].init) putByte(p, i, b[k].v);
        else if (p->ninit == p->n || p->isInit(i)) {
            if (!p->init) { p->init = (uint8_t *)calloc(1, PS / 8); memset(p->init, 255, PS / 8); }
            p->init[i >> 3] &= ~(1 << (i & 7));
            p->ninit--;
            if (p->nsym && p->sym[i]) { p->sym[i] = nullptr; if (!--p->nsym) { free(p->sym); p->sym = nullptr; } }
        }
    }
}
static std::string cstr(State &S, const Val &a, const char *what) {
    std::string r;
    uint64_t p = concretize(S, a, 64);
    for (;;) {
        Val b = load(S, cv(p++), 8);
        if (b.e) unsupported(S, std::string("symbolic string in ") + what);
        if (!b.c) break;
        r += (char)b.c;
        if (r.size() > 4096) unsupported(S, "string too long");
    }
    return r;
}

// ---------------------------------------------------------------- exceptions
static const GlobalVariable *globAtAddr(uint64_t a) {
    if (addrRegion(a) != R_GLOBAL) return nullptr;
    uint32_t id = addrId(a);
    return id < globById.size() ? globById[id] : nullptr;
}
// is `derived` the same as or derived from `base`?
static bool tiMatch(State &S, uint64_t derived, uint64_t base, int depth = 0) {
    if (derived == base) return true;
    if (!derived || depth > 16) return false;
    uint64_t vt = load(S, cv(derived), 64).c;
    const GlobalVariable *g = globAtAddr(vt);
    std::string n = g ? g->getName().str() : "";
    if (n.find("20__si_class_type_info") != std::string::npos) return tiMatch(S, load(S, cv(derived + 16), 64).c, base, depth + 1);
    if (n.find("21__vmi_class_type_info") != std::string::npos) {
        uint64_t cnt = load(S, cv(derived + 20), 32).c;
        for (uint64_t i = 0; i < cnt; i++)
            if (tiMatch(S, load(S, cv(derived + 24 + 16 * i), 64).c, base, depth + 1)) return true;
    }
    return false;
}
static std::string tiStr(State &S, uint64_t ti) {
    const GlobalVariable *g = globAtAddr(ti);
    if (!g) return "?";
    std::string n = g->getName().str();
    if (n.rfind("_ZTI", 0) == 0) return demangle("_Z" + n.substr(4)).substr(0, 80).empty() ? n : demangle(n).substr(demangle(n).find("for ") == std::string::npos ? 0 : demangle(n).find("for ") + 4);
    return n;
}
static void takeEdge(State &S, Frame &f, const Edge &e) {
    if (e.moves >= 0) {
        auto &mv = f.f->moveSets[e.moves];
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto &m : mv) tmp.push_back(rd(S, f.regBase, m.src));
        for (size_t i = 0; i < mv.size(); i++) S.regs[f.regBase + mv[i].dst] = tmp[i];
    }
    f.pc = e.pc;
}
static void popFrame(State &S) {
    Frame &f = S.fr.back();
    S.stk.popTo(f.stackMark);
    S.regs.resize(f.regBase);
    S.fr.pop_back();
}
static std::map<uint64_t, uint32_t> typeIds;
static uint32_t typeId(uint64_t ti) { // stable: by address
    return ti ? addrId(ti) + 1 : 0x7fffffff;
}
// exc: address of the thrown object; its header is 64 bytes before
// On entry the top frame is the one executing the throwing call / resume.
static void unwind(State &S, uint64_t exc, bool includeTop) {
    uint64_t ti = load(S, cv(exc - 64), 64).c;
    for (;; includeTop = true) {
        if (S.fr.empty()) fail(S, "exception", "uncaught", "uncaught exception of type " + tiStr(S, ti));
        Frame &f = S.fr.back();
        if (includeTop) {
            const DInst &ci = f.f->insts[f.pc];
            if (ci.op == I_CALL && ci.invoke) {
                const DInst &lp = f.f->insts[ci.f.pc];
                if (lp.op == I_LPAD) {
                    bool hit = lp.flag;
                    uint32_t sel = 0;
                    for (auto &c : lp.clauses) {
                        if (c.first == 1) {
                            auto *arr = dyn_cast<ArrayType>(c.second->getType());
                            if (arr && arr->getNumElements() == 0) fail(S, "exception", "terminate", "exception of type " + tiStr(S, ti) + " leaves a function declared not to throw");
                            unsupported(S, "exception specification");
                        }
                        uint64_t cti = constScalar(c.second);
                        if (cti == 0 || tiMatch(S, ti, cti)) { hit = true; sel = typeId(cti); break; }
                    }
                    if (hit) {
                        takeEdge(S, f, ci.f);
                        const DInst &l2 = f.f->insts[f.pc];
                        S.regs[f.regBase + l2.dst] = cv(exc);
                        S.regs[f.regBase + l2.dst + 1] = cv(sel);
                        f.f->covered[f.pc] = 1;
                        f.pc++;
                        return;
                    }
                }
            }
        }
        if (S.fr.size() == 1) fail(S, "exception", "uncaught", "uncaught exception of type " + tiStr(S, ti));
        popFrame(S);
    }
}

// ---------------------------------------------------------------- builtins
typedef std::vector<Val> Args;
// returns false when control was transferred (no result store / pc advance)
typedef bool (*Builtin)(State &S, const DInst &d, Args &a, Val *ret);
static std::vector<std::pair<std::string, Builtin>> builtins;
static std::unordered_map<std::string, int> builtinIx;
static int builtinId(const std::string &n) {
    auto it = builtinIx.find(n);
    return it == builtinIx.end() ? -1 : it->second;
}
static void addInput(State &S, const std::string &name, Val v, unsigned w) { S.inputs.push_back({name, v, w}); }
static std::string uniq(State &S, const std::string &n) { return n + "#" + std::to_string(S.nameCount[n]++); }

static void checkCond(State &S, const Val &c0, const std::string &id) {
    st.checks++;
    checkCount[id]++;
    if (!c0.e) {
        if (!(c0.c & 1)) fail(S, "check", id, "check failed");
        return;
    }
    st.checksSym++;
    E c = c0.e;
    if (known(S, c)) return;
    if (!evalExpr(c, S.model)) {
        violation(S, "check", id, "check failed");
        Model m;
        if (solverCheck(S.cons, c, S.model, m) != SAT) throw PathEnd();
        addCons(S, c);
        S.model = m;
        return;
    }
    Model m;
    SatRes r = solverCheck(S.cons, mkNot(c), S.model, m);
    if (r == UNKNOWN) unsupported(S, "solver gave no answer for check " + id);
    if (r == SAT) {
        Model keep = S.model;
        S.model = m;
        size_t n = S.cons.size();
        addCons(S, mkNot(c));
        violation(S, "check", id, "check failed");
        S.cons.resize(n);
        S.model = keep;
        addCons(S, c);
    }
}
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float asF(uint64_t v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static std::string fmtPrintf(State &S, const std::string &f, Args &a, size_t ai) {
    std::string r;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { r += f[i]; continue; }
        std::string spec = "%";
        i++;
        while (i < f.size() && !isalpha((unsigned char)f[i]) && f[i] != '%') spec += f[i++];
        while (i < f.size() && (f[i] == 'l' || f[i] == 'h' || f[i] == 'z' || f[i] == 'j' || f[i] == 't')) spec += f[i++];
        char cc = i < f.size() ? f[i] : '%';
        spec += cc;
        if (cc == '%') { r += '%'; continue; }
        if (spec.find('*') != std::string::npos || ai >= a.size()) unsupported(S, "printf format");
        char b[512];
        if (cc == 's') { std::string s = cstr(S, a[ai++], "printf"); snprintf(b, sizeof b, spec.c_str(), s.c_str()); r += s.size() > 400 ? s : b; }
        else if (strchr("fgeaFGE", cc)) { snprintf(b, sizeof b, spec.c_str(), asD(concretize(S, a[ai++], 64))); r += b; }
        else {
            uint64_t v = concretize(S, a[ai], 64); // width handled by the host format
            ai++;
            snprintf(b, sizeof b, spec.c_str(), v);
            r += b;
        }
    }
    return r;
}

#define BI(name) static bool name(State &S, const DInst &d, Args &a, Val *ret)
#pragma GCC diagnostic ignored "-Wunused-parameter"
BI(b_nop0) { if (d.n) ret[0] = cv(0); return true; }
BI(b_malloc) { ret[0] = cv(heapAlloc(S, concretize(S, a[0], 64), K_MALLOC, -1, &d)); return true; }
BI(b_calloc) { ret[0] = cv(heapAlloc(S, concretize(S, a[0], 64) * concretize(S, a[1], 64), K_MALLOC, 0, &d)); return true; }
BI(b_new) { ret[0] = cv(heapAlloc(S, concretize(S, a[0], 64), K_NEW, -1, &d)); return true; }
BI(b_newarr) { ret[0] = cv(heapAlloc(S, concretize(S, a[0], 64), K_NEWARR, -1, &d)); return true; }
BI(b_free) { heapFree(S, concretize(S, a[0], 64), K_MALLOC, "free"); return true; }
BI(b_delete) { heapFree(S, concretize(S, a[0], 64), K_NEW, "delete"); return true; }
BI(b_delarr) { heapFree(S, concretize(S, a[0], 64), K_NEWARR, "delete[]"); return true; }
BI(b_realloc) {
    uint64_t p = concretize(S, a[0], 64), n = concretize(S, a[1], 64);
    uint64_t q = heapAlloc(S, n, K_MALLOC, -1, &d);
    if (p) {
        Obj *o = access(S, p, 0, false, "realloc");
        copyBytes(S, q, p, std::min(n, o->size), "realloc");
        heapFree(S, p, K_MALLOC, "realloc");
    }
    ret[0] = cv(q);
    return true;
}
BI(b_mapalloc) { ret[0] = cv(heapAlloc(S, concretize(S, a[0], 64), K_MAP, 0, &d)); return true; }
BI(b_mapfree) { heapFree(S, concretize(S, a[0], 64), K_MAP, "munmap"); return true; }
BI(b_mapsize) { // size of the live mapping starting here, or -1
    uint64_t p = concretize(S, a[0], 64);
    Obj *o = objAt(S, p);
    ret[0] = cv(o && o->kind == K_MAP && (p & 0xffffffff) == OBJ_OFF ? o->size : ~0ull);
    return true;
}
BI(b_abort) { fail(S, "abort", "abort", "abort()"); }
BI(b_terminate) { fail(S, "abort", "terminate", "std::terminate"); }
BI(b_exit) { fail(S, "abort", "exit", "exit()"); }
BI(b_purevirt) { fail(S, "abort", "pure-virtual", "pure virtual call"); }
BI(b_assertfail) { fail(S, "assert", "assert", "assertion failed: " + cstr(S, a[0], "assert")); }
BI(b_stdassert) { fail(S, "assert", "assert", "standard library precondition violated: " + cstr(S, a[3], "assert")); }
BI(b_trap) { fail(S, "abort", "trap", "trap"); }
static bool doCopy(State &S, const DInst &d, Args &a, Val *ret, bool isCpy) {
    uint64_t n = concretize(S, a[2], 64);
    if (n) {
        uint64_t x = concretize(S, a[0], 64), y = concretize(S, a[1], 64);
        if (isCpy && x != y && x < y + n && y < x + n) fail(S, "memory", "overlap", "memcpy with overlapping ranges");
        copyBytes(S, x, y, n, "memcpy");
    }
    if (d.n) ret[0] = a[0];
    return true;
}
BI(b_memcpy) { return doCopy(S, d, a, ret, true); }
BI(b_memmove) { return doCopy(S, d, a, ret, false); }
BI(b_memset) {
    uint64_t n = concretize(S, a[2], 64), p = concretize(S, a[0], 64);
    Val v = a[1];
    if (v.e) v = ev(mkExtract(v.e, 0, 8)); else v.c &= 255;
    if (n) {
        Obj *o = access(S, p, n, true, "memset");
        uint64_t off = (p & 0xffffffff) - OBJ_OFF;
        for (uint64_t k = 0; k < n;) {
            unsigned i = (off + k) % PS;
            uint64_t m = std::min<uint64_t>(n - k, o->pg[(off + k) / PS]->n - i);
            Page *q = pageW(o, (off + k) / PS);
            if (!v.e && !q->nsym && q->ninit == q->n) memset(q->b + i, v.c, m);
            else for (uint64_t j = 0; j < m; j++) putByte(q, i + j, v);
            k += m;
        }
    }
    if (d.n) ret[0] = a[0];
    return true;
}
BI(b_unwind) { unwind(S, concretize(S, a[0], 64), false); return false; }
BI(b_typeid) { ret[0] = cv(typeId(concretize(S, a[0], 64))); return true; }
// harness API
BI(b_sym) {
    std::string n = uniq(S, cstr(S, a[0], "vp_sym"));
    unsigned w = concretize(S, a[1], 32);
    E v = mkVar(n, w, false);
    addInput(S, n, {0, v}, w);
    ret[0] = w < 64 ? ev(mkZext(v, 64)) : ev(v);
    return true;
}
BI(b_choose) {
    // fork over all values: symbolic variable constrained to [0,n) and pinned
    std::string base = cstr(S, a[0], "vp_choose");
    uint64_t n = concretize(S, a[1], 32);
    std::string nm = base + "#" + std::to_string(S.nameCount[base]);
    E v = mkVar(nm, 32, false);
    E lim = mkBin(ULT, v, mkConst(32, n));
    if (lim->op != CONST && !known(S, lim)) {
        S.model.resize(std::max<size_t>(S.model.size(), g_vars.size()), 0);
        S.model[v->vs->v[0]] = 0;
        addCons(S, lim);
    }
    uint64_t x = concretize(S, {0, v}, 32);
    S.nameCount[base]++;
    addInput(S, nm, cv(x), 32);
    ret[0] = cv(x);
    return true;
}
BI(b_assume) {
    Val c = a[0];
    if (!c.e) { if (!(c.c & 1)) { st.killed++; throw PathEnd(); } return true; }
    if (known(S, c.e)) return true;
    if (!evalExpr(c.e, S.model)) {
        Model m;
        SatRes r = solverCheck(S.cons, c.e, S.model, m);
        if (r == UNKNOWN) unsupported(S, "solver gave no answer for an assumption");
        if (r == UNSAT) { st.killed++; throw PathEnd(); }
        S.model = m;
    }
    addCons(S, c.e);
    return true;
}
BI(b_check) { checkCond(S, a[0], cstr(S, a[1], "vp_check")); return true; }
BI(b_observe) { S.obs.push_back({cstr(S, a[0], "vp_observe"), a[1]}); return true; }
BI(b_reach) { reachCount[cstr(S, a[0], "vp_reach")]++; return true; }
BI(b_live) { ret[0] = cv(S.liveHeap); return true; }
BI(b_maps) { ret[0] = cv(S.liveMaps); return true; }
BI(b_concretize) { ret[0] = cv(concretize(S, a[0], 64)); return true; }
BI(b_issym) { ret[0] = cv(a[0].e != nullptr); return true; }
BI(b_ite) { ret[0] = !a[0].e ? (a[0].c & 1 ? a[1] : a[2]) : ev(mkIte(a[0].e->w == 1 ? a[0].e : mkExtract(a[0].e, 0, 1), toE(a[1], 64), toE(a[2], 64))); return true; }
BI(b_upper) {
    std::vector<uint64_t> v;
    ret[0] = !a[0].e ? a[0] : valueSet(S, a[0].e, v, 4096) && !v.empty() ? cv(v.back()) : cv(maxVal(a[0].e));
    return true;
}
BI(b_isundef) { ret[0] = cv(a[0].e != nullptr && a[0].e->vs->undef); return true; }
BI(b_debug) { if (opt.verbose) fprintf(stderr, "[dbg] %s = %s\n", cstr(S, a[0], "dbg").c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : std::to_string(a[1].c).c_str()); return true; }
BI(b_snprintf) {
    uint64_t n = concretize(S, a[1], 64), p = concretize(S, a[0], 64);
    std::string s = fmtPrintf(S, cstr(S, a[2], "snprintf"), a, 3);
    if (n) for (uint64_t i = 0; i < std::min<uint64_t>(n, s.size() + 1); i++) store(S, cv(p + i), 8, cv(i + 1 == n || i == s.size() ? 0 : (uint8_t)s[i]));
    ret[0] = cv(s.size());
    return true;
}
BI(b_sprintf) {
    uint64_t p = concretize(S, a[0], 64);
    std::string s = fmtPrintf(S, cstr(S, a[1], "sprintf"), a, 2);
    for (uint64_t i = 0; i <= s.size(); i++) store(S, cv(p + i), 8, cv(i == s.size() ? 0 : (uint8_t)s[i]));
    ret[0] = cv(s.size());
    return true;
}
// llvm intrinsics on integers
template <class F> static bool mapN(const DInst &d, Args &a, Val *ret, F f) {
    unsigned n = d.n;
    for (unsigned i = 0; i < n; i++) ret[i] = f(i);
    return true;
}
static bool minmax(const DInst &d, Args &a, Val *ret, Op cmp, bool swap) {
    unsigned n = d.n;
    for (unsigned i = 0; i < n; i++) {
        Val x = a[i], y = a[n + i];
        unsigned w = d.widths[i];
        if (!x.e && !y.e) { bool lt = foldBin(cmp, w, x.c, y.c); ret[i] = (lt != swap) ? x : y; }
        else { E lt = mkBin(cmp, toE(x, w), toE(y, w)); ret[i] = swap ? ev(mkIte(lt, toE(y, w), toE(x, w))) : ev(mkIte(lt, toE(x, w), toE(y, w))); }
    }
    return true;
}
BI(b_umin) { return minmax(d, a, ret, ULT, false); }
BI(b_umax) { return minmax(d, a, ret, ULT, true); }
BI(b_smin) { return minmax(d, a, ret, SLT, false); }
BI(b_smax) { return minmax(d, a, ret, SLT, true); }
BI(b_abs) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w);
    ret[0] = ev(mkIte(mkBin(SLT, x, mkConst(w, 0)), mkBin(SUB, mkConst(w, 0), x), x));
    return true;
}
static bool withOvf(State &S, const DInst &d, Args &a, Val *ret, Op op, bool sgn) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w), y = toE(a[1], w);
    E r = mkBin(op, x, y), o;
    if (w < 64 && (op != MUL || 2 * w <= 64)) {
        unsigned ww = op == MUL ? 2 * w : w + 1;
        E xx = sgn ? mkSext(x, ww) : mkZext(x, ww), yy = sgn ? mkSext(y, ww) : mkZext(y, ww);
        E rr = mkBin(op, xx, yy);
        o = mkNot(mkBin(EQ, rr, sgn ? mkSext(r, ww) : mkZext(r, ww)));
    } else if (op == MUL && !sgn) {
        if (y->op != CONST && x->op != CONST) unsupported(S, "64-bit overflow multiply");
        if (y->op != CONST) std::swap(x, y);
        o = y->c ? mkBin(ULT, mkConst(w, maskw(w) / y->c), x) : mkConst(1, 0);
    } else if (op == ADD && !sgn) o = mkBin(ULT, r, x);
    else if (op == SUB && !sgn) o = mkBin(ULT, x, y);
    else if (op != MUL) {
        E sx_ = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1);
        E diff = mkNot(mkBin(EQ, sx_, sr));
        o = mkBin(AND, op == ADD ? mkBin(EQ, sx_, sy) : mkNot(mkBin(EQ, sx_, sy)), diff);
    } else unsupported(S, "64-bit signed overflow multiply");
    ret[0] = ev(r);
    ret[1] = ev(o);
    return true;
}
BI(b_uaddo) { return withOvf(S, d, a, ret, ADD, false); }
BI(b_usubo) { return withOvf(S, d, a, ret, SUB, false); }
BI(b_umulo) { return withOvf(S, d, a, ret, MUL, false); }
BI(b_saddo) { return withOvf(S, d, a, ret, ADD, true); }
BI(b_ssubo) { return withOvf(S, d, a, ret, SUB, true); }
BI(b_smulo) { return withOvf(S, d, a, ret, MUL, true); }
BI(b_usubsat) { unsigned w = d.widths[0]; E x = toE(a[0], w), y = toE(a[1], w); ret[0] = ev(mkIte(mkBin(ULT, x, y), mkConst(w, 0), mkBin(SUB, x, y))); return true; }
BI(b_uaddsat) { unsigned w = d.widths[0]; E x = toE(a[0], w), y = toE(a[1], w); E r = mkBin(ADD, x, y); ret[0] = ev(mkIte(mkBin(ULT, r, x), mkConst(w, ~0ull), r)); return true; }
static bool fsh(State &S, const DInst &d, Args &a, Val *ret, bool left) {
    unsigned w = d.widths[0];
    if (a[2].e) unsupported(S, "variable funnel shift");
    unsigned s = a[2].c % w;
    E hi = toE(a[0], w), lo = toE(a[1], w);
    if (left) ret[0] = s ? ev(mkBin(OR, mkBin(SHL, hi, mkConst(w, s)), mkBin(LSHR, lo, mkConst(w, w - s)))) : ev(hi);
    else ret[0] = s ? ev(mkBin(OR, mkBin(SHL, hi, mkConst(w, w - s)), mkBin(LSHR, lo, mkConst(w, s)))) : ev(lo);
    return true;
}
BI(b_fshl) { return fsh(S, d, a, ret, true); }
BI(b_fshr) { return fsh(S, d, a, ret, false); }
BI(b_bswap) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w), r = mkExtract(x, 0, 8);
    for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
    ret[0] = ev(r);
    return true;
}
BI(b_ctpop) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w), r = mkConst(w, 0);
    for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, w > 1 ? mkZext(mkExtract(x, i, 1), w) : x);
    ret[0] = ev(r);
    return true;
}
BI(b_ctlz) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w), r = mkConst(w, w);
    for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w, w - 1 - i), r);
    ret[0] = ev(r);
    return true;
}
BI(b_cttz) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w), r = mkConst(w, w);
    for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(w, i), r);
    ret[0] = ev(r);
    return true;
}
BI(b_copy0) { for (unsigned i = 0; i < d.n; i++) ret[i] = a[i]; return true; }
BI(b_isconst) { ret[0] = cv(0); return true; }
BI(b_objsize) { ret[0] = cv(a[1].c & 1 ? 0 : ~0ull & maskw(d.widths[0])); return true; }
BI(b_ptrmask) { ret[0] = a[0].e || a[1].e ? ev(mkBin(AND, toE(a[0], 64), toE(a[1], 64))) : cv(a[0].c & a[1].c); return true; }
BI(b_fabs) {
    unsigned w = d.widths[0];
    ret[0] = a[0].e ? ev(mkBin(AND, a[0].e, mkConst(w, maskw(w) >> 1))) : cv(a[0].c & (maskw(w) >> 1));
    return true;
}
BI(b_fmuladd) {
    unsigned w = d.widths[0];
    ret[0] = ev(mkFun(FADD, w, mkFun(FMUL, w, toE(a[0], w), toE(a[1], w)), toE(a[2], w)));
    return true;
}
static double symD(State &S, Val &v, unsigned w) { if (v.e) { uint64_t c = concretize(S, v, w); return w == 64 ? asD(c) : asF(c); } return w == 64 ? asD(v.c) : asF(v.c); }
template <double (*F)(double)> static bool math1(State &S, const DInst &d, Args &a, Val *ret) {
    unsigned w = d.widths[0];
    if (a[0].e) unsupported(S, "math function of a symbolic value");
    double r = F(symD(S, a[0], w));
    ret[0] = cv(w == 64 ? fromD(r) : fromF((float)r));
    return true;
}
template <double (*F)(double, double)> static bool math2(State &S, const DInst &d, Args &a, Val *ret) {
    unsigned w = d.widths[0];
    if (a[0].e || a[1].e) unsupported(S, "math function of a symbolic value");
    double r = F(symD(S, a[0], w), symD(S, a[1], w));
    ret[0] = cv(w == 64 ? fromD(r) : fromF((float)r));
    return true;
}
static bool fcmpsel(State &S, const DInst &d, Args &a, Val *ret, bool mx) {
    unsigned w = d.widths[0];
    E x = toE(a[0], w), y = toE(a[1], w);
    E lt = mkFun(FLT, 1, x, y);
    ret[0] = mx ? ev(mkIte(lt, y, x)) : ev(mkIte(lt, x, y));
    return true;
}
BI(b_maxnum) { return fcmpsel(S, d, a, ret, true); }
BI(b_minnum) { return fcmpsel(S, d, a, ret, false); }

static void initBuiltins() {
    auto add = [&](const char *n, Builtin b) { builtinIx[n] = builtins.size(); builtins.push_back({n, b}); };
    add("malloc", b_malloc); add("calloc", b_calloc); add("realloc", b_realloc); add("free", b_free);
    for (const char *n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) add(n, b_new);
    for (const char *n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) add(n, b_newarr);
    for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) add(n, b_delete);
    for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) add(n, b_delarr);
    add("vp_map_alloc", b_mapalloc); add("vp_map_free", b_mapfree); add("vp_map_size", b_mapsize);
    add("abort", b_abort); add("_ZSt9terminatev", b_terminate); add("exit", b_exit); add("_exit", b_exit); add("__cxa_pure_virtual", b_purevirt);
    add("__assert_fail", b_assertfail); add("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_stdassert); add("llvm.trap", b_trap); add("llvm.debugtrap", b_trap);
    for (const char *n : {"memcpy", "llvm.memcpy", "llvm.memcpy.inline"}) add(n, b_memcpy);
    for (const char *n : {"memmove", "llvm.memmove"}) add(n, b_memmove);
    for (const char *n : {"memset", "llvm.memset", "llvm.memset.inline"}) add(n, b_memset);
    add("vp_unwind", b_unwind); add("llvm.eh.typeid.for", b_typeid);
    for (const char *n : {"__cxa_atexit", "printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "fflush", "vprintf", "vfprintf", "perror",
                          "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "llvm.stacksave", "llvm.stackrestore", "llvm.va_end", "setlocale", "pthread_mutex_lock", "pthread_mutex_unlock"}) add(n, b_nop0);
    add("vp_sym", b_sym); add("vp_choose_", b_choose); add("vp_assume_", b_assume); add("vp_check_", b_check); add("vp_observe_", b_observe);
    add("vp_reach_", b_reach); add("vp_live", b_live); add("vp_maps_", b_maps); add("vp_concretize", b_concretize); add("vp_is_symbolic", b_issym);
    add("vp_is_undef", b_isundef); add("vp_upper", b_upper); add("vp_ite", b_ite); add("vp_debug", b_debug);
    add("snprintf", b_snprintf); add("sprintf", b_sprintf);
    add("llvm.umin", b_umin); add("llvm.umax", b_umax); add("llvm.smin", b_smin); add("llvm.smax", b_smax); add("llvm.abs", b_abs);
    add("llvm.uadd.with.overflow", b_uaddo); add("llvm.usub.with.overflow", b_usubo); add("llvm.umul.with.overflow", b_umulo);
    add("llvm.sadd.with.overflow", b_saddo); add("llvm.ssub.with.overflow", b_ssubo); add("llvm.smul.with.overflow", b_smulo);
    add("llvm.usub.sat", b_usubsat); add("llvm.uadd.sat", b_uaddsat); add("llvm.fshl", b_fshl); add("llvm.fshr", b_fshr);
    add("llvm.bswap", b_bswap); add("llvm.ctpop", b_ctpop); add("llvm.ctlz", b_ctlz); add("llvm.cttz", b_cttz);
    add("llvm.expect", b_copy0); add("llvm.launder.invariant.group", b_copy0); add("llvm.strip.invariant.group", b_copy0); add("llvm.threadlocal.address", b_copy0); add("llvm.ssa.copy", b_copy0);
    add("llvm.is.constant", b_isconst); add("llvm.objectsize", b_objsize); add("llvm.ptrmask", b_ptrmask);
    add("llvm.fabs", b_fabs); add("fabs", b_fabs); add("fabsf", b_fabs); add("llvm.fmuladd", b_fmuladd);
    add("llvm.maxnum", b_maxnum); add("llvm.minnum", b_minnum); add("fmax", b_maxnum); add("fmin", b_minnum);
    add("sqrt", math1<sqrt>); add("llvm.sqrt", math1<sqrt>); add("log", math1<log>); add("llvm.log", math1<log>); add("log2", math1<log2>); add("llvm.log2", math1<log2>); add("log10", math1<log10>);
    add("exp", math1<exp>); add("llvm.exp", math1<exp>); add("floor", math1<floor>); add("llvm.floor", math1<floor>); add("ceil", math1<ceil>); add("llvm.ceil", math1<ceil>);
    add("ceilf", math1<ceil>); add("floorf", math1<floor>); add("round", math1<round>); add("llvm.round", math1<round>); add("trunc", math1<trunc>);
    add("pow", math2<pow>); add("llvm.pow", math2<pow>); add("fmod", math2<fmod>);
}

// ---------------------------------------------------------------- interpreter
static bool fcmpC(unsigned p, bool lt, bool eq, bool uno) {
    switch (p) {
    case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return eq && !uno; case CmpInst::FCMP_OGT: return !uno && !lt && !eq; case CmpInst::FCMP_OGE: return !uno && !lt;
    case CmpInst::FCMP_OLT: return !uno && lt; case CmpInst::FCMP_OLE: return !uno && (lt || eq); case CmpInst::FCMP_ONE: return !uno && !eq;
    case CmpInst::FCMP_ORD: return !uno; case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return uno || eq; case CmpInst::FCMP_UGT: return uno || (!lt && !eq); case CmpInst::FCMP_UGE: return uno || !lt;
    case CmpInst::FCMP_ULT: return uno || lt; case CmpInst::FCMP_ULE: return uno || lt || eq; case CmpInst::FCMP_UNE: return uno || !eq;
    }
    return false;
}
static E fcmpE(unsigned p, E a, E b) {
    auto N = [](E x) { return mkNot(x); };
    E eq = mkFun(FEQ, 1, a, b), lt = mkFun(FLT, 1, a, b), le = mkFun(FLE, 1, a, b), gt = mkFun(FLT, 1, b, a), ge = mkFun(FLE, 1, b, a), un = mkFun(FUNO, 1, a, b);
    switch (p) {
    case CmpInst::FCMP_FALSE: return mkConst(1, 0); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
    case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge; case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le;
    case CmpInst::FCMP_ONE: return mkBin(OR, lt, gt); case CmpInst::FCMP_ORD: return N(un); case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkBin(OR, un, eq); case CmpInst::FCMP_UGT: return N(le); case CmpInst::FCMP_UGE: return N(lt); case CmpInst::FCMP_ULT: return N(ge);
    case CmpInst::FCMP_ULE: return N(gt); case CmpInst::FCMP_UNE: return N(eq);
    }
    abort();
}
static bool isIntF(E e) { return e->op == SITOF || e->op == UITOF || (e->op == ITE && isIntF(e->k[1]) && (e->k[2]->op == CONST || isIntF(e->k[2]))); }
static E icmpE(unsigned p, E a, E b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b));
    case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b);
    case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(SLE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
    }
    abort();
}
static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
    }
    abort();
}
static void pushFrame(State &S, DFunc *f, const DInst *call, const Args &args) {
    if (!f->decoded) decodeFunc(f);
    f->executed = true;
    if (S.fr.size() > 4000) fail(S, "memory", "stack-overflow", "recursion too deep");
    Frame n;
    n.f = f; n.pc = 0; n.regBase = S.regs.size(); n.stackMark = S.stk.n; n.call = call;
    S.regs.resize(n.regBase + f->nregs, cv(0));
    unsigned na = 0;
    for (auto &a : f->F->args()) na += nLeaves(a.getType());
    for (size_t i = 0; i < na && i < args.size(); i++) S.regs[n.regBase + i] = args[i];
    S.fr.push_back(n);
}

static void step(State &S);
static bool execCall(State &S, const DInst &d) {
    uint32_t base = S.fr.back().regBase;
    Args args;
    args.reserve(d.args.size());
    for (auto &o : d.args) args.push_back(rd(S, base, o));
    int bi = d.builtin;
    DFunc *callee = d.callee;
    if (bi < 0 && !callee) {
        uint64_t p = concretize(S, rd(S, base, d.a), 64);
        if (addrRegion(p) != R_FUNC || (p & 0xffffffff) != OBJ_OFF || addrId(p) >= funcs.size() || !funcs[addrId(p)])
            fail(S, "memory", "bad-call", "call through " + describe(S, p));
        callee = funcs[addrId(p)];
    }
    if (bi < 0 && callee->F->isDeclaration()) {
        bi = builtinId(callee->name);
        if (bi < 0) unsupported(S, "call of external function " + callee->name + " (" + demangle(callee->name) + ")");
    }
    if (bi >= 0) {
        Val ret[16];
        if (!builtins[bi].second(S, d, args, ret)) return false;
        Frame &f = S.fr.back();
        for (unsigned i = 0; i < d.n; i++) S.regs[f.regBase + d.dst + i] = ret[i];
        if (d.invoke) takeEdge(S, f, d.t); else f.pc++;
        return true;
    }
    pushFrame(S, callee, &d, args);
    return true;
}

static void step(State &S) {
    Frame &f = S.fr.back();
    DInst &d = f.f->insts[f.pc];
    f.f->covered[f.pc] = 1;
    uint32_t B = f.regBase;
    auto R = [&](const Opnd &o, unsigned k = 0) { return rd(S, B, o, k); };
    switch (d.op) {
    case I_BIN:
        for (unsigned i = 0; i < d.n; i++) {
            Val a = R(d.a, i), b = R(d.b, i);
            Op op = (Op)d.sub;
            if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
                if (decideV(S, b.e ? ev(mkBin(EQ, b.e, mkConst(d.w, 0))) : cv(b.c == 0))) fail(S, "arith", "div-by-zero", "division by zero");
            }
            if (!a.e && !b.e) S.regs[B + d.dst + i] = cv(foldBin(op, d.w, a.c, b.c));
            else S.regs[B + d.dst + i] = ev(mkBin(op, toE(a, d.w), toE(b, d.w)));
        }
        f.pc++;
        return;
    case I_FBIN:
        for (unsigned i = 0; i < d.n; i++) {
            Val a = R(d.a, i), b = R(d.b, i);
            // division and multiplication of symbolic integers in floating point: one path per value
            if (d.sub == FDIV || d.sub == FMUL) {
                if (a.e && isIntF(a.e)) a = cv(concretize(S, a, d.w));
                if (b.e && isIntF(b.e)) b = cv(concretize(S, b, d.w));
            }
            if (!a.e && !b.e) S.regs[B + d.dst + i] = cv(foldFun((Op)d.sub, d.w, d.w, a.c, b.c));
            else S.regs[B + d.dst + i] = ev(mkFun((Op)d.sub, d.w, toE(a, d.w), toE(b, d.w)));
        }
        f.pc++;
        return;
    case I_FNEG:
        for (unsigned i = 0; i < d.n; i++) {
            Val a = R(d.a, i);
            uint64_t sb = 1ull << (d.w - 1);
            S.regs[B + d.dst + i] = a.e ? ev(mkBin(XOR, a.e, mkConst(d.w, sb))) : cv(a.c ^ sb);
        }
        f.pc++;
        return;
    case I_ICMP:
        for (unsigned i = 0; i < d.n; i++) {
            Val a = R(d.a, i), b = R(d.b, i);
            if (!a.e && !b.e) S.regs[B + d.dst + i] = cv(icmpC(d.sub, a.c, b.c, d.w));
            else S.regs[B + d.dst + i] = ev(icmpE(d.sub, toE(a, d.w), toE(b, d.w)));
        }
        f.pc++;
        return;
    case I_FCMP:
        for (unsigned i = 0; i < d.n; i++) {
            Val a = R(d.a, i), b = R(d.b, i);
            if (!a.e && !b.e) {
                double x = d.w == 64 ? asD(a.c) : asF(a.c), y = d.w == 64 ? asD(b.c) : asF(b.c);
                S.regs[B + d.dst + i] = cv(fcmpC(d.sub, x < y, x == y, std::isnan(x) || std::isnan(y)));
            } else S.regs[B + d.dst + i] = ev(fcmpE(d.sub, toE(a, d.w), toE(b, d.w)));
        }
        f.pc++;
        return;
    case I_CAST:
        for (unsigned i = 0; i < d.n; i++) {
            Val a = R(d.a, i), r;
            switch (d.sub) {
            case Instruction::Trunc: r = a.e ? ev(mkExtract(a.e, 0, d.w)) : cv(a.c & maskw(d.w)); break;
            case Instruction::ZExt: r = a.e ? ev(mkZext(a.e, d.w)) : a; break;
            case Instruction::SExt: r = a.e ? ev(mkSext(a.e, d.w)) : cv((uint64_t)sx(a.c, d.w2) & maskw(d.w)); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr:
                if (d.w < d.w2) r = a.e ? ev(mkExtract(a.e, 0, d.w)) : cv(a.c & maskw(d.w));
                else r = a.e ? ev(mkZext(a.e, d.w)) : a;
                break;
            case Instruction::BitCast: r = a; break;
            case Instruction::FPExt: r = ev(mkFun(FEXT, d.w, toE(a, d.w2))); break;
            case Instruction::FPTrunc: r = ev(mkFun(FTRUNC, d.w, toE(a, d.w2))); break;
            case Instruction::SIToFP: r = ev(mkFun(SITOF, d.w, toE(a, d.w2))); break;
            case Instruction::UIToFP: r = ev(mkFun(UITOF, d.w, toE(a, d.w2))); break;
            case Instruction::FPToSI: r = ev(mkFun(FTOSI, d.w, toE(a, d.w2))); break;
            case Instruction::FPToUI: r = ev(mkFun(FTOUI, d.w, toE(a, d.w2))); break;
            default: unsupported(S, "cast");
            }
            S.regs[B + d.dst + i] = r;
        }
        f.pc++;
        return;
    case I_SELECT:
        for (unsigned i = 0; i < d.n; i++) {
            Val c = R(d.a, d.flag ? i : 0);
            if (c.e && d.widths[i] == 64 && d.n == 1) { // a pointer into one of two blocks: fork
                Val x = R(d.b), y = R(d.c);
                if (!x.e && !y.e && (x.c ^ y.c) >> 32 && (addrRegion(x.c) == R_HEAP || addrRegion(y.c) == R_HEAP) && objAt(S, x.c) && objAt(S, y.c)) c = cv(decide(S, c.e));
            }
            if (!c.e) S.regs[B + d.dst + i] = c.c & 1 ? R(d.b, i) : R(d.c, i);
            else S.regs[B + d.dst + i] = ev(mkIte(c.e, toE(R(d.b, i), d.widths[i]), toE(R(d.c, i), d.widths[i])));
        }
        f.pc++;
        return;
    case I_GEP: {
        Val a = R(d.a);
        uint64_t off = d.imm;
        E se = nullptr;
        for (auto &x : d.idx) {
            Val i = R(x.o);
            if (!i.e) off += (uint64_t)sx(i.c, x.w) * x.scale;
            else {
                E t = mkBin(MUL, mkSext(i.e, 64), mkConst(64, x.scale));
                se = se ? mkBin(ADD, se, t) : t;
            }
        }
        if (!a.e && !se) S.regs[B + d.dst] = cv(a.c + off);
        else {
            E r = mkBin(ADD, toE(a, 64), mkConst(64, off));
            if (se) r = mkBin(ADD, r, se);
            S.regs[B + d.dst] = ev(r);
        }
        f.pc++;
        return;
    }
    case I_LOAD: {
        Val a = R(d.a);
        if (d.n == 1) { Val r = load(S, a, d.widths[0]); S.regs[B + d.dst] = r; }
        else {
            uint64_t p = concretize(S, a, 64);
            for (unsigned i = 0; i < d.n; i++) S.regs[B + d.dst + i] = load(S, cv(p + d.offs[i]), d.widths[i]);
        }
        f.pc++;
        return;
    }
    case I_STORE: {
        Val a = R(d.a);
        if (d.n == 1) store(S, a, d.widths[0], R(d.b));
        else {
            uint64_t p = concretize(S, a, 64);
            for (unsigned i = 0; i < d.n; i++) store(S, cv(p + d.offs[i]), d.widths[i], R(d.b, i));
        }
        f.pc++;
        return;
    }
    case I_ALLOCA: {
        uint64_t n = concretize(S, R(d.a), 64);
        Obj *o = objNew(n * d.imm, K_STACK, -1);
        o->site = &d;
        S.regs[B + d.dst] = cv(mkAddr(R_STACK, S.stk.add(o)));
        f.pc++;
        return;
    }
    case I_BR: takeEdge(S, f, d.t); return;
    case I_CONDBR: {
        Val c = R(d.a);
        bool t;
        if (!c.e) t = c.c & 1;
        else {
            t = decide(S, c.e);
        }
        takeEdge(S, f, t ? d.t : d.f);
        return;
    }
    case I_SWITCH: {
        Val v = R(d.a);
        if (!v.e) {
            for (auto &c : d.cases) if (c.first == v.c) { takeEdge(S, f, c.second); return; }
            takeEdge(S, f, d.t);
            return;
        }
        uint64_t x = evalExpr(v.e, S.model);
        const Edge *tgt = &d.t;
        for (auto &c : d.cases) if (c.first == x) tgt = &c.second;
        E cond = nullptr;
        if (tgt != &d.t) {
            for (auto &c : d.cases) if (c.second.pc == tgt->pc && c.second.moves == tgt->moves) {
                E e = mkBin(EQ, v.e, mkConst(d.w, c.first));
                cond = cond ? mkBin(OR, cond, e) : e;
            }
            if (tgt->moves >= 0) cond = mkBin(EQ, v.e, mkConst(d.w, x));
        } else
            for (auto &c : d.cases) {
                E e = mkNot(mkBin(EQ, v.e, mkConst(d.w, c.first)));
                cond = cond ? mkBin(AND, cond, e) : e;
            }
        if (!decide(S, cond)) { fprintf(stderr, "symx: switch\n"); abort(); }
        addCons(S, cond);
        takeEdge(S, f, *tgt);
        return;
    }
    case I_RET: {
        Val r[16];
        unsigned n = d.n;
        for (unsigned i = 0; i < n; i++) r[i] = R(d.a, i);
        const DInst *call = f.call;
        popFrame(S);
        if (S.fr.empty()) return;
        Frame &c = S.fr.back();
        for (unsigned i = 0; i < n && i < call->n; i++) S.regs[c.regBase + call->dst + i] = r[i];
        if (call->invoke) takeEdge(S, c, call->t); else c.pc++;
        return;
    }
    case I_CALL: execCall(S, d); return;
    case I_COPY:
        for (unsigned i = 0; i < d.n; i++) S.regs[B + d.dst + i] = R(d.a, i);
        f.pc++;
        return;
    case I_INSERTV:
        for (unsigned i = 0; i < d.n; i++)
            S.regs[B + d.dst + i] = i >= d.imm && i < d.imm + d.w ? R(d.b, i - d.imm) : R(d.a, i);
        f.pc++;
        return;
    case I_SHUFFLE: {
        std::vector<Val> t;
        for (unsigned i = 0; i < d.n; i++) t.push_back(d.offs[i] < d.imm ? R(d.a, d.offs[i]) : R(d.b, d.offs[i] - d.imm));
        for (unsigned i = 0; i < d.n; i++) S.regs[B + d.dst + i] = t[i];
        f.pc++;
        return;
    }
    case I_RESUME: unwind(S, R(d.a).c, false); return;
    case I_UNREACH: fail(S, "abort", "unreachable", "unreachable code executed (undefined behaviour)");
    case I_CMPXCHG: {
        Val p = R(d.a), e = R(d.b), n = R(d.c);
        Val old = load(S, p, d.w);
        bool eq = decideV(S, ev(mkBin(EQ, toE(old, d.w), toE(e, d.w))));
        if (eq) store(S, p, d.w, n);
        S.regs[B + d.dst] = old;
        S.regs[B + d.dst + 1] = cv(eq);
        f.pc++;
        return;
    }
    case I_RMW: {
        Val p = R(d.a), x = R(d.b);
        Val old = load(S, p, d.w), nv;
        switch (d.sub) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = ev(mkBin(ADD, toE(old, d.w), toE(x, d.w))); break;
        case AtomicRMWInst::Sub: nv = ev(mkBin(SUB, toE(old, d.w), toE(x, d.w))); break;
        case AtomicRMWInst::And: nv = ev(mkBin(AND, toE(old, d.w), toE(x, d.w))); break;
        case AtomicRMWInst::Or: nv = ev(mkBin(OR, toE(old, d.w), toE(x, d.w))); break;
        case AtomicRMWInst::Xor: nv = ev(mkBin(XOR, toE(old, d.w), toE(x, d.w))); break;
        default: unsupported(S, "atomicrmw");
        }
        store(S, p, d.w, nv);
        S.regs[B + d.dst] = old;
        f.pc++;
        return;
    }
    case I_NOP: if (d.invoke) takeEdge(S, f, d.t); else f.pc++; return;
    case I_LPAD: fail(S, "abort", "landingpad", "fell into a landing pad");
    case I_UNSUP: unsupported(S, std::string("instruction: ") + (d.why ? d.why : "?"));
    default: unsupported(S, "instruction");
    }
}

// ---------------------------------------------------------------- exploration
static bool isChild;
static int forkGen;
static double lastFork;
static uint64_t sampleSeed;
static std::vector<std::string> samples;
static uint64_t rnd() { sampleSeed = sampleSeed * 6364136223846793005ull + 1442695040888963407ull; return sampleSeed >> 33; }

static void openOut() {
    char b[64];
    snprintf(b, sizeof b, ".%d", (int)sh->seq++);
    outf = fopen((opt.out + b).c_str(), "w");
    if (!outf) { perror("symx out"); _exit(3); }
}
static void finishProcess(bool child) {
    for (auto &s : samples) if (!s.empty()) emit(s);
    if (!forkProf.empty()) {
        std::vector<std::pair<uint64_t, std::string>> v;
        for (auto &p : forkProf) v.push_back({p.second.first * 1000 + p.second.second, p.first + " forks " + std::to_string(p.second.first) + " queries " + std::to_string(p.second.second)});
        std::sort(v.rbegin(), v.rend());
        for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "[prof] %s\n", v[i].second.c_str());
    }
    std::string r = "{\"t\":\"reach\",\"m\":{";
    bool first = true;
    for (auto &p : reachCount) { r += (first ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); first = false; }
    emit(r + "}}");
    r = "{\"t\":\"checks\",\"m\":{";
    first = true;
    for (auto &p : checkCount) { r += (first ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); first = false; }
    emit(r + "}}");
    r = "{\"t\":\"funcs\",\"m\":{";
    first = true;
    for (auto f : funcs) if (f && f->executed && f->inRepo) {
        size_t c = 0;
        std::set<uint32_t> ln;
        for (size_t i = 0; i < f->covered.size(); i++) if (f->covered[i]) { c++; if (f->lineOf[i]) ln.insert(f->lineOf[i]); }
        r += (first ? "" : ",") + jstr(f->name) + ":{\"file\":" + jstr(f->file) + ",\"insts\":" + std::to_string(f->covered.size()) + ",\"covered\":[";
        bool ff = true;
        std::string bits;
        for (size_t i = 0; i < f->covered.size(); i += 4) {
            int h = 0;
            for (int k = 0; k < 4 && i + k < f->covered.size(); k++) if (f->covered[i + k]) h |= 1 << k;
            bits += "0123456789abcdef"[h];
        }
        (void)ff; (void)c;
        r += "\"" + bits + "\"]}";
        first = false;
    }
    emit(r + "}}");
    char b[1024];
    snprintf(b, sizeof b, "{\"t\":\"stats\",\"paths\":%lu,\"killed\":%lu,\"forks\":%lu,\"steps\":%lu,\"checks\":%lu,\"checks_sym\":%lu,\"queries\":%lu,\"cache\":%lu,\"modelhits\":%lu,\"domain\":%lu,\"audits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"incomplete\":%s}",
             st.paths, st.killed, st.forks, st.steps, st.checks, st.checksSym, g_sstats.queries, g_sstats.cacheHits, g_sstats.modelHits, g_sstats.domain, g_sstats.audits, g_sstats.sat, g_sstats.unsat, g_sstats.unknown, g_sstats.seconds, g_sstats.maxSeconds, incomplete ? "true" : "false");
    emit(b);
    fclose(outf);
    sh->slots++;
    if (child) _exit(0);
}
static void maybeSplit() {
    if (work.size() < 2 || sh->slots.load() <= 0) return;
    double t = now();
    if (t - lastFork < 0.03) return;
    if (sh->slots.fetch_sub(1) <= 0) { sh->slots++; return; }
    lastFork = t;
    fflush(outf);
    pid_t p = fork();
    if (p < 0) { sh->slots++; return; }
    if (p == 0) {
        isChild = true;
        forkGen++;
        openOut();
        samples.clear();
        st = Stats();
        g_sstats = SolverStats();
        reachCount.clear();
        checkCount.clear();
        for (auto f : funcs) if (f) std::fill(f->covered.begin(), f->covered.end(), 0);
        sampleSeed ^= getpid() * 7919ull;
        // take every second of the shallow states
        std::vector<State *> mine, drop;
        size_t half = work.size() / 2;
        for (size_t i = 0; i < work.size(); i++) (i < half ? mine : drop).push_back(work[i]);
        work = mine; // the dropped states belong to the parent; leave their memory alone
        lastFork = now();
        return;
    }
    size_t half = work.size() / 2;
    for (size_t i = 0; i < half; i++) delete work[i];
    work.erase(work.begin(), work.begin() + half);
}
static void runPath(State *S) {
    int gen = forkGen;
    try {
        uint64_t n = 0;
        while (!S->fr.empty()) {
            step(*S);
            n++;
            if ((++S->steps & 4095) == 0) {
                if (S->steps > opt.maxSteps) fail(*S, "budget", "non-termination", "instruction budget of " + std::to_string(opt.maxSteps) + " exceeded");
                if (sh->stop.load() || now() > opt.timeLimit) {
                    incomplete = true;
                    break;
                }
                maybeSplit();
                if (forkGen != gen) return; // the child does not own the current path
            }
        }
        st.steps += n;
        if (S->fr.empty()) {
            st.paths++;
            std::string s;
            size_t slot = samples.size();
            if (samples.size() < (size_t)opt.sample) samples.push_back("");
            else { slot = rnd() % st.paths; }
            if (slot < samples.size() && !undefInvolved(*S)) samples[slot] = "{\"t\":\"path\",\"inputs\":" + inputsJson(*S) + ",\"obs\":" + obsJson(*S) + "}";
        }
    } catch (PathEnd &) {
    }
    delete S;
}

static void initGlobal(State &S, const Constant *c, uint64_t addr) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        for (size_t i = 0; i < raw.size(); i++) store(S, cv(addr + i), 8, cv((uint8_t)raw[i]));
        return;
    }
    Type *t = c->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
        unsigned n = c->getNumOperands();
        for (unsigned i = 0; i < n; i++) {
            uint64_t off;
            if (auto *s = dyn_cast<StructType>(t)) off = DL->getStructLayout(s)->getElementOffset(i);
            else off = i * DL->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType());
            initGlobal(S, cast<Constant>(c->getOperand(i)), addr + off);
        }
        return;
    }
    unsigned bits = DL->getTypeStoreSize(t) * 8;
    if (bits > 64) {
        if (c->isNullValue()) return;
        APInt v = isa<ConstantInt>(c) ? cast<ConstantInt>(c)->getValue() : cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt();
        v = v.zextOrTrunc(bits);
        for (unsigned i = 0; i < bits / 8; i++) store(S, cv(addr + i), 8, cv(v.extractBitsAsZExtValue(8, 8 * i)));
        return;
    }
    store(S, cv(addr), bits, cv(constScalar(c)));
}

int main(int argc, char **argv) {
    T0 = std::chrono::steady_clock::now();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--entry") opt.entry = next();
        else if (a == "--out") opt.out = next();
        else if (a == "--jobs") opt.jobs = stoi(next());
        else if (a == "--audit") g_auditEvery = stoi(next());
        else if (a == "--time") opt.timeLimit = stod(next());
        else if (a == "--steps") opt.maxSteps = stoull(next());
        else if (a == "--max-viol") opt.maxViol = stoi(next());
        else if (a == "--sample") opt.sample = stoi(next());
        else if (a == "--seed") opt.seed = stoull(next());
        else if (a == "--repo") opt.repo = next();
        else if (a == "-v") opt.verbose = true;
        else opt.bc = a;
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->slots = opt.jobs - 1;
    sampleSeed = opt.seed * 1000003;
    openOut();
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, LC);
    if (!M) { err.print("symx", errs()); return 3; }
    DL = &M->getDataLayout();
    initBuiltins();
    solverInit();
    // functions
    uint32_t id = 0;
    funcs.push_back(nullptr);
    for (Function &F : *M) {
        if (F.isDeclaration() && F.hasExternalWeakLinkage() && builtinId(F.getName().str()) < 0) continue; // weak undefined: null
        DFunc *d = new DFunc();
        d->F = &F;
        d->id = ++id;
        d->name = F.getName().str();
        if (auto *sp = F.getSubprogram()) {
            std::string p = sp->getFilename().str();
            if (p.empty() || p[0] != '/') p = sp->getDirectory().str() + "/" + p;
            d->file = p;
            d->inRepo = !opt.repo.empty() && p.rfind(opt.repo, 0) == 0;
        }
        funcs.push_back(d);
        funcOf[&F] = d;
    }
    State *S = new State();
    S->heap.add(objNew(0, K_MALLOC, -1)); S->heap.clear(0);
    S->stk.add(objNew(0, K_STACK, -1));
    S->glob.add(objNew(0, K_GLOBAL, -1)); globById.push_back(nullptr);
    for (GlobalVariable &G : M->globals()) {
        if (G.isDeclaration() && G.hasExternalWeakLinkage()) continue;
        if (G.getName().starts_with("llvm.")) continue;
        uint64_t sz = G.isDeclaration() ? 64 : DL->getTypeAllocSize(G.getValueType());
        if (G.isDeclaration() && G.getValueType()->isSized()) sz = std::max<uint64_t>(sz, DL->getTypeAllocSize(G.getValueType()));
        uint32_t gid = S->glob.add(objNew(sz, K_GLOBAL, 0));
        globAddr[&G] = mkAddr(R_GLOBAL, gid);
        globById.push_back(&G);
    }
    try {
        for (GlobalVariable &G : M->globals()) {
            if (G.isDeclaration()) {
                if (G.getName() == "__libc_single_threaded" && globAddr.count(&G)) store(*S, cv(globAddr[&G]), 8, cv(1));
                continue;
            }
            if (!globAddr.count(&G)) continue;
            initGlobal(*S, G.getInitializer(), globAddr[&G]);
        }
        for (GlobalVariable &G : M->globals())
            if (!G.isDeclaration() && G.isConstant() && globAddr.count(&G)) S->glob.getw(addrId(globAddr[&G]))->kind = K_CONST;
        // global constructors
        if (auto *ctors = M->getGlobalVariable("llvm.global_ctors")) {
            if (auto *arr = dyn_cast<ConstantArray>(ctors->getInitializer())) {
                std::vector<std::pair<uint64_t, const Function *>> l;
                for (auto &op : arr->operands()) {
                    auto *cs = cast<ConstantStruct>(op);
                    if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
                }
                std::stable_sort(l.begin(), l.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &p : l) {
                    pushFrame(*S, getFunc(p.second), nullptr, {});
                    while (!S->fr.empty()) step(*S);
                }
            }
        }
        Function *EF = M->getFunction(opt.entry);
        if (!EF || EF->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", opt.entry.c_str()); return 3; }
        pushFrame(*S, getFunc(EF), nullptr, {});
    } catch (PathEnd &) {
        fprintf(stderr, "symx: global initialisation failed\n");
        finishProcess(false);
        return 3;
    }
    if (!work.empty()) { fprintf(stderr, "symx: fork during initialisation\n"); return 3; }
    work.push_back(S);
    while (!work.empty()) {
        if (sh->stop.load() || now() > opt.timeLimit) { incomplete = true; break; }
        maybeSplit();
        if (work.empty()) break;
        State *s = work.back();
        work.pop_back();
        runPath(s);
    }
    finishProcess(isChild);
    int bad = 0, stt;
    while (waitpid(-1, &stt, 0) > 0) if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = 1;
    if (bad) { fprintf(stderr, "symx: a worker died\n"); _exit(3); }
    _exit(0);
}
