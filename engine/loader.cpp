// LLVM bitcode -> flat bytecode.  The only translation unit that uses LLVM.
#include "prog.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <sys/mman.h>

using namespace llvm;
namespace se {

void Arena::setup(uint64_t c) {
    cap = c;
    auto mm = [](uint64_t addr, uint64_t n) {
        void *p = mmap((void *)addr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (addr ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); abort(); }
        return p;
    };
    base = (uint8_t *)mm(0x100000000000ull, cap);
    gran = (uint32_t *)mm(0, cap / 16 * 4 + 64);
    init = (uint8_t *)mm(0, cap / 8 + 64);
    sym = (uint8_t *)mm(0, cap / 8 + 64);
    shadow = (uint64_t *)mm(0, cap * 8 + 64);
    objs.push_back(Obj{0, 0, 0, 0});
    bump = 64;
}
uint64_t Arena::alloc(uint64_t size, int kind, uint64_t align) {
    if (align < 16) align = 16;
    bump = (bump + align - 1) & ~(align - 1);
    uint64_t g = (size + 15) / 16;
    if (g == 0) g = 1;
    if (size > cap || bump + g * 16 + 64 > cap) return 0;
    uint64_t off = bump;
    bump += g * 16 + 16;
    uint32_t id = objs.size();
    objs.push_back(Obj{(uint64_t)base + off, size, 1, (uint8_t)kind});
    for (uint64_t i = 0; i < g; ++i) gran[off / 16 + i] = id;
    return (uint64_t)base + off;
}
void Arena::snapshot() {
    snapBump = bump; snapObjs = objs.size();
    snapMem.assign(base, base + bump);
    snapInit.assign(init, init + bump / 8 + 8);
    highwater = bump;
}
void Arena::reset() {
    if (bump > highwater) highwater = bump;
    uint64_t lo = snapBump & ~127ull;
    memset(gran + snapBump / 16, 0, (bump - snapBump) / 16 * 4 + 8);
    memset(init + lo / 8, 0, (bump - lo) / 8 + 16);
    memset(sym, 0, bump / 8 + 16);
    memcpy(base, snapMem.data(), snapMem.size());
    memcpy(init, snapInit.data(), snapInit.size());
    objs.resize(snapObjs);
    for (auto &o : objs) if (o.base) o.alive = 1;
    bump = snapBump;
}

namespace {
struct Loader {
    Program &P; LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL = nullptr;
    std::map<const GlobalValue *, uint64_t> gaddr;
    std::map<const Function *, int> fidx;
    std::map<uint64_t, int> cmap; std::map<std::string, uint32_t> lmap;
    std::string err;
    Loader(Program &p) : P(p) {}

    int cval(uint64_t v) {
        auto it = cmap.find(v);
        if (it != cmap.end()) return it->second;
        P.cpool.push_back(v);
        int r = -(int)P.cpool.size();
        cmap[v] = r;
        return r;
    }
    static int intw(Type *t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        return -1;
    }
    // leaf scalars of a first-class type: (type, byte offset)
    bool leaves(Type *t, uint64_t off, std::vector<std::pair<Type *, uint64_t>> &out) {
        if (t->isVoidTy()) return true;
        if (auto *st = dyn_cast<StructType>(t)) {
            const StructLayout *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                if (!leaves(st->getElementType(i), off + sl->getElementOffset(i), out)) return false;
            return true;
        }
        if (auto *at = dyn_cast<ArrayType>(t)) {
            uint64_t s = DL->getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i)
                if (!leaves(at->getElementType(), off + i * s, out)) return false;
            return true;
        }
        if (auto *vt = dyn_cast<FixedVectorType>(t)) {
            uint64_t s = DL->getTypeStoreSize(vt->getElementType());
            if (vt->getElementType()->isIntegerTy(1)) s = 0;
            for (uint64_t i = 0; i < vt->getNumElements(); ++i)
                if (!leaves(vt->getElementType(), off + i * s, out)) return false;
            return true;
        }
        int w = intw(t);
        if (w < 0 || w > 64) {
            if (w == 128) { Type *h = Type::getInt64Ty(ctx); out.push_back({h, off}); out.push_back({h, off + 8}); return true; }
            return false;
        }
        out.push_back({t, off});
        return true;
    }
    int nslots(Type *t) {
        std::vector<std::pair<Type *, uint64_t>> l;
        if (!leaves(t, 0, l)) return -1;
        return l.size();
    }
    // ---- constants -> scalar leaf values
    bool constScalar(const Constant *c, uint64_t &v) {
        if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; v = ci->getZExtValue(); return true; }
        if (auto *cf = dyn_cast<ConstantFP>(c)) { v = cf->getValueAPF().bitcastToAPInt().getZExtValue(); return cf->getType()->isFloatTy() || cf->getType()->isDoubleTy(); }
        if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { v = 0; return true; }
        if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee(), v);
        if (auto *gv = dyn_cast<GlobalValue>(c)) { v = gaddr[gv]; return true; }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            uint64_t a, b;
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto *gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) return false;
                if (!constScalar(cast<Constant>(gep->getPointerOperand()), a)) return false;
                v = a + off.getSExtValue();
                return true;
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
                return constScalar(ce->getOperand(0), v);
            case Instruction::Trunc: if (!constScalar(ce->getOperand(0), a)) return false; v = a & maskw(intw(ce->getType())); return true;
            case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr:
                if (!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
                switch (ce->getOpcode()) { case Instruction::Add: v = a + b; break; case Instruction::Sub: v = a - b; break; case Instruction::And: v = a & b; break; case Instruction::Or: v = a | b; break; case Instruction::Mul: v = a * b; break; case Instruction::Shl: v = a << b; break; default: v = a >> b; }
                v &= maskw(intw(ce->getType()));
                return true;
            case Instruction::ICmp:
                if (!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
                v = ICmpInst::compare(APInt(64, a), APInt(64, b), (ICmpInst::Predicate)ce->getPredicate());
                return true;
            default: return false;
            }
        }
        return false;
    }
    bool constLeaves(const Constant *c, std::vector<uint64_t> &out) {
        Type *t = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() == 128) { out.push_back(ci->getValue().extractBitsAsZExtValue(64, 0)); out.push_back(ci->getValue().extractBitsAsZExtValue(64, 64)); return true; }
        if (t->isAggregateType() || t->isVectorTy()) {
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { int n = nslots(t); if (n < 0) return false; out.insert(out.end(), n, 0); return true; }
            unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; ++i) { Constant *e = c->getAggregateElement(i); if (!e || !constLeaves(e, out)) return false; }
            return true;
        }
        uint64_t v;
        if (isa<UndefValue>(c) && intw(t) == 128) { out.push_back(0); out.push_back(0); return true; }
        if (!constScalar(c, v)) return false;
        out.push_back(v);
        return true;
    }
    bool writeInit(const Constant *c, uint64_t addr) {
        Type *t = c->getType();
        uint64_t sz = DL->getTypeStoreSize(t);
        uint64_t off = addr - (uint64_t)P.mem.base;
        if (isa<UndefValue>(c)) return true;
        if (c->isNullValue()) { memset((void *)addr, 0, sz); for (uint64_t i = 0; i < sz; ++i) P.mem.setBits(P.mem.init, off + i, 1); return true; }
        if (auto *st = dyn_cast<StructType>(t)) {
            const StructLayout *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) if (!writeInit(c->getAggregateElement(i), addr + sl->getElementOffset(i))) return false;
            return true;
        }
        if (auto *at = dyn_cast<ArrayType>(t)) {
            uint64_t s = DL->getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i) if (!writeInit(c->getAggregateElement(i), addr + i * s)) return false;
            return true;
        }
        if (auto *vt = dyn_cast<FixedVectorType>(t)) {
            uint64_t s = DL->getTypeStoreSize(vt->getElementType());
            for (uint64_t i = 0; i < vt->getNumElements(); ++i) if (!writeInit(c->getAggregateElement(i), addr + i * s)) return false;
            return true;
        }
        if (auto *cf = dyn_cast<ConstantFP>(c)) {
            APInt b = cf->getValueAPF().bitcastToAPInt();
            memcpy((void *)addr, b.getRawData(), std::min<uint64_t>(sz, 16));
        } else if (auto *ci = dyn_cast<ConstantInt>(c)) {
            memcpy((void *)addr, ci->getValue().getRawData(), std::min<uint64_t>(sz, ci->getValue().getNumWords() * 8));
        } else {
            uint64_t v;
            if (!constScalar(c, v)) { errs() << "const? " << *c << "\n"; return false; }
            memcpy((void *)addr, &v, std::min<uint64_t>(sz, 8));
        }
        for (uint64_t i = 0; i < sz; ++i) P.mem.setBits(P.mem.init, off + i, 1);
        return true;
    }

    // ---- functions
    Function *F = nullptr; std::map<const Value *, int> slot; int ns = 0;
    std::map<const BasicBlock *, int> blkpc, blkid;
    uint32_t curLine = 0;

    uint32_t lineOf(const Instruction &I) {
        if (const DILocation *dl = I.getDebugLoc()) {
            std::string s = (dl->getDirectory().str().empty() || dl->getFilename().starts_with("/")) ? dl->getFilename().str() : dl->getDirectory().str() + "/" + dl->getFilename().str();
            s += ":" + std::to_string(dl->getLine());
            auto it = lmap.find(s);
            if (it != lmap.end()) return it->second;
            P.lineTab.push_back(s);
            return lmap[s] = P.lineTab.size() - 1;
        }
        return 0;
    }
    void emit(uint16_t op, int w, int d, int a = 0, int b = 0, int c = 0, uint64_t imm = 0, int w2 = 0) {
        P.code.push_back(Inst{op, (uint8_t)w, (uint8_t)w2, d, a, b, c, imm});
        P.line.push_back(curLine);
    }
    void unsup(const std::string &m) {
        P.msgs.push_back(m);
        emit(I_UNSUP, 0, 0, 0, 0, 0, P.msgs.size() - 1);
    }
    // first slot of value; for constants with 1 leaf -> cpool; multi-leaf constants are materialised per-leaf through opnd(v,i)
    int opnd(const Value *v, int i = 0) {
        if (auto *c = dyn_cast<Constant>(v)) {
            std::vector<uint64_t> l;
            if (!constLeaves(c, l) || i >= (int)l.size()) { badConst = true; return cval(0); }
            return cval(l[i]);
        }
        auto it = slot.find(v);
        if (it == slot.end()) { badConst = true; return cval(0); }
        return it->second + i;
    }
    bool badConst = false;

    int mkEdge(const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.pc = -1; e.blk = blkid[to]; e.cs = P.copies.size(); e.tmp = false;
        for (const PHINode &phi : to->phis()) {
            const Value *in = phi.getIncomingValueForBlock(from);
            int n = nslots(phi.getType());
            if (isa<UndefValue>(in)) continue;
            for (int i = 0; i < n; ++i) P.copies.push_back({slot[&phi] + i, opnd(in, i)});
        }
        e.cn = P.copies.size() - e.cs;
        // conflict detection: source written earlier
        for (int i = 0; i < e.cn && !e.tmp; ++i)
            for (int j = i + 1; j < e.cn; ++j)
                if (P.copies[e.cs + j].second == P.copies[e.cs + i].first) { e.tmp = true; break; }
        P.edges.push_back(e);
        fix.push_back({(int)P.edges.size() - 1, to});
        return P.edges.size() - 1;
    }
    std::vector<std::pair<int, const BasicBlock *>> fix;

    void doGEP(const GEPOperator *g, int d) {
        if (g->getType()->isVectorTy()) { unsup("vector gep"); return; }
        int cur = opnd(g->getPointerOperand());
        uint64_t off = 0;
        std::vector<std::pair<const Value *, uint64_t>> var;
        for (gep_type_iterator GTI = gep_type_begin(g), Ee = gep_type_end(g); GTI != Ee; ++GTI) {
            const Value *idx = GTI.getOperand();
            if (StructType *st = GTI.getStructTypeOrNull()) {
                off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
                uint64_t s = DL->getTypeAllocSize(GTI.getIndexedType());
                if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * s;
                else var.push_back({idx, s});
            }
        }
        if (var.empty()) { emit(I_ADDI, 64, d, cur, 0, 0, off); return; }
        for (auto &v : var) { emit(I_MADD, 64, d, cur, opnd(v.first), 0, v.second, intw(v.first->getType())); cur = d; }
        if (off) emit(I_ADDI, 64, d, d, 0, 0, off);
    }

    bool doCall(const CallBase *cb, int d, const BasicBlock *bb) {
        CallInfo ci;
        const Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (isa<InlineAsm>(cv)) {
            if (cb->getType()->isVoidTy() && cb->arg_size() == 0) { emit(I_NOP, 0, 0); return true; }
            unsup("inline asm"); return true;
        }
        if (auto *fn = dyn_cast<Function>(cv)) ci.callee = fidx[fn];
        else { ci.indirect = true; ci.fp = opnd(cv); }
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            const Value *a = cb->getArgOperand(i);
            if (a->getType()->isMetadataTy()) continue;
            std::vector<std::pair<Type *, uint64_t>> l;
            if (!leaves(a->getType(), 0, l)) { unsup("call arg type"); return true; }
            uint32_t bv = cb->isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0;
            for (size_t j = 0; j < l.size(); ++j) { ci.args.push_back(opnd(a, j)); ci.byval.push_back(bv); ci.argw.push_back(intw(l[j].first)); }
        }
        ci.dst = d; ci.nret = nslots(cb->getType());
        if (ci.nret == 1) ci.retw = intw(cb->getType());
        if (auto *inv = dyn_cast<InvokeInst>(cb)) {
            ci.normal = mkEdge(bb, inv->getNormalDest());
            ci.unwind = mkEdge(bb, inv->getUnwindDest());
        }
        P.calls.push_back(ci);
        emit(I_CALL, 0, d, 0, 0, 0, P.calls.size() - 1);
        return true;
    }

    void vecMap(const Instruction &I, int d, int n, const std::function<void(int, int)> &f) { for (int i = 0; i < n; ++i) f(d + i, i); }

    void doIntrinsic(const IntrinsicInst *ii, int d, const BasicBlock *bb) {
        auto A = [&](int i) { return opnd(ii->getArgOperand(i)); };
        Type *t = ii->getType();
        int w = t->isVoidTy() ? 0 : intw(t);
        if (t->isVectorTy()) { unsup("vector intrinsic " + ii->getCalledFunction()->getName().str()); return; }
        auto two = [&](int op) { if (w <= 0 || w > 64) { unsup("wide intrinsic"); return; } emit(op, w, d, A(0), A(1)); };
        auto fu = [&](int op) { emit(op, w, d, A(0), 0, 0, 0, w); };
        switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: emit(I_MEMCPY, intw(ii->getArgOperand(2)->getType()), 0, A(0), A(1), A(2)); return;
        case Intrinsic::memmove: emit(I_MEMMOVE, intw(ii->getArgOperand(2)->getType()), 0, A(0), A(1), A(2)); return;
        case Intrinsic::memset: case Intrinsic::memset_inline: emit(I_MEMSET, intw(ii->getArgOperand(2)->getType()), 0, A(0), A(1), A(2)); return;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
            if (auto *inv = dyn_cast<InvokeInst>((const Instruction *)ii)) (void)inv;
            return;
        case Intrinsic::invariant_start: emit(I_COPY, 64, d, cval(0)); return;
        case Intrinsic::stacksave: emit(I_COPY, 64, d, cval(0)); return;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: emit(I_COPY, w, d, A(0)); return;
        case Intrinsic::is_constant: emit(I_COPY, 1, d, cval(0)); return;
        case Intrinsic::objectsize: emit(I_COPY, w, d, cval(maskw(w))); return;
        case Intrinsic::umax: two(I_UMAX); return;
        case Intrinsic::umin: two(I_UMIN); return;
        case Intrinsic::smax: two(I_SMAX); return;
        case Intrinsic::smin: two(I_SMIN); return;
        case Intrinsic::abs: emit(I_ABS, w, d, A(0)); return;
        case Intrinsic::ctpop: emit(I_CTPOP, w, d, A(0)); return;
        case Intrinsic::ctlz: emit(I_CTLZ, w, d, A(0)); return;
        case Intrinsic::cttz: emit(I_CTTZ, w, d, A(0)); return;
        case Intrinsic::bswap: emit(I_BSWAP, w, d, A(0)); return;
        case Intrinsic::fshl: emit(I_FSHL, w, d, A(0), A(1), A(2)); return;
        case Intrinsic::fshr: emit(I_FSHR, w, d, A(0), A(1), A(2)); return;
        case Intrinsic::usub_sat: two(I_USUBSAT); return;
        case Intrinsic::uadd_sat: two(I_UADDSAT); return;
        case Intrinsic::ssub_sat: two(I_SSUBSAT); return;
        case Intrinsic::sadd_sat: two(I_SADDSAT); return;
        case Intrinsic::uadd_with_overflow: emit(I_UADDO, intw(ii->getArgOperand(0)->getType()), d, A(0), A(1)); return;
        case Intrinsic::usub_with_overflow: emit(I_USUBO, intw(ii->getArgOperand(0)->getType()), d, A(0), A(1)); return;
        case Intrinsic::umul_with_overflow: emit(I_UMULO, intw(ii->getArgOperand(0)->getType()), d, A(0), A(1)); return;
        case Intrinsic::sadd_with_overflow: emit(I_SADDO, intw(ii->getArgOperand(0)->getType()), d, A(0), A(1)); return;
        case Intrinsic::ssub_with_overflow: emit(I_SSUBO, intw(ii->getArgOperand(0)->getType()), d, A(0), A(1)); return;
        case Intrinsic::smul_with_overflow: emit(I_SMULO, intw(ii->getArgOperand(0)->getType()), d, A(0), A(1)); return;
        case Intrinsic::eh_typeid_for: emit(I_TYPEID, 32, d, A(0)); return;
        case Intrinsic::trap: case Intrinsic::ubsantrap: emit(I_TRAP, 0, 0); return;
        case Intrinsic::fabs: fu(I_FABS); return;
        case Intrinsic::sqrt: fu(I_FSQRT); return;
        case Intrinsic::floor: fu(I_FFLOOR); return;
        case Intrinsic::ceil: fu(I_FCEIL); return;
        case Intrinsic::trunc: fu(I_FTRUNC); return;
        case Intrinsic::round: fu(I_FROUND); return;
        case Intrinsic::minnum: emit(I_FMINN, w, d, A(0), A(1), 0, 0, w); return;
        case Intrinsic::maxnum: emit(I_FMAXN, w, d, A(0), A(1), 0, 0, w); return;
        case Intrinsic::copysign: emit(I_FCOPYSIGN, w, d, A(0), A(1), 0, 0, w); return;
        case Intrinsic::fmuladd: case Intrinsic::fma: emit(I_FMULADD, w, d, A(0), A(1), A(2), 0, w); return;
        default: unsup("intrinsic " + ii->getCalledFunction()->getName().str());
        }
    }

    void doInst(const Instruction &I, const BasicBlock *bb) {
        curLine = lineOf(I);
        if (isa<PHINode>(I)) return;
        int d = slot.count(&I) ? slot[&I] : -1;
        Type *t = I.getType();
        badConst = false;
        size_t before = P.code.size();
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) doIntrinsic(ii, d, bb);
        else if (auto *cb = dyn_cast<CallBase>(&I)) {
            if (auto *inv = dyn_cast<InvokeInst>(cb)) if (auto *fn = inv->getCalledFunction()) if (fn->isIntrinsic()) { int e = mkEdge(bb, inv->getNormalDest()); emit(I_BR, 0, 0, e); return; }
            doCall(cb, d, bb);
        }
        else if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
            static const std::map<unsigned, int> m = {{Instruction::Add, I_ADD}, {Instruction::Sub, I_SUB}, {Instruction::Mul, I_MUL}, {Instruction::UDiv, I_UDIV}, {Instruction::SDiv, I_SDIV}, {Instruction::URem, I_UREM}, {Instruction::SRem, I_SREM}, {Instruction::Shl, I_SHL}, {Instruction::LShr, I_LSHR}, {Instruction::AShr, I_ASHR}, {Instruction::And, I_AND}, {Instruction::Or, I_OR}, {Instruction::Xor, I_XOR}, {Instruction::FAdd, I_FADD}, {Instruction::FSub, I_FSUB}, {Instruction::FMul, I_FMUL}, {Instruction::FDiv, I_FDIV}, {Instruction::FRem, I_FREM}};
            int w = intw(t->getScalarType());
            if (w == 128 && (bo->getOpcode() == Instruction::Or || bo->getOpcode() == Instruction::And || bo->getOpcode() == Instruction::Xor)) {
                for (int i = 0; i < 2; ++i) emit(m.at(bo->getOpcode()), 64, d + i, opnd(bo->getOperand(0), i), opnd(bo->getOperand(1), i));
                return;
            }
            if (w == 128 && isa<ConstantInt>(bo->getOperand(1)) && (bo->getOpcode() == Instruction::Shl || bo->getOpcode() == Instruction::LShr)) {
                uint64_t s = cast<ConstantInt>(bo->getOperand(1))->getZExtValue();
                if (s == 64) {
                    if (bo->getOpcode() == Instruction::Shl) { emit(I_COPY, 64, d + 1, opnd(bo->getOperand(0), 0)); emit(I_COPY, 64, d, cval(0)); }
                    else { emit(I_COPY, 64, d, opnd(bo->getOperand(0), 1)); emit(I_COPY, 64, d + 1, cval(0)); }
                    return;
                }
            }
            if (w < 0 || w > 64) { unsup("binop type"); return; }
            int n = nslots(t);
            int sw = bo->getOpcode() >= Instruction::FAdd ? w : 0;
            for (int i = 0; i < n; ++i) emit(m.at(bo->getOpcode()), w, d + i, opnd(bo->getOperand(0), i), opnd(bo->getOperand(1), i), 0, 0, w);
            (void)sw;
        } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
            static const int m[] = {I_EQ, I_NE, I_UGT, I_UGE, I_ULT, I_ULE, I_SGT, I_SGE, I_SLT, I_SLE};
            int w = intw(ic->getOperand(0)->getType()->getScalarType());
            if (w == 128 && ic->isEquality()) {
                int t0 = ns; ns += 1;
                emit(I_EQ, 64, d, opnd(ic->getOperand(0), 0), opnd(ic->getOperand(1), 0), 0, 0, 64);
                emit(I_EQ, 64, t0, opnd(ic->getOperand(0), 1), opnd(ic->getOperand(1), 1), 0, 0, 64);
                emit(I_AND, 1, d, d, t0);
                if (ic->getPredicate() == ICmpInst::ICMP_NE) emit(I_XOR, 1, d, d, cval(1));
                return;
            }
            if (w < 0 || w > 64) { unsup("icmp type"); return; }
            int n = nslots(t);
            for (int i = 0; i < n; ++i) emit(m[ic->getPredicate() - ICmpInst::ICMP_EQ], w, d + i, opnd(ic->getOperand(0), i), opnd(ic->getOperand(1), i), 0, 0, w);
        } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
            int w = intw(fc->getOperand(0)->getType());
            if (w < 0 || w > 64) { unsup("fcmp type"); return; }
            emit(I_FCMP, 1, d, opnd(fc->getOperand(0)), opnd(fc->getOperand(1)), 0, fc->getPredicate(), w);
        } else if (auto *un = dyn_cast<UnaryOperator>(&I)) {
            int w = intw(t);
            if (w < 0) { unsup("fneg type"); return; }
            emit(I_FNEG, w, d, opnd(un->getOperand(0)), 0, 0, 0, w);
        } else if (auto *ci = dyn_cast<CastInst>(&I)) {
            Type *st = ci->getSrcTy();
            int sw = intw(st->getScalarType()), dw = intw(t->getScalarType());
            const Value *s = ci->getOperand(0);
            if (sw == 128 && ci->getOpcode() == Instruction::Trunc && dw <= 64) { emit(I_TRUNC, dw, d, opnd(s, 0), 0, 0, 0, 64); return; }
            if (dw == 128 && ci->getOpcode() == Instruction::ZExt && sw <= 64) { emit(I_COPY, 64, d, opnd(s, 0)); emit(I_COPY, 64, d + 1, cval(0)); return; }
            if (ci->getOpcode() == Instruction::BitCast && nslots(st) == nslots(t)) { for (int i = 0; i < nslots(t); ++i) emit(I_COPY, 64, d + i, opnd(s, i)); return; }
            if (sw < 0 || dw < 0 || sw > 64 || dw > 64) { unsup("cast type"); return; }
            int n = nslots(t);
            for (int i = 0; i < n; ++i) {
                int a = opnd(s, i);
                switch (ci->getOpcode()) {
                case Instruction::ZExt: emit(I_ZEXT, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::SExt: emit(I_SEXT, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::Trunc: emit(I_TRUNC, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::PtrToInt: if (dw < 64) emit(I_TRUNC, dw, d + i, a, 0, 0, 0, 64); else emit(I_COPY, 64, d + i, a); break;
                case Instruction::IntToPtr: emit(I_COPY, 64, d + i, a); break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: emit(I_COPY, dw, d + i, a); break;
                case Instruction::FPToSI: emit(I_FTOSI, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::FPToUI: emit(I_FTOUI, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::SIToFP: emit(I_SITOF, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::UIToFP: emit(I_UITOF, dw, d + i, a, 0, 0, 0, sw); break;
                case Instruction::FPTrunc: case Instruction::FPExt: emit(I_FTOF, dw, d + i, a, 0, 0, 0, sw); break;
                default: unsup("cast");
                }
            }
        } else if (auto *li = dyn_cast<LoadInst>(&I)) {
            std::vector<std::pair<Type *, uint64_t>> l;
            if (!leaves(t, 0, l)) { unsup("load type"); return; }
            for (size_t i = 0; i < l.size(); ++i) emit(I_LOAD, intw(l[i].first), d + i, opnd(li->getPointerOperand()), 0, 0, l[i].second);
        } else if (auto *si = dyn_cast<StoreInst>(&I)) {
            std::vector<std::pair<Type *, uint64_t>> l;
            if (!leaves(si->getValueOperand()->getType(), 0, l)) { unsup("store type"); return; }
            if (isa<UndefValue>(si->getValueOperand())) { emit(I_NOP, 0, 0); return; }
            for (size_t i = 0; i < l.size(); ++i) emit(I_STORE, intw(l[i].first), 0, opnd(si->getValueOperand(), i), opnd(si->getPointerOperand()), 0, l[i].second);
        } else if (auto *ai = dyn_cast<AllocaInst>(&I)) {
            emit(I_ALLOCA, 64, d, 0, opnd(ai->getArraySize()), ai->getAlign().value(), DL->getTypeAllocSize(ai->getAllocatedType()));
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) doGEP(cast<GEPOperator>(g), d);
        else if (auto *s = dyn_cast<SelectInst>(&I)) {
            std::vector<std::pair<Type *, uint64_t>> l;
            if (!leaves(t, 0, l)) { unsup("select type"); return; }
            bool vc = s->getCondition()->getType()->isVectorTy();
            for (size_t i = 0; i < l.size(); ++i) emit(I_SELECT, intw(l[i].first), d + i, opnd(s->getCondition(), vc ? i : 0), opnd(s->getTrueValue(), i), opnd(s->getFalseValue(), i), 0, l[i].first->isPointerTy());
        } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            int off = idxOff(ev->getAggregateOperand()->getType(), ev->getIndices());
            for (int i = 0; i < nslots(t); ++i) emit(I_COPY, 64, d + i, opnd(ev->getAggregateOperand(), off + i));
        } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            int off = idxOff(t, iv->getIndices());
            int n = nslots(t), m = nslots(iv->getInsertedValueOperand()->getType());
            for (int i = 0; i < n; ++i)
                emit(I_COPY, 64, d + i, (i >= off && i < off + m) ? opnd(iv->getInsertedValueOperand(), i - off) : opnd(iv->getAggregateOperand(), i));
        } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
            if (auto *c = dyn_cast<ConstantInt>(ee->getIndexOperand())) emit(I_COPY, 64, d, opnd(ee->getVectorOperand(), c->getZExtValue()));
            else unsup("extractelement");
        } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
            auto *c = dyn_cast<ConstantInt>(ie->getOperand(2));
            if (!c) { unsup("insertelement"); return; }
            int n = nslots(t);
            for (int i = 0; i < n; ++i) emit(I_COPY, 64, d + i, i == (int)c->getZExtValue() ? opnd(ie->getOperand(1)) : opnd(ie->getOperand(0), i));
        } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
            int n1 = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
            int n = nslots(t);
            for (int i = 0; i < n; ++i) {
                int m = sv->getMaskValue(i);
                emit(I_COPY, 64, d + i, m < 0 ? cval(0) : m < n1 ? opnd(sv->getOperand(0), m) : opnd(sv->getOperand(1), m - n1));
            }
        } else if (auto *fz = dyn_cast<FreezeInst>(&I)) {
            for (int i = 0; i < nslots(t); ++i) emit(I_COPY, 64, d + i, opnd(fz->getOperand(0), i));
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isUnconditional()) { int e = mkEdge(bb, br->getSuccessor(0)); emit(I_BR, 0, 0, e); }
            else { int c = opnd(br->getCondition()); int e1 = mkEdge(bb, br->getSuccessor(0)), e2 = mkEdge(bb, br->getSuccessor(1)); emit(I_CBR, 0, 0, c, e1, e2); }
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            SwitchT st; st.w = intw(sw->getCondition()->getType());
            for (auto &cs : sw->cases()) st.cases.push_back({cs.getCaseValue()->getZExtValue(), mkEdge(bb, cs.getCaseSuccessor())});
            st.def = mkEdge(bb, sw->getDefaultDest());
            P.switches.push_back(st);
            emit(I_SWITCH, st.w, 0, opnd(sw->getCondition()), 0, 0, P.switches.size() - 1);
        } else if (auto *rt = dyn_cast<ReturnInst>(&I)) {
            int n = rt->getReturnValue() ? nslots(rt->getReturnValue()->getType()) : 0;
            // copy the return leaves into a contiguous temp when needed
            if (n == 0) emit(I_RET, 0, 0, 0, 0, 0, 0);
            else if (n == 1) emit(I_RET, 0, 0, opnd(rt->getReturnValue()), 0, 0, 1);
            else {
                int t0 = ns; ns += n;
                for (int i = 0; i < n; ++i) emit(I_COPY, 64, t0 + i, opnd(rt->getReturnValue(), i));
                emit(I_RET, 0, 0, t0, 0, 0, n);
            }
        } else if (isa<UnreachableInst>(I)) emit(I_UNREACH, 0, 0);
        else if (auto *rs = dyn_cast<ResumeInst>(&I)) emit(I_RESUME, 0, 0, opnd(rs->getValue(), 0));
        else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
            LPad L; L.cleanup = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (lp->isCatch(i)) { uint64_t v = 0; constScalar(lp->getClause(i), v); L.types.push_back(v); L.filter.push_back(false); }
                else { L.types.push_back(0); L.filter.push_back(true); }
            }
            P.lpads.push_back(L);
            emit(I_LPAD, 0, d, 0, 0, 0, P.lpads.size() - 1);
        } else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
            int w = intw(t);
            emit(I_LOAD, w, d, opnd(rmw->getPointerOperand()));
            int t0 = ns++;
            int op = rmw->getOperation() == AtomicRMWInst::Add ? I_ADD : rmw->getOperation() == AtomicRMWInst::Sub ? I_SUB : rmw->getOperation() == AtomicRMWInst::Xchg ? I_COPY : -1;
            if (op < 0) { unsup("atomicrmw"); return; }
            if (op == I_COPY) emit(I_STORE, w, 0, opnd(rmw->getValOperand()), opnd(rmw->getPointerOperand()));
            else { emit(op, w, t0, d, opnd(rmw->getValOperand())); emit(I_STORE, w, 0, t0, opnd(rmw->getPointerOperand())); }
        } else if (isa<FenceInst>(I)) emit(I_NOP, 0, 0);
        else unsup(std::string("inst ") + I.getOpcodeName());
        if (badConst) {
            std::string s; raw_string_ostream os(s); I.print(os);
            P.code.resize(before); P.line.resize(before);
            unsup("operand in" + s.substr(0, 160));
            if (getenv("SE_WARN")) errs() << "operand unsupported: " << s << "\n";
        }
    }
    int idxOff(Type *t, ArrayRef<unsigned> idx) {
        int off = 0;
        for (unsigned i : idx) {
            if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) off += nslots(st->getElementType(j)); t = st->getElementType(i); }
            else { auto *at = cast<ArrayType>(t); off += i * nslots(at->getElementType()); t = at->getElementType(); }
        }
        return off;
    }

    bool doFunc(Function &f) {
        F = &f; slot.clear(); ns = 0; blkpc.clear(); blkid.clear(); fix.clear();
        Func &pf = P.funcs[fidx[&f]];
        for (Argument &a : f.args()) {
            std::vector<std::pair<Type *, uint64_t>> l;
            if (!leaves(a.getType(), 0, l)) { l.clear(); l.push_back({Type::getInt64Ty(ctx), 0}); pf.entry = -2; }
            slot[&a] = ns; ns += l.size();
            for (auto &x : l) pf.argw.push_back(intw(x.first));
        }
        pf.nargs = ns;
        for (BasicBlock &bb : f) {
            blkid[&bb] = P.blks.size();
            P.blks.push_back(Blk{fidx[&f], {}});
            for (Instruction &I : bb)
                if (!I.getType()->isVoidTy()) { int n = nslots(I.getType()); if (n < 0) n = 1; slot[&I] = ns; ns += n; }
        }
        pf.entryBlk = blkid[&f.getEntryBlock()];
        for (BasicBlock &bb : f) {
            blkpc[&bb] = P.code.size();
            size_t s = P.code.size();
            for (Instruction &I : bb) doInst(I, &bb);
            std::vector<uint32_t> &L = P.blks[blkid[&bb]].lines;
            for (size_t i = s; i < P.code.size(); ++i) if (P.line[i] && (L.empty() || L.back() != P.line[i])) L.push_back(P.line[i]);
        }
        for (auto &fx : fix) P.edges[fx.first].pc = blkpc[fx.second];
        pf.entry = blkpc[&f.getEntryBlock()];
        pf.nslots = ns; pf.defined = true;
        return true;
    }

    bool run(const std::vector<std::string> &files) {
        for (auto &fn : files) {
            SMDiagnostic d;
            auto m = parseIRFile(fn, d, ctx);
            if (!m) { err = "cannot parse " + fn + ": " + d.getMessage().str(); return false; }
            if (!M) M = std::move(m);
            else if (Linker::linkModules(*M, std::move(m))) { err = "link " + fn; return false; }
        }
        DL = &M->getDataLayout();
        P.mem.setup(1ull << 30);
        P.lineTab.push_back("");
        for (GlobalVariable &g : M->globals()) {
            if (g.getName().starts_with("llvm.")) continue;
            uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
            bool ext = !g.hasInitializer();
            if (ext && sz < 512) sz = 512;
            uint64_t a = P.mem.alloc(sz, ext ? K_EXTERN : g.isConstant() ? K_CONST : K_GLOBAL, g.getAlign() ? g.getAlign()->value() : 16);
            gaddr[&g] = a;
            P.globalName[a] = g.getName().str(); P.globalAddr[g.getName().str()] = a; P.globalDefined[a] = !ext;
        }
        for (Function &f : *M) {
            int id = P.funcs.size();
            fidx[&f] = id;
            Func pf; pf.name = f.getName().str(); pf.pretty = demangle(pf.name); pf.builtin = builtinId(pf.name);
            pf.addr = P.mem.alloc(16, K_FUNC);
            gaddr[&f] = pf.addr;
            P.funcByAddr[pf.addr] = id; P.funcByName[pf.name] = id;
            P.funcs.push_back(pf);
        }
        for (GlobalAlias &a : M->aliases()) { uint64_t v = 0; constScalar(a.getAliasee(), v); gaddr[&a] = v; if (auto *fn = dyn_cast<Function>(a.getAliaseeObject())) P.funcByName[a.getName().str()] = fidx[fn]; }
        for (GlobalVariable &g : M->globals())
            if (gaddr.count(&g) && g.hasInitializer())
                if (!writeInit(g.getInitializer(), gaddr[&g])) { err = "initializer of " + g.getName().str(); return false; }
        for (Function &f : *M) if (!f.isDeclaration()) doFunc(f);
        if (GlobalVariable *gc = M->getNamedGlobal("llvm.global_ctors"))
            if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
                std::vector<std::pair<uint64_t, int>> v;
                for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fidx[fn]}); }
                std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &x : v) P.ctors.push_back(x.second);
            }
        return true;
    }
};
} // namespace

bool loadProgram(const std::vector<std::string> &files, Program &P, std::string &err) {
    Loader L(P);
    bool ok = L.run(files);
    err = L.err;
    return ok;
}
} // namespace se
