#include "interp.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>

namespace se {

// ------------------------------------------------------------------ builtins
enum Bi { B_NONE = -1, B_UNKNOWN = 0,
    B_SYM, B_CHOICE, B_ASSUME, B_ASSERT, B_REACH, B_FAIL, B_UF, B_NOTE, B_ISSYM, B_END, B_CONCRETE, B_SELECT,
    B_NEW, B_DELETE, B_CALLOC, B_REALLOC, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_MEMCHR,
    B_EXALLOC, B_EXFREE, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_TERMINATE, B_ABORT, B_ASSERTFAIL, B_EXIT,
    B_GUARDACQ, B_GUARDREL, B_ATEXIT, B_NOP, B_RET0, B_STDTHROW, B_STREAM, B_OSSSTR, B_EXCWHAT,
    B_MATH1, B_MATH2, B_UNCAUGHT, B_DYNCAST, B_NOW };

struct BiEnt { const char *n; int id; };
static const BiEnt table[] = {
    {"sym_bits", B_SYM}, {"sym_choice", B_CHOICE}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_reach", B_REACH}, {"sym_fail", B_FAIL},
    {"sym_uf1", B_UF}, {"sym_uf2", B_UF}, {"sym_uf3", B_UF}, {"sym_note", B_NOTE}, {"sym_end", B_END}, {"sym_concrete", B_CONCRETE}, {"sym_select", B_SELECT}, {"sym_is_symbolic", B_ISSYM},
    {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"malloc", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
    {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEW},
    {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"free", B_DELETE},
    {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdaPvmSt11align_val_t", B_DELETE}, {"_ZdaPvSt11align_val_t", B_DELETE},
    {"calloc", B_CALLOC}, {"realloc", B_REALLOC},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR},
    {"__cxa_allocate_exception", B_EXALLOC}, {"__cxa_free_exception", B_EXFREE}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BEGINCATCH},
    {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_NONE}, {"abort", B_ABORT},
    {"__cxa_pure_virtual", B_ABORT}, {"__cxa_bad_cast", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
    {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_RET0}, {"__cxa_thread_atexit", B_RET0},
    {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP},
    {"_ZNSt9exceptionD2Ev", B_NOP}, {"_ZNSt9exceptionD1Ev", B_NOP}, {"_ZNSt9exceptionD0Ev", B_NOP}, {"_ZNKSt9exception4whatEv", B_EXCWHAT},
    {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT},
    {"_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", B_OSSSTR},
    {"_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv", B_OSSSTR},
    {"_ZNSt6chrono3_V212steady_clock3nowEv", B_NOW}, {"_ZNSt6chrono3_V212system_clock3nowEv", B_NOW}, {"time", B_NOW}, {"clock", B_NOW},
    {"pthread_mutex_lock", B_RET0}, {"pthread_mutex_unlock", B_RET0}, {"__libc_single_threaded", B_RET0},
    {"sqrt", B_MATH1}, {"sqrtf", B_MATH1}, {"log", B_MATH1}, {"logf", B_MATH1}, {"exp", B_MATH1}, {"expf", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"sin", B_MATH1}, {"cos", B_MATH1}, {"tan", B_MATH1}, {"round", B_MATH1}, {"trunc", B_MATH1},
    {"pow", B_MATH2}, {"powf", B_MATH2}, {"fmod", B_MATH2}, {"fmodf", B_MATH2}, {"atan2", B_MATH2}, {"hypot", B_MATH2},
    {"puts", B_RET0}, {"printf", B_RET0}, {"putchar", B_RET0}, {"fflush", B_RET0}, {"fwrite", B_RET0}, {"fputs", B_RET0}, {"fprintf", B_RET0},
};
int builtinId(const std::string &n) {
    for (auto &e : table) if (n == e.n) return e.id;
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) return B_STDTHROW;
    if (n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZStls", 0) == 0 || n.rfind("_ZSt16__ostream_insert", 0) == 0 || n.rfind("_ZSt4endlI", 0) == 0 || n.rfind("_ZSt5flush", 0) == 0 ||
        n.find("basic_ostringstream") != std::string::npos || n.find("basic_stringstream") != std::string::npos || n.rfind("_ZNSt9basic_iosIc", 0) == 0 || n.rfind("_ZNSt8ios_base", 0) == 0 || n.rfind("_ZNSt6locale", 0) == 0)
        return B_STREAM;
    return B_NONE;
}

// ------------------------------------------------------------------ path condition
void Interp::slice(E c, std::vector<E> &out) {
    Sup s = c->sup;
    if (!s.meets(pcSup)) return;
    std::vector<char> in(pcs.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pcs.size(); ++i)
            if (!in[i] && pcs[i]->sup.meets(s)) { in[i] = 1; s.join(pcs[i]->sup); ch = true; }
    }
    for (size_t i = 0; i < pcs.size(); ++i) if (in[i]) out.push_back(pcs[i]);
}
static uint64_t hkey(const std::vector<E> &v, uint64_t seed) {
    std::vector<uint32_t> ids; for (E e : v) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    auto mix = [](uint64_t x) { x += 0x9e3779b97f4a7c15ull; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); };
    uint64_t h = mix(seed * 0x10001 + ids.size());
    for (uint32_t i : ids) h = mix(h ^ mix((uint64_t)i * 0xd6e8feb86659fd93ull + 0x1234567));
    return h;
}
// is pc && c satisfiable?  1 / 0 / -1.  On 1, *m is a model of the relevant slice + c merged on top of the current model
int Interp::feasible(E c, Model *m) {
    if (c->op == Op::Const) { if (m) *m = model; return c->c; }
    std::vector<E> cs; slice(c, cs); cs.push_back(c);
    uint64_t k = hkey(cs, 77);
    auto it = qcache.find(k);
    int r; Model mm;
    if (it != qcache.end() && (it->second != 1 || !m || qmodel.count(k))) {
        ++st.cacheHits; r = it->second;
        if (r == 1 && m) mm = qmodel[k];
    } else {
        ++st.branchQueries;
        r = C->solve(cs, &mm, solverTimeout);
        qcache[k] = r;
        if (r == 1) { if (qmodel.size() > 20000) qmodel.clear(); qmodel[k] = mm; }
    }
    if (r == 1 && m) {
        Model out = model;
        for (auto &x : mm.vars) out.vars[x.first] = x.second;
        for (auto &x : mm.ufs) out.ufs[x.first] = x.second;
        *m = out;
    }
    return r;
}
bool Interp::ensureModel() {
    if (modelOk) return true;
    // literals over single bits are set directly; the remaining constraints decide
    std::vector<std::pair<uint64_t, uint64_t>> units; std::vector<E> rest;
    for (E c : pcs) {
        if (c->op == Op::Var) units.push_back({c->c, 1});
        else if (c->op == Op::Xor && c->w == 1 && c->k[0]->op == Op::Var && c->k[1]->op == Op::Const && c->k[1]->c == 1) units.push_back({c->k[0]->c, 0});
        else rest.push_back(c);
    }
    auto test = [&](Model &m) {
        for (auto &u : units) m.vars[u.first] = u.second;
        C->newEval();
        for (E c : rest) if (!C->evalE(c, m)) return false;
        return true;
    };
    if (recent.empty()) recent.push_back(Model());
    for (size_t i = 0; i < recent.size(); ++i) if (test(recent[i])) { if (i > 8) std::swap(recent[i], recent[i / 2]); model = recent[i > 8 ? i / 2 : i]; modelOk = true; return true; }
    Model m;
    int r = C->solve(pcs, &m, solverTimeout);
    if (r == 1) { model = m; modelOk = true; recent.insert(recent.begin(), m); if (recent.size() > 32) recent.pop_back(); return true; }
    if (r == 0) throw PathEnd{PE_OK};
    throw PathEnd{PE_UNKNOWN};
}
bool Interp::branch(E c) {
    if (c->op == Op::Const) return c->c;
    if (pos < decs.size()) {
        Dec &d = decs[pos++];
        if (d.kind != 0) { fprintf(stderr, "replay divergence\n"); abort(); }
        if (!d.forced) { addPC(d.dir ? c : C->notb(c)); modelOk = false; }
        return d.dir;
    }
    ++st.decisions;
    Dec d{0, 1, 0, 0, 0, 0};
    if (!c->sup.meets(pcSup) && (c->op == Op::Var)) {
        d.open = 1; ++st.forks;
        addPC(c);
        if (modelOk) model.vars[c->c] = 1;
    } else {
        ensureModel();
        C->newEval();
        bool v = C->evalE(c, model);
        E other = v ? C->notb(c) : c;
        int r = feasible(other, nullptr);
        bool unknown = r < 0;
        if (unknown) { ++st.unknown; r = 0; unknownCut = true; }
        d.dir = v;
        if (r == 1) { d.open = 1; ++st.forks; addPC(v ? c : C->notb(c)); }
        else if (unknown) addPC(v ? c : C->notb(c));
        else d.forced = 1;
    }
    decs.push_back(d); pos = decs.size();
    return d.dir;
}
uint64_t Interp::choice(uint32_t n) {
    if (n <= 1) { choiceLog.push_back(0); return 0; }
    if (pos < decs.size()) { Dec &d = decs[pos++]; if (d.kind != 1) { fprintf(stderr, "replay divergence(choice)\n"); abort(); } choiceLog.push_back(d.val); return d.val; }
    Dec d{1, 0, 0, 0, n, 0};
    ++st.decisions; ++st.forks;
    decs.push_back(d); pos = decs.size();
    choiceLog.push_back(0);
    return 0;
}
uint64_t Interp::concretize(const Val &v, int w) {
    if (!v.s) return v.v;
    E e = v.s;
    for (int tries = 0;; ++tries) {
        if (tries > 4096) unsup("concretization limit");
        if (pos < decs.size()) {
            Dec &d = decs[pos++];
            if (d.kind != 2) { fprintf(stderr, "replay divergence(conc)\n"); abort(); }
            E q = C->eq(e, C->cst(d.val, e->w));
            if (!d.forced) { addPC(d.dir ? q : C->notb(q)); modelOk = false; }
            if (d.dir) return d.val;
            continue;
        }
        ensureModel();
        C->newEval();
        uint64_t x = C->evalE(e, model);
        E q = C->eq(e, C->cst(x, e->w));
        Dec d{2, 1, 0, 0, 0, x};
        ++st.decisions;
        int r = feasible(C->notb(q), nullptr);
        bool unknown = r < 0;
        if (unknown) { ++st.unknown; unknownCut = true; r = 0; }
        if (r == 1) { d.open = 1; ++st.forks; addPC(q); } else if (unknown) addPC(q); else d.forced = 1;
        decs.push_back(d); pos = decs.size();
        return x;
    }
}
void Interp::assume(E c) {
    if (c->op == Op::Const) { if (!c->c) { ++st.assumed; throw PathEnd{PE_OK}; } return; }
    if (pos >= decs.size()) {
        bool sat = false;
        if (modelOk) { C->newEval(); sat = C->evalE(c, model); }
        if (!sat) {
            Model m;
            int r = feasible(c, &m);
            if (r == 0) { ++st.assumed; throw PathEnd{PE_OK}; }
            if (r < 0) throw PathEnd{PE_UNKNOWN};
            if (modelOk) model = m;
        }
    } else modelOk = false;
    addPC(c);
}
void Interp::check(E c, const std::string &label) {
    ++st.asserts;
    if (c->op == Op::Const) {
        ++st.assertsTrivial;
        if (!c->c) { ensureModel(); violation("assert", label, &model); }
        return;
    }
    auto it = proved.find(c->id);
    if (it != proved.end() && it->second) { ++st.cacheHits; return; }
    E n = C->notb(c);
    if (it == proved.end()) {
        ++st.assertQueries;
        int r = C->solve({n}, nullptr, solverTimeout);
        proved[c->id] = (r == 0);
        if (r == 0) return;
    }
    std::vector<E> cs; slice(c, cs); cs.push_back(n);
    uint64_t k = hkey(cs, 77);
    auto q = qcache.find(k);
    int r;
    if (q != qcache.end()) { ++st.cacheHits; r = q->second; }
    else { ++st.assertQueries; r = C->solve(cs, nullptr, solverTimeout); qcache[k] = r; }
    if (r == 0) return;
    if (r < 0) throw PathEnd{PE_UNKNOWN};
    std::vector<E> all = pcs; all.push_back(n);
    Model m;
    r = C->solve(all, &m, solverTimeout * 3);
    if (r == 0) return;
    if (r < 0) throw PathEnd{PE_UNKNOWN};
    violation("assert", label, &m);
}
std::string Interp::where() {
    std::string s = pc >= 0 && pc < (int)P.line.size() ? P.lineTab[P.line[pc]] : "";
    int n = 0;
    for (int i = (int)frames.size() - 1; i >= 0 && n < 6; --i, ++n) s += "\n    in " + P.funcs[frames[i].fn].pretty.substr(0, 200);
    return s;
}
std::string Interp::replayText(const Model &m) {
    std::string s = "choices";
    for (uint64_t c : choiceLog) s += " " + std::to_string(c);
    s += "\n";
    std::map<uint64_t, uint64_t> vs(m.vars.begin(), m.vars.end());
    for (auto &v : vs) s += "var " + std::to_string(v.first) + " " + std::to_string(v.second) + "\n";
    for (auto &u : m.ufs) {
        for (auto &r : u.second.rows) { s += "uf " + std::to_string(u.first) + " " + std::to_string(r.first.size()); for (uint64_t a : r.first) s += " " + std::to_string(a); s += " " + std::to_string(r.second) + "\n"; }
        s += "ufelse " + std::to_string(u.first) + " " + std::to_string(u.second.other) + "\n";
    }
    C->newEval();
    for (auto &n : noteE) s += "# " + n.first + " = " + std::to_string(C->evalE(n.second, m)) + "\n";
    return s;
}
void Interp::violation(const std::string &kind, const std::string &label, const Model *m) {
    if (!m) { ensureModel(); m = &model; }
    C->newEval(); for (E c : pcs) if (!C->evalE(c, *m)) fprintf(stderr, "BAD MODEL: %s\n", show(c).c_str());
    if (getenv("SYM_DUMP")) { std::string t = "VIOL " + label + "\n"; for (E c : pcs) t += "  pc " + show(c, 9) + "\n"; for (auto &d : decs) t += " [k" + std::to_string(d.kind) + " d" + std::to_string(d.dir) + " o" + std::to_string(d.open) + " f" + std::to_string(d.forced) + " v" + std::to_string(d.val) + "]"; fprintf(stderr, "%s\n", t.c_str()); }
    viols.push_back(Violation{kind, label, where(), replayText(*m)});
    ++st.viol;
    throw PathEnd{PE_VIOL};
}
void Interp::unsup(const std::string &m) { ++unsupMsgs[m + "  @ " + (pc >= 0 ? P.lineTab[P.line[pc]] : "")]; throw PathEnd{PE_UNSUP}; }

// ------------------------------------------------------------------ memory
uint64_t Interp::chk(uint64_t a, uint64_t n, bool wr) {
    Arena &M = P.mem;
    Obj *o = M.find(a);
    if (!o) violation("memory", a < 4096 ? (wr ? "null pointer write" : "null pointer read") : (wr ? "out-of-bounds write" : "out-of-bounds read"));
    if (!o->alive) violation("memory", o->kind == K_STACK ? "use of dead stack memory" : "use after free");
    if (a + n > o->base + o->size) violation("memory", wr ? "out-of-bounds write" : "out-of-bounds read");
    if (wr && o->kind == K_CONST) violation("memory", "write to constant");
    if (o->kind == K_FUNC) violation("memory", "access to function");
    return a - (uint64_t)M.base;
}
E Interp::byteAt(uint64_t off) {
    Arena &M = P.mem;
    if (M.anySym(off, 1)) { uint64_t s = M.shadow[off]; E e = (E)(s & 0xffffffffffffull); return C->extract(e, (s >> 56) * 8, std::min<int>(8, e->w - (int)(s >> 56) * 8)); }
    if (!M.allInit(off, 1)) {
        E e = C->var((1ull << 40) + uninitCtr++, 8);
        M.setBits(M.sym, off, 1); M.setBits(M.init, off, 1);
        M.shadow[off] = (uint64_t)e;
        return e;
    }
    return C->cst(M.base[off], 8);
}
Val Interp::load(uint64_t a, int w) {
    unsigned n = (w + 7) / 8;
    uint64_t off = chk(a, n, false);
    Arena &M = P.mem;
    if (__builtin_expect(M.allInit(off, n) && !M.anySym(off, n), 1)) {
        uint64_t v;
        switch (n) {
        case 1: v = *(uint8_t *)a; break;
        case 2: v = *(uint16_t *)a; break;
        case 4: v = *(uint32_t *)a; break;
        case 8: v = *(uint64_t *)a; break;
        default: v = 0; memcpy(&v, (void *)a, n);
        }
        if (w & 7) v &= maskw(w);
        return Val{v, nullptr};
    }
    if (P.mem.find(a)->kind == K_EXTERN) unsup("read of external object");
    uint64_t s0 = M.shadow[off];
    if (M.anySym(off, 1) && (s0 >> 56) == 0) {
        E e = (E)s0;
        if ((unsigned)(e->w + 7) / 8 == n) {
            bool same = true;
            for (unsigned i = 1; i < n && same; ++i) same = M.anySym(off + i, 1) && M.shadow[off + i] == (s0 | (uint64_t)i << 56);
            if (same) { E r = e->w == w ? e : e->w > w ? C->extract(e, 0, w) : C->zext(e, w); if (r->op == Op::Const) return Val{r->c, nullptr}; return Val{0, r}; }
        }
    }
    E r = byteAt(off);
    for (unsigned i = 1; i < n; ++i) r = C->concat(byteAt(off + i), r);
    if (r->w > w) r = C->extract(r, 0, w);
    if (r->op == Op::Const) return Val{r->c, nullptr};
    return Val{0, r};
}
void Interp::store(uint64_t a, const Val &v, int w) {
    unsigned n = (w + 7) / 8;
    uint64_t off = chk(a, n, true);
    Arena &M = P.mem;
    M.setBits(M.init, off, n);
    if (__builtin_expect(!v.s, 1)) {
        switch (n) {
        case 1: *(uint8_t *)a = v.v; break;
        case 2: *(uint16_t *)a = v.v; break;
        case 4: *(uint32_t *)a = v.v; break;
        case 8: *(uint64_t *)a = v.v; break;
        default: memcpy((void *)a, &v.v, n);
        }
        M.clrBits(M.sym, off, n);
        return;
    }
    E e = v.s;
    if ((int)e->w < (int)n * 8) e = C->zext(e, n * 8);
    M.setBits(M.sym, off, n);
    for (unsigned i = 0; i < n; ++i) M.shadow[off + i] = (uint64_t)e | (uint64_t)i << 56;
}
void Interp::copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    uint64_t so = chk(s, n, false), dO = chk(d, n, true);
    Arena &M = P.mem;
    bool plain = true;
    for (uint64_t i = 0; i < n && plain; i += 8) { unsigned k = std::min<uint64_t>(8, n - i); plain = M.allInit(so + i, k) && !M.anySym(so + i, k); }
    if (plain) {
        memmove((void *)d, (void *)s, n);
        for (uint64_t i = 0; i < n; i += 8) { unsigned k = std::min<uint64_t>(8, n - i); M.setBits(M.init, dO + i, k); M.clrBits(M.sym, dO + i, k); }
        return;
    }
    std::vector<uint8_t> by(n), fl(n); std::vector<uint64_t> sh(n);
    for (uint64_t i = 0; i < n; ++i) { by[i] = M.base[so + i]; fl[i] = M.allInit(so + i, 1) | M.anySym(so + i, 1) << 1; sh[i] = M.shadow[so + i]; }
    for (uint64_t i = 0; i < n; ++i) {
        M.base[dO + i] = by[i];
        if (fl[i] & 1) M.setBits(M.init, dO + i, 1); else M.clrBits(M.init, dO + i, 1);
        if (fl[i] & 2) { M.setBits(M.sym, dO + i, 1); M.shadow[dO + i] = sh[i]; } else M.clrBits(M.sym, dO + i, 1);
    }
}
void Interp::setMem(uint64_t d, const Val &v, uint64_t n) {
    if (!n) return;
    if (v.s) { for (uint64_t i = 0; i < n; ++i) store(d + i, v, 8); return; }
    uint64_t o = chk(d, n, true);
    memset((void *)d, (int)v.v, n);
    Arena &M = P.mem;
    for (uint64_t i = 0; i < n; i += 8) { unsigned k = std::min<uint64_t>(8, n - i); M.setBits(M.init, o + i, k); M.clrBits(M.sym, o + i, k); }
}
uint64_t Interp::heap(uint64_t n) {
    uint64_t a = P.mem.alloc(n, K_HEAP);
    if (!a) unsup("allocation too large");
    return a;
}
void Interp::release(uint64_t a, const char *what) {
    if (!a) return;
    Obj *o = P.mem.find(a);
    if (!o || o->base != a || o->kind != K_HEAP) violation("memory", std::string("invalid ") + what);
    if (!o->alive) violation("memory", std::string("double ") + what);
    o->alive = 0;
}
std::string Interp::cstr(uint64_t a) {
    std::string s;
    for (;;) { Val v = load(a, 8); if (v.s || !v.v) break; s += (char)v.v; ++a; if (s.size() > 300) break; }
    return s;
}

// ------------------------------------------------------------------ exceptions
static const std::pair<const char *, const char *> stdHier[] = {
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
bool Interp::tiMatch(uint64_t t, uint64_t want) {
    if (!want || t == want) return true;
    auto it = P.globalName.find(t);
    std::string n = it == P.globalName.end() ? "" : it->second;
    if (n.empty() || !P.globalDefined[t]) {
        for (auto &h : stdHier) if (n == h.first) { auto b = P.globalAddr.find(h.second); std::string bn = h.second; auto w = P.globalName.find(want); if (w != P.globalName.end() && w->second == bn) return true; if (b != P.globalAddr.end()) return tiMatch(b->second, want); 
            // base not present in the module: continue by name
            std::string cur = bn; for (bool go = true; go;) { go = false; for (auto &h2 : stdHier) if (cur == h2.first) { cur = h2.second; go = true; if (w != P.globalName.end() && w->second == cur) return true; break; } } }
        return false;
    }
    uint64_t vp = *(uint64_t *)t;
    for (auto &g : P.globalAddr)
        if (vp >= g.second && vp < g.second + 64 && g.first.find("class_type_info") != std::string::npos) {
            if (g.first == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(*(uint64_t *)(t + 16), want);
            if (g.first == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
                uint32_t cnt = *(uint32_t *)(t + 20);
                for (uint32_t i = 0; i < cnt; ++i) if (tiMatch(*(uint64_t *)(t + 24 + 16 * i), want)) return true;
            }
            break;
        }
    return false;
}
void Interp::throwStd(const char *ti) {
    uint64_t o = heap(32);
    setMem(o, Val{0, nullptr}, 32);
    auto it = P.globalAddr.find(ti);
    if (it == P.globalAddr.end()) { // synthesise
        static std::map<std::string, uint64_t> syn;
        excType = 1; // matches only catch-all
        auto s = syn.find(ti);
        if (s == syn.end()) syn[ti] = 0x7000000000000000ull + syn.size() * 16;
        excType = syn[ti];
        P.globalName[excType] = ti; P.globalDefined[excType] = 0;
    } else excType = it->second;
    excObj = o; excTypeOf[o] = excType;
    unwind();
}
void Interp::unwind() {
    // pop frames until a call site with an unwind edge is found; pc of current frame is at the call
    for (;;) {
        Frame &f = frames.back();
        const Inst &I = P.code[pc];
        if (I.op == I_CALL && P.calls[I.imm].unwind >= 0) {
            int e = P.calls[I.imm].unwind;
            int lp = P.edges[e].pc;
            // find landingpad instruction
            int q = lp;
            while (P.code[q].op != I_LPAD && q < lp + 64) ++q;
            const LPad &L = P.lpads[P.code[q].imm];
            bool enters = L.cleanup;
            for (size_t i = 0; i < L.types.size(); ++i) if (L.filter[i] || tiMatch(excType, L.types[i])) enters = true;
            if (enters) { inUnwind = true; takeEdge(e); return; }
        }
        for (size_t i = f.allocaStart; i < allocas.size(); ++i) P.mem.objs[allocas[i]].alive = 0;
        allocas.resize(f.allocaStart);
        if (frames.size() == 1) {
            std::string n = P.globalName.count(excType) ? P.globalName[excType] : "?";
            violation("exception", "uncaught exception " + n);
        }
        int ret = f.retpc;
        frames.pop_back();
        Frame &g = frames.back();
        fp = g.base; R = &stack[fp]; sp = fp + P.funcs[g.fn].nslots;
        pc = ret;
    }
}

// ------------------------------------------------------------------ control
void Interp::takeEdge(int ei) {
    const Edge &e = P.edges[ei];
    blkHit[e.blk] = 1;
    if (e.cn == 1) { auto &c = P.copies[e.cs]; R[c.first] = get(c.second); }
    else if (!e.tmp) for (int i = 0; i < e.cn; ++i) { auto &c = P.copies[e.cs + i]; R[c.first] = get(c.second); }
    else {
        Val tmp[64]; std::vector<Val> big;
        Val *t = tmp;
        if (e.cn > 64) { big.resize(e.cn); t = big.data(); }
        for (int i = 0; i < e.cn; ++i) t[i] = get(P.copies[e.cs + i].second);
        for (int i = 0; i < e.cn; ++i) R[P.copies[e.cs + i].first] = t[i];
    }
    pc = e.pc;
}
void Interp::enter(int fn, const CallInfo *ci, int callIdx, const std::vector<Val> &args) {
    const Func &f = P.funcs[fn];
    if (f.entry < 0) unsup("function with unsupported types: " + f.pretty);
    if (frames.size() > 4000) violation("memory", "stack overflow (unbounded recursion)");
    uint64_t nb = sp;
    if (nb + f.nslots + 16 > stack.size()) { stack.resize(stack.size() * 2 + f.nslots); }
    for (int i = 0; i < f.nargs; ++i) {
        Val v = i < (int)args.size() ? args[i] : Val{0, nullptr};
        if (ci && ci->byval[i]) { uint64_t a = addrOf(v); uint64_t c = P.mem.alloc(ci->byval[i], K_STACK); copyMem(c, a, ci->byval[i]); v = Val{c, nullptr}; }
        stack[nb + i] = v;
    }
    frames.push_back(Frame{fn, pc, nb, callIdx, allocas.size()});
    fp = nb; R = &stack[fp]; sp = fp + f.nslots;
    pc = f.entry;
    blkHit[f.entryBlk] = 1;
}
void Interp::finishCall(int callIdx) {
    const CallInfo &ci = P.calls[callIdx];
    if (ci.normal >= 0) takeEdge(ci.normal); else ++pc;
}
void Interp::doRet(const Inst &I) {
    Val tmp[32]; int n = I.imm;
    for (int i = 0; i < n; ++i) tmp[i] = n == 1 ? get(I.a) : R[I.a + i];
    Frame f = frames.back();
    for (size_t i = f.allocaStart; i < allocas.size(); ++i) P.mem.objs[allocas[i]].alive = 0;
    allocas.resize(f.allocaStart);
    frames.pop_back();
    if (frames.empty()) throw PathEnd{PE_OK};
    Frame &g = frames.back();
    fp = g.base; R = &stack[fp]; sp = fp + P.funcs[g.fn].nslots;
    pc = f.retpc;
    if (f.call >= 0) {
        const CallInfo &ci = P.calls[f.call];
        for (int i = 0; i < n && i < ci.nret; ++i) R[ci.dst + i] = tmp[i];
        finishCall(f.call);
    }
}
void Interp::doCall(const Inst &I) {
    const CallInfo &ci = P.calls[I.imm];
    int fn = ci.callee;
    if (ci.indirect) {
        uint64_t a = addrOf(get(ci.fp));
        auto it = P.funcByAddr.find(a);
        if (it == P.funcByAddr.end()) { if (a < 4096) violation("memory", "call through null pointer"); unsup("indirect call to unknown address"); }
        fn = it->second;
    }
    static thread_local std::vector<Val> args;
    args.clear();
    for (int r : ci.args) args.push_back(get(r));
    const Func &f = P.funcs[fn];
    if (f.builtin > 0 && !(f.defined && f.builtin >= B_NEW)) {
        if (builtin(f.builtin, ci, args, f.name)) finishCall(I.imm);
        return;
    }
    if (!f.defined) unsup("external function " + f.pretty);
    enter(fn, &ci, I.imm, args);
}
static inline double asd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

bool Interp::builtin(int id, const CallInfo &ci, std::vector<Val> &a, const std::string &name) {
    auto ret = [&](Val v) { if (ci.nret >= 1 && ci.dst >= 0) R[ci.dst] = v; };
    auto retE = [&](E e) { if (ci.nret >= 1) set(ci.dst, e); };
    switch (id) {
    case B_SYM: { uint64_t vid = concretize(a[0], 64); int w = (int)a[1].v; E v = C->var(vid << 7 | w, w); retE(C->zext(v, 64)); return true; }
    case B_CHOICE: ret(Val{choice((uint32_t)a[0].v), nullptr}); return true;
    case B_ASSUME: assume(ex(a[0], 1)); return true;
    case B_ASSERT: check(ex(a[0], 1), cstr(a[1].v)); return true;
    case B_REACH: { std::string l = cstr(a[0].v); ++reach[l]; pathReach.push_back(l); return true; }
    case B_FAIL: { std::string l = cstr(a[0].v); ensureModel(); ++st.asserts; violation("assert", l, &model); }
    case B_END: ++st.assumed; throw PathEnd{PE_OK};
    case B_CONCRETE:
        if (a[0].s && a[0].s->op == Op::ZExt && a[0].s->k[0]->w == 1) { ret(Val{branch(a[0].s->k[0]), nullptr}); return true; }
        ret(Val{concretize(a[0], 64), nullptr}); return true;
    case B_SELECT: if (!a[0].s) ret(a[0].v & 1 ? a[1] : a[2]); else retE(C->ite(C->extract(ex(a[0], 64), 0, 1), ex(a[1], 64), ex(a[2], 64))); return true;
    case B_ISSYM: ret(Val{a[0].s != nullptr, nullptr}); return true;
    case B_NOTE: noteE.push_back({cstr(a[0].v), ex(a[1], 64)}); return true;
    case B_UF: {
        E k[3] = {nullptr, nullptr, nullptr};
        for (size_t i = 1; i < a.size() && i < 4; ++i) k[i - 1] = ex(a[i], 64);
        retE(C->uf(a[0].v, 64, k[0], k[1], k[2]));
        return true;
    }
    case B_NEW: { uint64_t n = concretize(a[0], 64); if (n > (1ull << 47)) { throwStd("_ZTISt9bad_alloc"); return false; } ret(Val{heap(n), nullptr}); return true; }
    case B_CALLOC: { uint64_t n = concretize(a[0], 64) * concretize(a[1], 64); uint64_t p = heap(n); setMem(p, Val{0, nullptr}, n); ret(Val{p, nullptr}); return true; }
    case B_REALLOC: unsup("realloc");
    case B_DELETE: release(addrOf(a[0]), "free"); return true;
    case B_MEMCPY: case B_MEMMOVE: { uint64_t n = concretize(a[2], 64); copyMem(addrOf(a[0]), addrOf(a[1]), n); ret(a[0]); return true; }
    case B_MEMSET: { uint64_t n = concretize(a[2], 64); Val v = a[1]; if (v.s) v.s = C->extract(v.s, 0, 8); setMem(addrOf(a[0]), v, n); ret(a[0]); return true; }
    case B_MEMCMP: {
        uint64_t n = concretize(a[2], 64), x = addrOf(a[0]), y = addrOf(a[1]);
        E r = C->cst(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            E p = ex(load(x + i, 8), 8), q = ex(load(y + i, 8), 8);
            r = C->ite(C->eq(p, q), r, C->ite(C->cmp(Op::Ult, p, q), C->cst(~0ull, 32), C->cst(1, 32)));
        }
        retE(r); return true;
    }
    case B_STRLEN: { uint64_t p = addrOf(a[0]), n = 0; while (concretize(load(p + n, 8), 8)) ++n; ret(Val{n, nullptr}); return true; }
    case B_MEMCHR: { uint64_t p = addrOf(a[0]), n = concretize(a[2], 64), c = concretize(a[1], 32) & 255; for (uint64_t i = 0; i < n; ++i) if (concretize(load(p + i, 8), 8) == c) { ret(Val{p + i, nullptr}); return true; } ret(Val{0, nullptr}); return true; }
    case B_EXALLOC: ret(Val{heap(a[0].v), nullptr}); return true;
    case B_EXFREE: release(a[0].v, "free"); return true;
    case B_THROW: excObj = a[0].v; excType = a[1].v; excTypeOf[excObj] = excType; ++uncaughtCount; unwind(); return false;
    case B_RETHROW: if (caught.empty()) violation("exception", "rethrow without exception"); excObj = caught.back(); excType = excTypeOf[excObj]; caught.pop_back(); unwind(); return false;
    case B_BEGINCATCH: caught.push_back(a[0].v); if (uncaughtCount) --uncaughtCount; ret(a[0]); return true;
    case B_ENDCATCH: if (!caught.empty()) { caught.pop_back(); } return true;
    case B_TERMINATE: violation("exception", "std::terminate");
    case B_ABORT: violation("abort", "abort called");
    case B_ASSERTFAIL: violation("abort", "assertion failed: " + cstr(a[0].v));
    case B_EXIT: violation("abort", "exit called");
    case B_GUARDACQ: { Val v = load(a[0].v, 8); ret(Val{v.v == 0, nullptr}); return true; }
    case B_GUARDREL: store(a[0].v, Val{1, nullptr}, 8); return true;
    case B_ATEXIT: case B_RET0: ret(Val{0, nullptr}); return true;
    case B_UNCAUGHT: ret(Val{uncaughtCount, nullptr}); return true;
    case B_NOW: ret(Val{0, nullptr}); return true;
    case B_NOP: return true;
    case B_EXCWHAT: { static uint64_t dummy = 0; (void)dummy; uint64_t p = heap(16); setMem(p, Val{0, nullptr}, 16); const char *m = "std::exception"; memcpy((void *)p, m, 15); ret(Val{p, nullptr}); return true; }
    case B_STREAM: if (!a.empty()) ret(a[0]); return true;
    case B_OSSSTR: { // construct an empty std::string at sret
        uint64_t p = a[0].v;
        store(p, Val{p + 16, nullptr}, 64); store(p + 8, Val{0, nullptr}, 64); store(p + 16, Val{0, nullptr}, 8);
        return true;
    }
    case B_STDTHROW: {
        static const std::pair<const char *, const char *> m[] = {{"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_cast", "_ZTISt8bad_cast"}};
        for (auto &x : m) if (name.find(x.first) != std::string::npos) { throwStd(x.second); return false; }
        throwStd("_ZTISt9exception"); return false;
    }
    case B_MATH1: case B_MATH2: {
        bool f32 = name.back() == 'f' && name != "sqrtf_" && ci.retw == 32;
        for (auto &v : a) if (v.s) {
            if (name == "sqrt") { retE(C->fop(Op::FSqrt, 64, 64, v.s)); return true; }
            unsup("symbolic argument of " + name);
        }
        auto toD = [&](uint64_t v) { if (!f32) return asd(v); float f; uint32_t u = v; memcpy(&f, &u, 4); return (double)f; };
        double x = toD(a[0].v), y = a.size() > 1 ? toD(a[1].v) : 0, r;
        std::string n = f32 ? name.substr(0, name.size() - 1) : name;
        if (n == "sqrt") r = sqrt(x); else if (n == "log") r = log(x); else if (n == "exp") r = exp(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x);
        else if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x); else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x);
        else if (n == "round") r = round(x); else if (n == "trunc") r = trunc(x); else if (n == "pow") r = pow(x, y); else if (n == "fmod") r = fmod(x, y); else if (n == "atan2") r = atan2(x, y); else r = hypot(x, y);
        if (f32) { float f = r; uint32_t u; memcpy(&u, &f, 4); ret(Val{u, nullptr}); } else ret(Val{db(r), nullptr});
        return true;
    }
    }
    unsup("builtin " + name);
}

// symbolic slow path for data instructions
void Interp::symInst(const Inst &I) {
    int w = I.w;
    Val a = get(I.a), b = (I.op == I_ZEXT || I.op == I_SEXT || I.op == I_TRUNC) ? Val{0, nullptr} : get(I.b);
    auto bin = [&](Op o) { set(I.d, C->bin(o, ex(a, w), ex(b, w))); };
    auto cmp = [&](Op o, bool swap, bool neg) {
        int cw = I.w2 ? I.w2 : w;
        E x = ex(swap ? b : a, cw), y = ex(swap ? a : b, cw);
        E r = C->cmp(o, x, y);
        set(I.d, neg ? C->notb(r) : r);
    };
    auto divchk = [&](E y) {
        E z = C->eq(y, C->cst(0, y->w));
        if (branch(z)) { ensureModel(); violation("ub", "division by zero", &model); }
    };
    switch (I.op) {
    case I_ADD: bin(Op::Add); break;
    case I_SUB: bin(Op::Sub); break;
    case I_MUL: bin(Op::Mul); break;
    case I_UDIV: divchk(ex(b, w)); bin(Op::UDiv); break;
    case I_SDIV: divchk(ex(b, w)); bin(Op::SDiv); break;
    case I_UREM: divchk(ex(b, w)); bin(Op::URem); break;
    case I_SREM: divchk(ex(b, w)); bin(Op::SRem); break;
    case I_SHL: bin(Op::Shl); break;
    case I_LSHR: bin(Op::LShr); break;
    case I_ASHR: bin(Op::AShr); break;
    case I_AND: bin(Op::And); break;
    case I_OR: bin(Op::Or); break;
    case I_XOR: bin(Op::Xor); break;
    case I_EQ: cmp(Op::Eq, false, false); break;
    case I_NE: cmp(Op::Eq, false, true); break;
    case I_ULT: cmp(Op::Ult, false, false); break;
    case I_ULE: cmp(Op::Ule, false, false); break;
    case I_UGT: cmp(Op::Ult, true, false); break;
    case I_UGE: cmp(Op::Ule, true, false); break;
    case I_SLT: cmp(Op::Slt, false, false); break;
    case I_SLE: cmp(Op::Sle, false, false); break;
    case I_SGT: cmp(Op::Slt, true, false); break;
    case I_SGE: cmp(Op::Sle, true, false); break;
    case I_ZEXT: set(I.d, C->zext(ex(a, I.w2), w)); break;
    case I_SEXT: set(I.d, C->sext(ex(a, I.w2), w)); break;
    case I_TRUNC: set(I.d, C->extract(ex(a, I.w2), 0, w)); break;
    case I_ADDI: set(I.d, C->bin(Op::Add, ex(a, 64), C->cst(I.imm, 64))); break;
    case I_MADD: set(I.d, C->bin(Op::Add, ex(a, 64), C->bin(Op::Mul, C->sext(ex(b, I.w2), 64), C->cst(I.imm, 64)))); break;
    case I_UMAX: { E x = ex(a, w), y = ex(b, w); set(I.d, C->ite(C->cmp(Op::Ult, x, y), y, x)); break; }
    case I_UMIN: if (splitSelects) { bool lt = branch(C->cmp(Op::Ult, ex(b, w), ex(a, w))); R[I.d] = lt ? b : a; break; } else { E x = ex(a, w), y = ex(b, w); set(I.d, C->ite(C->cmp(Op::Ult, y, x), y, x)); break; }
    case I_SMAX: if (splitSelects) { bool lt = branch(C->cmp(Op::Slt, ex(a, w), ex(b, w))); R[I.d] = lt ? b : a; break; } else { E x = ex(a, w), y = ex(b, w); set(I.d, C->ite(C->cmp(Op::Slt, x, y), y, x)); break; }
    case I_SMIN: if (splitSelects) { bool lt = branch(C->cmp(Op::Slt, ex(b, w), ex(a, w))); R[I.d] = lt ? b : a; break; } else { E x = ex(a, w), y = ex(b, w); set(I.d, C->ite(C->cmp(Op::Slt, y, x), y, x)); break; }
    case I_ABS: { E x = ex(a, w); set(I.d, C->ite(C->cmp(Op::Slt, x, C->cst(0, w)), C->bin(Op::Sub, C->cst(0, w), x), x)); break; }
    case I_CTPOP: { E x = ex(a, w), r = C->cst(0, w); for (int i = 0; i < w; ++i) r = C->bin(Op::Add, r, C->zext(C->extract(x, i, 1), w)); set(I.d, r); break; }
    case I_CTLZ: { E x = ex(a, w), r = C->cst(w, w); for (int i = 0; i < w; ++i) r = C->ite(C->extract(x, i, 1), C->cst(w - 1 - i, w), r); set(I.d, r); break; }
    case I_CTTZ: { E x = ex(a, w), r = C->cst(w, w); for (int i = w - 1; i >= 0; --i) r = C->ite(C->extract(x, i, 1), C->cst(i, w), r); set(I.d, r); break; }
    case I_BSWAP: { E x = ex(a, w), r = C->extract(x, 0, 8); for (int i = 8; i < w; i += 8) r = C->concat(r, C->extract(x, i, 8)); set(I.d, r); break; }
    case I_FSHL: case I_FSHR: {
        Val c = get(I.c);
        uint64_t s = concretize(c, w) % w;
        E x = ex(a, w), y = ex(b, w);
        if (s == 0) set(I.d, I.op == I_FSHL ? x : y);
        else if (I.op == I_FSHL) set(I.d, C->bin(Op::Or, C->bin(Op::Shl, x, C->cst(s, w)), C->bin(Op::LShr, y, C->cst(w - s, w))));
        else set(I.d, C->bin(Op::Or, C->bin(Op::Shl, x, C->cst(w - s, w)), C->bin(Op::LShr, y, C->cst(s, w))));
        break;
    }
    case I_USUBSAT: { E x = ex(a, w), y = ex(b, w); set(I.d, C->ite(C->cmp(Op::Ult, x, y), C->cst(0, w), C->bin(Op::Sub, x, y))); break; }
    case I_UADDSAT: { E x = ex(a, w), y = ex(b, w), s = C->bin(Op::Add, x, y); set(I.d, C->ite(C->cmp(Op::Ult, s, x), C->cst(~0ull, w), s)); break; }
    case I_SADDSAT: case I_SSUBSAT: {
        E x = ex(a, w), y = ex(b, w), s = C->bin(I.op == I_SADDSAT ? Op::Add : Op::Sub, x, y), z = C->cst(0, w);
        E sx_ = C->cmp(Op::Slt, x, z), sy = C->cmp(Op::Slt, y, z), ss = C->cmp(Op::Slt, s, z);
        E same = C->eq(sx_, I.op == I_SADDSAT ? sy : C->notb(sy));
        E ov = C->bin(Op::And, same, C->notb(C->eq(ss, sx_)));
        set(I.d, C->ite(ov, C->ite(sx_, C->cst(1ull << (w - 1), w), C->cst(maskw(w) >> 1, w)), s));
        break;
    }
    case I_UADDO: { E x = ex(a, w), y = ex(b, w), s = C->bin(Op::Add, x, y); set(I.d, s); set(I.d + 1, C->cmp(Op::Ult, s, x)); break; }
    case I_USUBO: { E x = ex(a, w), y = ex(b, w); set(I.d + 1, C->cmp(Op::Ult, x, y)); set(I.d, C->bin(Op::Sub, x, y)); break; }
    case I_UMULO: { if (w > 32) { uint64_t x = concretize(a, w), y = concretize(b, w); unsigned __int128 p = (unsigned __int128)x * y; setc(I.d, (uint64_t)p & maskw(w)); setc(I.d + 1, (p >> w) != 0); break; }
        E p = C->bin(Op::Mul, C->zext(ex(a, w), 2 * w), C->zext(ex(b, w), 2 * w)); set(I.d, C->extract(p, 0, w)); set(I.d + 1, C->notb(C->eq(C->extract(p, w, w), C->cst(0, w)))); break; }
    case I_SADDO: case I_SSUBO: {
        E x = ex(a, w), y = ex(b, w), s = C->bin(I.op == I_SADDO ? Op::Add : Op::Sub, x, y), z = C->cst(0, w);
        E sx_ = C->cmp(Op::Slt, x, z), sy = C->cmp(Op::Slt, y, z), ss = C->cmp(Op::Slt, s, z);
        E same = C->eq(sx_, I.op == I_SADDO ? sy : C->notb(sy));
        set(I.d, s); set(I.d + 1, C->bin(Op::And, same, C->notb(C->eq(ss, sx_))));
        break;
    }
    case I_FADD: set(I.d, C->fop(Op::FAdd, w, w, ex(a, w), ex(b, w))); break;
    case I_FSUB: set(I.d, C->fop(Op::FSub, w, w, ex(a, w), ex(b, w))); break;
    case I_FMUL: set(I.d, C->fop(Op::FMul, w, w, ex(a, w), ex(b, w))); break;
    case I_FDIV: set(I.d, C->fop(Op::FDiv, w, w, ex(a, w), ex(b, w))); break;
    case I_FREM: set(I.d, C->fop(Op::FRem, w, w, ex(a, w), ex(b, w))); break;
    case I_FNEG: set(I.d, C->fop(Op::FNeg, w, w, ex(a, w))); break;
    case I_FABS: set(I.d, C->fop(Op::FAbs, w, w, ex(a, w))); break;
    case I_FSQRT: set(I.d, C->fop(Op::FSqrt, w, w, ex(a, w))); break;
    case I_FMINN: set(I.d, C->fop(Op::FMin, w, w, ex(a, w), ex(b, w))); break;
    case I_FMAXN: set(I.d, C->fop(Op::FMax, w, w, ex(a, w), ex(b, w))); break;
    case I_FMULADD: set(I.d, C->fop(Op::FAdd, w, w, C->fop(Op::FMul, w, w, ex(a, w), ex(b, w)), ex(get(I.c), w))); break;
    case I_FCOPYSIGN: { E x = ex(a, w), y = ex(b, w); uint64_t m = 1ull << (w - 1); set(I.d, C->bin(Op::Or, C->bin(Op::And, x, C->cst(~m, w)), C->bin(Op::And, y, C->cst(m, w)))); break; }
    case I_FTOSI: set(I.d, C->fop(Op::FToSI, I.w2, w, ex(a, I.w2))); break;
    case I_FTOUI: set(I.d, C->fop(Op::FToUI, I.w2, w, ex(a, I.w2))); break;
    case I_SITOF: set(I.d, C->fop(Op::SIToF, I.w2, w, ex(a, I.w2))); break;
    case I_UITOF: set(I.d, C->fop(Op::UIToF, I.w2, w, ex(a, I.w2))); break;
    case I_FTOF: set(I.d, C->fop(Op::FToF, I.w2, w, ex(a, I.w2))); break;
    case I_FCMP: {
        int fw = I.w2; E x = ex(a, fw), y = ex(b, fw);
        auto U = [&] { return C->fop(Op::FUno, fw, 1, x, y); };
        auto OEQ = [&] { return C->fop(Op::FOEq, fw, 1, x, y); };
        auto LT = [&](bool s) { return C->fop(Op::FOLt, fw, 1, s ? y : x, s ? x : y); };
        auto LE = [&](bool s) { return C->fop(Op::FOLe, fw, 1, s ? y : x, s ? x : y); };
        auto OR = [&](E p, E q) { return C->bin(Op::Or, p, q); };
        E r;
        switch (I.imm) { // llvm predicate numbering
        case 0: r = C->cst(0, 1); break;
        case 1: r = OEQ(); break;
        case 2: r = LT(true); break;
        case 3: r = LE(true); break;
        case 4: r = LT(false); break;
        case 5: r = LE(false); break;
        case 6: r = OR(LT(false), LT(true)); break;
        case 7: r = C->notb(U()); break;
        case 8: r = U(); break;
        case 9: r = OR(OEQ(), U()); break;
        case 10: r = C->notb(LE(false)); break;
        case 11: r = C->notb(LT(false)); break;
        case 12: r = C->notb(LE(true)); break;
        case 13: r = C->notb(LT(true)); break;
        case 14: r = C->notb(OEQ()); break;
        default: r = C->cst(1, 1);
        }
        set(I.d, r);
        break;
    }
    default: unsup("symbolic operand for op " + std::to_string(I.op));
    }
}

void Interp::run() {
    const Inst *code = P.code.data();
    uint64_t lim = maxInsts;
    for (;;) {
        const Inst &I = code[pc];
        if (++nin > lim) {
            if (limitIsViol) violation("limit", "no termination within instruction bound");
            throw PathEnd{PE_LIMIT};
        }
        switch (I.op) {
#define GA const Val a = I.a >= 0 ? R[I.a] : Val{P.cpool[-I.a - 1], nullptr}
#define GB const Val b = I.b >= 0 ? R[I.b] : Val{P.cpool[-I.b - 1], nullptr}
#define BINC(OPC, EXPR) case OPC: { GA; GB; if (__builtin_expect(a.s || b.s, 0)) { symInst(I); ++pc; break; } uint64_t x = a.v, y = b.v; (void)x; (void)y; setc(I.d, EXPR); ++pc; break; }
            BINC(I_ADD, (x + y) & maskw(I.w))
            BINC(I_SUB, (x - y) & maskw(I.w))
            BINC(I_MUL, (x * y) & maskw(I.w))
            BINC(I_AND, x & y)
            BINC(I_OR, x | y)
            BINC(I_XOR, x ^ y)
            BINC(I_SHL, y >= I.w ? 0 : (x << y) & maskw(I.w))
            BINC(I_LSHR, y >= I.w ? 0 : x >> y)
            BINC(I_ASHR, (uint64_t)(sx(x, I.w) >> (y >= I.w ? I.w - 1 : y)) & maskw(I.w))
            BINC(I_EQ, x == y)
            BINC(I_NE, x != y)
            BINC(I_ULT, x < y)
            BINC(I_ULE, x <= y)
            BINC(I_UGT, x > y)
            BINC(I_UGE, x >= y)
            BINC(I_SLT, sx(x, I.w2) < sx(y, I.w2))
            BINC(I_SLE, sx(x, I.w2) <= sx(y, I.w2))
            BINC(I_SGT, sx(x, I.w2) > sx(y, I.w2))
            BINC(I_SGE, sx(x, I.w2) >= sx(y, I.w2))
        case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
            GA; GB;
            if (a.s || b.s) { symInst(I); ++pc; break; }
            if (!b.v) violation("ub", "division by zero");
            bool ok; static const Op m[] = {Op::UDiv, Op::SDiv, Op::URem, Op::SRem};
            setc(I.d, foldBin(m[I.op - I_UDIV], a.v, b.v, I.w, ok));
            ++pc; break;
        }
        case I_ZEXT: { GA; if (a.s) symInst(I); else setc(I.d, a.v); ++pc; break; }
        case I_SEXT: { GA; if (a.s) symInst(I); else setc(I.d, (uint64_t)sx(a.v, I.w2) & maskw(I.w)); ++pc; break; }
        case I_TRUNC: { GA; if (a.s) symInst(I); else setc(I.d, a.v & maskw(I.w)); ++pc; break; }
        case I_COPY: { GA; R[I.d] = a; ++pc; break; }
        case I_ADDI: { GA; if (a.s) symInst(I); else setc(I.d, a.v + I.imm); ++pc; break; }
        case I_MADD: { GA; GB; if (a.s || b.s) symInst(I); else setc(I.d, a.v + (uint64_t)sx(b.v, I.w2) * I.imm); ++pc; break; }
        case I_LOAD: { GA; uint64_t ad = (a.s ? concretize(a, 64) : a.v) + I.imm; R[I.d] = load(ad, I.w); ++pc; break; }
        case I_STORE: { GA; GB; uint64_t ad = (b.s ? concretize(b, 64) : b.v) + I.imm; store(ad, a, I.w); ++pc; break; }
        case I_ALLOCA: {
            GB; uint64_t n = concretize(b, 64) * I.imm;
            uint64_t ad = P.mem.alloc(n, K_STACK, I.c);
            if (!ad) unsup("alloca");
            allocas.push_back(P.mem.gran[(ad - (uint64_t)P.mem.base) >> 4]);
            setc(I.d, ad); ++pc; break;
        }
        case I_SELECT: {
            GA;
            if (a.s) {
                Val x = get(I.b), y = get(I.c);
                if (!x.s && !y.s && x.v == y.v) R[I.d] = x;
                else if (I.w2 || (splitSelects && I.w > 1)) R[I.d] = branch(ex(a, 1)) ? x : y;
                else set(I.d, C->ite(ex(a, 1), ex(x, I.w), ex(y, I.w)));
            } else R[I.d] = get(a.v ? I.b : I.c);
            ++pc; break;
        }
        case I_BR: takeEdge(I.a); break;
        case I_CBR: { GA; bool t = a.s ? branch(ex(a, 1)) : a.v; takeEdge(t ? I.b : I.c); break; }
        case I_SWITCH: {
            GA; const SwitchT &s = P.switches[I.imm];
            int e = s.def;
            if (!a.s) { for (auto &c : s.cases) if (c.first == a.v) { e = c.second; break; } }
            else for (auto &c : s.cases) if (branch(C->eq(ex(a, s.w), C->cst(c.first, s.w)))) { e = c.second; break; }
            takeEdge(e); break;
        }
        case I_CALL: doCall(I); break;
        case I_RET: doRet(I); break;
        case I_UNREACH: violation("ub", "unreachable code reached");
        case I_TRAP: violation("ub", "trap");
        case I_RESUME: { GA; excObj = a.v; excType = excTypeOf[excObj]; 
            // unwind from the caller's call site
            Frame f = frames.back();
            for (size_t i = f.allocaStart; i < allocas.size(); ++i) P.mem.objs[allocas[i]].alive = 0;
            allocas.resize(f.allocaStart);
            if (frames.size() == 1) { std::string n = P.globalName.count(excType) ? P.globalName[excType] : "?"; violation("exception", "uncaught exception " + n); }
            frames.pop_back();
            fp = frames.back().base; R = &stack[fp]; sp = fp + P.funcs[frames.back().fn].nslots; pc = f.retpc;
            unwind(); break; }
        case I_LPAD: {
            const LPad &L = P.lpads[I.imm];
            uint64_t sel = 0;
            for (size_t i = 0; i < L.types.size(); ++i) {
                if (L.filter[i]) { sel = 0xffffffffu; break; }
                if (tiMatch(excType, L.types[i])) {
                    auto it = std::find(typeIds.begin(), typeIds.end(), L.types[i]);
                    if (it == typeIds.end()) { typeIds.push_back(L.types[i]); it = typeIds.end() - 1; }
                    sel = it - typeIds.begin() + 1; break;
                }
            }
            setc(I.d, excObj); setc(I.d + 1, sel);
            ++pc; break;
        }
        case I_TYPEID: {
            GA; auto it = std::find(typeIds.begin(), typeIds.end(), a.v);
            if (it == typeIds.end()) { typeIds.push_back(a.v); it = typeIds.end() - 1; }
            setc(I.d, it - typeIds.begin() + 1); ++pc; break;
        }
        case I_MEMCPY: case I_MEMMOVE: { uint64_t n = concretize(get(I.c), 64); uint64_t d = addrOf(get(I.a)), s = addrOf(get(I.b)); copyMem(d, s, n); ++pc; break; }
        case I_MEMSET: { uint64_t n = concretize(get(I.c), 64); setMem(addrOf(get(I.a)), get(I.b), n); ++pc; break; }
        case I_UMAX: case I_UMIN: case I_SMAX: case I_SMIN: {
            GA; GB; if (a.s || b.s) { symInst(I); ++pc; break; }
            bool lt = I.op >= I_SMAX ? sx(a.v, I.w) < sx(b.v, I.w) : a.v < b.v;
            bool mx = I.op == I_UMAX || I.op == I_SMAX;
            setc(I.d, lt == mx ? b.v : a.v); ++pc; break;
        }
        case I_ABS: { GA; if (a.s) symInst(I); else setc(I.d, (uint64_t)(sx(a.v, I.w) < 0 ? 0 - (uint64_t)sx(a.v, I.w) : a.v) & maskw(I.w)); ++pc; break; }
        case I_CTPOP: { GA; if (a.s) symInst(I); else setc(I.d, __builtin_popcountll(a.v)); ++pc; break; }
        case I_CTLZ: { GA; if (a.s) symInst(I); else setc(I.d, a.v ? __builtin_clzll(a.v) - (64 - I.w) : I.w); ++pc; break; }
        case I_CTTZ: { GA; if (a.s) symInst(I); else setc(I.d, a.v ? __builtin_ctzll(a.v) : I.w); ++pc; break; }
        case I_BSWAP: { GA; if (a.s) symInst(I); else setc(I.d, __builtin_bswap64(a.v) >> (64 - I.w)); ++pc; break; }
        case I_FSHL: case I_FSHR: {
            GA; GB; Val c = get(I.c);
            if (a.s || b.s || c.s) { symInst(I); ++pc; break; }
            int w = I.w, s = c.v % w; uint64_t r;
            if (I.op == I_FSHL) r = s ? (a.v << s | b.v >> (w - s)) : a.v; else r = s ? (a.v << (w - s) | b.v >> s) : b.v;
            setc(I.d, r & maskw(w)); ++pc; break;
        }
        case I_USUBSAT: case I_UADDSAT: case I_SSUBSAT: case I_SADDSAT:
        case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO:
        case I_FCOPYSIGN:
            symInst(I); ++pc; break;
        case I_SMULO: { GA; GB; if (a.s || b.s) unsup("symbolic smul overflow"); __int128 p = (__int128)sx(a.v, I.w) * sx(b.v, I.w); setc(I.d, (uint64_t)p & maskw(I.w)); setc(I.d + 1, sx((uint64_t)p & maskw(I.w), I.w) != p); ++pc; break; }
#define FB(OPC, OPE) case OPC: { GA; GB; if (a.s || b.s) symInst(I); else setc(I.d, foldF(OPE, I.w, I.w, a.v, b.v)); ++pc; break; }
            FB(I_FADD, Op::FAdd) FB(I_FSUB, Op::FSub) FB(I_FMUL, Op::FMul) FB(I_FDIV, Op::FDiv) FB(I_FREM, Op::FRem) FB(I_FMINN, Op::FMin) FB(I_FMAXN, Op::FMax)
        case I_FNEG: case I_FABS: case I_FSQRT: { GA; if (a.s) symInst(I); else setc(I.d, foldF(I.op == I_FNEG ? Op::FNeg : I.op == I_FABS ? Op::FAbs : Op::FSqrt, I.w, I.w, a.v, 0)); ++pc; break; }
        case I_FMULADD: { GA; GB; Val c = get(I.c); if (a.s || b.s || c.s) symInst(I); else setc(I.d, foldF(Op::FAdd, I.w, I.w, foldF(Op::FMul, I.w, I.w, a.v, b.v), c.v)); ++pc; break; }
        case I_FFLOOR: case I_FCEIL: case I_FTRUNC: case I_FROUND: {
            GA; if (a.s) unsup("symbolic rounding");
            double x = I.w == 32 ? (double)[&] { float f; uint32_t u = a.v; memcpy(&f, &u, 4); return f; }() : asd(a.v);
            x = I.op == I_FFLOOR ? floor(x) : I.op == I_FCEIL ? ceil(x) : I.op == I_FTRUNC ? trunc(x) : round(x);
            if (I.w == 32) { float f = x; uint32_t u; memcpy(&u, &f, 4); setc(I.d, u); } else setc(I.d, db(x));
            ++pc; break;
        }
        case I_FCMP: symInst(I); ++pc; break;
        case I_FTOSI: { GA; if (a.s) symInst(I); else setc(I.d, foldF(Op::FToSI, I.w2, I.w, a.v, 0)); ++pc; break; }
        case I_FTOUI: { GA; if (a.s) symInst(I); else setc(I.d, foldF(Op::FToUI, I.w2, I.w, a.v, 0)); ++pc; break; }
        case I_SITOF: { GA; if (a.s) symInst(I); else setc(I.d, foldF(Op::SIToF, I.w2, I.w, a.v, 0)); ++pc; break; }
        case I_UITOF: { GA; if (a.s) symInst(I); else setc(I.d, foldF(Op::UIToF, I.w2, I.w, a.v, 0)); ++pc; break; }
        case I_FTOF: { GA; if (a.s) symInst(I); else setc(I.d, foldF(Op::FToF, I.w2, I.w, a.v, 0)); ++pc; break; }
        case I_NOP: case I_STACKSAVE: ++pc; break;
        case I_UNSUP: unsup(P.msgs[I.imm]);
        default: unsup("opcode " + std::to_string(I.op));
        }
    }
}

void Interp::boot() {
    for (int c : P.ctors) {
        frames.clear(); allocas.clear(); sp = 0; fp = 0; pc = 0; nin = 0; R = &stack[0];
        try { enter(c, nullptr, -1, {}); run(); } catch (PathEnd &e) {
            if (e.why != PE_OK) { fprintf(stderr, "global constructor failed: %s %d\n", P.funcs[c].pretty.c_str(), e.why); for (auto &u : unsupMsgs) fprintf(stderr, "  %s\n", u.first.c_str()); }
        }
    }
    unsupMsgs.clear();
    P.mem.snapshot();
    st = Stats();
}

int Interp::runPath(int fn) {
    P.mem.reset();
    frames.clear(); allocas.clear(); sp = 0; fp = 0; pc = 0; nin = 0; R = &stack[0];
    pcs.clear(); model = Model(); modelOk = false; uninitCtr = 0; memset(&pcSup, 0, sizeof pcSup);
    noteE.clear(); pathReach.clear(); choiceLog.clear(); viols.clear(); excTypeOf.clear(); caught.clear(); uncaughtCount = 0; inUnwind = false;
    pos = 0; unknownCut = false;
    ++st.paths;
    int r = PE_OK;
    try { enter(fn, nullptr, -1, {}); run(); } catch (PathEnd &e) { r = e.why; }
    st.insts += nin;
    switch (r) {
    case PE_OK: ++st.ok; break;
    case PE_VIOL: break;
    case PE_UNSUP: ++st.unsup; break;
    case PE_LIMIT: ++st.limit; break;
    default: ++st.unknown;
    }
    if (modelOk && r == PE_OK && !pcs.empty() && (recent.empty())) recent.push_back(model);
    // decisions beyond 'pos' cannot exist; drop any stale tail
    decs.resize(pos);
    return r;
}
std::string Interp::sample() {
    try { ensureModel(); } catch (PathEnd &) { return ""; }
    return replayText(model);
}
bool Interp::backtrack() {
    while (decs.size() > fixedLen) {
        Dec &d = decs.back();
        if (d.kind == 1) { if (d.val + 1 < d.n) { ++d.val; return true; } }
        else if (d.open) { d.dir = !d.dir; d.open = 0; return true; }
        decs.pop_back();
    }
    return false;
}
bool Interp::donate(std::vector<Dec> &out) {
    for (size_t i = fixedLen; i < decs.size(); ++i) {
        Dec &d = decs[i];
        if (d.kind == 1 && d.val + 1 < d.n) {
            // hand over the upper half of the remaining alternatives
            uint64_t mid = d.val + 1 + (d.n - d.val - 1) / 2;
            out.assign(decs.begin(), decs.begin() + i + 1);
            for (size_t j = 0; j < i; ++j) out[j].open = 0, out[j].n = out[j].kind == 1 ? out[j].val + 1 : out[j].n;
            out[i].val = mid; out[i].n = d.n; d.n = mid;
            return true;
        }
        if (d.kind != 1 && d.open) {
            out.assign(decs.begin(), decs.begin() + i + 1);
            for (size_t j = 0; j < i; ++j) out[j].open = 0, out[j].n = out[j].kind == 1 ? out[j].val + 1 : out[j].n;
            out[i].dir = !d.dir; out[i].open = 0;
            d.open = 0;
            return true;
        }
    }
    return false;
}
} // namespace se
