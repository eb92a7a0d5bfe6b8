// Path-replaying symbolic interpreter (one path at a time, single mutable state).
#pragma once
#include "prog.hpp"
#include <map>
#include <set>

namespace se {
struct Val { uint64_t v; E s; };
struct Dec { uint8_t kind, dir, open, forced; uint32_t n; uint64_t val; };

struct PathEnd { int why; };               // 0 ok/assume, 1 violation, 2 unsupported, 3 limit
enum { PE_OK, PE_VIOL, PE_UNSUP, PE_LIMIT, PE_UNKNOWN };

struct Violation { std::string kind, label, where, replay; };

struct Stats {
    uint64_t paths = 0, ok = 0, assumed = 0, viol = 0, unsup = 0, limit = 0, unknown = 0;
    uint64_t insts = 0, forks = 0, decisions = 0, asserts = 0, assertsTrivial = 0, assertQueries = 0, branchQueries = 0, cacheHits = 0;
    uint64_t queries = 0, sat = 0, unsat = 0, qunknown = 0; double zsecs = 0;
};

class Interp {
public:
    Program &P; Stats st;
    uint8_t *blkHit, *labelDummy;
    std::map<std::string, uint64_t> reach, unsupMsgs;
    std::vector<Dec> decs; size_t pos = 0; size_t fixedLen = 0;
    std::vector<Violation> viols; // produced by the last path
    std::vector<std::string> pathReach; // reach labels and notes of the last path, in order
    std::string sample();                 // replay text of the last path ('' if no model)
    uint64_t maxInsts = 30000000; unsigned solverTimeout = 10000; bool splitSelects = false, limitIsViol = true;
    Interp(Program &p) : P(p) { stack.resize(1 << 20); }
    void boot();                          // run global ctors, snapshot
    int runPath(int func);                // returns PE_*
    bool cutPath() const { return unknownCut; }
    bool backtrack();                     // prepare next path; false when exhausted
    bool donate(std::vector<Dec> &out);   // split off the shallowest open alternative
private:
    struct Frame { int fn; int retpc; uint64_t base; int call; size_t allocaStart; };
    std::vector<Val> stack; std::vector<Frame> frames; std::vector<uint64_t> allocas;
    uint64_t fp = 0; int pc = 0; uint64_t nin = 0; Val *R = nullptr; uint64_t sp = 0;
    // path condition
    std::vector<E> pcs; Model model; bool modelOk = false, unknownCut = false; uint64_t uninitCtr = 0; Sup pcSup;
    std::vector<Model> recent;
    std::vector<std::string> notes; std::vector<std::pair<std::string, E>> noteE;
    std::vector<uint64_t> choiceLog;
    std::unordered_map<uint64_t, int> qcache; std::unordered_map<uint32_t, bool> proved;
    std::unordered_map<uint64_t, Model> qmodel;
    // exceptions
    uint64_t excObj = 0, excType = 0; bool inUnwind = false;
    std::unordered_map<uint64_t, uint64_t> excTypeOf; std::vector<uint64_t> caught; std::vector<uint64_t> typeIds;
    uint64_t uncaughtCount = 0;

    Val get(int r) const { if (r >= 0) return R[r]; return Val{P.cpool[-r - 1], nullptr}; }
    E ex(const Val &v, int w) { if (v.s) { return v.s->w == w ? v.s : v.s->w > w ? C->extract(v.s, 0, w) : C->zext(v.s, w); } return C->cst(v.v, w); }
    void set(int d, E e) { if (e->op == Op::Const) { R[d].v = e->c; R[d].s = nullptr; } else { R[d].v = 0; R[d].s = e; } }
    void setc(int d, uint64_t v) { R[d].v = v; R[d].s = nullptr; }
    void symInst(const Inst &I);
    void run();
    void takeEdge(int e);
    void doCall(const Inst &I);
    void enter(int fn, const CallInfo *ci, int callIdx, const std::vector<Val> &args);
    void doRet(const Inst &I);
    void finishCall(int callIdx);
    void unwind();
    bool builtin(int id, const CallInfo &ci, std::vector<Val> &a, const std::string &name);
    bool branch(E cond);
    uint64_t concretize(const Val &v, int w);
    uint64_t choice(uint32_t n);
    void assume(E c);
    void check(E c, const std::string &label);
    void addPC(E c) { if (c->op == Op::Const) return; pcs.push_back(c); pcSup.join(c->sup); }
    bool ensureModel();
    int feasible(E c, Model *m);
    void slice(E c, std::vector<E> &out);
    [[noreturn]] void violation(const std::string &kind, const std::string &label, const Model *m = nullptr);
    [[noreturn]] void unsup(const std::string &m);
    std::string where();
    // memory
    uint64_t addrOf(const Val &v) { return v.s ? concretize(v, 64) : v.v; }
    uint64_t chk(uint64_t a, uint64_t n, bool wr);
    Val load(uint64_t a, int w);
    void store(uint64_t a, const Val &v, int w);
    void copyMem(uint64_t d, uint64_t s, uint64_t n);
    void setMem(uint64_t d, const Val &v, uint64_t n);
    uint64_t heap(uint64_t n);
    void release(uint64_t a, const char *what);
    std::string cstr(uint64_t a);
    E byteAt(uint64_t off);
    bool tiMatch(uint64_t thrown, uint64_t want);
    void throwStd(const char *ti);
    std::string replayText(const Model &m);
    friend struct Fmt;
};
} // namespace se
