// Hash-consed bit-vector / floating-point term DAG with light simplification,
// evaluation under a model and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <z3.h>

namespace se {

enum class Op : uint8_t {
    Const, Var, UF,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat,
    FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FMin, FMax,
    FOEq, FOLt, FOLe, FUno,          // ordered compares / unordered test
    FToSI, FToUI, SIToF, UIToF, FToF,
};

struct Sup {                      // support over-approximation (var/UF ids mod 256)
    uint64_t w[4];
    bool meets(const Sup &o) const {
        return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]) | (w[3] & o.w[3]);
    }
    void join(const Sup &o) { for (int i = 0; i < 4; ++i) w[i] |= o.w[i]; }
};

struct Expr {
    Op op; uint8_t w;             // width of result in bits (1..64)
    uint8_t nk;                   // number of kids
    uint8_t fl;                   // float width of operands for F* ops
    uint8_t nb;                   // the value is below 2^nb
    uint8_t leaves;               // a tree of choices between this many constants (0: not one)
    bool nar;                     // narrow() can push a truncation to the leaves
    uint32_t id;
    uint64_t c;                   // Const value / Var id / UF id / Extract low bit
    const Expr *k[3];
    uint32_t hash;
    uint32_t size;                // saturating dag-ish size
    Sup sup;
    // evaluation memo
    mutable uint32_t estamp; mutable uint64_t eval;
    mutable Z3_ast z3;
};
typedef const Expr *E;

struct VarInfo { std::string name; int w; };

struct Model {
    std::unordered_map<uint64_t, uint64_t> vars;   // var id -> value
    struct UFI { std::unordered_map<std::string, uint64_t> tab; std::vector<std::pair<std::vector<uint64_t>, uint64_t>> rows; uint64_t other = 0; };
    std::unordered_map<uint64_t, UFI> ufs;
};

class Ctx {
public:
    Ctx();
    E cst(uint64_t v, int w);
    E var(uint64_t id, int w);                       // id: caller-chosen stable id
    E uf(uint64_t id, int w, E a, E b = nullptr, E c = nullptr);
    E bin(Op op, E a, E b);
    E eq(E a, E b);
    E cmp(Op op, E a, E b);
    E notb(E a);                                     // 1-bit
    E ite(E c, E a, E b);
    E zext(E a, int w);
    E sext(E a, int w);
    E extract(E a, int lo, int w);
    E concat(E hi, E lo);
    E narrow(E a, int n);                            // low n bits, pushed to the leaves (a->nar)
    E given(E t, E c, bool v);
    E fop(Op op, int fw, int w, E a, E b = nullptr);
    uint64_t evalE(E e, const Model &m);             // call newEval() before a batch
    void newEval() { ++estamp_; }
    // Z3
    Z3_context z() { return z_; }
    Z3_ast tr(E e);
    // verdict: 1 sat, 0 unsat, -1 unknown
    int solve(const std::vector<E> &cs, Model *m, unsigned timeout_ms);
    uint64_t nqueries = 0, nsat = 0, nunsat = 0, nunknown = 0, nhard = 0; double zsecs = 0;
    bool fp_exact = true;
    size_t nexprs() const { return n_; }
private:
    E mk(Op op, int w, uint64_t c, E a, E b, E d, int fl = 0);
    void readModel(Z3_model zm, const std::vector<E> &cs, Model *m);
    void setTimeout(Z3_solver s, unsigned ms);
    int finish(Z3_solver s, Z3_lbool r, const std::vector<E> &cs, Model *m);
    Z3_context z_; Z3_solver sol_;
    std::vector<Expr *> tab_; size_t n_ = 0;
    uint32_t nextid_ = 1; uint32_t estamp_ = 0;
    std::vector<char *> blocks_; size_t bpos_ = 0;
    std::unordered_map<uint64_t, Z3_func_decl> ufd_, fpd_;
    std::vector<uint64_t> uflist_;
    Expr *alloc();
    void grow();
    Z3_ast toBool(E e);
    std::unordered_map<uint32_t, Z3_ast> boolz_;
    std::unordered_map<uint64_t, E> narm_;
    struct FM { Op op; E a, b, r; };
    std::unordered_map<uint64_t, FM> fopm_;
    Z3_sort fsort(int fw);
    Z3_ast fterm(E e, int fw);
    Z3_ast fpuf(E e);
};

extern Ctx *C;
std::string show(E e, int depth = 6);
inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }
uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w, bool &ok);
uint64_t foldF(Op op, int fw, int w, uint64_t a, uint64_t b);
} // namespace se
