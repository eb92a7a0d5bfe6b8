// Dense reference model of GraphBLAS objects, symbolic object generators and the comparison
// against the library's public observers.
#pragma once
#include "sym.h"
#include <graphblas/graphblas.hpp>
#include <vector>

typedef uint64_t u64;
typedef grb::IndexType Ix;

// ---- generic (uninterpreted) operators: the solver quantifies over every function -------
template <int ID, class T = u64> struct UF1 { T operator()(T a) const { return (T)sym_uf1(ID, (u64)a); } };
template <int ID, class T = u64> struct UF2 { T operator()(T a, T b) const { return (T)sym_uf2(ID, (u64)a, (u64)b); } };
template <class T = u64> struct AddMonoid { typedef T result_type; typedef T lhs_type; typedef T rhs_type; T identity() const { return (T)0; } T operator()(T a, T b) const { return (T)(a + b); } };
enum { UF_MULT = 1, UF_ACC = 2, UF_UN = 3, UF_BIN = 4, UF_X = 5 };
typedef UF2<UF_MULT> Mult; typedef UF2<UF_ACC> Acc; typedef UF1<UF_UN> Un; typedef UF2<UF_BIN> Bin;
// semiring: + modulo 2^64 (a commutative monoid) with an arbitrary, non-commutative multiply
struct Ring {
    typedef u64 ScalarType; typedef u64 result_type;
    u64 zero() const { return 0; }
    u64 add(u64 a, u64 b) const { return a + b; }
    u64 mult(u64 a, u64 b) const { return sym_uf2(UF_MULT, a, b); }
};

template <class T> struct DM {
    int r, c; bool p[48]; T v[48];
    DM(int r, int c) : r(r), c(c) { for (int i = 0; i < 48; ++i) { p[i] = false; v[i] = T(); } }
    bool &P(int i, int j) { return p[i * c + j]; }
    T &V(int i, int j) { return v[i * c + j]; }
    bool P(int i, int j) const { return p[i * c + j]; }
    T V(int i, int j) const { return v[i * c + j]; }
    void set(int i, int j, T x) { p[i * c + j] = true; v[i * c + j] = x; }
    int count() const { int n = 0; for (int i = 0; i < r * c; ++i) n += p[i]; return n; }
    DM T_() const { DM t(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { t.P(j, i) = P(i, j); t.V(j, i) = V(i, j); } return t; }
};
template <class T> struct DV {
    int n; bool p[16]; T v[16];
    DV(int n) : n(n) { for (int i = 0; i < 16; ++i) { p[i] = false; v[i] = T(); } }
    void set(int i, T x) { p[i] = true; v[i] = x; }
    int count() const { int k = 0; for (int i = 0; i < n; ++i) k += p[i]; return k; }
};
enum { G_ANY, G_FULL, G_EMPTY, G_LEX };
template <class T> struct Width { enum { w = sizeof(T) * 8 }; };
template <> struct Width<bool> { enum { w = 1 }; };
template <class T> T symv(u64 id) { return (T)sym_bits(id, Width<T>::w); }
template <> inline double symv<double>(u64 id) { u64 b = sym_bits(id, 64); double d; __builtin_memcpy(&d, &b, 8); return d; }
template <class T> bool eqv(T a, T b) { return a == b; }
inline bool eqv(double a, double b) { return __builtin_memcmp(&a, &b, 8) == 0; }   // NaN == NaN
// symbolic presence bit, path-split at once
inline bool symp(u64 id) { return sym_concrete(sym_bits(id, 1)) != 0; }
// object number 'o' (stable value ids), presence per entry by nondeterministic choice
template <class T> DM<T> genM(int o, int r, int c, int mode = G_ANY) {
    DM<T> d(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
        d.V(i, j) = symv<T>(o * 1000 + i * 30 + j);
        d.P(i, j) = mode == G_ANY ? symp(o * 1000 + 500 + i * 20 + j) : mode == G_FULL;
    }
    return d;
}
// presence restricted to a bit pattern
template <class T> DM<T> genMp(int o, int r, int c, unsigned pattern) {
    DM<T> d(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { d.V(i, j) = symv<T>(o * 1000 + i * 30 + j); d.P(i, j) = (pattern >> (i * c + j)) & 1; }
    return d;
}
template <class T> DV<T> genV(int o, int n, int mode = G_ANY) {
    DV<T> d(n);
    for (int i = 0; i < n; ++i) { d.v[i] = symv<T>(o * 1000 + i); d.p[i] = mode == G_ANY ? symp(o * 1000 + 500 + i) : mode == G_FULL; }
    return d;
}
template <class T> grb::Matrix<T> mk(DM<T> const &d) {
    grb::Matrix<T> m(d.r, d.c);
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if (d.P(i, j)) m.setElement(i, j, d.V(i, j));
    return m;
}
template <class T> grb::Vector<T> mk(DV<T> const &d) {
    grb::Vector<T> m(d.n);
    for (int i = 0; i < d.n; ++i) if (d.p[i]) m.setElement(i, d.v[i]);
    return m;
}
// the whole observable content: dimensions, nvals, and the stored elements in order (row-major / ascending)
template <class T, class M> void same(M const &m, DM<T> const &d, const char *structure, const char *value) {
    sym_assert(m.nrows() == (Ix)d.r && m.ncols() == (Ix)d.c, structure);
    Ix ri[64], ci[64]; T v[64]; int n = d.count(), k = 0;
    sym_assert(m.nvals() == (Ix)n, structure);
    for (int q = 0; q <= n; ++q) ri[q] = ~(Ix)0;
    m.extractTuples(&ri[0], &ci[0], &v[0]);
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if (d.P(i, j)) {
        sym_assert(ri[k] == (Ix)i && ci[k] == (Ix)j, structure);
        sym_assert(eqv(v[k], d.V(i, j)), value); ++k;
    }
    sym_assert(ri[n] == ~(Ix)0, structure);
}
template <class T, class M> void same(M const &m, DV<T> const &d, const char *structure, const char *value) {
    sym_assert(m.size() == (Ix)d.n, structure);
    Ix ix[32]; T v[32]; int n = d.count(), k = 0;
    sym_assert(m.nvals() == (Ix)n, structure);
    for (int q = 0; q <= n; ++q) ix[q] = ~(Ix)0;
    m.extractTuples(&ix[0], &v[0]);
    for (int i = 0; i < d.n; ++i) if (d.p[i]) { sym_assert(ix[k] == (Ix)i, structure); sym_assert(eqv(v[k], d.v[i]), value); ++k; }
    sym_assert(ix[n] == ~(Ix)0, structure);
}
// the same content through hasElement / extractElement
template <class T, class M> void sameElements(M const &m, DM<T> const &d, const char *structure, const char *value) {
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) {
        bool h = m.hasElement(i, j);
        sym_assert(h == d.P(i, j), structure);
        if (h) sym_assert(eqv((T)m.extractElement(i, j), d.V(i, j)), value);
    }
}
template <class T, class M> void sameElements(M const &m, DV<T> const &d, const char *structure, const char *value) {
    for (int i = 0; i < d.n; ++i) {
        bool h = m.hasElement(i);
        sym_assert(h == d.p[i], structure);
        if (h) sym_assert(eqv((T)m.extractElement(i), d.v[i]), value);
    }
}
#define NO_THROW(label, stmt) try { stmt; } catch (...) { sym_fail(label); }
#define ENTRY extern "C" __attribute__((visibility("default"))) void

// ---- masks -------------------------------------------------------------------------------
enum { MK_NONE, MK_VALUE, MK_COMP, MK_STRUCT, MK_SCOMP };
template <class T> bool allow(DM<T> const &m, int kind, int i, int j) {
    switch (kind) { case MK_VALUE: return m.P(i, j) && (bool)m.V(i, j); case MK_COMP: return !(m.P(i, j) && (bool)m.V(i, j)); case MK_STRUCT: return m.P(i, j); case MK_SCOMP: return !m.P(i, j); }
    return true;
}
template <class T> bool allow(DV<T> const &m, int kind, int i) {
    switch (kind) { case MK_VALUE: return m.p[i] && (bool)m.v[i]; case MK_COMP: return !(m.p[i] && (bool)m.v[i]); case MK_STRUCT: return m.p[i]; case MK_SCOMP: return !m.p[i]; }
    return true;
}
template <class M, class F> void withMask(int kind, M const &m, F f) {
    switch (kind) {
    case MK_NONE: f(grb::NoMask()); break;
    case MK_VALUE: f(m); break;
    case MK_COMP: f(grb::complement(m)); break;
    case MK_STRUCT: f(grb::structure(m)); break;
    default: f(grb::complement(grb::structure(m))); break;
    }
}
template <class F> void withAccum(bool acc, F f) { if (acc) f(Acc()); else f(grb::NoAccumulate()); }
template <class M, class F> void withT(bool t, M const &m, F f) { if (t) f(grb::transpose(m)); else f(m); }

// write-back: Z = accum ? C (.)+ T : T ; C<mask,replace> = Z
template <class T, class MT> DM<T> writeBack(DM<T> const &C, DM<T> const &Tm, DM<MT> const &M, int kind, bool acc, bool replace) {
    DM<T> o(C.r, C.c);
    for (int i = 0; i < C.r; ++i) for (int j = 0; j < C.c; ++j) {
        if (allow(M, kind, i, j)) {
            if (acc) {
                if (C.P(i, j) && Tm.P(i, j)) o.set(i, j, Acc()(C.V(i, j), Tm.V(i, j)));
                else if (C.P(i, j)) o.set(i, j, C.V(i, j));
                else if (Tm.P(i, j)) o.set(i, j, Tm.V(i, j));
            } else if (Tm.P(i, j)) o.set(i, j, Tm.V(i, j));
        } else if (!replace && C.P(i, j)) o.set(i, j, C.V(i, j));
    }
    return o;
}
template <class T, class MT> DV<T> writeBack(DV<T> const &C, DV<T> const &Tm, DV<MT> const &M, int kind, bool acc, bool replace) {
    DV<T> o(C.n);
    for (int i = 0; i < C.n; ++i) {
        if (allow(M, kind, i)) {
            if (acc) {
                if (C.p[i] && Tm.p[i]) o.set(i, Acc()(C.v[i], Tm.v[i]));
                else if (C.p[i]) o.set(i, C.v[i]);
                else if (Tm.p[i]) o.set(i, Tm.v[i]);
            } else if (Tm.p[i]) o.set(i, Tm.v[i]);
        } else if (!replace && C.p[i]) o.set(i, C.v[i]);
    }
    return o;
}

// ---- one masked/accumulated operation against the model ----------------------------------
// call(C, mask, accum, outp) runs the real operation; T is the model's internal result.
template <class F> void runM(DM<u64> const &T, int nkinds, int naccum, int nrep, int cmode, F call) {
    int kind = sym_choice(nkinds), acc = sym_choice(naccum), rep = sym_choice(nrep);
    sym_note("mask", kind); sym_note("accum", acc); sym_note("replace", rep);
    DM<u64> Cd = genM<u64>(7, T.r, T.c, cmode);
    DM<bool> Md = genM<bool>(8, T.r, T.c, kind == MK_NONE ? G_EMPTY : G_ANY);
    auto C = mk(Cd); auto M = mk(Md);
    grb::OutputControlEnum outp = rep ? grb::REPLACE : grb::MERGE;
    withMask(kind, M, [&](auto const &mask) { withAccum(acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(C, mask, ac, outp)); }); });
    same(C, writeBack(Cd, T, Md, kind, acc, rep), "stored structure of the result", "stored value of the result");
}
template <class F> void runV(DV<u64> const &T, int nkinds, int naccum, int nrep, int cmode, F call) {
    int kind = sym_choice(nkinds), acc = sym_choice(naccum), rep = sym_choice(nrep);
    sym_note("mask", kind); sym_note("accum", acc); sym_note("replace", rep);
    DV<u64> Cd = genV<u64>(7, T.n, cmode);
    DV<bool> Md = genV<bool>(8, T.n, kind == MK_NONE ? G_EMPTY : G_ANY);
    auto C = mk(Cd); auto M = mk(Md);
    grb::OutputControlEnum outp = rep ? grb::REPLACE : grb::MERGE;
    withMask(kind, M, [&](auto const &mask) { withAccum(acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(C, mask, ac, outp)); }); });
    same(C, writeBack(Cd, T, Md, kind, acc, rep), "stored structure of the result", "stored value of the result");
}
// unmasked, un-accumulated run into an output that holds old content
template <class F> void plainM(DM<u64> const &T, F call) {
    DM<u64> Cd = genM<u64>(7, T.r, T.c, sym_choice(2) ? G_FULL : G_EMPTY);
    auto C = mk(Cd);
    NO_THROW("operation throws on valid arguments", call(C, grb::NoMask(), grb::NoAccumulate(), grb::MERGE));
    same(C, T, "stored structure of the result", "stored value of the result");
}
template <class F> void plainV(DV<u64> const &T, F call) {
    DV<u64> Cd = genV<u64>(7, T.n, sym_choice(2) ? G_FULL : G_EMPTY);
    auto C = mk(Cd);
    NO_THROW("operation throws on valid arguments", call(C, grb::NoMask(), grb::NoAccumulate(), grb::MERGE));
    same(C, T, "stored structure of the result", "stored value of the result");
}
// ---- reference operations ------------------------------------------------------------------
inline DM<u64> refMxm(DM<u64> const &A, DM<u64> const &B) {
    DM<u64> T(A.r, B.c);
    for (int i = 0; i < A.r; ++i) for (int j = 0; j < B.c; ++j) for (int k = 0; k < A.c; ++k)
        if (A.P(i, k) && B.P(k, j)) { u64 m = Ring().mult(A.V(i, k), B.V(k, j)); T.set(i, j, T.P(i, j) ? T.V(i, j) + m : m); }
    return T;
}
inline DV<u64> refMxv(DM<u64> const &A, DV<u64> const &u) {
    DV<u64> T(A.r);
    for (int i = 0; i < A.r; ++i) for (int k = 0; k < A.c; ++k)
        if (A.P(i, k) && u.p[k]) { u64 m = Ring().mult(A.V(i, k), u.v[k]); T.set(i, T.p[i] ? T.v[i] + m : m); }
    return T;
}
inline DV<u64> refVxm(DV<u64> const &u, DM<u64> const &A) {
    DV<u64> T(A.c);
    for (int j = 0; j < A.c; ++j) for (int k = 0; k < A.r; ++k)
        if (A.P(k, j) && u.p[k]) { u64 m = Ring().mult(u.v[k], A.V(k, j)); T.set(j, T.p[j] ? T.v[j] + m : m); }
    return T;
}
template <class O> DM<u64> refEwise(DM<u64> const &A, DM<u64> const &B, bool add, O op) {
    DM<u64> T(A.r, A.c);
    for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) {
        if (A.P(i, j) && B.P(i, j)) T.set(i, j, op(A.V(i, j), B.V(i, j)));
        else if (add && A.P(i, j)) T.set(i, j, A.V(i, j));
        else if (add && B.P(i, j)) T.set(i, j, B.V(i, j));
    }
    return T;
}
template <class O> DV<u64> refEwise(DV<u64> const &A, DV<u64> const &B, bool add, O op) {
    DV<u64> T(A.n);
    for (int i = 0; i < A.n; ++i) {
        if (A.p[i] && B.p[i]) T.set(i, op(A.v[i], B.v[i]));
        else if (add && A.p[i]) T.set(i, A.v[i]);
        else if (add && B.p[i]) T.set(i, B.v[i]);
    }
    return T;
}
