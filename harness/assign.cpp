#include "model.hpp"
#ifndef TR
#define TR 0
#endif
#ifndef KIND
#define KIND 0
#endif
static constexpr bool TA = TR & 1;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
typedef std::vector<Ix> IV;
// n distinct indices below bound in any order (repeated indices have no defined meaning in assign)
static IV idx(int n, int bound, const char *nm) {
    IV v;
    for (int i = 0; i < n; ++i) { Ix x = sym_choice(bound); for (Ix y : v) sym_assume(x != y); v.push_back(x); sym_note(nm, x); }
    return v;
}
static IV all(int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static IV range(int lo, int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(lo + i); return v; }
static int at(IV const &v, int x) { for (size_t i = 0; i < v.size(); ++i) if ((int)v[i] == x) return i; return -1; }
// Z = C with C(ix) replaced by (accumulated with) the source
static DV<u64> zed(DV<u64> const &C, IV const &ix, DV<u64> const &U, bool acc) {
    DV<u64> Z(C.n);
    for (int i = 0; i < C.n; ++i) {
        int k = at(ix, i);
        if (k < 0) { if (C.p[i]) Z.set(i, C.v[i]); }
        else if (acc) {
            if (C.p[i] && U.p[k]) Z.set(i, Acc()(C.v[i], U.v[k])); else if (C.p[i]) Z.set(i, C.v[i]); else if (U.p[k]) Z.set(i, U.v[k]);
        } else if (U.p[k]) Z.set(i, U.v[k]);
    }
    return Z;
}
static DM<u64> zed(DM<u64> const &C, IV const &r, IV const &c, DM<u64> const &A, bool acc) {
    DM<u64> Z(C.r, C.c);
    for (int i = 0; i < C.r; ++i) for (int j = 0; j < C.c; ++j) {
        int k = at(r, i), l = at(c, j);
        if (k < 0 || l < 0) { if (C.P(i, j)) Z.set(i, j, C.V(i, j)); }
        else if (acc) {
            if (C.P(i, j) && A.P(k, l)) Z.set(i, j, Acc()(C.V(i, j), A.V(k, l))); else if (C.P(i, j)) Z.set(i, j, C.V(i, j)); else if (A.P(k, l)) Z.set(i, j, A.V(k, l));
        } else if (A.P(k, l)) Z.set(i, j, A.V(k, l));
    }
    return Z;
}
template <class F> void doV(int n, bool masked, F f, IV const &ix, DV<u64> const &U) {   // f(w, mask, acc, outp)
    int kind = masked ? sym_choice(5) : 0, acc = sym_choice(2), rep = masked ? sym_choice(2) : 0;
    sym_note("mask", kind); sym_note("accum", acc); sym_note("replace", rep);
    DV<u64> Cd = genV<u64>(7, n); DV<bool> Md = genV<bool>(8, n, kind == MK_NONE ? G_EMPTY : G_ANY);
    auto C = mk(Cd); auto M = mk(Md);
    grb::OutputControlEnum o = rep ? grb::REPLACE : grb::MERGE;
    withMask(kind, M, [&](auto const &m) { withAccum(acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", f(C, m, ac, o)); }); });
    same(C, writeBack(Cd, zed(Cd, ix, U, acc), Md, kind, false, rep), "stored structure of the result", "stored value of the result");
}
template <class F> void doM(int r, int c, bool masked, F f, IV const &ri, IV const &ci, DM<u64> const &A) {
    int kind = masked ? sym_choice(5) : 0, acc = sym_choice(2), rep = masked ? sym_choice(2) : 0;
    sym_note("mask", kind); sym_note("accum", acc); sym_note("replace", rep);
    DM<u64> Cd = genM<u64>(7, r, c); DM<bool> Md = genM<bool>(8, r, c, kind == MK_NONE ? G_EMPTY : G_ANY);
    auto C = mk(Cd); auto M = mk(Md);
    grb::OutputControlEnum o = rep ? grb::REPLACE : grb::MERGE;
    withMask(kind, M, [&](auto const &m) { withAccum(acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", f(C, m, ac, o)); }); });
    same(C, writeBack(Cd, zed(Cd, ri, ci, A, acc), Md, kind, false, rep), "stored structure of the result", "stored value of the result");
}
#if KIND == 0  // vector into vector
static void vec(bool masked) {
    static const int S[][2] = {{3, 2}, {2, 2}, {3, 1}, {4, 3}, {3, 3}};   // w.size, u.size
    int s = masked ? sym_choice(3) : sym_choice(5), how = sym_choice(3), n = S[s][0], k = S[s][1];
    if (how == 1) k = n;
    DV<u64> U = genV<u64>(1, k); auto u = mk(U);
    auto go = [&](auto const &ix, IV const &iv) { doV(n, masked, [&](auto &C, auto const &m, auto ac, auto o) { grb::assign(C, m, ac, u, ix, o); }, iv, U); };
    if (how == 0) { IV iv = idx(k, n, "index"); go(iv, iv); }
    else if (how == 1) go(grb::AllIndices(), all(n));
    else { int lo = sym_choice(n - k + 1); go(grb::IndexSequenceRange(lo, lo + k), range(lo, k)); }
    same(u, U, "input unchanged", "input unchanged");
}
ENTRY chk_vec() { vec(false); sym_reach("vec"); }
ENTRY chk_vec_masked() { vec(true); sym_reach("vec masked"); }
#elif KIND == 1  // matrix into matrix
static DM<u64> gA(int r, int c) { return TA ? genM<u64>(1, c, r) : genM<u64>(1, r, c); }
static DM<u64> op(DM<u64> const &A) { return TA ? A.T_() : A; }
static void mat(bool masked) {
    static const int S[][4] = {{2, 2, 2, 1}, {2, 2, 1, 2}, {1, 3, 1, 2}, {2, 3, 1, 3}, {3, 2, 2, 1}, {2, 2, 2, 2}};  // C dims, A dims
#ifdef THOROUGH
    static const int SM[][4] = {{2, 2, 1, 1}, {1, 3, 1, 2}, {3, 1, 2, 1}};
#else
    static const int SM[][4] = {{1, 2, 1, 1}, {1, 3, 1, 1}, {2, 1, 2, 1}};
#endif
    int s = sym_choice(masked ? 3 : 6), how = sym_choice(masked ? 2 : 4);
    const int *d = masked ? SM[s] : S[s];
    int ar = d[2], ac = d[3];
    if (how & 1) ar = d[0];
    if (how & 2) ac = d[1];
    if (ar * ac > 4) sym_assume(false);
    DM<u64> A = gA(ar, ac); auto a = mk(A);
    auto go = [&](auto const &ri, auto const &ci, IV const &r, IV const &c) {
        doM(d[0], d[1], masked, [&](auto &C, auto const &m, auto acc, auto o) { grb::assign(C, m, acc, view<TA>(a), ri, ci, o); }, r, c, op(A));
    };
    grb::AllIndices AI;
    if (how == 0) { IV r = idx(ar, d[0], "row"), c = idx(ac, d[1], "col"); go(r, c, r, c); }
    else if (how == 1) { IV c = idx(ac, d[1], "col"); go(AI, c, all(d[0]), c); }
    else if (how == 2) { IV r = idx(ar, d[0], "row"); go(r, AI, r, all(d[1])); }
    else go(AI, AI, all(d[0]), all(d[1]));
    same(a, A, "input unchanged", "input unchanged");
}
ENTRY chk_mat() { mat(false); sym_reach("mat"); }
ENTRY chk_mat_masked() { mat(true); sym_reach("mat masked"); }
#elif KIND == 2  // row / column of a matrix; mask and replace reach that row/column only
static void line(bool row, bool masked) {
    static const int S[][3] = {{2, 2, 2}, {2, 3, 2}, {3, 2, 1}, {1, 2, 1}};   // C dims (across, along), u size
    #ifdef THOROUGH
    int s = sym_choice(masked ? 2 : 4), how = sym_choice(2);
#else
    int s = sym_choice(masked ? 1 : 4), how = sym_choice(2);
#endif
    int X = S[s][0], L = S[s][1], k = how ? L : S[s][2];
    DV<u64> U = genV<u64>(1, k); auto u = mk(U);
    Ix x = sym_choice(X); sym_note("line", x);
    int kind = masked ? sym_choice(5) : 0, acc = sym_choice(2), rep = masked ? sym_choice(2) : 0;
    sym_note("mask", kind); sym_note("accum", acc); sym_note("replace", rep);
    int rr = row ? X : L, cc = row ? L : X, other = sym_choice(2);   // the other lines: all stored or all empty
    DM<u64> Cd(rr, cc);
    for (int i = 0; i < rr; ++i) for (int j = 0; j < cc; ++j) {
        Cd.V(i, j) = symv<u64>(7000 + i * 30 + j);
        Cd.P(i, j) = (row ? i : j) == (int)x ? symp(7500 + i * 20 + j) : other;
    }
    DV<bool> Md = genV<bool>(8, L, kind == MK_NONE ? G_EMPTY : G_ANY);
    auto C = mk(Cd); auto M = mk(Md);
    grb::OutputControlEnum o = rep ? grb::REPLACE : grb::MERGE;
    IV iv = how ? all(L) : idx(k, L, "index");
    auto go = [&](auto const &ix) {
        withMask(kind, M, [&](auto const &m) { withAccum(acc, [&](auto ac) {
            if (row) { NO_THROW("operation throws on valid arguments", grb::assign(C, m, ac, u, x, ix, o)); }
            else { NO_THROW("operation throws on valid arguments", grb::assign(C, m, ac, u, ix, x, o)); } }); });
    };
    if (how) go(grb::AllIndices()); else go(iv);
    DV<u64> cl(L);
    for (int i = 0; i < L; ++i) { int r = row ? x : i, c = row ? i : x; if (Cd.P(r, c)) cl.set(i, Cd.V(r, c)); }
    DV<u64> nl = writeBack(cl, zed(cl, iv, U, acc), Md, kind, false, rep);
    for (int i = 0; i < L; ++i) { int r = row ? x : i, c = row ? i : x; Cd.P(r, c) = nl.p[i]; Cd.V(r, c) = nl.v[i]; }
    same(C, Cd, "stored structure of the result", "stored value of the result");
    same(u, U, "input unchanged", "input unchanged");
}
ENTRY chk_row() { line(true, false); sym_reach("row assign"); }
ENTRY chk_row_masked() { line(true, true); sym_reach("row masked"); }
ENTRY chk_col() { line(false, false); sym_reach("col assign"); }
ENTRY chk_col_masked() { line(false, true); sym_reach("col masked"); }
#else  // a constant
static u64 K() { return sym_bits(5, 64); }
// indices of a constant assignment may repeat and be in any order: the effect is the same
static IV idxd(int n, int bound, const char *nm) { IV v; for (int i = 0; i < n; ++i) { v.push_back(sym_choice(bound)); sym_note(nm, v.back()); } return v; }
static void vec(bool masked) {
    static const int S[][2] = {{3, 2}, {2, 2}, {4, 3}};
    int s = sym_choice(masked ? 2 : 3), how = sym_choice(3), n = S[s][0], k = S[s][1];
    DV<u64> U(16); for (int i = 0; i < 16; ++i) U.set(i, K());
    auto go = [&](auto const &ix, IV const &iv) { doV(n, masked, [&](auto &C, auto const &m, auto ac, auto o) { grb::assign(C, m, ac, K(), ix, o); }, iv, U); };
    if (how == 0) { IV iv = idxd(k, n, "index"); go(iv, iv); }
    else if (how == 1) go(grb::AllIndices(), all(n));
    else { int lo = sym_choice(n - k + 1); go(grb::IndexSequenceRange(lo, lo + k), range(lo, k)); }
}
static void mat(bool masked) {
    static const int S[][4] = {{2, 2, 2, 1}, {2, 2, 1, 2}, {2, 3, 1, 3}, {3, 2, 2, 1}, {2, 2, 2, 2}};
#ifdef THOROUGH
    static const int SM[][4] = {{2, 2, 1, 1}, {1, 3, 1, 2}, {3, 1, 2, 1}};
#else
    static const int SM[][4] = {{1, 2, 1, 2}, {1, 3, 1, 2}, {2, 1, 1, 1}};
#endif
    int s = sym_choice(masked ? 3 : 5), how = sym_choice(4);
    const int *d = masked ? SM[s] : S[s];
    DM<u64> U(4, 4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) U.set(i, j, K());
    auto go = [&](auto const &ri, auto const &ci, IV const &r, IV const &c) {
        doM(d[0], d[1], masked, [&](auto &C, auto const &m, auto acc, auto o) { grb::assign(C, m, acc, K(), ri, ci, o); }, r, c, U);
    };
    grb::AllIndices AI;
    if (how == 0) { IV r = idxd(d[2], d[0], "row"), c = idxd(d[3], d[1], "col"); go(r, c, r, c); }
    else if (how == 1) { IV c = idxd(d[3], d[1], "col"); go(AI, c, all(d[0]), c); }
    else if (how == 2) { IV r = idxd(d[2], d[0], "row"); go(r, AI, r, all(d[1])); }
    else go(AI, AI, all(d[0]), all(d[1]));
}
ENTRY chk_vec() { vec(false); sym_reach("vec"); }
ENTRY chk_vec_masked() { vec(true); sym_reach("vec masked"); }
ENTRY chk_mat() { mat(false); sym_reach("mat"); }
ENTRY chk_mat_masked() { mat(true); sym_reach("mat masked"); }
#endif
