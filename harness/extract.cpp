#include "model.hpp"
#ifndef TR
#define TR 0
#endif
#ifndef KIND
#define KIND 0
#endif
static constexpr bool TA = TR & 1;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
typedef std::vector<Ix> IV;
// n arbitrary indices below bound: any order, duplicates allowed
static IV idx(int n, int bound, const char *nm) {
    IV v; for (int i = 0; i < n; ++i) { v.push_back(sym_choice(bound)); sym_note(nm, v.back()); } return v;
}
#ifdef THOROUGH
#define few idx
#else   // masked runs sample two index lists: reversed, and the last index repeated
static IV few(int n, int bound, const char *nm) { int k = sym_choice(2); IV v; for (int i = 0; i < n; ++i) v.push_back(k ? bound - 1 : (bound - 1 - i % bound)); return v; }
#endif
static IV all(int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static IV range(int lo, int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(lo + i); return v; }
static DV<u64> ref(DV<u64> const &u, IV const &ix) { DV<u64> T(ix.size()); for (size_t i = 0; i < ix.size(); ++i) if (u.p[ix[i]]) T.set(i, u.v[ix[i]]); return T; }
static DM<u64> ref(DM<u64> const &A, IV const &r, IV const &c) {
    DM<u64> T(r.size(), c.size());
    for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) if (A.P(r[i], c[j])) T.set(i, j, A.V(r[i], c[j]));
    return T;
}
static DV<u64> refc(DM<u64> const &A, IV const &r, int c) { DV<u64> T(r.size()); for (size_t i = 0; i < r.size(); ++i) if (A.P(r[i], c)) T.set(i, A.V(r[i], c)); return T; }
static DM<u64> gA(int r, int c) { return TA ? genM<u64>(1, c, r) : genM<u64>(1, r, c); }
static DM<u64> op(DM<u64> const &A) { return TA ? A.T_() : A; }
#if KIND == 0   // vector
static void vec(bool masked) {
    static const int S[][2] = {{3, 2}, {2, 3}, {1, 2}, {4, 3}, {3, 1}};   // u.size, w.size
    int s = masked ? sym_choice(2) : sym_choice(5), how = sym_choice(3);
    int n = S[s][0], k = S[s][1];
    DV<u64> U = genV<u64>(1, n); auto u = mk(U);
    auto go = [&](auto const &ix, IV const &iv) {
        auto call = [&](auto &C, auto const &m, auto acc, auto o) { grb::extract(C, m, acc, u, ix, o); };
        if (masked) runV(ref(U, iv), 5, 2, 2, G_ANY, call); else plainV(ref(U, iv), call);
    };
    if (how == 0) { IV iv = masked ? few(k, n, "index") : idx(k, n, "index"); go(iv, iv); }
    else if (how == 1) go(grb::AllIndices(), all(n));
    else { int lo = sym_choice(n), m = 1 + sym_choice(n - lo); go(grb::IndexSequenceRange(lo, lo + m), range(lo, m)); }
    same(u, U, "input unchanged", "input unchanged");
}
ENTRY chk_vec() { vec(false); sym_reach("vec"); }
ENTRY chk_vec_masked() { vec(true); sym_reach("vec masked"); }
// any single stored position across the bitmap words of a long vector
ENTRY chk_vec_long() {
    Ix p = sym_bits(900, 64), q = sym_bits(901, 64); sym_assume(p < 130 && q < 130);
    p = sym_concrete(p) ;
    u64 x = sym_bits(1, 64);
    grb::Vector<u64> u(130); u.setElement(p, x);
    grb::Vector<u64> w(2); w.setElement(1, 7);
    static const int Q[] = {0, 1, 62, 63, 64, 65, 127, 128, 129};
    IV ix{(Ix)Q[sym_choice(9)], p};
    NO_THROW("operation throws on valid arguments", grb::extract(w, grb::NoMask(), grb::NoAccumulate(), u, ix));
    sym_assert(w.hasElement(0) == (ix[0] == p), "stored structure of the result");
    sym_assert(w.hasElement(1) && w.extractElement(1) == x, "stored value of the result");
    sym_reach("vec long");
}
#elif KIND == 1  // matrix
static void mat(bool masked) {
    static const int S[][4] = {{2, 2, 2, 2}, {1, 3, 2, 2}, {3, 2, 1, 2}, {2, 3, 2, 1}, {3, 1, 2, 1}};  // A dims, C dims
    static const int SM[][4] = {{2, 2, 1, 2}, {2, 2, 2, 1}, {1, 3, 1, 2}};
    int s = masked ? sym_choice(3) : sym_choice(5), how = sym_choice(masked ? 2 : 4);
    const int *d = masked ? SM[s] : S[s];
    DM<u64> A = gA(d[0], d[1]); auto a = mk(A);
    auto go = [&](auto const &ri, auto const &ci, IV const &r, IV const &c) {
        auto call = [&](auto &C, auto const &m, auto acc, auto o) { grb::extract(C, m, acc, view<TA>(a), ri, ci, o); };
        if (masked) runM(ref(op(A), r, c), 5, 2, 2, G_ANY, call); else plainM(ref(op(A), r, c), call);
    };
    grb::AllIndices AI;
    if (how == 0) { IV r = masked ? few(d[2], d[0], "row") : idx(d[2], d[0], "row"), c = masked ? few(d[3], d[1], "col") : idx(d[3], d[1], "col"); go(r, c, r, c); }
    else if (how == 1) { IV c = idx(masked ? 1 : d[3], d[1], "col"); go(AI, c, all(d[0]), c); }
    else if (how == 2) { IV r = idx(d[2], d[0], "row"); go(r, AI, r, all(d[1])); }
    else go(AI, AI, all(d[0]), all(d[1]));
    same(a, A, "input unchanged", "input unchanged");
}
ENTRY chk_mat() { mat(false); sym_reach("mat"); }
ENTRY chk_mat_masked() { mat(true); sym_reach("mat masked"); }
#else  // column (row with transpose)
static void col(bool masked) {
    static const int S[][3] = {{2, 2, 2}, {3, 2, 2}, {2, 3, 3}, {3, 1, 2}, {1, 3, 2}};   // A dims, w size
#ifdef THOROUGH
    int s = masked ? sym_choice(2) : sym_choice(5), how = sym_choice(2);
#else
    int s = masked ? 3 + sym_choice(2) : sym_choice(5), how = sym_choice(2);
#endif
    const int *d = S[s];
    DM<u64> A = gA(d[0], d[1]); auto a = mk(A);
    Ix j = sym_choice(d[1]); sym_note("column", j);
    auto go = [&](auto const &ri, IV const &r) {
        auto call = [&](auto &C, auto const &m, auto acc, auto o) { grb::extract(C, m, acc, view<TA>(a), ri, j, o); };
        if (masked) runV(refc(op(A), r, j), 5, 2, 2, G_ANY, call); else plainV(refc(op(A), r, j), call);
    };
    if (how == 0) { IV r = masked ? few(d[2], d[0], "row") : idx(d[2], d[0], "row"); go(r, r); } else go(grb::AllIndices(), all(d[0]));
    same(a, A, "input unchanged", "input unchanged");
}
ENTRY chk_col() { col(false); sym_reach("col"); }
ENTRY chk_col_masked() { col(true); sym_reach("col masked"); }
#endif
