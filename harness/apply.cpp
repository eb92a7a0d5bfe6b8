#include "model.hpp"
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<u64> tt(DM<u64> const &d) { return TA ? d.T_() : d; }
template <class F> DM<u64> mapM(DM<u64> d, F f) { for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if (d.P(i, j)) d.V(i, j) = f(d.V(i, j)); return d; }
template <class F> DV<u64> mapV(DV<u64> d, F f) { for (int i = 0; i < d.n; ++i) if (d.p[i]) d.v[i] = f(d.v[i]); return d; }
static u64 K() { return sym_bits(5, 64); }
template <class F> void shapesM(F f, bool masked) {
    static const int S[][2] = {{2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
    int s = masked ? sym_choice(3) : sym_choice(5);
    int r = S[s][0], c = S[s][1];
    DM<u64> A = TA ? genM<u64>(1, c, r) : genM<u64>(1, r, c);
    auto a = mk(A); f(A, a);
    same(a, A, "input unchanged", "input unchanged");
}
#if KIND == 0
#define FN [](u64 x) { return Un()(x); }
#define CALL(C, M, ACC, O, a) grb::apply(C, M, ACC, Un(), a, O)
#elif KIND == 1
#define FN [](u64 x) { return Bin()(K(), x); }
#define CALL(C, M, ACC, O, a) grb::apply(C, M, ACC, Bin(), K(), a, O)
#else
#define FN [](u64 x) { return Bin()(x, K()); }
#define CALL(C, M, ACC, O, a) grb::apply(C, M, ACC, Bin(), a, K(), O)
#endif
ENTRY chk_mat() { shapesM([&](DM<u64> &A, auto &a) { plainM(mapM(tt(A), FN), [&](auto &C, auto const &m, auto acc, auto o) { CALL(C, m, acc, o, view<TA>(a)); }); }, false); sym_reach("mat"); }
ENTRY chk_mat_masked() { shapesM([&](DM<u64> &A, auto &a) { runM(mapM(tt(A), FN), 5, 2, 2, A.r * A.c == 4 ? G_FULL : G_ANY, [&](auto &C, auto const &m, auto acc, auto o) { CALL(C, m, acc, o, view<TA>(a)); }); }, true); sym_reach("mat masked"); }
#if TR == 0
ENTRY chk_vec() { DV<u64> A = genV<u64>(1, 3); auto a = mk(A); runV(mapV(A, FN), 5, 2, 2, G_ANY, [&](auto &C, auto const &m, auto acc, auto o) { CALL(C, m, acc, o, a); }); same(a, A, "input unchanged", "input unchanged"); sym_reach("vec"); }
#endif
