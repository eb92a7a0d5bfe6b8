#include "model.hpp"
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<u64> tt(DM<u64> const &d, bool t) { return t ? d.T_() : d; }
static DM<u64> kr(DM<u64> const &A, DM<u64> const &B) {
    DM<u64> T(A.r * B.r, A.c * B.c);
    for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) for (int k = 0; k < B.r; ++k) for (int l = 0; l < B.c; ++l)
        if (A.P(i, j) && B.P(k, l)) T.set(i * B.r + k, j * B.c + l, Bin()(A.V(i, j), B.V(k, l)));
    return T;
}
static DM<u64> g(int o, int r, int c, bool t) { return t ? genM<u64>(o, c, r) : genM<u64>(o, r, c); }
ENTRY chk_compute() {
    static const int S[][4] = {{2, 2, 2, 2}, {1, 3, 2, 2}, {2, 2, 1, 3}, {3, 1, 1, 2}, {2, 1, 3, 1}, {1, 2, 2, 3}};
    int s = sym_choice(6);
    DM<u64> A = g(1, S[s][0], S[s][1], TA), B = g(2, S[s][2], S[s][3], TB); auto a = mk(A); auto b = mk(B);
    plainM(kr(tt(A, TA), tt(B, TB)), [&](auto &C, auto const &m, auto acc, auto o) { grb::kronecker(C, m, acc, Bin(), view<TA>(a), view<TB>(b), o); });
    same(a, A, "input unchanged", "input unchanged"); same(b, B, "input unchanged", "input unchanged");
    sym_reach("compute");
}
ENTRY chk_masked() {
    static const int S[][4] = {{1, 1, 1, 3}, {3, 1, 1, 1}, {1, 3, 1, 1}, {2, 1, 1, 2}, {1, 2, 2, 1}, {1, 1, 2, 2}};
    int s = sym_choice(TR ? 4 : 6);
    DM<u64> A = g(1, S[s][0], S[s][1], TA), B = g(2, S[s][2], S[s][3], TB); auto a = mk(A); auto b = mk(B);
    runM(kr(tt(A, TA), tt(B, TB)), 5, 2, 2, s < 3 ? G_ANY : G_FULL, [&](auto &C, auto const &m, auto acc, auto o) { grb::kronecker(C, m, acc, Bin(), view<TA>(a), view<TB>(b), o); });
    sym_reach("masked");
}
