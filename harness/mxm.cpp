#include "model.hpp"
// C<M,r> accum= op(A) (+).(x) op(B), generic semiring, all transpose combinations
static DM<u64> maybeT(DM<u64> const &d, bool t) { return t ? d.T_() : d; }
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static void shapes(int which, int &m, int &k, int &n) {
    static const int S[][3] = {{2, 2, 2}, {1, 3, 2}, {2, 3, 1}, {3, 1, 2}, {1, 2, 3}, {1, 1, 4}};
    m = S[which][0]; k = S[which][1]; n = S[which][2];
}
ENTRY chk_compute() {
    int m, k, n; shapes(sym_choice(6), m, k, n);
    DM<u64> A = TA ? genM<u64>(1, k, m) : genM<u64>(1, m, k), B = TB ? genM<u64>(2, n, k) : genM<u64>(2, k, n);
    auto a = mk(A); auto b = mk(B);
    plainM(refMxm(maybeT(A, TA), maybeT(B, TB)), [&](auto &C, auto const &mask, auto acc, auto o) { grb::mxm(C, mask, acc, Ring(), view<TA>(a), view<TB>(b), o); });
    same(a, A, "input A unchanged", "input A unchanged"); same(b, B, "input B unchanged", "input B unchanged");
    sym_reach("mxm compute");
}
static void wb(int m, int k, int n) {
    DM<u64> A = TA ? genM<u64>(1, k, m) : genM<u64>(1, m, k), B = TB ? genM<u64>(2, n, k) : genM<u64>(2, k, n);
    auto a = mk(A); auto b = mk(B);
    runM(refMxm(maybeT(A, TA), maybeT(B, TB)), 5, 2, 2, G_ANY, [&](auto &C, auto const &mask, auto acc, auto o) { grb::mxm(C, mask, acc, Ring(), view<TA>(a), view<TB>(b), o); });
}
ENTRY chk_masked_row() { wb(1, 2, 2); sym_reach("mxm masked row"); }
ENTRY chk_masked_col() { wb(2, 2, 1); sym_reach("mxm masked col"); }
ENTRY chk_masked_wide() { wb(1, 1, 3); sym_reach("mxm masked wide"); }
#ifdef THOROUGH
ENTRY chk_masked_square() { wb(2, 2, 2); sym_reach("T:mxm masked square"); }
#endif
