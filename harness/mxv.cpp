#include "model.hpp"
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<u64> maybeT(DM<u64> const &d) { return TA ? d.T_() : d; }
// logical shape of op(A) is m x k
static DM<u64> genA(int m, int k) { return TA ? genM<u64>(1, k, m) : genM<u64>(1, m, k); }
static const int S[][2] = {{2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}};
#ifdef VXM
#define NAME "vxm"
static DV<u64> ref(DM<u64> const &A, DV<u64> const &u) { return refVxm(u, A); }
template <class W, class M, class A_, class AM, class U> void op(W &w, M const &mask, A_ acc, AM const &a, U const &u, grb::OutputControlEnum o) { grb::vxm(w, mask, acc, Ring(), u, a, o); }
static int inner(int m, int k) { return m; }
#else
static DV<u64> ref(DM<u64> const &A, DV<u64> const &u) { return refMxv(A, u); }
template <class W, class M, class A_, class AM, class U> void op(W &w, M const &mask, A_ acc, AM const &a, U const &u, grb::OutputControlEnum o) { grb::mxv(w, mask, acc, Ring(), a, u, o); }
static int inner(int m, int k) { return k; }
#endif
ENTRY chk_compute() {
    int s = sym_choice(5); int m = S[s][0], k = S[s][1];
    DM<u64> A = genA(m, k); DV<u64> u = genV<u64>(2, inner(m, k));
    auto a = mk(A); auto v = mk(u);
    plainV(ref(maybeT(A), u), [&](auto &w, auto const &mask, auto acc, auto o) { op(w, mask, acc, view<TA>(a), v, o); });
    same(a, A, "input A unchanged", "input A unchanged"); same(v, u, "input u unchanged", "input u unchanged");
    sym_reach("compute");
}
static void wb(int m, int k) {
    DM<u64> A = genA(m, k); DV<u64> u = genV<u64>(2, inner(m, k));
    auto a = mk(A); auto v = mk(u);
    runV(ref(maybeT(A), u), 5, 2, 2, G_ANY, [&](auto &w, auto const &mask, auto acc, auto o) { op(w, mask, acc, view<TA>(a), v, o); });
}
ENTRY chk_masked22() { wb(2, 2); sym_reach("masked 2x2"); }
#ifdef VXM
ENTRY chk_masked31() { wb(1, 3); sym_reach("masked out 3"); }
#else
ENTRY chk_masked31() { wb(3, 1); sym_reach("masked out 3"); }
#endif
#ifdef THOROUGH
ENTRY chk_masked33() {
#ifdef VXM
    wb(2, 3);
#else
    wb(3, 2);
#endif
    sym_reach("T:masked 3,2"); }
#endif
