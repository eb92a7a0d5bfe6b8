#include "model.hpp"
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<u64> tt(DM<u64> const &d) { return TA ? d.T_() : d; }
typedef AddMonoid<u64> Mon;
// + mod 2^64 with a non-zero identity would be wrong: use max (identity 0) as a second monoid
struct MaxM { typedef u64 result_type; u64 identity() const { return 0; } u64 operator()(u64 a, u64 b) const { return a < b ? b : a; } };
static DV<u64> rowsum(DM<u64> const &A) { DV<u64> t(A.r); for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) if (A.P(i, j)) t.set(i, t.p[i] ? t.v[i] + A.V(i, j) : A.V(i, j)); return t; }
static const int S[][2] = {{2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}};
ENTRY chk_rows() {
    int s = sym_choice(5); int r = S[s][0], c = S[s][1];
    DM<u64> A = TA ? genM<u64>(1, c, r) : genM<u64>(1, r, c); auto a = mk(A);
    plainV(rowsum(tt(A)), [&](auto &w, auto const &m, auto acc, auto o) { grb::reduce(w, m, acc, Mon(), view<TA>(a), o); });
    same(a, A, "input unchanged", "input unchanged");
    sym_reach("rows");
}
ENTRY chk_rows_masked() {
    int s = sym_choice(2); int r = s ? 3 : 2, c = s ? 1 : 2;
    DM<u64> A = TA ? genM<u64>(1, c, r) : genM<u64>(1, r, c); auto a = mk(A);
    runV(rowsum(tt(A)), 5, 2, 2, G_ANY, [&](auto &w, auto const &m, auto acc, auto o) { grb::reduce(w, m, acc, Mon(), view<TA>(a), o); });
    sym_reach("rows masked");
}
#if TR == 0
template <class MT, class X> void scalar(X const &x, u64 expect, bool any) {
    u64 old = sym_bits(77, 64), v = old;
    if (sym_choice(2)) {
        NO_THROW("reduce to scalar throws", grb::reduce(v, Acc(), MT(), x));
        sym_assert(v == Acc()(old, any ? expect : MT().identity()), "accumulated scalar");
    } else {
        NO_THROW("reduce to scalar throws", grb::reduce(v, grb::NoAccumulate(), MT(), x));
        sym_assert(v == (any ? expect : MT().identity()), "scalar value");
    }
}
template <class MT> void mat() {
    int s = sym_choice(5); int r = S[s][0], c = S[s][1];
    DM<u64> A = genM<u64>(1, r, c); auto a = mk(A);
    u64 e = MT().identity(); bool any = false;
    for (int i = 0; i < r * c; ++i) if (A.p[i]) { e = MT()(e, A.v[i]); any = true; }
    scalar<MT>(a, e, any);
}
template <class MT> void vec() {
    DV<u64> A = genV<u64>(1, 4); auto a = mk(A);
    u64 e = MT().identity(); bool any = false;
    for (int i = 0; i < 4; ++i) if (A.p[i]) { e = MT()(e, A.v[i]); any = true; }
    scalar<MT>(a, e, any);
}
ENTRY chk_mat_scalar() { if (sym_choice(2)) mat<Mon>(); else mat<MaxM>(); sym_reach("mat scalar"); }
ENTRY chk_vec_scalar() { if (sym_choice(2)) vec<Mon>(); else vec<MaxM>(); sym_reach("vec scalar"); }
ENTRY chk_vec_long() {
    const int pos[5] = {0, 31, 63, 64, 69};
    DV<u64> A = genV<u64>(1, 5); grb::Vector<u64> a(70);
    for (int i = 0; i < 5; ++i) if (A.p[i]) a.setElement(pos[i], A.v[i]);
    u64 e = 0; for (int i = 0; i < 5; ++i) if (A.p[i]) e += A.v[i];
    u64 v = sym_bits(77, 64);
    NO_THROW("reduce to scalar throws", grb::reduce(v, grb::NoAccumulate(), Mon(), a));
    sym_assert(v == e, "scalar value");
    sym_reach("vec long");
}
#endif
