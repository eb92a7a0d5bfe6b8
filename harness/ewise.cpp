#include "model.hpp"
#ifdef MULT
static constexpr bool ADD = false;
#define EW grb::eWiseMult
#else
static constexpr bool ADD = true;
#define EW grb::eWiseAdd
#endif
static DM<u64> tt(DM<u64> const &d, bool t) { return t ? d.T_() : d; }
#ifdef VEC
ENTRY chk_vec() {
    DV<u64> A = genV<u64>(1, 3), B = genV<u64>(2, 3);
    auto a = mk(A); auto b = mk(B);
    runV(refEwise(A, B, ADD, Bin()), 5, 2, 2, G_ANY, [&](auto &C, auto const &mask, auto acc, auto o) { EW(C, mask, acc, Bin(), a, b, o); });
    same(a, A, "input unchanged", "input unchanged"); same(b, B, "input unchanged", "input unchanged");
    sym_reach("vec");
}
// monoid / semiring-like function objects in place of the operator; long vector crossing bitmap words
ENTRY chk_vec_long() {
    const int pos[4] = {0, 63, 64, 69};
    DV<u64> A(4), B(4);
    A = genV<u64>(1, 4); B = genV<u64>(2, 4);
    grb::Vector<u64> a(70), b(70), c(70);
    for (int i = 0; i < 4; ++i) { if (A.p[i]) a.setElement(pos[i], A.v[i]); if (B.p[i]) b.setElement(pos[i], B.v[i]); }
    NO_THROW("operation throws on valid arguments", EW(c, grb::NoMask(), grb::NoAccumulate(), Bin(), a, b));
    DV<u64> R = refEwise(A, B, ADD, Bin());
    for (int i = 0; i < 4; ++i) { sym_assert(c.hasElement(pos[i]) == R.p[i], "stored structure of the result"); if (R.p[i]) sym_assert(c.extractElement(pos[i]) == R.v[i], "stored value of the result"); }
    sym_assert(c.nvals() == (Ix)R.count(), "stored structure of the result");
    sym_reach("vec long");
}
#else
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<u64> g(int o, int r, int c, bool t) { return t ? genM<u64>(o, c, r) : genM<u64>(o, r, c); }
ENTRY chk_compute() {
    static const int S[][2] = {{2, 2}, {2, 3}, {3, 2}, {1, 4}, {4, 1}};
    int s = sym_choice(5), r = S[s][0], c = S[s][1];
    DM<u64> A = g(1, r, c, TA), B = g(2, r, c, TB);
    auto a = mk(A); auto b = mk(B);
    plainM(refEwise(tt(A, TA), tt(B, TB), ADD, Bin()), [&](auto &C, auto const &mask, auto acc, auto o) { EW(C, mask, acc, Bin(), view<TA>(a), view<TB>(b), o); });
    same(a, A, "input unchanged", "input unchanged"); same(b, B, "input unchanged", "input unchanged");
    sym_reach("compute");
}
static void wb(int r, int c) {
    DM<u64> A = g(1, r, c, TA), B = g(2, r, c, TB);
    auto a = mk(A); auto b = mk(B);
    runM(refEwise(tt(A, TA), tt(B, TB), ADD, Bin()), 5, 2, 2, G_ANY, [&](auto &C, auto const &mask, auto acc, auto o) { EW(C, mask, acc, Bin(), view<TA>(a), view<TB>(b), o); });
}
ENTRY chk_masked12() { wb(1, 2); sym_reach("masked 1x2"); }
ENTRY chk_masked21() { wb(2, 1); sym_reach("masked 2x1"); }
#ifdef THOROUGH
ENTRY chk_masked13() { wb(1, 3); sym_reach("T:masked 1x3"); }
ENTRY chk_masked31() { wb(3, 1); sym_reach("T:masked 3x1"); }
#endif
#if TR == 0
// arbitrary column indices in a very wide matrix: the row-merge logic over symbolic coordinates
ENTRY chk_symbolic_columns() {
    const u64 N = 1ull << 40;
    u64 ca[2], cb[2], va[2], vb[2]; int na = sym_choice(3), nb = sym_choice(3);
    for (int i = 0; i < 2; ++i) { ca[i] = sym_bits(900 + i, 64); cb[i] = sym_bits(910 + i, 64); va[i] = sym_bits(920 + i, 64); vb[i] = sym_bits(930 + i, 64); }
    for (int i = 0; i < na; ++i) sym_assume(ca[i] < N);
    for (int i = 0; i < nb; ++i) sym_assume(cb[i] < N);
    if (na == 2) sym_assume(ca[0] != ca[1]);
    if (nb == 2) sym_assume(cb[0] != cb[1]);
    grb::Matrix<u64> a(1, N), b(1, N), c(1, N);
    for (int i = 0; i < na; ++i) a.setElement(0, ca[i], va[i]);
    for (int i = 0; i < nb; ++i) b.setElement(0, cb[i], vb[i]);
    NO_THROW("operation throws on valid arguments", EW(c, grb::NoMask(), grb::NoAccumulate(), Bin(), a, b));
    u64 n = 0;
    for (int i = 0; i < na; ++i) {
        int m = -1; for (int j = 0; j < nb; ++j) if (cb[j] == ca[i]) m = j;
        bool want = m >= 0 || ADD;
        sym_assert(c.hasElement(0, ca[i]) == want, "stored structure of the result");
        if (want) { ++n; sym_assert(c.extractElement(0, ca[i]) == (m >= 0 ? Bin()(va[i], vb[m]) : va[i]), "stored value of the result"); }
    }
    for (int j = 0; j < nb; ++j) {
        int m = -1; for (int i = 0; i < na; ++i) if (cb[j] == ca[i]) m = i;
        if (m >= 0) continue;
        sym_assert(c.hasElement(0, cb[j]) == ADD, "stored structure of the result");
        if (ADD) { ++n; sym_assert(c.extractElement(0, cb[j]) == vb[j], "stored value of the result"); }
    }
    sym_assert(c.nvals() == n, "stored structure of the result");
    sym_reach("symbolic columns");
}
#endif
#endif
