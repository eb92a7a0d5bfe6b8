#include "model.hpp"
// masks of any scalar type: a value mask allows the positions whose stored value converts to true, a structural mask the
// stored positions, complement the other positions -- in every operation
#ifndef MASKT
#define MASKT int64_t
#endif
typedef MASKT mt;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static const char *STR = "structure under a mask", *VAL = "value under a mask";
template <class M, class F> void mask4(int kind, M const &m, F f) {
    switch (kind) { case MK_VALUE: f(m); break; case MK_COMP: f(grb::complement(m)); break; case MK_STRUCT: f(grb::structure(m)); break; default: f(grb::complement(grb::structure(m))); break; }
}
struct Sel { int kind, acc, rep; };
static Sel sel(bool acc) { Sel s; s.kind = 1 + sym_choice(4); s.acc = acc ? sym_choice(2) : 0; s.rep = sym_choice(2); sym_note("mask", s.kind); sym_note("accum", s.acc); sym_note("replace", s.rep); return s; }
template <class F> static void goM(DM<u64> const &T, bool acc, unsigned cp, F call) {
    Sel s = sel(acc);
    DM<u64> Cd = genMp<u64>(7, T.r, T.c, cp); DM<mt> Md = genM<mt>(8, T.r, T.c);
    auto C = mk(Cd); auto M = mk(Md); grb::OutputControlEnum o = s.rep ? grb::REPLACE : grb::MERGE;
    mask4(s.kind, M, [&](auto const &m) { NO_THROW("operation throws on valid arguments", if (s.acc) call(C, m, Acc(), o); else call(C, m, grb::NoAccumulate(), o)); });
    same(C, writeBack(Cd, T, Md, s.kind, s.acc, s.rep), STR, VAL);
    same(M, Md, "mask unchanged", "mask unchanged");
}
template <class F> static void goV(DV<u64> const &T, bool acc, int cmode, F call) {
    Sel s = sel(acc);
    DV<u64> Cd = genV<u64>(7, T.n, cmode); DV<mt> Md = genV<mt>(8, T.n);
    auto C = mk(Cd); auto M = mk(Md); grb::OutputControlEnum o = s.rep ? grb::REPLACE : grb::MERGE;
    mask4(s.kind, M, [&](auto const &m) { NO_THROW("operation throws on valid arguments", if (s.acc) call(C, m, Acc(), o); else call(C, m, grb::NoAccumulate(), o)); });
    same(C, writeBack(Cd, T, Md, s.kind, s.acc, s.rep), STR, VAL);
    same(M, Md, "mask unchanged", "mask unchanged");
}
static unsigned pat() { static const unsigned P[3] = {0xf, 0x9, 0x6}; return P[sym_choice(3)]; }
#if PART == 0
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
ENTRY chk_mxm() {
    DM<u64> A = genMp<u64>(1, 2, 2, pat()), B = genMp<u64>(2, 2, 2, 0xd); auto a = mk(A); auto b = mk(B);
    goM(refMxm(TA ? A.T_() : A, TB ? B.T_() : B), true, pat(), [&](auto &C, auto const &m, auto ac, auto o) { grb::mxm(C, m, ac, Ring(), view<TA>(a), view<TB>(b), o); });
    sym_reach("mxm");
}
#else
template <bool t> static void ew(bool add) {
    DM<u64> A = genMp<u64>(1, 2, 2, pat()), B = genMp<u64>(2, 2, 2, 0x5); auto a = mk(A); auto b = mk(B);
    goM(refEwise(t ? A.T_() : A, B, add, Bin()), true, 0xb, [&](auto &C, auto const &m, auto ac, auto o) { if (add) grb::eWiseAdd(C, m, ac, Bin(), view<t>(a), b, o); else grb::eWiseMult(C, m, ac, Bin(), view<t>(a), b, o); });
}
ENTRY chk_ewise() { bool add = sym_choice(2); if (sym_choice(2)) ew<true>(add); else ew<false>(add); sym_reach("ewise"); }
ENTRY chk_apply_transpose() {
    bool ap = sym_choice(2); DM<u64> A = genMp<u64>(1, 2, 2, pat()); auto a = mk(A); DM<u64> T(2, 2);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (ap ? A.P(i, j) : A.P(j, i)) T.set(i, j, ap ? Un()(A.V(i, j)) : A.V(j, i));
    goM(T, true, 0xb, [&](auto &C, auto const &m, auto ac, auto o) { if (ap) grb::apply(C, m, ac, Un(), a, o); else grb::transpose(C, m, ac, a, o); });
    sym_reach("apply, transpose");
}
ENTRY chk_extract_assign() {
    int w = sym_choice(4); DM<u64> A = genMp<u64>(1, 2, 2, pat()); auto a = mk(A); DM<u64> T(2, 2); u64 k = sym_bits(99, 64);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { if (w == 3) { if (A.P(0, 0)) T.set(i, j, Bin()(A.V(0, 0), A.V(0, 0))); } else if (w == 2) T.set(i, j, k); else if (A.P(i, j)) T.set(i, j, A.V(i, j)); }
    if (w == 3) { DM<u64> K(2, 2); for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) if (A.P(i, j)) K.set(i, j, Bin()(A.V(i, j), k)); T = K; }
    grb::Matrix<u64> one(1, 1); one.setElement(0, 0, k);
    goM(T, true, 0xb, [&](auto &C, auto const &m, auto ac, auto o) {
        if (w == 0) grb::extract(C, m, ac, a, grb::AllIndices(), grb::AllIndices(), o); else if (w == 1) grb::assign(C, m, ac, a, grb::AllIndices(), grb::AllIndices(), o);
        else if (w == 2) grb::assign(C, m, ac, k, grb::AllIndices(), grb::AllIndices(), o); else grb::kronecker(C, m, ac, Bin(), a, one, o); });
    sym_reach("extract, assign, kronecker");
}
ENTRY chk_vector() {
    int w = sym_choice(5); DV<u64> u(3), v(3); unsigned p = pat(); for (int i = 0; i < 3; ++i) { u.v[i] = sym_bits(1000 + i, 64); u.p[i] = (p >> i) & 1; v.v[i] = sym_bits(2000 + i, 64); v.p[i] = i != 1; }
    auto a = mk(u); auto b = mk(v); u64 k = sym_bits(99, 64); DV<u64> T(3);
    if (w == 0) T = refEwise(u, v, true, Bin());
    else for (int i = 0; i < 3; ++i) { if (w == 4) T.set(i, k); else if (u.p[i]) T.set(i, w == 1 ? Un()(u.v[i]) : u.v[i]); }
    goV(T, true, sym_choice(2) ? G_FULL : G_EMPTY, [&](auto &C, auto const &m, auto ac, auto o) {
        if (w == 0) grb::eWiseAdd(C, m, ac, Bin(), a, b, o); else if (w == 1) grb::apply(C, m, ac, Un(), a, o); else if (w == 2) grb::extract(C, m, ac, a, grb::AllIndices(), o);
        else if (w == 3) grb::assign(C, m, ac, a, grb::AllIndices(), o); else grb::assign(C, m, ac, k, grb::AllIndices(), o); });
    sym_reach("vector");
}
ENTRY chk_mv() {
    int w = sym_choice(6); DM<u64> A = genMp<u64>(1, 2, 2, pat()); DV<u64> u = genV<u64>(2, 2, G_FULL); auto a = mk(A); auto v = mk(u); DV<u64> T(2);
    if (w < 4) T = w == 0 ? refMxv(A, u) : w == 1 ? refMxv(A.T_(), u) : w == 2 ? refVxm(u, A) : refVxm(u, A.T_());
    else for (int i = 0; i < 2; ++i) { if (w == 5) { if (A.P(i, 1)) T.set(i, A.V(i, 1)); } else for (int j = 0; j < 2; ++j) if (A.P(i, j)) T.set(i, T.p[i] ? T.v[i] + A.V(i, j) : A.V(i, j)); }
    goV(T, true, sym_choice(2) ? G_FULL : G_EMPTY, [&](auto &C, auto const &m, auto ac, auto o) {
        if (w == 0) grb::mxv(C, m, ac, Ring(), a, v, o); else if (w == 1) grb::mxv(C, m, ac, Ring(), grb::transpose(a), v, o); else if (w == 2) grb::vxm(C, m, ac, Ring(), v, a, o); else if (w == 3) grb::vxm(C, m, ac, Ring(), v, grb::transpose(a), o);
        else if (w == 4) grb::reduce(C, m, ac, AddMonoid<>(), a, o); else grb::extract(C, m, ac, a, grb::AllIndices(), (Ix)1, o); });
    sym_reach("matrix-vector");
}
ENTRY chk_rowcol() {
    bool col = sym_choice(2); DV<u64> u(2); int p = sym_choice(3); for (int i = 0; i < 2; ++i) { u.v[i] = sym_bits(1000 + i, 64); u.p[i] = p == 2 || p == i; } auto a = mk(u);
    Sel s = sel(true); DM<u64> Cd = genMp<u64>(7, 2, 2, sym_choice(2) ? 0xf : 0x9), N = Cd; DV<mt> Md = genV<mt>(8, 2); auto C = mk(Cd); auto M = mk(Md); grb::OutputControlEnum o = s.rep ? grb::REPLACE : grb::MERGE;
    mask4(s.kind, M, [&](auto const &m) { NO_THROW("operation throws on valid arguments",
        if (col) { if (s.acc) grb::assign(C, m, Acc(), a, grb::AllIndices(), (Ix)1, o); else grb::assign(C, m, grb::NoAccumulate(), a, grb::AllIndices(), (Ix)1, o); }
        else { if (s.acc) grb::assign(C, m, Acc(), a, (Ix)1, grb::AllIndices(), o); else grb::assign(C, m, grb::NoAccumulate(), a, (Ix)1, grb::AllIndices(), o); }); });
    DV<u64> old(2); for (int i = 0; i < 2; ++i) { old.p[i] = col ? Cd.P(i, 1) : Cd.P(1, i); old.v[i] = col ? Cd.V(i, 1) : Cd.V(1, i); }
    DV<u64> r = writeBack(old, u, Md, s.kind, s.acc, s.rep);
    for (int i = 0; i < 2; ++i) { (col ? N.P(i, 1) : N.P(1, i)) = r.p[i]; (col ? N.V(i, 1) : N.V(1, i)) = r.v[i]; }
    same(C, N, STR, VAL);
    sym_reach("row, column assign");
}
#endif
