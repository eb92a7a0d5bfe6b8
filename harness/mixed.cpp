#include "model.hpp"
// operands, operator and output have different scalar types: values are converted to the operator's types only,
// the accumulator sees the unconverted result, and only the final value is converted to the output's type
typedef int64_t i64;
#ifndef TR
#define TR 0
#endif
#ifndef CFG
#define CFG 0
#endif
#if CFG == 0
typedef int8_t TyA; typedef i64 TyB; typedef i64 TyC;
#elif CFG == 1
typedef i64 TyA; typedef int8_t TyB; typedef i64 TyC;
#elif CFG == 2
typedef i64 TyA; typedef i64 TyB; typedef int16_t TyC;
#else
typedef int8_t TyA; typedef int16_t TyB; typedef int32_t TyC;
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<i64> tt(DM<i64> const &d, bool t) { return t ? d.T_() : d; }
template <class T> static DM<i64> wide(DM<T> const &d) { DM<i64> o(d.r, d.c); for (int i = 0; i < d.r * d.c; ++i) { o.p[i] = d.p[i]; o.v[i] = d.v[i]; } return o; }
template <class T> static DV<i64> wide(DV<T> const &d) { DV<i64> o(d.n); for (int i = 0; i < d.n; ++i) { o.p[i] = d.p[i]; o.v[i] = d.v[i]; } return o; }
typedef UF2<UF_BIN, i64> Op; typedef UF1<UF_UN, i64> Un1;
struct WAcc { i64 operator()(i64 a, i64 b) const { return Acc()((u64)a, (u64)b); } };
struct MinRing {
    typedef i64 ScalarType; typedef i64 result_type;
    i64 zero() const { return INT64_MAX; }
    i64 add(i64 a, i64 b) const { return b < a ? b : a; }
    i64 mult(i64 a, i64 b) const { return (i64)sym_uf2(UF_MULT, (u64)a, (u64)b); }
};
#if CFG == 2   // narrow output: a monoid that truncation does not commute with
struct MinMon { typedef i64 result_type; typedef i64 ScalarType; i64 identity() const { return INT64_MAX; } i64 operator()(i64 a, i64 b) const { return b < a ? b : a; } };
#else          // narrow inputs: a monoid whose result leaves the input's range
struct MinMon { typedef i64 result_type; typedef i64 ScalarType; i64 identity() const { return 0; } i64 operator()(i64 a, i64 b) const { return a + b; } };
#endif
static const char *STR = "structure of the mixed-type result", *VAL = "value of the mixed-type result";
template <class T> DM<T> gA(int o, int r, int c) { static const unsigned P[3] = {0xffff, 0x6, 0xb}; return genMp<T>(o, r, c, P[sym_choice(3)]); }
template <class T> DV<T> gV(int o, int n) { return genV<T>(o, n, G_ANY); }
struct S3 { int mask, acc, rep; };
static S3 sel() {
    static const S3 L[6] = {{MK_NONE, 0, 0}, {MK_NONE, 1, 0}, {MK_VALUE, 1, 0}, {MK_VALUE, 0, 1}, {MK_SCOMP, 1, 1}, {MK_SCOMP, 0, 0}};
    int w = sym_choice(6); sym_note("mode", w); return L[w];
}
template <class M, class F> static void modes(S3 s, M const &m, F f) {
    grb::OutputControlEnum o = s.rep ? grb::REPLACE : grb::MERGE;
    auto g = [&](auto const &k) { NO_THROW("operation throws on valid arguments", if (s.acc) f(k, WAcc(), o); else f(k, grb::NoAccumulate(), o)); };
    if (s.mask == MK_NONE) g(grb::NoMask()); else if (s.mask == MK_VALUE) g(m); else g(grb::complement(grb::structure(m)));
}
template <class F> static void goM(DM<i64> const &T, F call) {
    S3 s = sel();
    DM<TyC> Cd = genMp<TyC>(7, T.r, T.c, sym_choice(2) ? 0xffff : 0x5); DM<int8_t> Md = genMp<int8_t>(8, T.r, T.c, s.mask == MK_NONE ? 0 : 0x7);
    auto C = mk(Cd); auto M = mk(Md);
    modes(s, M, [&](auto const &m, auto ac, auto o) { call(C, m, ac, o); });
    DM<i64> R = writeBack(wide(Cd), T, Md, s.mask, s.acc, s.rep); DM<TyC> N(T.r, T.c);
    for (int i = 0; i < T.r * T.c; ++i) { N.p[i] = R.p[i]; N.v[i] = (TyC)R.v[i]; }
    same(C, N, STR, VAL);
}
template <class F> static void goV(DV<i64> const &T, F call) {
    S3 s = sel();
    DV<TyC> Cd = genV<TyC>(7, T.n, sym_choice(2) ? G_FULL : G_EMPTY); DV<int8_t> Md = genV<int8_t>(8, T.n, s.mask == MK_NONE ? G_EMPTY : G_FULL);
    auto C = mk(Cd); auto M = mk(Md);
    modes(s, M, [&](auto const &m, auto ac, auto o) { call(C, m, ac, o); });
    DV<i64> R = writeBack(wide(Cd), T, Md, s.mask, s.acc, s.rep); DV<TyC> N(T.n);
    for (int i = 0; i < T.n; ++i) { N.p[i] = R.p[i]; N.v[i] = (TyC)R.v[i]; }
    same(C, N, STR, VAL);
}
static DM<i64> rMxm(DM<i64> const &A, DM<i64> const &B) {
    DM<i64> T(A.r, B.c);
    for (int i = 0; i < A.r; ++i) for (int j = 0; j < B.c; ++j) for (int k = 0; k < A.c; ++k)
        if (A.P(i, k) && B.P(k, j)) { i64 m = MinRing().mult(A.V(i, k), B.V(k, j)); T.set(i, j, T.P(i, j) ? MinRing().add(T.V(i, j), m) : m); }
    return T;
}
static DM<i64> refEwise2(DM<i64> const &A, DM<i64> const &B, bool add) {
    DM<i64> T(A.r, A.c);
    for (int i = 0; i < A.r * A.c; ++i) {
        if (A.p[i] && B.p[i]) { T.p[i] = true; T.v[i] = Op()(A.v[i], B.v[i]); }
        else if (add && A.p[i]) { T.p[i] = true; T.v[i] = A.v[i]; }
        else if (add && B.p[i]) { T.p[i] = true; T.v[i] = B.v[i]; }
    }
    return T;
}
ENTRY chk_mxm() {
    int n = 1 + sym_choice(2);
    DM<TyA> A = TA ? gA<TyA>(1, 2, 1) : gA<TyA>(1, 1, 2); DM<TyB> B = TB ? gA<TyB>(2, n, 2) : gA<TyB>(2, 2, n);
    auto a = mk(A); auto b = mk(B);
    goM(rMxm(tt(wide(A), TA), tt(wide(B), TB)), [&](auto &C, auto const &m, auto ac, auto o) { grb::mxm(C, m, ac, MinRing(), view<TA>(a), view<TB>(b), o); });
    sym_reach("mxm");
}
ENTRY chk_ewise() {
    bool add = sym_choice(2); DM<TyA> A = gA<TyA>(1, 2, 2); DM<TyB> B = gA<TyB>(2, 2, 2); auto a = mk(A); auto b = mk(B);
    goM(refEwise2(tt(wide(A), TA), tt(wide(B), TB), add), [&](auto &C, auto const &m, auto ac, auto o) {
        if (add) grb::eWiseAdd(C, m, ac, Op(), view<TA>(a), view<TB>(b), o); else grb::eWiseMult(C, m, ac, Op(), view<TA>(a), view<TB>(b), o); });
    sym_reach("ewise");
}
ENTRY chk_kronecker() {
    DM<TyA> A = TA ? gA<TyA>(1, 2, 1) : gA<TyA>(1, 1, 2); DM<TyB> B = TB ? gA<TyB>(2, 1, 2) : gA<TyB>(2, 2, 1); auto a = mk(A); auto b = mk(B);
    DM<i64> T(2, 2), X = tt(wide(A), TA), Y = tt(wide(B), TB);
    for (int j = 0; j < 2; ++j) for (int k = 0; k < 2; ++k) if (X.P(0, j) && Y.P(k, 0)) T.set(k, j, Op()(X.V(0, j), Y.V(k, 0)));
    goM(T, [&](auto &C, auto const &m, auto ac, auto o) { grb::kronecker(C, m, ac, Op(), view<TA>(a), view<TB>(b), o); });
    sym_reach("kronecker");
}
#if TR < 2
ENTRY chk_mxv_vxm() {
    bool vx = sym_choice(2); DM<TyA> A = gA<TyA>(1, 2, 2); DV<TyB> U = gV<TyB>(2, 2); auto a = mk(A); auto u = mk(U);
    DM<i64> X = tt(wide(A), TA); DV<i64> Y = wide(U), T(2);
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) if (Y.p[k] && (vx ? X.P(k, i) : X.P(i, k))) {
        i64 m = vx ? MinRing().mult(Y.v[k], X.V(k, i)) : MinRing().mult(X.V(i, k), Y.v[k]); T.set(i, T.p[i] ? MinRing().add(T.v[i], m) : m); }
    goV(T, [&](auto &C, auto const &m, auto ac, auto o) { if (vx) grb::vxm(C, m, ac, MinRing(), u, view<TA>(a), o); else grb::mxv(C, m, ac, MinRing(), view<TA>(a), u, o); });
    sym_reach("mxv, vxm");
}
ENTRY chk_apply_transpose() {
    int w = sym_choice(4); DM<TyA> A = gA<TyA>(1, 2, 2); auto a = mk(A); TyB k = symv<TyB>(99);
    DM<i64> X = tt(wide(A), TA), T(2, 2);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        if (w == 3) { if (X.P(j, i)) T.set(i, j, X.V(j, i)); }
        else if (X.P(i, j)) T.set(i, j, w == 0 ? Un1()(X.V(i, j)) : w == 1 ? Op()(k, X.V(i, j)) : Op()(X.V(i, j), k));
    }
    goM(T, [&](auto &C, auto const &m, auto ac, auto o) {
        if (w == 0) grb::apply(C, m, ac, Un1(), view<TA>(a), o); else if (w == 1) grb::apply(C, m, ac, Op(), k, view<TA>(a), o);
        else if (w == 2) grb::apply(C, m, ac, Op(), view<TA>(a), k, o); else grb::transpose(C, m, ac, view<TA>(a), o); });
    sym_reach("apply, transpose");
}
ENTRY chk_reduce() {
    int w = sym_choice(2); DM<TyA> A = gA<TyA>(1, 2, 2); auto a = mk(A); DM<i64> X = tt(wide(A), TA);
    if (w == 0) {
        DV<i64> T(2);
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (X.P(i, j)) T.set(i, T.p[i] ? MinMon()(T.v[i], X.V(i, j)) : X.V(i, j));
        goV(T, [&](auto &C, auto const &m, auto ac, auto o) { grb::reduce(C, m, ac, MinMon(), view<TA>(a), o); });
    } else {
        TyC s0 = symv<TyC>(77), s = s0; i64 r = MinMon().identity(); bool acc = sym_choice(2), vec = sym_choice(2);
        DV<TyA> U = gV<TyA>(2, 2); auto u = mk(U);
        if (vec) { for (int i = 0; i < 2; ++i) if (U.p[i]) r = MinMon()(r, U.v[i]); }
        else for (int i = 0; i < 4; ++i) if (A.p[i]) r = MinMon()(r, A.v[i]);
        NO_THROW("reduce throws", if (vec) { if (acc) grb::reduce(s, WAcc(), MinMon(), u); else grb::reduce(s, grb::NoAccumulate(), MinMon(), u); }
                                  else { if (acc) grb::reduce(s, WAcc(), MinMon(), a); else grb::reduce(s, grb::NoAccumulate(), MinMon(), a); });
        sym_assert(s == (TyC)(acc ? WAcc()(s0, r) : r), "scalar of the mixed-type reduction");
    }
    sym_reach("reduce");
}
ENTRY chk_extract_assign() {
    int w = sym_choice(6); bool all = sym_choice(2); DM<TyA> A = gA<TyA>(1, 2, 2); DV<TyB> U = gV<TyB>(2, 2); auto a = mk(A); auto u = mk(U); TyB k = symv<TyB>(99);
    int p[2] = {all ? 0 : 1, all ? 1 : 0}; grb::IndexArrayType I{(u64)p[0], (u64)p[1]};
    DM<i64> X = tt(wide(A), TA), T(2, 2); DV<i64> Y = wide(U), V(2);
    if (w < 3) {
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
            if (w == 0) { if (X.P(p[i], p[j])) T.set(i, j, X.V(p[i], p[j])); }
            else if (w == 1) { if (X.P(i, j)) T.set(p[i], p[j], X.V(i, j)); }
            else T.set(i, j, k);
        }
        goM(T, [&](auto &C, auto const &m, auto ac, auto o) {
            if (w == 0) { if (all) grb::extract(C, m, ac, view<TA>(a), grb::AllIndices(), grb::AllIndices(), o); else grb::extract(C, m, ac, view<TA>(a), I, I, o); }
            else if (w == 1) { if (all) grb::assign(C, m, ac, view<TA>(a), grb::AllIndices(), grb::AllIndices(), o); else grb::assign(C, m, ac, view<TA>(a), I, I, o); }
            else { if (all) grb::assign(C, m, ac, k, grb::AllIndices(), grb::AllIndices(), o); else grb::assign(C, m, ac, k, I, I, o); } });
    } else {
        for (int i = 0; i < 2; ++i) {
            if (w == 3) { if (Y.p[p[i]]) V.set(i, Y.v[p[i]]); }
            else if (w == 4) { if (Y.p[i]) V.set(p[i], Y.v[i]); }
            else V.set(i, k);
        }
        goV(V, [&](auto &C, auto const &m, auto ac, auto o) {
            if (w == 3) { if (all) grb::extract(C, m, ac, u, grb::AllIndices(), o); else grb::extract(C, m, ac, u, I, o); }
            else if (w == 4) { if (all) grb::assign(C, m, ac, u, grb::AllIndices(), o); else grb::assign(C, m, ac, u, I, o); }
            else { if (all) grb::assign(C, m, ac, k, grb::AllIndices(), o); else grb::assign(C, m, ac, k, I, o); } });
    }
    sym_reach("extract, assign");
}
ENTRY chk_rowcol() {
    int w = sym_choice(3); DM<TyA> A = gA<TyA>(1, 2, 2); DV<TyB> U = gV<TyB>(2, 2); auto a = mk(A); auto u = mk(U);
    DM<i64> X = tt(wide(A), TA); DV<i64> Y = wide(U), V(2);
    if (w == 0) {
        for (int i = 0; i < 2; ++i) if (X.P(i, 1)) V.set(i, X.V(i, 1));
        goV(V, [&](auto &C, auto const &m, auto ac, auto o) { grb::extract(C, m, ac, view<TA>(a), grb::AllIndices(), (Ix)1, o); });
    } else {
        DM<TyC> Cd = genMp<TyC>(7, 2, 2, sym_choice(2) ? 0xf : 0x5); auto C = mk(Cd); bool acc = sym_choice(2);
        NO_THROW("assign throws", if (w == 1) { if (acc) grb::assign(C, grb::NoMask(), WAcc(), u, (Ix)1, grb::AllIndices()); else grb::assign(C, grb::NoMask(), grb::NoAccumulate(), u, (Ix)1, grb::AllIndices()); }
                                  else { if (acc) grb::assign(C, grb::NoMask(), WAcc(), u, grb::AllIndices(), (Ix)1); else grb::assign(C, grb::NoMask(), grb::NoAccumulate(), u, grb::AllIndices(), (Ix)1); });
        DM<TyC> N = Cd;
        for (int i = 0; i < 2; ++i) {
            int r = w == 1 ? 1 : i, c = w == 1 ? i : 1; bool old = Cd.P(r, c);
            if (Y.p[i]) N.set(r, c, (TyC)(acc && old ? WAcc()(Cd.V(r, c), Y.v[i]) : Y.v[i])); else if (!acc) N.P(r, c) = false;
        }
        same(C, N, STR, VAL);
    }
    sym_reach("row, column");
}
#endif
#if TR == 0
ENTRY chk_vector_ewise_apply() {
    int w = sym_choice(5); DV<TyA> A = gV<TyA>(1, 2); DV<TyB> B = gV<TyB>(2, 2); auto a = mk(A); auto b = mk(B); TyB k = symv<TyB>(99);
    DV<i64> X = wide(A), Y = wide(B), T(2);
    for (int i = 0; i < 2; ++i) {
        if (w < 2) { if (X.p[i] && Y.p[i]) T.set(i, Op()(X.v[i], Y.v[i])); else if (w == 0 && X.p[i]) T.set(i, X.v[i]); else if (w == 0 && Y.p[i]) T.set(i, Y.v[i]); }
        else if (X.p[i]) T.set(i, w == 2 ? Un1()(X.v[i]) : w == 3 ? Op()(k, X.v[i]) : Op()(X.v[i], k));
    }
    goV(T, [&](auto &C, auto const &m, auto ac, auto o) {
        if (w == 0) grb::eWiseAdd(C, m, ac, Op(), a, b, o); else if (w == 1) grb::eWiseMult(C, m, ac, Op(), a, b, o);
        else if (w == 2) grb::apply(C, m, ac, Un1(), a, o); else if (w == 3) grb::apply(C, m, ac, Op(), k, a, o); else grb::apply(C, m, ac, Op(), a, k, o); });
    sym_reach("vector ewise, apply");
}
#endif
