#include "model.hpp"
// the output object is at the same time an input and/or the mask: the result is what separate copies would give
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static DM<u64> tt(DM<u64> const &d, bool t) { return t ? d.T_() : d; }
static const char *STR = "structure with aliased operands", *VAL = "value with aliased operands";
// which of the operands are the output itself; at least one alias
struct Al { bool a, b; int mask, acc, rep; };
static Al pick(int operands) {
    Al x; x.a = sym_choice(2); x.b = operands > 1 ? sym_choice(2) : false; x.mask = sym_choice(5); x.acc = sym_choice(2); x.rep = x.mask == MK_NONE ? 0 : sym_choice(2);
    if (!x.a && !x.b && x.mask == MK_NONE) sym_end();
    sym_note("a is output", x.a); sym_note("b is output", x.b); sym_note("mask is output", x.mask); sym_note("accum", x.acc); sym_note("replace", x.rep);
    return x;
}
static DM<u64> other(int o, int r, int c) {
    static const unsigned P[4] = {0xffff, 0, 0x9, 0x6};
    return genMp<u64>(o, r, c, P[sym_choice(4)]);
}
template <class F> void aliasM(Al x, DM<u64> const &Cd, DM<u64> const &T, grb::Matrix<u64> &C, F call) {
    grb::OutputControlEnum outp = x.rep ? grb::REPLACE : grb::MERGE;
    withMask(x.mask, C, [&](auto const &mask) { withAccum(x.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(mask, ac, outp)); }); });
    same(C, writeBack(Cd, T, Cd, x.mask, x.acc, x.rep), STR, VAL);
}
template <class F> void aliasV(Al x, DV<u64> const &Cd, DV<u64> const &T, grb::Vector<u64> &C, F call) {
    grb::OutputControlEnum outp = x.rep ? grb::REPLACE : grb::MERGE;
    withMask(x.mask, C, [&](auto const &mask) { withAccum(x.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(mask, ac, outp)); }); });
    same(C, writeBack(Cd, T, Cd, x.mask, x.acc, x.rep), STR, VAL);
}
ENTRY chk_mxm() {
    Al x = pick(2); DM<u64> Cd = genM<u64>(1, 2, 2), Y = other(2, 2, 2);
    auto C = mk(Cd); auto y = mk(Y);
    grb::Matrix<u64> const &a = x.a ? C : y, &b = x.b ? C : y;
    aliasM(x, Cd, refMxm(tt(x.a ? Cd : Y, TA), tt(x.b ? Cd : Y, TB)), C, [&](auto const &m, auto ac, auto o) { grb::mxm(C, m, ac, Ring(), view<TA>(a), view<TB>(b), o); });
    sym_reach("mxm");
}
ENTRY chk_ewise() {
    bool add = sym_choice(2); Al x = pick(2); DM<u64> Cd = genM<u64>(1, 2, 2), Y = other(2, 2, 2);
    auto C = mk(Cd); auto y = mk(Y);
    grb::Matrix<u64> const &a = x.a ? C : y, &b = x.b ? C : y;
    aliasM(x, Cd, refEwise(tt(x.a ? Cd : Y, TA), tt(x.b ? Cd : Y, TB), add, Bin()), C, [&](auto const &m, auto ac, auto o) {
        if (add) grb::eWiseAdd(C, m, ac, Bin(), view<TA>(a), view<TB>(b), o); else grb::eWiseMult(C, m, ac, Bin(), view<TA>(a), view<TB>(b), o); });
    sym_reach("ewise");
}
ENTRY chk_kronecker() {
    Al x = pick(1); DM<u64> Cd = genM<u64>(1, 2, 2), Y = genM<u64>(2, 1, 1), Z = other(3, 2, 2);
    auto C = mk(Cd); auto y = mk(Y); auto z = mk(Z); bool first = sym_choice(2);
    grb::Matrix<u64> const &a = x.a ? C : z; DM<u64> A = tt(x.a ? Cd : Z, TA), T(2, 2);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (A.P(i, j) && Y.P(0, 0)) T.set(i, j, first ? Bin()(A.V(i, j), Y.V(0, 0)) : Bin()(Y.V(0, 0), A.V(i, j)));
    aliasM(x, Cd, T, C, [&](auto const &m, auto ac, auto o) { if (first) grb::kronecker(C, m, ac, Bin(), view<TA>(a), view<TB>(y), o); else grb::kronecker(C, m, ac, Bin(), view<TB>(y), view<TA>(a), o); });
    sym_reach("kronecker");
}
#if TR < 2
ENTRY chk_apply_transpose() {
    int what = sym_choice(4); Al x = pick(1); DM<u64> Cd = genM<u64>(1, 2, 2), Y = other(2, 2, 2); u64 k = sym_bits(99, 64);
    auto C = mk(Cd); auto y = mk(Y);
    grb::Matrix<u64> const &a = x.a ? C : y; DM<u64> A = tt(x.a ? Cd : Y, TA), T(2, 2);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        if (what == 3) { if (A.P(j, i)) T.set(i, j, A.V(j, i)); }
        else if (A.P(i, j)) T.set(i, j, what == 0 ? Un()(A.V(i, j)) : what == 1 ? Bin()(k, A.V(i, j)) : Bin()(A.V(i, j), k));
    }
    aliasM(x, Cd, T, C, [&](auto const &m, auto ac, auto o) {
        if (what == 0) grb::apply(C, m, ac, Un(), view<TA>(a), o);
        else if (what == 1) grb::apply(C, m, ac, Bin(), k, view<TA>(a), o);
        else if (what == 2) grb::apply(C, m, ac, Bin(), view<TA>(a), k, o);
        else grb::transpose(C, m, ac, view<TA>(a), o); });
    sym_reach("apply, transpose");
}
ENTRY chk_mxv_vxm() {
    bool vx = sym_choice(2); Al x = pick(1); DV<u64> Cd = genV<u64>(1, 2), Y = genV<u64>(3, 2); DM<u64> A = genM<u64>(2, 2, 2);
    auto C = mk(Cd); auto y = mk(Y); auto a = mk(A);
    grb::Vector<u64> const &u = x.a ? C : y; DV<u64> U = x.a ? Cd : Y;
    aliasV(x, Cd, vx ? refVxm(U, tt(A, TA)) : refMxv(tt(A, TA), U), C, [&](auto const &m, auto ac, auto o) { if (vx) grb::vxm(C, m, ac, Ring(), u, view<TA>(a), o); else grb::mxv(C, m, ac, Ring(), view<TA>(a), u, o); });
    sym_reach("mxv, vxm");
}
ENTRY chk_extract_assign_matrix() {
    static const int PI[3][2] = {{0, 1}, {1, 0}, {1, 1}};
    static const int RC[5][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}};
    int what = sym_choice(2), w = sym_choice(what ? 5 : 6), ri = RC[w % 5][0], ci = RC[w % 5][1]; bool all = w == 0;
    if (what == 1 && ri == 2) { ri = 0; ci = 0; } if (w == 5) { ri = 2; ci = 2; }
    Al x = pick(1); DM<u64> Cd = genM<u64>(1, 2, 2), Y = other(2, 2, 2);
    auto C = mk(Cd); auto y = mk(Y);
    grb::Matrix<u64> const &a = x.a ? C : y; DM<u64> A = tt(x.a ? Cd : Y, TA), T(2, 2);
    grb::IndexArrayType I{(u64)PI[ri][0], (u64)PI[ri][1]}, J{(u64)PI[ci][0], (u64)PI[ci][1]};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        if (what == 0) { if (A.P(I[i], J[j])) T.set(i, j, A.V(I[i], J[j])); }
        else if (A.P(i, j)) T.set(I[i], J[j], A.V(i, j));
    }
    aliasM(x, Cd, T, C, [&](auto const &m, auto ac, auto o) {
        if (what == 0) { if (all) grb::extract(C, m, ac, view<TA>(a), grb::AllIndices(), grb::AllIndices(), o); else grb::extract(C, m, ac, view<TA>(a), I, J, o); }
        else if (all) grb::assign(C, m, ac, view<TA>(a), grb::AllIndices(), grb::AllIndices(), o); else grb::assign(C, m, ac, view<TA>(a), I, J, o); });
    sym_reach("extract, assign matrix");
}
#endif
#if TR == 0
ENTRY chk_vector_ops() {
    static const int PI[4][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {2, 2, 0}};
    int what = sym_choice(7); Al x = pick(what < 2 ? 2 : 1); DV<u64> Cd = genV<u64>(1, 3), Y = genV<u64>(2, 3); u64 k = sym_bits(99, 64);
    auto C = mk(Cd); auto y = mk(Y); int pi = what == 5 ? sym_choice(4) : what == 6 ? sym_choice(3) : 0;
    grb::IndexArrayType I{(u64)PI[pi][0], (u64)PI[pi][1], (u64)PI[pi][2]};
    grb::Vector<u64> const &a = x.a ? C : y, &b = x.b ? C : y; DV<u64> A = x.a ? Cd : Y, B = x.b ? Cd : Y, T(3);
    if (what < 2) T = refEwise(A, B, what == 0, Bin());
    else for (int i = 0; i < 3; ++i) {
        if (what == 5) { if (A.p[I[i]]) T.set(i, A.v[I[i]]); }
        else if (A.p[i]) { if (what == 6) T.set(I[i], A.v[i]); else T.set(i, what == 2 ? Un()(A.v[i]) : what == 3 ? Bin()(k, A.v[i]) : Bin()(A.v[i], k)); }
    }
    aliasV(x, Cd, T, C, [&](auto const &m, auto ac, auto o) {
        if (what == 0) grb::eWiseAdd(C, m, ac, Bin(), a, b, o);
        else if (what == 1) grb::eWiseMult(C, m, ac, Bin(), a, b, o);
        else if (what == 2) grb::apply(C, m, ac, Un(), a, o);
        else if (what == 3) grb::apply(C, m, ac, Bin(), k, a, o);
        else if (what == 4) grb::apply(C, m, ac, Bin(), a, k, o);
        else if (what == 5) grb::extract(C, m, ac, a, I, o);
        else grb::assign(C, m, ac, a, I, o); });
    sym_reach("vector operations");
}
// a mask that is also an input (the output is a separate object)
ENTRY chk_mask_is_input() {
    int what = sym_choice(4), mk_ = 1 + sym_choice(4), rep = sym_choice(2); DM<u64> A = genM<u64>(1, 2, 2), B = other(2, 2, 2), Cd = other(3, 2, 2);
    auto a = mk(A); auto b = mk(B); auto C = mk(Cd); grb::OutputControlEnum o = rep ? grb::REPLACE : grb::MERGE;
    DM<u64> T = what == 0 ? refMxm(A, B) : what == 1 ? refMxm(B, A) : refEwise(A, B, what == 2, Bin());
    withMask(mk_, a, [&](auto const &m) { NO_THROW("operation throws on valid arguments", {
        if (what == 0) grb::mxm(C, m, grb::NoAccumulate(), Ring(), a, b, o);
        else if (what == 1) grb::mxm(C, m, grb::NoAccumulate(), Ring(), b, a, o);
        else if (what == 2) grb::eWiseAdd(C, m, grb::NoAccumulate(), Bin(), a, b, o);
        else grb::eWiseMult(C, m, grb::NoAccumulate(), Bin(), a, b, o); }); });
    same(C, writeBack(Cd, T, A, mk_, false, rep), STR, VAL);
    same(a, A, "input unchanged", "input unchanged");
    sym_reach("mask is input");
}
#endif
