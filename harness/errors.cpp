#include "model.hpp"
#include <cstring>
// API error contract: which calls are rejected, with what, and that a rejected call changes nothing
enum { OKAY, DIMENSION, OOB, BADINDEX, BADVALUE, NOVALUE, OTHER };
template <class F> int outcome(F f) {
    try { f(); return OKAY; }
    catch (grb::DimensionException const &) { return DIMENSION; }
    catch (grb::IndexOutOfBoundsException const &) { return OOB; }
    catch (grb::InvalidIndexException const &) { return BADINDEX; }
    catch (grb::InvalidValueException const &) { return BADVALUE; }
    catch (grb::NoValueException const &) { return NOVALUE; }
    catch (...) { return OTHER; }
}
typedef grb::Matrix<u64> Mx; typedef grb::Vector<u64> Vx;
typedef grb::Matrix<bool> Bx; typedef grb::Vector<bool> Wx;
static grb::NoAccumulate NA;
static u64 dim() { return 1 + sym_choice(2); }
// a column count the solver chooses (rows are what is allocated)
static u64 sdim(int id) { u64 n = sym_bits(id, 64); sym_assume(n >= 1); return n; }
template <class T> grb::Matrix<T> mat(u64 r, u64 c, T v) { grb::Matrix<T> m(r, c); m.setElement(0, 0, v); return m; }
template <class T> grb::Vector<T> vec(u64 n, T v) { grb::Vector<T> m(n); m.setElement(0, v); if (n > 1) m.setElement(n - 1, v); return m; }
static void verdict(int got, bool bad, int want, bool unchanged) {
    sym_assert((got == OKAY) == !bad, bad ? "an invalid call is rejected" : "a valid call is accepted");
    if (bad) { sym_assert(got == want, "the documented exception"); sym_assert(unchanged, "a rejected call leaves its output alone"); sym_reach("rejected"); }
    else sym_reach("accepted");
}
template <class M, class F> void anyMask(M const &m, F f) { withMask(1 + sym_choice(4), m, f); }
// run a call on output C under mask kind none/others
template <class C_, class M, class F> int go(C_ &C, M const &m, bool useMask, F call) {
    int got = OKAY;
    if (!useMask) got = outcome([&] { call(C, grb::NoMask()); });
    else anyMask(m, [&](auto const &mk) { got = outcome([&] { call(C, mk); }); });
    return got;
}
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static Mx mt(u64 r, u64 c, bool t) { return t ? mat<u64>(c, r, 3) : mat<u64>(r, c, 3); }
#if PART == 1
ENTRY chk_mxm() {
    u64 cr = dim(), cc = dim(), ar = dim(), ac = dim(), br = dim(), bc = dim(); bool um = sym_choice(2);
    u64 mr = um ? dim() : cr, mc = um ? dim() : cc;
    Mx C = mat<u64>(cr, cc, 5), C0 = C, A = mt(ar, ac, TA), B = mt(br, bc, TB); Bx M = mat<bool>(mr, mc, true);
    int g = go(C, M, um, [&](auto &c, auto const &m) { grb::mxm(c, m, NA, Ring(), view<TA>(A), view<TB>(B)); });
    verdict(g, cr != mr || cc != mc || cr != ar || cc != bc || ac != br, DIMENSION, C == C0);
}
ENTRY chk_ewise() {
    u64 cr = dim(), cc = dim(), ar = dim(), ac = dim(), br = dim(), bc = dim(); bool um = sym_choice(2), add = sym_choice(2);
    u64 mr = um ? dim() : cr, mc = um ? dim() : cc;
    Mx C = mat<u64>(cr, cc, 5), C0 = C, A = mt(ar, ac, TA), B = mt(br, bc, TB); Bx M = mat<bool>(mr, mc, true);
    int g = go(C, M, um, [&](auto &c, auto const &m) { if (add) grb::eWiseAdd(c, m, NA, Bin(), view<TA>(A), view<TB>(B)); else grb::eWiseMult(c, m, NA, Bin(), view<TA>(A), view<TB>(B)); });
    verdict(g, cr != mr || cc != mc || cr != ar || cc != ac || cr != br || cc != bc, DIMENSION, C == C0);
}
ENTRY chk_kronecker() {
    u64 cr = 1 + sym_choice(4), cc = 1 + sym_choice(4), ar = dim(), ac = dim(), br = dim(), bc = dim(); bool um = sym_choice(2);
    u64 mr = um ? 1 + sym_choice(4) : cr, mc = cc;
    Mx C = mat<u64>(cr, cc, 5), C0 = C, A = mt(ar, ac, TA), B = mt(br, bc, TB); Bx M = mat<bool>(mr, mc, true);
    int g = outcome([&] { if (um) grb::kronecker(C, M, NA, Bin(), view<TA>(A), view<TB>(B)); else grb::kronecker(C, grb::NoMask(), NA, Bin(), view<TA>(A), view<TB>(B)); });
    verdict(g, cr != mr || cc != mc || cr != ar * br || cc != ac * bc, DIMENSION, C == C0);
}
#if TR == 0
// column counts are solver variables
ENTRY chk_ewise_any_width() {
    u64 r = dim(), cc = sdim(1), ac = sdim(2), bc = sdim(3), mc = sdim(4); bool um = sym_choice(2), add = sym_choice(2);
    if (!um) mc = cc;
    Mx C = mat<u64>(r, cc, 5), C0 = C, A = mat<u64>(r, ac, 3), B = mat<u64>(r, bc, 3); Bx M = mat<bool>(r, mc, true);
    int g = outcome([&] { if (!um) { if (add) grb::eWiseAdd(C, grb::NoMask(), NA, Bin(), A, B); else grb::eWiseMult(C, grb::NoMask(), NA, Bin(), A, B); }
                          else { if (add) grb::eWiseAdd(C, M, NA, Bin(), A, B); else grb::eWiseMult(C, M, NA, Bin(), A, B); } });
    verdict(g, cc != mc || cc != ac || cc != bc, DIMENSION, C == C0);
}
ENTRY chk_mxm_any_width() {
    u64 r = dim(), k = dim(), cc = sdim(1), ac = sdim(2), bc = sdim(3), mc = sdim(4); bool um = sym_choice(2);
    if (!um) mc = cc;
    Mx C = mat<u64>(r, cc, 5), C0 = C, A = mat<u64>(r, ac, 3), B = mat<u64>(k, bc, 3); Bx M = mat<bool>(r, mc, true);
    int g = outcome([&] { if (!um) grb::mxm(C, grb::NoMask(), NA, Ring(), A, B); else grb::mxm(C, M, NA, Ring(), A, B); });
    verdict(g, cc != mc || cc != bc || ac != k, DIMENSION, C == C0);
}
#endif
#endif
#if PART == 2
ENTRY chk_mxv() {
    u64 w = dim(), ar = dim(), ac = dim(), un = dim(); bool um = sym_choice(2), vx = sym_choice(2); u64 mn = um ? dim() : w;
    Vx W = vec<u64>(w, 5), W0 = W, U = vec<u64>(un, 2); Wx M = vec<bool>(mn, true); Mx A = mt(ar, ac, TA);
    int g = go(W, M, um, [&](auto &o, auto const &m) { if (vx) grb::vxm(o, m, NA, Ring(), U, view<TA>(A)); else grb::mxv(o, m, NA, Ring(), view<TA>(A), U); });
    verdict(g, w != mn || w != (vx ? ac : ar) || un != (vx ? ar : ac), DIMENSION, W == W0);
}
ENTRY chk_apply_reduce_transpose() {
    u64 cr = dim(), cc = dim(), ar = dim(), ac = dim(), what = sym_choice(5); bool um = sym_choice(2);
    u64 mr = um ? dim() : cr, mc = um ? dim() : cc;
    Mx A = mt(ar, ac, TA);
    if (what == 4) {
        Vx W = vec<u64>(cr, 5), W0 = W; Wx M = vec<bool>(mr, true);
        int g = go(W, M, um, [&](auto &o, auto const &m) { grb::reduce(o, m, NA, AddMonoid<u64>(), view<TA>(A)); });
        verdict(g, cr != mr || cr != ar, DIMENSION, W == W0);
        return;
    }
    Mx C = mat<u64>(cr, cc, 5), C0 = C; Bx M = mat<bool>(mr, mc, true);
    int g = go(C, M, um, [&](auto &c, auto const &m) {
        if (what == 0) grb::apply(c, m, NA, Un(), view<TA>(A));
        else if (what == 1) grb::apply(c, m, NA, Bin(), (u64)9, view<TA>(A));
        else if (what == 2) grb::apply(c, m, NA, Bin(), view<TA>(A), (u64)9);
        else grb::transpose(c, m, NA, view<TA>(A)); });
    verdict(g, cr != mr || cc != mc || (what == 3 ? cr != ac || cc != ar : cr != ar || cc != ac), DIMENSION, C == C0);
}
#if TR == 0
ENTRY chk_vector_ops() {
    u64 w = dim(), un = dim(), vn = dim(), what = sym_choice(5); bool um = sym_choice(2); u64 mn = um ? dim() : w;
    Vx W = vec<u64>(w, 5), W0 = W, U = vec<u64>(un, 2), V = vec<u64>(vn, 2); Wx M = vec<bool>(mn, true);
    int g = go(W, M, um, [&](auto &o, auto const &m) {
        if (what == 0) grb::eWiseAdd(o, m, NA, Bin(), U, V);
        else if (what == 1) grb::eWiseMult(o, m, NA, Bin(), U, V);
        else if (what == 2) grb::apply(o, m, NA, Un(), U);
        else if (what == 3) grb::apply(o, m, NA, Bin(), (u64)9, U);
        else grb::apply(o, m, NA, Bin(), U, (u64)9); });
    verdict(g, w != mn || w != un || (what < 2 && w != vn), DIMENSION, W == W0);
}
ENTRY chk_any_width() {
    u64 r = dim(), cc = sdim(1), ac = sdim(2), mc = sdim(3), what = sym_choice(4); bool um = sym_choice(2);
    if (!um) mc = cc;
    Mx C = mat<u64>(r, cc, 5), C0 = C, A = mat<u64>(r, ac, 3); Bx M = mat<bool>(r, mc, true);
    auto f = [&](auto const &m) {
        if (what == 0) grb::apply(C, m, NA, Un(), A);
        else if (what == 1) grb::apply(C, m, NA, Bin(), (u64)9, A);
        else if (what == 2) grb::apply(C, m, NA, Bin(), A, (u64)9);
        else grb::assign(C, m, NA, (u64)4, grb::IndexArrayType{0}, grb::IndexArrayType{0}); };
    int g = outcome([&] { if (um) f(M); else f(grb::NoMask()); });
    verdict(g, cc != mc || (what < 3 && cc != ac), DIMENSION, C == C0);
}
// what() names the exception and carries its message
template <class E> void message(const char *name) {
    std::string s;
    try { throw E("some detail"); } catch (std::exception const &e) { s = e.what(); }
    sym_assert(s == std::string(name) + ": some detail", "what() text");
    try { throw E(); } catch (std::exception const &e) { s = e.what(); }
    sym_assert(s.compare(0, strlen(name), name) == 0, "what() text");
}
ENTRY chk_what() {
    message<grb::DimensionException>("DimensionException"); message<grb::IndexOutOfBoundsException>("IndexOutOfBoundsException");
    message<grb::InvalidIndexException>("InvalidIndexException"); message<grb::InvalidValueException>("InvalidValueException");
    message<grb::NoValueException>("NoValueException"); message<grb::PanicException>("PanicException"); message<grb::OutputNotEmptyException>("OutputNotEmptyException");
    sym_reach("what() checked");
}
#endif
#endif
#if PART == 3
// index contents are 64-bit solver variables
static grb::IndexArrayType list(int id, int n) { grb::IndexArrayType a; for (int i = 0; i < n; ++i) a.push_back(sym_bits(id + i, 64)); return a; }
static bool inside(grb::IndexArrayType const &a, u64 n) { for (auto x : a) if (!(x < n)) return false; return true; }
static void verdict2(int got, bool dimBad, bool idxBad, bool rcBad, bool unchanged) {
    bool bad = dimBad || idxBad || rcBad;
    sym_assert((got == OKAY) == !bad, bad ? "an invalid call is rejected" : "a valid call is accepted");
    if (bad) {
        sym_assert((got == DIMENSION && dimBad) || (got == OOB && idxBad) || (got == BADINDEX && rcBad), "the documented exception");
        sym_assert(unchanged, "a rejected call leaves its output alone");
        if (dimBad) sym_reach("dimension"); else if (idxBad) sym_reach("index content"); else sym_reach("row/column index");
    } else sym_reach("accepted");
}
ENTRY chk_extract_vector() {
    u64 w = dim(), un = dim(), mn = dim(); bool um = sym_choice(2); int n = sym_choice(4); auto I = list(100, n);
    Vx W = vec<u64>(w, 5), W0 = W, U = vec<u64>(un, 2); Wx M = vec<bool>(mn, true);
    int g = go(W, M, um, [&](auto &o, auto const &m) { grb::extract(o, m, NA, U, I); });
    verdict2(g, (um && w != mn) || w != (u64)n, !inside(I, un), false, W == W0);
}
ENTRY chk_extract_matrix() {
    u64 cr = dim(), cc = dim(), ar = dim(), ac = sdim(1); bool um = sym_choice(2); u64 mr = um ? dim() : cr, mc = um ? dim() : cc;
    int n = sym_choice(3), k = sym_choice(3); auto I = list(100, n), J = list(110, k);
    Mx C = mat<u64>(cr, cc, 5), C0 = C, A = mat<u64>(ar, ac, 3); Bx M = mat<bool>(mr, mc, true);
    int g = outcome([&] { if (um) grb::extract(C, M, NA, A, I, J); else grb::extract(C, grb::NoMask(), NA, A, I, J); });
    verdict2(g, cr != mr || cc != mc || cr != (u64)n || cc != (u64)k, !inside(I, ar) || !inside(J, ac), false, C == C0);
}
ENTRY chk_extract_column() {
    u64 w = dim(), ar = dim(), ac = dim(), mn = dim(); bool um = sym_choice(2), tr = sym_choice(2); int n = sym_choice(4); auto I = list(100, n); u64 j = sym_bits(120, 64);
    Vx W = vec<u64>(w, 5), W0 = W; Wx M = vec<bool>(mn, true); Mx A = tr ? mat<u64>(ac, ar, 3) : mat<u64>(ar, ac, 3);
    int g = go(W, M, um, [&](auto &o, auto const &m) { if (tr) grb::extract(o, m, NA, grb::transpose(A), I, j); else grb::extract(o, m, NA, A, I, j); });
    verdict2(g, (um && w != mn) || w != (u64)n, !inside(I, ar), !(j < ac), W == W0);
}
ENTRY chk_assign_vector() {
    u64 w = dim(), un = dim(), mn = dim(); bool um = sym_choice(2); int n = sym_choice(4); auto I = list(100, n);
    if (n == 2) sym_assume(I[0] != I[1]);
    Vx W = vec<u64>(w, 5), W0 = W, U = vec<u64>(un, 2); Wx M = vec<bool>(mn, true);
    int g = go(W, M, um, [&](auto &o, auto const &m) { grb::assign(o, m, NA, U, I); });
    verdict2(g, (um && w != mn) || un != (u64)n, !inside(I, w), false, W == W0);
}
ENTRY chk_assign_matrix() {
    u64 cr = dim(), cc = sdim(1), ar = dim(), ac = dim(); bool um = sym_choice(2); u64 mr = um ? dim() : cr, mc = um ? sdim(2) : cc;
    int n = sym_choice(3), k = sym_choice(3); auto I = list(100, n), J = list(110, k);
    if (n == 2) sym_assume(I[0] != I[1]);
    if (k == 2) sym_assume(J[0] != J[1]);
    Mx C = mat<u64>(cr, cc, 5), C0 = C, A = mat<u64>(ar, ac, 3); Bx M = mat<bool>(mr, mc, true);
    int g = outcome([&] { if (um) grb::assign(C, M, NA, A, I, J); else grb::assign(C, grb::NoMask(), NA, A, I, J); });
    verdict2(g, cr != mr || cc != mc || ar != (u64)n || ac != (u64)k, !inside(I, cr) || !inside(J, cc), false, C == C0);
}
ENTRY chk_assign_row_column() {
    u64 cr = dim(), cc = dim(), un = dim(), mn = dim(); bool um = sym_choice(2), row = sym_choice(2); int n = sym_choice(3); auto I = list(100, n); u64 j = sym_bits(120, 64);
    if (n == 2) sym_assume(I[0] != I[1]);
    Mx C = mat<u64>(cr, cc, 5), C0 = C; Vx U = vec<u64>(un, 2); Wx M = vec<bool>(mn, true);
    int g = go(C, M, um, [&](auto &o, auto const &m) { if (row) grb::assign(o, m, NA, U, j, I); else grb::assign(o, m, NA, U, I, j); });
    u64 len = row ? cc : cr, other = row ? cr : cc;
    verdict2(g, (um && len != mn) || un != (u64)n, !inside(I, len), !(j < other), C == C0);
}
ENTRY chk_assign_constant() {
    u64 w = dim(), mn = dim(); bool um = sym_choice(2), isv = sym_choice(2); int n = sym_choice(4); auto I = list(100, n);
    if (isv) {
        Vx W = vec<u64>(w, 5), W0 = W; Wx M = vec<bool>(mn, true);
        int g = go(W, M, um, [&](auto &o, auto const &m) { grb::assign(o, m, NA, (u64)7, I); });
        verdict2(g, (um && w != mn) || (u64)n > w, !inside(I, w), false, W == W0);
        return;
    }
    u64 cc = sdim(1), mc = um ? sdim(2) : cc; int k = sym_choice(3); auto J = list(110, k);
    Mx C = mat<u64>(w, cc, 5), C0 = C; Bx M = mat<bool>(mn, mc, true);
    int g = outcome([&] { if (um) grb::assign(C, M, NA, (u64)7, I, J); else grb::assign(C, grb::NoMask(), NA, (u64)7, I, J); });
    verdict2(g, (um && (w != mn || cc != mc)) || (u64)n > w || (u64)k > cc, !inside(I, w) || !inside(J, cc), false, C == C0);
}
// AllIndices: a source larger than the output is rejected, an equal one is accepted
ENTRY chk_assign_all() {
    int what = sym_choice(4); u64 r = dim(), c = dim(), sr = 1 + sym_choice(3), sc = 1 + sym_choice(3);
    sym_assume(sr >= r && sc >= c);
    Mx C = mat<u64>(r, c, 5), C0 = C; Vx W = vec<u64>(r, 5), W0 = W;
    Mx A(sr, sc); A.setElement(sr - 1, sc - 1, 3); Vx U(sr), V(sc); U.setElement(sr - 1, 2); V.setElement(sc - 1, 2);
    grb::AllIndices all;
    if (what == 0) { int g = outcome([&] { grb::assign(W, grb::NoMask(), NA, U, all); }); verdict2(g, sr != r, sr > r, false, W == W0); }
    else if (what == 1) { int g = outcome([&] { grb::assign(C, grb::NoMask(), NA, A, all, all); }); verdict2(g, sr != r || sc != c, sr > r || sc > c, false, C == C0); }
    else if (what == 2) { int g = outcome([&] { grb::assign(C, grb::NoMask(), NA, U, all, 0); }); verdict2(g, sr != r, sr > r, false, C == C0); }
    else { int g = outcome([&] { grb::assign(C, grb::NoMask(), NA, V, 0, all); }); verdict2(g, sc != c, sc > c, false, C == C0); }
}
#endif
