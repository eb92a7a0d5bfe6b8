#include "model.hpp"
static const int S[][2] = {{2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}};
ENTRY chk_op() {
    int s = sym_choice(5); DM<u64> A = genM<u64>(1, S[s][0], S[s][1]); auto a = mk(A);
    plainM(A.T_(), [&](auto &C, auto const &m, auto acc, auto o) { grb::transpose(C, m, acc, a, o); });
    same(a, A, "input unchanged", "input unchanged");
    sym_reach("op");
}
ENTRY chk_op_of_view() { // transpose(transpose view) copies A
    int s = sym_choice(5); DM<u64> A = genM<u64>(1, S[s][0], S[s][1]); auto a = mk(A);
    plainM(A, [&](auto &C, auto const &m, auto acc, auto o) { grb::transpose(C, m, acc, grb::transpose(a), o); });
    sym_reach("op of view");
}
ENTRY chk_masked() {
    int s = sym_choice(3); DM<u64> A = s == 0 ? genM<u64>(1, 3, 1) : s == 1 ? genM<u64>(1, 1, 3) : genM<u64>(1, 2, 2);
    auto a = mk(A);
    runM(A.T_(), 5, 2, 2, s == 2 ? G_FULL : G_ANY, [&](auto &C, auto const &m, auto acc, auto o) { grb::transpose(C, m, acc, a, o); });
    sym_reach("masked");
}
ENTRY chk_view_masked() {
    int s = sym_choice(3); DM<u64> A = s == 0 ? genM<u64>(1, 3, 1) : s == 1 ? genM<u64>(1, 1, 3) : genM<u64>(1, 2, 2);
    auto a = mk(A);
    runM(A, 5, 2, 2, s == 2 ? G_FULL : G_ANY, [&](auto &C, auto const &m, auto acc, auto o) { grb::transpose(C, m, acc, grb::transpose(a), o); });
    sym_reach("view masked");
}
ENTRY chk_involution() {
    int s = sym_choice(5); DM<u64> A = genM<u64>(1, S[s][0], S[s][1]); auto a = mk(A);
    grb::Matrix<u64> t(A.c, A.r), b(A.r, A.c);
    NO_THROW("transpose throws", grb::transpose(t, grb::NoMask(), grb::NoAccumulate(), a); grb::transpose(b, grb::NoMask(), grb::NoAccumulate(), t));
    sym_assert(b == a, "transposing twice gives the original");
    sym_reach("involution");
}
