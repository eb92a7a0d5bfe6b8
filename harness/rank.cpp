#include "graph.hpp"
#include <algorithms/page_rank.hpp>
#include <cmath>
#ifndef NN
#define NN 3
#endif
static double w[GMAX][GMAX];
// a or b, chosen by the solver
static double pick(u64 id, double a, double b) { u64 x, y, r; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); r = sym_select(sym_bits(id, 1), x, y); __builtin_memcpy(&a, &r, 8); return a; }
static void step(Gr const &g, double d, double const *r, double *o) {
    for (int j = 0; j < NN; ++j) {
        double s = 0;
        for (int i = 0; i < NN; ++i) if (g.e[i][j]) { double t = 0; for (int k = 0; k < NN; ++k) if (g.e[i][k]) t += w[i][k]; s += r[i] * w[i][j] / t; }
        o[j] = (1 - d) / NN + d * s;
    }
}
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static Gr gen(grb::Matrix<double> &G, int kinds) {
    #ifdef FAM
    kinds = 2;
#endif
    Gr g = genG(NN, true); int kind = sym_choice(kinds);
    for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) { w[i][j] = kind == 0 ? 1 : kind == 1 || i ? 1 + (2 * i + j) % 3 : pick(300 + j, 1, 4); if (g.e[i][j]) G.setElement(i, j, w[i][j]); }
    return g;
}
ENTRY chk_iterations() {       // exactly k steps of the recurrence, whatever the rank vector held before
    grb::Matrix<double> G(NN, NN); Gr g = gen(G, 3); double d = pick(60, 0.85, 0.5); grb::Vector<double> r(NN); if (sym_choice(2)) r.setElement(1, 7);
    u64 k = sym_bits(50, 32); sym_assume(k <= 3);
    NO_THROW("page_rank throws", algorithms::page_rank(G, r, d, 0., (unsigned)k));
    double a[GMAX], b[GMAX]; for (int i = 0; i < NN; ++i) a[i] = 1. / NN;
    for (u64 s = 0; s < k; ++s) { step(g, d, a, b); for (int i = 0; i < NN; ++i) a[i] = b[i]; }
    for (int i = 0; i < NN; ++i) { sym_assert(r.hasElement(i), "every vertex has a rank"); sym_assert(near(r.extractElement(i), a[i], 1e-9), "rank after k iterations"); }
    sym_reach("k iterations");
}
ENTRY chk_fixed_point() {      // the default call terminates at a fixed point of the recurrence
    grb::Matrix<double> G(NN, NN); Gr g = gen(G, 2); grb::Vector<double> r(NN);
    NO_THROW("page_rank throws", algorithms::page_rank(G, r, 0.85, 1e-8));
    double a[GMAX], b[GMAX], e = 0; for (int i = 0; i < NN; ++i) { sym_assert(r.hasElement(i), "every vertex has a rank"); a[i] = r.extractElement(i); }
    step(g, 0.85, a, b); for (int i = 0; i < NN; ++i) e += (a[i] - b[i]) * (a[i] - b[i]);
    sym_assert(e / NN < 1e-7, "the rank is a fixed point up to the threshold");
    sym_reach("converged");
}
ENTRY chk_types() {            // integer and bool adjacency matrices
    Gr g = genG(NN, true); bool bl = sym_choice(2); grb::Vector<double> r(NN); for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) w[i][j] = 1;
    NO_THROW("page_rank throws", if (bl) { auto G = mkG<bool>(g); algorithms::page_rank(G, r, 0.85, 0., 2u); } else { auto G = mkG<int>(g); algorithms::page_rank(G, r, 0.85, 0., 2u); });
    double a[GMAX], b[GMAX]; for (int i = 0; i < NN; ++i) a[i] = 1. / NN;
    for (int s = 0; s < 2; ++s) { step(g, 0.85, a, b); for (int i = 0; i < NN; ++i) a[i] = b[i]; }
    for (int i = 0; i < NN; ++i) { sym_assert(r.hasElement(i), "every vertex has a rank"); sym_assert(near(r.extractElement(i), a[i], 1e-9), "rank after k iterations"); }
    sym_reach("integer and bool graphs");
}
