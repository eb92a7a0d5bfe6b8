#define SYM_MAXDRAW (2 * NN)
#ifndef NN
#define NN 3
#endif
#include "graph.hpp"
#include <algorithms/mis.hpp>
#include <algorithms/appendix_algorithms.hpp>
#ifndef GT
#define GT int
#endif
typedef GT gt;
template <class F> static void run(F f) {
    Gr g = genG(NN, false, true); auto G = mkG<gt>(g); grb::Vector<bool> s(NN);
    NO_THROW("mis throws", f(G, s));
    bool in[GMAX]; int c = 0;
    for (int i = 0; i < NN; ++i) { in[i] = s.hasElement(i); if (in[i]) { ++c; sym_assert(s.extractElement(i), "a stored flag is true"); } }
    sym_assert(s.nvals() == (Ix)c, "number of stored flags");
    for (int i = 0; i < NN; ++i) {
        bool nb = false; for (int j = 0; j < NN; ++j) if (g.e[i][j]) { nb |= in[j]; sym_assert(!(in[i] && in[j]), "no two members are adjacent"); }
        sym_assert(in[i] || nb, "every vertex outside has a neighbour inside");
    }
    if (in[0]) { auto ids = algorithms::get_vertex_IDs(s); sym_assert(ids.size() == (size_t)c && ids[0] == 0, "vertex ids of the set"); }
    sym_reach("maximal independent set");
}
ENTRY chk_mis() { run([](auto &G, auto &s) { algorithms::mis(G, s, 1.0); }); }
ENTRY chk_mis_appendix() { run([](auto &G, auto &s) { algorithms::mis_appendixB6(s, G, 1.0); }); }
