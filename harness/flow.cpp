#include "graph.hpp"
#include <algorithms/maxflow.hpp>
#ifndef NN
#define NN 3
#endif
#ifndef WB
#define WB 4
#endif
typedef int32_t ct;
#ifdef FAM      // one edge of arbitrary capacity
#define CAPS(i, j) ((i) * 3 + (j) == 5)
#else
#define CAPS(i, j) true
#endif
static const char *EQ = "the flow equals the minimum cut";
template <class F> static void flow(F f, int n, bool sparse) {
#ifdef FAM
    Gr g = genG(n, false); ct c[GMAX][GMAX]; int s = sym_choice(2) ? n - 1 : 0, t = s ? 0 : n - 1; sparse = true;
#else
    Gr g; g.n = n; ct c[GMAX][GMAX]; int s = sparse ? 0 : sym_choice(n), t = sparse ? n - 1 : sym_choice(n); if (s == t) sym_end();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g.e[i][j] = i != j && !(sparse && (j == s || i == t)) && symp(100 + i * 10 + j);
#endif
    grb::Matrix<ct> C(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { c[i][j] = 0; if (g.e[i][j]) { c[i][j] = 1 + (CAPS(i, j) ? (ct)sym_bits(300 + i * 10 + j, WB) : (ct)((i * 7 + j * 5) % 11)); C.setElement(i, j, c[i][j]); } }
    ct r = -1; NO_THROW("maximum flow throws", r = f(C, (Ix)s, (Ix)t));
    ct m = 0; bool first = true;
    for (int q = 0; q < 1 << n; ++q) if ((q >> s & 1) && !(q >> t & 1)) {
        ct x = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((q >> i & 1) && !(q >> j & 1)) x += c[i][j];
        m = first ? x : x < m ? x : m; first = false;
    }
    sym_assert(r == m, EQ);
    sym_reach("flow");
}
ENTRY chk_push_relabel() { flow([](auto &C, Ix s, Ix t) { return algorithms::maxflow_push_relabel(C, s, t); }, NN, NN > 3); }
ENTRY chk_ford_fulkerson() { flow([](auto &C, Ix s, Ix t) { return algorithms::maxflow_ford_fulk(C, s, t); }, NN, NN > 3); }
