#include "graph.hpp"
#include <algorithms/bc.hpp>
#include <algorithms/appendix_algorithms.hpp>
#ifndef GT
#define GT int
#endif
#ifndef UND
#define UND false
#endif
#ifndef NN
#define NN 4
#endif
typedef GT gt;
// dependency of every vertex on source s; exact: path counts are at most 3, so all terms are multiples of 1/6
#ifdef FAM     // families: more shortest paths, so the sums are compared up to rounding
#define DEN 27720
#define IS(x, y) ((x) * DEN - (y) < 0.001 * DEN && (y) - (x) * DEN < 0.001 * DEN)
#else
#define DEN 6
#define IS(x, y) ((x) * DEN == (decltype((x) * DEN))(y))
#endif
static void dep6(Gr const &g, int s, int *d) {
    int n = g.n, dist[GMAX][GMAX], sig[GMAX][GMAX];
    for (int a = 0; a < n; ++a) {
        hops(g, a, dist[a]);
        for (int i = 0; i < n; ++i) sig[a][i] = 0;
        sig[a][a] = 1;
        for (int l = 1; l < n; ++l) for (int i = 0; i < n; ++i) if (dist[a][i] == l) for (int j = 0; j < n; ++j) if (g.e[j][i] && dist[a][j] == l - 1) sig[a][i] += sig[a][j];
    }
    for (int v = 0; v < n; ++v) {
        d[v] = 0;
        for (int t = 0; t < n; ++t) if (v != s && t != v && t != s && dist[s][t] > 0 && dist[s][v] > 0 && dist[v][t] > 0 && dist[s][v] + dist[v][t] == dist[s][t]) d[v] += DEN * sig[s][v] * sig[v][t] / sig[s][t];
    }
}
static int source() { u64 s = sym_bits(700, 64); sym_assume(s < NN); return (int)sym_concrete(s); }
static int source2() { u64 s = sym_bits(701, 64); sym_assume(s < NN); return (int)sym_concrete(s); }
static const char *EQ = "sum of the dependencies on the sources";
template <class F> static void batch(F f, bool two) {
    Gr g = genG(NN, false, UND); auto G = mkG<gt>(g); int d[GMAX], e[GMAX] = {0, 0, 0, 0, 0, 0}; grb::IndexArrayType s; s.push_back(source()); if (two) s.push_back(source2());
    dep6(g, (int)s[0], d); if (two) dep6(g, (int)s[1], e);
    try {
        auto r = f(G, s);
        sym_assert(r.size() == NN, "one value per vertex");
        for (int i = 0; i < NN; ++i) sym_assert(IS(r[i], d[i] + e[i]), EQ);
    } catch (...) { sym_fail("betweenness centrality throws"); }
    sym_reach("batch betweenness");
}
#if PART == 0
ENTRY chk_batch() {
    int w = sym_choice(5); bool two = NN < 4 || sym_choice(2) ;
    batch([w](auto &G, auto &s) -> std::vector<double> {
        if (w == 4) return algorithms::vertex_betweenness_centrality_batch_old(G, s);
        auto r = w == 0 ? algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(G, s) : w == 1 ? algorithms::vertex_betweenness_centrality_batch_alt_trans(G, s) : w == 2 ? algorithms::vertex_betweenness_centrality_batch_alt(G, s) : algorithms::vertex_betweenness_centrality_batch(G, s);
        return std::vector<double>(r.begin(), r.end());
    }, two);
}
#else
template <class V> static std::vector<double> dense(V const &v) { std::vector<double> r; for (int i = 0; i < NN; ++i) r.push_back(v.hasElement(i) ? v.extractElement(i) : 0); return r; }
ENTRY chk_update() { bool two = sym_choice(2); batch([](auto &G, auto &s) { grb::Vector<float> d(NN); if (s[0] == 0) d.setElement(1, 8); algorithms::BC_update_appendixB5(d, G, s); return dense(d); }, two); }
ENTRY chk_add() { batch([](auto &G, auto &s) { grb::Vector<float> d(NN); algorithms::BC_appendixB4(d, G, s[0]); algorithms::BC_appendixB4(d, G, s[1]); return dense(d); }, true); }
ENTRY chk_all() {
    Gr g = genG(NN, false, UND); auto G = mkG<double>(g); int d[GMAX], e[GMAX] = {0, 0, 0, 0, 0, 0};
    for (int s = 0; s < NN; ++s) { dep6(g, s, d); for (int i = 0; i < NN; ++i) e[i] += d[i]; }
    try {
        auto r = algorithms::vertex_betweenness_centrality(G);
        for (int i = 0; i < NN; ++i) sym_assert(IS(r[i], e[i]), EQ);
    } catch (...) { sym_fail("betweenness centrality throws"); }
    sym_reach("betweenness of all vertices");
}
#endif
