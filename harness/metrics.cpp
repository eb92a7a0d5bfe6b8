#include "wgraph.hpp"
#include <algorithms/metrics.hpp>
// PART 0: degrees and unit weights on 3..4 vertices, 1: symbolic weights
static Dist from(WG const &g, int s) { Dist d; for (int i = 0; i < GMAX; ++i) { d.p[i] = false; d.d[i] = 0; } d.p[s] = true; refSssp(g, d); return d; }
static w_t mx(w_t a, w_t b) { return a < b ? b : a; }
static w_t ecc(Dist const &d, int n) { w_t m = 0; for (int i = 0; i < n; ++i) if (d.p[i]) m = mx(m, d.d[i]); return m; }
#if PART == 0
ENTRY chk_degrees() {
    Gr g = genG(NN, true); auto G = mkGv<w_t>(g); int v = sym_choice(NN); w_t in = 0, out = 0, a = -1, b = -1, c = -1;
    for (int i = 0; i < NN; ++i) { in += g.e[i][v]; out += g.e[v][i]; }
    NO_THROW("degree throws", a = algorithms::vertex_in_degree(G, (Ix)v); b = algorithms::vertex_out_degree(G, (Ix)v); c = algorithms::vertex_degree(G, (Ix)v));
    sym_assert(a == in, "in-degree"); sym_assert(b == out, "out-degree"); sym_assert(c == in + out, "degree");
    sym_reach("degrees");
}
ENTRY chk_bad_vertex() {
    Gr g = genG(2, true); auto G = mkG<w_t>(g); u64 v = sym_bits(40, 64); sym_assume(v >= 2); int k = sym_choice(3), t = 0;
    try { if (k == 0) algorithms::vertex_in_degree(G, v); else if (k == 1) algorithms::vertex_out_degree(G, v); else algorithms::vertex_degree(G, v); } catch (grb::DimensionException const &) { t = 1; } catch (...) { t = 2; }
    sym_assert(t == 1, "an unknown vertex is reported"); sym_reach("unknown vertex");
}
#else
ENTRY chk_distance() {
    WG g = genWG(genG(NN, false), 0); auto G = mkW(g); int s = sym_choice(NN); grb::Vector<w_t> v(NN); if (sym_choice(2)) v.setElement((s + 1) % NN, 3);
    w_t e = -1, c = -1;
    NO_THROW("metric throws", algorithms::graph_distance(G, (Ix)s, v); e = algorithms::vertex_eccentricity(G, (Ix)s); c = algorithms::closeness_centrality(G, (Ix)s));
    Dist d = from(g, s); distAre(v, d, NN, "exactly the reachable vertices have a distance", "distance"); w_t sum = 0; for (int i = 0; i < NN; ++i) if (d.p[i]) sum += d.d[i];
    sym_assert(e == ecc(d, NN), "eccentricity"); sym_assert(c == sum, "far-ness");
    sym_reach("distances from a vertex");
}
ENTRY chk_matrix() {
    WG g = genWG(genG(NN, false), 0); auto G = mkW(g); grb::Matrix<w_t> R(NN, NN); if (sym_choice(2)) R.setElement(0, 1, 1);
    w_t rad = -1, dia = -1;
    NO_THROW("metric throws", algorithms::graph_distance_matrix(G, R); rad = algorithms::graph_radius(G); dia = algorithms::graph_diameter(G));
    w_t lo = 0, hi = 0;
    for (int s = 0; s < NN; ++s) {
        Dist d = from(g, s); w_t e = ecc(d, NN); lo = s ? mn(lo, e) : e; hi = mx(hi, e);
        for (int i = 0; i < NN; ++i) { bool h = R.hasElement(s, i); sym_assert(h == d.p[i], "exactly the connected pairs have a distance"); if (h) sym_assert(R.extractElement(s, i) == d.d[i], "distance"); }
    }
    sym_assert(rad == lo, "radius"); sym_assert(dia == hi, "diameter");
    sym_reach("distance matrix");
}
#endif
