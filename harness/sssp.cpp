#include "wgraph.hpp"
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
// PART 0: Bellman-Ford, 1: delta stepping, 2: all pairs
#ifdef THOROUGH
#define WIDE true
#else
#define WIDE false
#endif
#if PART == 0
#if WB >= 5
ENTRY chk_sssp() {
    bool f = sym_choice(2); WG g = genWG(genG(NN, false), 0); auto G = mkW(g); Dist d = genD(NN, 900); auto v = mkD(d, NN); bool ok = false;
    NO_THROW("sssp throws", ok = f ? algorithms::filtered_sssp(G, v) : algorithms::sssp(G, v));
    refSssp(g, d);
    sym_assert(ok, F); distAre(v, d, NN, S, V);
    sym_reach("sssp, filtered sssp");
}
#else
ENTRY chk_sssp_negative() {     // negative weights, self loops, negative cycles
    bool f = sym_choice(2), loops = sym_choice(2); Gr q = genG(loops ? 2 : NN, loops); int c = 0; for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) c += q.e[i][j];
    if (c > 4) sym_end();
    WG g = genWG(q, -LIM); auto G = mkW(g); Dist d = genD(q.n, 900, WIDE); auto v = mkD(d, q.n); bool ok = false;
    NO_THROW("sssp throws", ok = f ? algorithms::filtered_sssp(G, v) : algorithms::sssp(G, v));
    bool r = refSssp(g, d);
    sym_assert(ok == r, F); if (r) distAre(v, d, q.n, S, V);
    sym_reach("sssp with negative weights");
}
ENTRY chk_batch() {
    WG g = genWG(genG(NN, false), 0); auto G = mkW(g); Dist a = genD(NN, 900, WIDE), b = genD(NN, 910, WIDE); grb::Matrix<w_t> m(2, NN); bool ok = false;
    for (int i = 0; i < NN; ++i) { if (a.p[i]) m.setElement(0, i, a.d[i]); if (b.p[i]) m.setElement(1, i, b.d[i]); }
    NO_THROW("batch_sssp throws", ok = algorithms::batch_sssp(G, m));
    refSssp(g, a); refSssp(g, b);
    sym_assert(ok, F);
    for (int r = 0; r < 2; ++r) { grb::Vector<w_t> v(NN); for (int i = 0; i < NN; ++i) if (m.hasElement(r, i)) v.setElement(i, m.extractElement(r, i)); distAre(v, r ? b : a, NN, S, V); }
    sym_reach("batch sssp");
}
#endif
ENTRY chk_path() {      // a long path of n vertices: the iteration count matters
    int n = 4; Gr q; q.n = n; for (int i = 0; i < GMAX; ++i) for (int j = 0; j < GMAX; ++j) q.e[i][j] = false;
    bool rev = sym_choice(2), f = sym_choice(2); for (int i = 0; i + 1 < n; ++i) { if (rev) q.e[i + 1][i] = true; else q.e[i][i + 1] = true; } q.e[0][2] = true; q.e[1][3] = true; q.e[3][1] = symp(77);
    WG g = genWG(q, 0); auto G = mkW(g); Dist d; for (int i = 0; i < GMAX; ++i) { d.p[i] = false; d.d[i] = 0; } int s = rev ? n - 1 : 0; d.p[s] = true; auto v = mkD(d, n); bool ok = false;
    NO_THROW("sssp throws", ok = f ? algorithms::filtered_sssp(G, v) : algorithms::sssp(G, v));
    refSssp(g, d);
    sym_assert(ok, F); distAre(v, d, n, S, V);
    sym_reach("sssp on paths");
}
#elif PART == 1
// delta stepping: small weights, every delta
ENTRY chk_delta() {
    Gr q = genG(NN, false); WG g; g.g = q; int c = 0;
    for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) { g.w[i][j] = 0; if (q.e[i][j]) { ++c; g.w[i][j] = 1 + (SYMW(i, j) ? (w_t)sym_bits(300 + i * 10 + j, 2) : (w_t)((i * 7 + j * 5) % 4)); } }
    #ifndef FAM
    if (c > 3) sym_end();
#endif
    int s = sym_choice(NN); w_t delta = 1 + sym_choice(3); auto G = mkW(g); grb::Vector<w_t> v(NN); if (sym_choice(2)) v.setElement((s + 1) % NN, 5);
    NO_THROW("sssp_delta_step throws", algorithms::sssp_delta_step(G, delta, (Ix)s, v));
    Dist d; for (int i = 0; i < GMAX; ++i) { d.p[i] = false; d.d[i] = 0; } d.p[s] = true;
    refSssp(g, d);
    distAre(v, d, NN, S, V);
    sym_reach("delta stepping");
}
#else
ENTRY chk_apsp() {
    WG g = genWG(genG(NN, false), 0); auto G = mkW(g);
    try {
        auto m = algorithms::apsp(G);
        sym_assert(m.nrows() == NN && m.ncols() == NN, "dimensions");
        for (int s = 0; s < NN; ++s) {
            Dist d; for (int i = 0; i < GMAX; ++i) { d.p[i] = false; d.d[i] = 0; } d.p[s] = true; refSssp(g, d);
            for (int i = 0; i < NN; ++i) { bool h = m.hasElement(s, i); sym_assert(h == d.p[i], "exactly the connected pairs have a distance"); if (h) sym_assert(m.extractElement(s, i) == d.d[i], V); }
        }
    } catch (...) { sym_fail("apsp throws"); }
    sym_reach("apsp");
}
ENTRY chk_apsp_loops() {
    WG g = genWG(genG(2, true), 0); auto G = mkW(g);
    try {
        auto m = algorithms::apsp(G);
        for (int s = 0; s < 2; ++s) {
            Dist d; for (int i = 0; i < GMAX; ++i) { d.p[i] = false; d.d[i] = 0; } d.p[s] = true; refSssp(g, d);
            for (int i = 0; i < 2; ++i) { bool h = m.hasElement(s, i); sym_assert(h == d.p[i], "exactly the connected pairs have a distance"); if (h) sym_assert(m.extractElement(s, i) == d.d[i], V); }
        }
    } catch (...) { sym_fail("apsp throws"); }
    sym_reach("apsp with self loops");
}
#endif
