// PART 0: cluster assignments; 1: peer pressure; 2: markov; 3: louvain
#ifndef NN
#define NN 3
#endif
#define SYM_MAXDRAW 8
#include "graph.hpp"
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
#ifndef LOOPS
#define LOOPS true
#endif
#ifndef UND
#define UND false
#endif
using namespace algorithms;
// one of four weights, chosen by the solver
static double wt(u64 id, bool few = false) {
    static const double t[4] = {0.5, 1, 2, 7}; u64 b[4], q = few ? sym_bits(id, 1) : sym_bits(id, 2), r; double d; for (int i = 0; i < 4; ++i) __builtin_memcpy(&b[i], &t[i], 8);
    r = few ? sym_select(q, b[0], b[2]) : sym_select(q & 1, sym_select(q >> 1, b[0], b[1]), sym_select(q >> 1, b[2], b[3])); __builtin_memcpy(&d, &r, 8); return d;
}
#if PART == 0
// every assignment of vertices to at most one cluster, and matrices with several candidates
static int own[GMAX];
static grb::Matrix<bool> clusters(bool rowsAreVertices) {
    grb::Matrix<bool> C(NN, NN);
    for (int v = 0; v < NN; ++v) { own[v] = (int)sym_choice(NN + 1) - 1; if (own[v] >= 0) { if (rowsAreVertices) C.setElement(v, own[v], true); else C.setElement(own[v], v, true); } }
    return C;
}
ENTRY chk_assign() {
    auto C = clusters(false); grb::IndexArrayType a(1); grb::Vector<Ix> b(NN);
    NO_THROW("assignment throws", a = get_cluster_assignments(C); b = get_cluster_assignments_v2(C));
    sym_assert(a.size() == NN && b.size() == NN, "one slot per vertex");
    for (int v = 0; v < NN; ++v) { sym_assert(a[v] == (own[v] < 0 ? ~(Ix)0 : (Ix)own[v]), "cluster of the vertex"); bool h = b.hasElement(v); sym_assert(h == (own[v] >= 0), "a vertex of no cluster has none"); if (h) sym_assert(b.extractElement(v) == (Ix)own[v], "cluster of the vertex (v2)"); }
    sym_reach("assignments");
}
ENTRY chk_assign_louvain() {
    auto C = clusters(true); grb::Vector<Ix> b(NN);
    NO_THROW("assignment throws", b = get_louvain_cluster_assignments(C));
    for (int v = 0; v < NN; ++v) { bool h = b.hasElement(v); sym_assert(h == (own[v] >= 0), "a vertex of no cluster has none"); if (h) sym_assert(b.extractElement(v) == (Ix)own[v], "cluster of the vertex (louvain)"); }
    sym_reach("louvain assignments");
}
// strongest row wins (weights symbolic)
ENTRY chk_assign_max() {
    grb::Matrix<double> C(NN, NN); double w[NN][NN]; bool p[NN][NN];
    for (int i = 0; i < NN; ++i) for (int v = 0; v < NN; ++v) { p[i][v] = symp(100 + i * 10 + v); w[i][v] = wt(200 + i * 10 + v); if (p[i][v]) C.setElement(i, v, w[i][v]); }
    grb::IndexArrayType a(1); NO_THROW("assignment throws", a = get_cluster_assignments(C));
    for (int v = 0; v < NN; ++v) { bool any = false; for (int i = 0; i < NN; ++i) any |= p[i][v]; if (!any) { sym_assert(a[v] == ~(Ix)0, "no cluster"); continue; }
        bool ok = false; for (int i = 0; i < NN; ++i) if (p[i][v]) { bool best = true; for (int k = 0; k < NN; ++k) if (p[k][v]) best = best & (w[i][v] >= w[k][v]); ok = ok | ((a[v] == (Ix)i) & best); } sym_assert(ok, "row of the maximum value"); }
    sym_reach("maximum");
}
#elif PART == 1
// one round of votes: every vertex joins the cluster with the largest tally, the last of equals
static void vote(Gr const &g, bool normalize, int *c) {
    int nc[GMAX];
    for (int v = 0; v < NN; ++v) {
        double best = 0; nc[v] = -1;
        for (int k = 0; k < NN; ++k) { double t = 0; bool any = false; for (int u = 0; u < NN; ++u) if (c[u] == k && g.e[u][v]) { int d = 0; for (int x = 0; x < NN; ++x) d += g.e[u][x]; t += normalize ? 1.0 / d : 1.0; any = true; } if (any && t >= best) { best = t; nc[v] = k; } }
    }
    for (int v = 0; v < NN; ++v) c[v] = nc[v];
}
#ifndef ITERS
#define ITERS 2
#define GT int
#endif
#ifdef FAM
#define START(v) ((int)sym_choice(v < 3 ? NN : 1) + (v < 3 ? 0 : v / 2))
#else
#define START(v) sym_choice(NN)
#endif
static void run(bool normalize, int form) {
    Gr g = genG(NN, LOOPS, UND); auto G = mkG<GT>(g); unsigned it = 1 + sym_choice(ITERS); int c[GMAX]; 
    auto C = grb::scaled_identity<grb::Matrix<bool>>(NN); for (int v = 0; v < NN; ++v) c[v] = v;
    if (form == 1) { C.clear(); for (int v = 0; v < NN; ++v) { c[v] = START(v); C.setElement(c[v], v, true); } }
    NO_THROW("clustering throws", if (!normalize) peer_pressure_cluster_v2(G, C, it); else if (form == 2) C = peer_pressure_cluster(G, it); else peer_pressure_cluster(G, C, it));
    for (unsigned k = 0; k < it; ++k) vote(g, normalize, c);
    for (int v = 0; v < NN; ++v) for (int k = 0; k < NN; ++k) { bool h = C.hasElement(k, v); sym_assert(h == (c[v] == k), "each vertex is in the cluster with the most votes"); if (h) sym_assert(C.extractElement(k, v), "membership is true"); }
    sym_reach("peer pressure");
}
// one round with arbitrary 16-bit edge weights, integer tallies, arbitrary starting clusters
#ifdef WEIGHTS
ENTRY chk_pp2_weights() {
    Gr g = genG(NN, LOOPS, UND); grb::Matrix<int64_t> G(NN, NN); int64_t w[NN][NN];
    for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) if (g.e[i][j]) { w[i][j] = 1 + (int64_t)sym_bits(300 + i * 10 + j, 16); G.setElement(i, j, w[i][j]); }
    int c[GMAX]; grb::Matrix<bool> C(NN, NN); for (int v = 0; v < NN; ++v) { c[v] = v == 0 ? 0 : sym_choice(NN); C.setElement(c[v], v, true); }
    NO_THROW("clustering throws", (peer_pressure_cluster_v2<grb::Matrix<int64_t>, int64_t>(G, C, 1)));
    for (int v = 0; v < NN; ++v) {
        int64_t t[NN]; bool any = false; for (int k = 0; k < NN; ++k) { t[k] = 0; for (int u = 0; u < NN; ++u) if (c[u] == k && g.e[u][v]) { t[k] += w[u][v]; any = true; } }
        int in = -1, n = 0; for (int k = 0; k < NN; ++k) if (C.hasElement(k, v)) { ++n; in = k; sym_assert(C.extractElement(k, v), "membership is true"); }
        sym_assert(n == (any ? 1 : 0), "a vertex with votes is in exactly one cluster"); if (n != 1) continue;
        bool best = true; for (int k = 0; k < NN; ++k) if (k != in) best = best & (k > in ? t[in] > t[k] : t[in] >= t[k]); sym_assert(best, "the cluster with the most votes, the last of equals");
    }
    sym_reach("weighted votes");
}
// the normalized variant: every vertex's votes add up to one
ENTRY chk_pp_weights() {
    Gr g = genG(NN, LOOPS, UND); grb::Matrix<double> G(NN, NN); double w[NN][NN], s[NN];
    for (int i = 0; i < NN; ++i) { s[i] = 0; for (int j = 0; j < NN; ++j) if (g.e[i][j]) { w[i][j] = i < 1 ? wt(300 + i * 10 + j, true) : 1 + j; s[i] += w[i][j]; G.setElement(i, j, w[i][j]); } }
    int c[GMAX]; grb::Matrix<bool> C(NN, NN); for (int v = 0; v < NN; ++v) { c[v] = v; if (v == 2) c[v] = sym_choice(2) * v; C.setElement(c[v], v, true); }
    NO_THROW("clustering throws", peer_pressure_cluster(G, C, 1));
    for (int v = 0; v < NN; ++v) {
        double t[NN]; bool any = false; for (int k = 0; k < NN; ++k) { t[k] = 0; for (int u = 0; u < NN; ++u) if (c[u] == k && g.e[u][v]) { t[k] += w[u][v] / s[u]; any = true; } }
        int in = -1, n = 0; for (int k = 0; k < NN; ++k) if (C.hasElement(k, v)) { ++n; in = k; sym_assert(C.extractElement(k, v), "membership is true"); }
        sym_assert(n == (any ? 1 : 0), "a vertex with votes is in exactly one cluster"); if (n != 1) continue;
        bool best = true; for (int k = 0; k < NN; ++k) if (k != in) best = best & (t[in] >= t[k] - 1e-9); sym_assert(best, "the cluster with the most normalized votes");
    }
    sym_reach("weighted normalized votes");
}
#else
ENTRY chk_pp() { run(true, 0); } ENTRY chk_pp_start() { run(true, 1); } ENTRY chk_pp_ret() { run(true, 2); } ENTRY chk_pp2() { run(false, 0); } ENTRY chk_pp2_start() { run(false, 1); }
#endif
#elif PART == 2
static bool near(double a, double b) { return (a >= b - 1e-9) & (a <= b + 1e-9); }
static void run(int e, int r) {
    Gr g = genG(NN, LOOPS, UND); for (int i = 0; i < NN; ++i) g.e[i][i] = true; auto G = mkG<double>(g); unsigned it = 1 + sym_choice(3);
    NO_THROW("clustering throws", auto M = markov_cluster(G, (Ix)e, (Ix)r, 1e-16, it);
        sym_assert(M.nrows() == NN && M.ncols() == NN, "shape");
        for (int j = 0; j < NN; ++j) { double s = 0; for (int i = 0; i < NN; ++i) if (M.hasElement(i, j)) { double x = M.extractElement(i, j); sym_assert(x >= 0 && x <= 1 + 1e-9, "probabilities"); sym_assert(g.e[i][j], "structure stays within the graph"); s += x; } sym_assert(near(s, 1), "every column sums to one"); });
    sym_reach("markov");
}
ENTRY chk_markov() { run(2, 2); } ENTRY chk_markov_32() { run(3, 2); } ENTRY chk_markov_23() { run(2, 3); }
// one step against the definition: expansion (restricted to the graph's structure), inflation, normalization
#ifdef WEIGHTS
ENTRY chk_markov_step() {
    Gr g = genG(NN, LOOPS, UND); for (int i = 0; i < NN; ++i) g.e[i][i] = true; grb::Matrix<double> G(NN, NN); double w[NN][NN], a[NN][NN], p[NN][NN];
    for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) { w[i][j] = 0; if (g.e[i][j]) { w[i][j] = i < WSYM ? wt(300 + i * 10 + j, true) : 1 + (i + 2 * j) % 3; G.setElement(i, j, w[i][j]); } }
    for (int j = 0; j < NN; ++j) { double s = 0; for (int i = 0; i < NN; ++i) s += w[i][j]; for (int i = 0; i < NN; ++i) a[i][j] = w[i][j] / s; }
    NO_THROW("clustering throws", auto M = markov_cluster(G, 2, 2, 1e-16, 1);
        for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) { p[i][j] = 0; if (g.e[i][j]) for (int k = 0; k < NN; ++k) p[i][j] += a[i][k] * a[k][j]; p[i][j] *= p[i][j]; }
        for (int j = 0; j < NN; ++j) { double s = 0; for (int i = 0; i < NN; ++i) s += p[i][j]; for (int i = 0; i < NN; ++i) sym_assert(near(M.hasElement(i, j) ? M.extractElement(i, j) : 0, p[i][j] / s), "one step"); });
    sym_reach("markov step");
}
#endif
#else
static void run(bool masked) {
    Gr g = genG(NN, LOOPS, UND); auto G = mkG<double>(g); unsigned it = 1 + sym_choice(3); grb::Matrix<bool> S(NN, NN); bool done = false;
    try { S = masked ? louvain_cluster_masked(G, 11.0, it) : louvain_cluster(G, 11.0, it); done = true; } catch (unsigned n) { sym_assert(n == it, "no convergence within the limit"); } catch (...) { sym_fail("clustering throws"); }
    if (!done) { sym_reach("not converged"); return; }
    int c[GMAX], k[GMAX]; double m = 0;
    for (int v = 0; v < NN; ++v) { int n = 0; c[v] = -1; for (int j = 0; j < NN; ++j) if (S.hasElement(v, j) && S.extractElement(v, j)) { ++n; c[v] = j; } sym_assert(n == 1, "every vertex is in exactly one cluster"); if (n != 1) return;
        k[v] = 0; for (int j = 0; j < NN; ++j) k[v] += g.e[v][j]; m += k[v]; }
    m /= 2;
    // no vertex gains by moving to another cluster (of a neighbour)
    for (int v = 0; v < NN; ++v) { if (!k[v]) { sym_assert(c[v] == v, "a vertex without edges stays alone"); continue; }
        double q[GMAX]; bool ex[GMAX], nb[GMAX]; for (int j = 0; j < NN; ++j) { q[j] = 0; ex[j] = nb[j] = false; }
        for (int u = 0; u < NN; ++u) if (u != v) { double w = (double)(g.e[v][u] + g.e[u][v]); q[c[u]] += w - k[v] * (double)k[u] / m; if (w || k[u]) ex[c[u]] = true; if (w) nb[c[u]] = true; }
        if (!ex[c[v]]) { for (int j = 0; j < NN; ++j) sym_assert(!(masked ? nb[j] : ex[j]), "a vertex stays alone only if it has no cluster to join"); continue; }
        for (int j = 0; j < NN; ++j) if (masked ? nb[j] : ex[j]) sym_assert(q[j] <= q[c[v]] + 1e-9, "no better cluster"); }
    sym_reach("converged");
}
ENTRY chk_louvain() { run(false); } ENTRY chk_louvain_masked() { run(true); }
#endif
