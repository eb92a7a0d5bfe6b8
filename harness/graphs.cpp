#include "graph.hpp"
#include <algorithms/triangle_count.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/appendix_algorithms.hpp>
// PART 0: triangle counting, 1: k-truss, 2: minimum spanning tree
#ifndef GT
#define GT int
#endif
#ifndef NN
#define NN 4
#endif
typedef GT gt;
static Gr part(Gr const &g, int w) { Gr r = g; for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (w < 0 ? j >= i : j <= i) r.e[i][j] = false; return r; }
static int triangles(Gr const &g) { int t = 0; for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) t += g.e[i][j] && g.e[j][k] && g.e[i][k]; return t; }
#if PART == 0
ENTRY chk_triangles() {
    int w = sym_choice(6); Gr g = genG(NN, false, true); auto G = mkG<gt>(g), L = mkG<gt>(part(g, -1)), U = mkG<gt>(part(g, 1)); double r = -1;
    NO_THROW("triangle count throws",
        if (w == 0) r = algorithms::triangle_count(G); else if (w == 1) r = algorithms::triangle_count_masked(L, U); else if (w == 2) r = algorithms::triangle_count_masked(L);
        else if (w == 3) r = algorithms::triangle_count_masked_noT(L); else if (w == 4) r = algorithms::triangle_count_newGBTL(L, U); else r = algorithms::triangle_count_appendixB7(L));
    sym_assert(r == triangles(g), "number of triangles");
    sym_reach("triangle counts");
}
// every pair stores an arbitrary 0 or 1; a stored zero is no edge
#if NN == 4
ENTRY chk_triangles_stored() {
    int w = sym_choice(6); u64 x[GMAX][GMAX]; grb::Matrix<u64> G(NN, NN), L(NN, NN), U(NN, NN); u64 r = 77, want = 0;
    for (int i = 0; i < NN; ++i) for (int j = 0; j < i; ++j) { u64 v = x[i][j] = x[j][i] = sym_bits(300 + i * 10 + j, 1); G.setElement(i, j, v); G.setElement(j, i, v); L.setElement(i, j, v); U.setElement(j, i, v); }
    NO_THROW("triangle count throws",
        if (w == 0) r = algorithms::triangle_count(G); else if (w == 1) r = algorithms::triangle_count_masked(L, U); else if (w == 2) r = algorithms::triangle_count_masked(L);
        else if (w == 3) r = algorithms::triangle_count_masked_noT(L); else if (w == 4) r = algorithms::triangle_count_newGBTL(L, U); else r = algorithms::triangle_count_appendixB7(L));
    for (int i = 0; i < NN; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) want += x[i][j] & x[j][k] & x[i][k];
    sym_assert(r == want, "number of triangles");
    sym_reach("stored zeros");
}
#endif
#elif PART == 1
static void peel(Gr &g, u64 k) {
    for (;;) {
        Gr h = g; bool ch = false;
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.e[i][j]) { int s = 0; for (int q = 0; q < g.n; ++q) s += g.e[i][q] && g.e[j][q]; if ((u64)s < k - 2) { h.e[i][j] = false; ch = true; } }
        if (!ch) return;
        g = h;
    }
}
static u64 kpick() { u64 k = sym_bits(50, 32); sym_assume(k >= 3 && k < (1ull << 31)); return k; }
ENTRY chk_adjacency() {
    Gr g = genG(NN, false, true); u64 k = kpick(); auto G = mkG<gt>(g);
    try {
        auto R = algorithms::k_truss2(G, (Ix)k);
        peel(g, k); int c = 0;
        for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) { sym_assert(R.hasElement(i, j) == g.e[i][j], "exactly the edges of the k-truss remain"); c += g.e[i][j]; }
        sym_assert(R.nvals() == (Ix)c && R.nrows() == NN && R.ncols() == NN, "exactly the edges of the k-truss remain");
    } catch (...) { sym_fail("k_truss2 throws"); }
    sym_reach("k-truss of an adjacency matrix");
}
ENTRY chk_incidence() {
    Gr g = genG(NN, false, true); u64 k = kpick(); int m = 0, a[40], b[40]; bool rev = sym_choice(2);
    for (int x = 0; x < NN; ++x) for (int j = 0; j < x; ++j) { if (g.e[x][j]) { a[m] = x; b[m] = j; ++m; } }
    if (rev) for (int i = 0; i < m / 2; ++i) { int t = a[i]; a[i] = a[m - 1 - i]; a[m - 1 - i] = t; t = b[i]; b[i] = b[m - 1 - i]; b[m - 1 - i] = t; }
    if (!m) sym_end();
    grb::Matrix<gt> E(m, NN); for (int i = 0; i < m; ++i) { E.setElement(i, a[i], 1); E.setElement(i, b[i], 1); }
    try {
        auto R = algorithms::k_truss(E, (Ix)k);
        peel(g, k); int c = 0;
        for (int i = 0; i < m; ++i) if (g.e[a[i]][b[i]]) {
            sym_assert((Ix)c < R.nrows(), "the k-truss's edges remain, in order"); if ((Ix)c >= R.nrows()) sym_end();
            for (int j = 0; j < NN; ++j) sym_assert(R.hasElement(c, j) == (j == a[i] || j == b[i]), "the k-truss's edges remain, in order");
            ++c;
        }
        sym_assert(R.nrows() == (Ix)c && R.ncols() == NN, "no other edges remain");
    } catch (...) { sym_fail("k_truss throws"); }
    sym_reach("k-truss of an incidence matrix");
}
#else
#ifndef WB
#define WB 16
#endif
#ifdef FAM
#define SYMM(i, j) (((i) == 2 && (j) == 1) || ((i) == 4 && (j) == 0))
#else
#define SYMM(i, j) true
#endif
ENTRY chk_mst() {
    Gr g = genG(NN, false, true); gt w[GMAX][GMAX];
    bool seen[GMAX] = {true}; for (int k = 0; k < NN; ++k) for (int i = 0; i < NN; ++i) if (seen[i]) for (int j = 0; j < NN; ++j) if (g.e[i][j]) seen[j] = true;
    for (int i = 0; i < NN; ++i) if (!seen[i]) sym_end();      // connected graphs
    grb::Matrix<gt> G(NN, NN);
    for (int i = 0; i < NN; ++i) for (int j = 0; j < i; ++j) { w[i][j] = w[j][i] = SYMM(i, j) ? (gt)(int16_t)sym_bits(300 + i * 10 + j, WB) : (gt)((i * 7 + j * 5) % 11); }
    for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) if (g.e[i][j]) G.setElement(i, j, w[i][j]);
    grb::Vector<Ix> p(NN); if (sym_choice(2)) p.setElement(0, 1); gt tot = 0;
    NO_THROW("mst throws on a connected graph", tot = algorithms::mst(G, p));
    // a spanning tree rooted at 0 whose weight is the one returned
    int par[GMAX]; gt sum = 0; sym_assert(p.nvals() == NN - 1 && !p.hasElement(0), "every vertex but the root has a parent");
    for (int i = 1; i < NN; ++i) { sym_assert(p.hasElement(i), "every vertex but the root has a parent"); par[i] = (int)sym_concrete(p.extractElement(i)); sym_assert(par[i] >= 0 && par[i] < NN && g.e[i][par[i]], "tree edges are edges of the graph"); sum += w[i][par[i]]; }
    for (int i = 1; i < NN; ++i) { int x = i; for (int k = 0; k < NN && x; ++k) x = par[x]; sym_assert(x == 0, "the parents form a tree"); }
    sym_assert(sum == tot, "the returned weight is the tree's weight");
    // minimal: no edge outside the tree is lighter than an edge of the tree path between its ends
    bool mini = true;
    for (int i = 0; i < NN; ++i) for (int j = 0; j < i; ++j) if (g.e[i][j]) {
        bool up[GMAX] = {false}; int x = i; for (;;) { up[x] = true; if (!x) break; x = par[x]; }
        int y = j; while (!up[y]) { mini &= w[y][par[y]] <= w[i][j]; y = par[y]; }
        for (x = i; x != y; x = par[x]) mini &= w[x][par[x]] <= w[i][j];
    }
    sym_assert(mini, "no spanning tree is lighter");
    sym_reach("minimum spanning tree");
}
ENTRY chk_mst_disconnected() {
    Gr g = genG(NN, false, true); bool seen[GMAX] = {true}; for (int k = 0; k < NN; ++k) for (int i = 0; i < NN; ++i) if (seen[i]) for (int j = 0; j < NN; ++j) if (g.e[i][j]) seen[j] = true;
    bool conn = true; for (int i = 0; i < NN; ++i) conn &= seen[i]; if (conn) sym_end();
    auto G = mkG<gt>(g); grb::Vector<Ix> p(NN); bool threw = false;
    try { algorithms::mst(G, p); } catch (...) { threw = true; }
    sym_assert(threw, "a disconnected graph is reported"); sym_reach("disconnected graph");
}
#endif
