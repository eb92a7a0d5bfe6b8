#include "graph.hpp"
#include <algorithms/bfs.hpp>
#include <algorithms/appendix_algorithms.hpp>
#ifndef GT
#define GT int
#endif
#ifndef NN
#define NN 3
#endif
#ifndef LOOPS
#define LOOPS 1
#endif
typedef GT gt;
typedef grb::IndexType IT;
// ---- levels: hop distance + 1, exactly the reachable vertices
template <class V> static void levelsAre(V const &v, Gr const &g, int s) {
    int d[GMAX]; hops(g, s, d); int cnt = 0;
    for (int i = 0; i < g.n; ++i) {
        bool h = v.hasElement(i); cnt += d[i] >= 0;
        sym_assert(h == (d[i] >= 0), "exactly the reachable vertices have a level");
        if (h) sym_assert((int)v.extractElement(i) == d[i] + 1, "level is the hop distance plus one");
    }
    sym_assert(v.nvals() == (IT)cnt, "exactly the reachable vertices have a level");
}
template <class V> static void parentsAre(V const &v, Gr const &g, int s) {
    int d[GMAX]; hops(g, s, d); int cnt = 0;
    for (int i = 0; i < g.n; ++i) {
        bool h = v.hasElement(i); cnt += d[i] >= 0;
        sym_assert(h == (d[i] >= 0), "exactly the reachable vertices have a parent");
        if (!h) continue;
        u64 p = (u64)v.extractElement(i);
        if (i == s) sym_assert(p == (u64)s, "the root is its own parent");
        else { sym_assert(p < (u64)g.n, "parent is a vertex"); if (p < (u64)g.n) { int q = (int)sym_concrete(p); sym_assert(g.e[q][i] && d[q] + 1 == d[i], "the parent is a neighbour one level closer to the root"); } }
    }
    sym_assert(v.nvals() == (IT)cnt, "exactly the reachable vertices have a parent");
}
#if PART == 0
ENTRY chk_level_source() {
    int w = sym_choice(3); Gr g = genG(NN, LOOPS); int s = sym_choice(NN); auto G = mkGv<gt>(g); grb::Vector<IT> l(NN);
    NO_THROW("bfs_level throws", if (w == 0) algorithms::bfs_level(G, (IT)s, l); else if (w == 1) algorithms::bfs_level_appendixB1(l, G, (IT)s); else algorithms::bfs_level_appendixB2(l, G, (IT)s));
    levelsAre(l, g, s);
    sym_reach("levels from a source");
}
ENTRY chk_level_wavefront() {
    int w = sym_choice(2); Gr g = genG(NN, LOOPS); int s = sym_choice(NN); auto G = mkGv<gt>(g); grb::Vector<IT> l(NN); grb::Vector<IT> f(NN); f.setElement(s, 1);
    NO_THROW("bfs_level_masked throws", if (w == 0) algorithms::bfs_level_masked(G, f, l); else algorithms::bfs_level_masked_v2(G, f, l));
    levelsAre(l, g, s);
    sym_assert(f.nvals() == 1 && f.hasElement(s), "the wavefront argument is not modified");
    sym_reach("levels from a wavefront");
}
ENTRY chk_level_batch() {
    int w = sym_choice(2); Gr g = genG(NN, LOOPS); int s = sym_choice(NN), t = sym_choice(NN); auto G = mkGv<gt>(g); grb::Matrix<IT> l(2, NN), f(2, NN); f.setElement(0, s, 1); f.setElement(1, t, 1);
    NO_THROW("batch bfs level throws", if (w == 0) algorithms::bfs_level(G, f, l); else algorithms::batch_bfs_level_masked(G, f, l));
    for (int r = 0; r < 2; ++r) { grb::Vector<IT> v(NN); for (int i = 0; i < NN; ++i) if (l.hasElement(r, i)) v.setElement(i, l.extractElement(r, i)); levelsAre(v, g, r ? t : s); }
    sym_reach("levels of a batch");
}
#else
ENTRY chk_parent_source() {
    int w = sym_choice(2); Gr g = genG(NN, LOOPS); int s = sym_choice(NN); auto G = mkGv<gt>(g); grb::Vector<IT> p(NN); if (sym_choice(2)) p.setElement((s + 1) % NN, 7);
    NO_THROW("bfs throws", if (w == 0) algorithms::bfs(G, (IT)s, p); else algorithms::bfs_parent_appendixB3(p, G, (IT)s));
    parentsAre(p, g, s);
    sym_reach("parents from a source");
}
ENTRY chk_parent_wavefront() {
    Gr g = genG(NN, LOOPS); int s = sym_choice(NN); auto G = mkGv<gt>(g); grb::Vector<IT> p(NN), f(NN); f.setElement(s, 1);
    NO_THROW("bfs throws", algorithms::bfs(G, f, p));
    parentsAre(p, g, s);
    sym_reach("parents from a wavefront");
}
ENTRY chk_parent_batch() {
    Gr g = genG(NN, LOOPS); int s = sym_choice(NN), t = sym_choice(NN); auto G = mkGv<gt>(g); grb::Matrix<IT> p(2, NN), f(2, NN); f.setElement(0, s, 1); f.setElement(1, t, 1);
    NO_THROW("bfs_batch throws", algorithms::bfs_batch(G, f, p));
    for (int r = 0; r < 2; ++r) { grb::Vector<IT> v(NN); for (int i = 0; i < NN; ++i) if (p.hasElement(r, i)) v.setElement(i, p.extractElement(r, i)); parentsAre(v, g, r ? t : s); }
    sym_reach("parents of a batch");
}
#endif
