// weighted graphs and reference shortest paths
#pragma once
#include "graph.hpp"
#ifndef WT
#define WT int32_t
#endif
typedef WT w_t;
#ifndef NN
#define NN 3
#endif
#ifndef WB
#define WB 5
#endif
#ifndef SYMW      /* edges with an arbitrary weight */
#ifdef FAM
#define SYMW(i, j) ((i) * 3 + (j) == 5)
#else
#define SYMW(i, j) true
#endif
#endif
static const w_t LIM = (w_t)1 << (WB - 1);
struct WG { Gr g; w_t w[GMAX][GMAX]; };
// weights: any WB-bit value plus lo
static WG genWG(Gr const &g, w_t lo) {
    WG r; r.g = g;
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) { r.w[i][j] = 0; if (g.e[i][j]) { r.w[i][j] = (SYMW(i, j) ? (w_t)sym_bits(300 + i * 10 + j, WB) : (w_t)((i * 7 + j * 5) % 11)) + lo; } }
    return r;
}
static grb::Matrix<w_t> mkW(WG const &g) {
    grb::Matrix<w_t> m(g.g.n, g.g.n);
    for (int i = 0; i < g.g.n; ++i) for (int j = 0; j < g.g.n; ++j) if (g.g.e[i][j]) m.setElement(i, j, g.w[i][j]);
    return m;
}
struct Dist { bool p[GMAX]; w_t d[GMAX]; };
static w_t mn(w_t a, w_t b) { return b < a ? b : a; }
// Bellman-Ford; false: a negative cycle is reachable
static bool relax(WG const &g, Dist const &a, Dist &b) {
    bool ch = false; b = a;
    for (int i = 0; i < g.g.n; ++i) if (a.p[i]) for (int j = 0; j < g.g.n; ++j) if (g.g.e[i][j]) {
        w_t x = a.d[i] + g.w[i][j];
        if (!b.p[j]) { b.p[j] = true; b.d[j] = x; ch = true; } else { ch |= x < b.d[j]; b.d[j] = mn(b.d[j], x); }
    }
    return ch;
}
static bool refSssp(WG const &g, Dist &d) {
    Dist e; bool ch = false;
    for (int k = 0; k < g.g.n; ++k) { ch = relax(g, d, e); if (k < g.g.n - 1) d = e; }
    return !ch;
}
template <class V> static void distAre(V const &v, Dist const &d, int n, const char *s, const char *t) {
    int c = 0;
    for (int i = 0; i < n; ++i) { c += d.p[i]; bool h = v.hasElement(i); sym_assert(h == d.p[i], s); if (h) sym_assert(v.extractElement(i) == d.d[i], t); }
    sym_assert(v.nvals() == (Ix)c, s);
}
static const char *S = "exactly the reachable vertices have a distance", *V = "shortest distance", *F = "result flag: no negative cycle reachable";
// one start vertex at distance 0, or several with arbitrary start distances
static Dist genD(int n, int id, bool several = true) {
#ifdef FAM
    several = false;
#endif
    Dist d; for (int i = 0; i < GMAX; ++i) { d.p[i] = false; d.d[i] = 0; }
    int w = sym_choice(several ? n + 1 : n);
    for (int i = 0; i < n; ++i) if (w == i || (w == n && i < 2)) { d.p[i] = true; d.d[i] = w == n ? (w_t)sym_bits(id + i, WB) : 0; }
    return d;
}
static grb::Vector<w_t> mkD(Dist const &d, int n) { grb::Vector<w_t> v(n); for (int i = 0; i < n; ++i) if (d.p[i]) v.setElement(i, d.d[i]); return v; }
