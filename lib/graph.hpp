// graphs: symbolic adjacency structures and reference graph computations
#pragma once
#include "model.hpp"
#include <algorithms/algorithms.hpp>
#ifndef GMAX
#define GMAX 6
#endif
#ifndef FLIPS
#define FLIPS n * n + 1   /* 1: none */
#endif
struct Gr { int n; bool e[GMAX][GMAX]; };
#ifdef FAM
// families of larger graphs, one edge added or removed (anywhere)
inline bool famEdge(int k, int i, int j, int n) {
    switch (k) {
    case 0: return j == i + 1;                          // path
    case 1: return i == j + 1;                          // path, backwards
    case 2: return j == (i + 1) % n || j == (i + 3) % n; // cycle with chords
    case 3: return i == n / 2;                          // star
    case 4: return j == 2 * i + 1 || j == 2 * i + 2;     // binary tree
    case 5: return j == i + 1 || j == i + 2;             // layers
    case 6: return true;                                // complete
    case 7: return j == i + 2 || (i % 2 == 0 && j == i + 1);     // ladder
    default: return i / 3 == j / 3;                     // disjoint cliques
    }
}
#ifndef FAMS
#define FAMS 9
#endif
inline Gr genG(int n, bool loops, bool undirected = false) {
    Gr g; g.n = n; int k = (int)sym_choice(FAMS); sym_note("family", k);
    for (int i = 0; i < GMAX; ++i) for (int j = 0; j < GMAX; ++j) g.e[i][j] = i < n && j < n && i != j && (famEdge(k, i, j, n) || (undirected && famEdge(k, j, i, n)));
    u64 a = sym_bits(100, 8); sym_assume(a < (u64)(FLIPS)); int x = (int)sym_concrete(a); sym_note("flip", x);
    if (x) { --x; int i = x / n, j = x % n; if ((i == j && !loops) || (undirected && j < i)) sym_end(); g.e[i][j] = !g.e[i][j]; if (undirected) g.e[j][i] = g.e[i][j]; }
    return g;
}
#else
// every directed graph on n vertices (loops: with self loops); undirected: symmetric
inline Gr genG(int n, bool loops, bool undirected = false) {
    Gr g; g.n = n;
    for (int i = 0; i < GMAX; ++i) for (int j = 0; j < GMAX; ++j) g.e[i][j] = false;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (i == j && !loops) continue;
        if (undirected && j < i) g.e[i][j] = g.e[j][i]; else g.e[i][j] = symp(100 + i * 10 + j);
    }
    return g;
}
#endif
template <class T> grb::Matrix<T> mkG(Gr const &g, T val = (T)1) {
    grb::Matrix<T> m(g.n, g.n);
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.e[i][j]) m.setElement(i, j, val);
    return m;
}
// edge (i,j) stores an arbitrary integer that converts to true (floating: 1)
template <class T> grb::Matrix<T> mkGv(Gr const &g) {
    grb::Matrix<T> m(g.n, g.n);
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.e[i][j]) { T v = (T)1; if constexpr (std::is_integral<T>::value) { v = symv<T>(300 + i * 10 + j); sym_assume((bool)v); } m.setElement(i, j, v); }
    return m;
}
// hop distances from s; -1 unreachable
inline void hops(Gr const &g, int s, int *d) {
    for (int i = 0; i < g.n; ++i) d[i] = -1;
    d[s] = 0;
    for (int k = 0; k < g.n; ++k) for (int i = 0; i < g.n; ++i) if (d[i] == k) for (int j = 0; j < g.n; ++j) if (g.e[i][j] && d[j] < 0) d[j] = k + 1;
}
