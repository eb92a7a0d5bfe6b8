#include "model.hpp"
#include <graphblas/matrix_utils.hpp>
#undef NO_THROW
#define NO_THROW(l, ...) do { int t_ = 0; try { __VA_ARGS__; } catch (...) { t_ = 1; } sym_assert(t_ == 0, l); } while (0)
template <class T> void isM(grb::Matrix<T> const &m, DM<T> const &d, const char *w) {
    sym_assert(m.nrows() == (Ix)d.r && m.ncols() == (Ix)d.c, w); sym_assert(m.nvals() == (Ix)d.count(), w);
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) { bool h = m.hasElement(i, j); sym_assert(h == d.P(i, j), w); if (h && d.P(i, j)) sym_assert(eqv(m.extractElement(i, j), d.V(i, j)), w); }
}
#if PART == 0
// views: dimensions and counts of what they denote, following the viewed object
template <class T> void views(int r, int c) {
    DM<T> d = genM<T>(1, r, c); auto M = mk(d); Ix n = d.count(), all = (Ix)r * c;
    auto t = grb::transpose(M); auto k = grb::complement(M); auto s = grb::structure(M); auto sc = grb::complement(grb::structure(M));
    for (int round = 0; round < 2; ++round) {
        sym_assert(t.nrows() == (Ix)c && t.ncols() == (Ix)r, "transpose: dimensions");
        sym_assert(k.nrows() == (Ix)r && k.ncols() == (Ix)c, "complement: dimensions");
        sym_assert(s.nrows() == (Ix)r && s.ncols() == (Ix)c && s.nvals() == n, "structure: dimensions and count");
        sym_assert(sc.nrows() == (Ix)r && sc.ncols() == (Ix)c, "structural complement: dimensions");
        sym_assert(sc.nvals() == all - n, "structural complement: count");
        int i = sym_choice(r), j = sym_choice(c); if (round == 0) { if (d.P(i, j)) { M.removeElement(i, j); --n; } else { M.setElement(i, j, symv<T>(77)); ++n; } }
    }
    sym_reach("matrix views");
}
ENTRY chk_views_22() { views<u64>(2, 2); }
ENTRY chk_views_13() { views<bool>(1, 3); }
ENTRY chk_views_31() { views<double>(3, 1); }
ENTRY chk_vviews() {
    DV<u64> d = genV<u64>(2, 3); auto V = mk(d); Ix n = d.count();
    auto k = grb::complement(V); auto s = grb::structure(V); auto sc = grb::complement(grb::structure(V));
    for (int round = 0; round < 2; ++round) {
        sym_assert(k.size() == 3, "complement: size"); sym_assert(s.size() == 3 && s.nvals() == n, "structure: size and count"); sym_assert(sc.size() == 3, "structural complement: size"); sym_assert(sc.nvals() == 3 - n, "structural complement: count");
        int i = sym_choice(3); if (round == 0) { if (d.p[i]) { V.removeElement(i); --n; } else { V.setElement(i, symv<u64>(77)); ++n; } }
    }
    sym_reach("vector views");
}
#elif PART == 1
template <class T> void diag(int n) {
    DV<T> d = genV<T>(1, n); auto V = mk(d); DM<T> w(n, n); for (int i = 0; i < n; ++i) if (d.p[i]) w.set(i, i, d.v[i]);
    NO_THROW("diag throws", grb::Matrix<T> M = grb::diag<grb::Matrix<T>>(V); isM(M, w, "diag")); sym_reach("diag");
}
ENTRY chk_diag() { diag<u64>(3); } ENTRY chk_diag1() { diag<u64>(1); } ENTRY chk_diag_b() { diag<double>(3); }
template <class T> void ident() {
    int n = 1 + sym_choice(4); T v = symv<T>(5); bool dflt = sym_choice(2); DM<T> w(n, n); for (int i = 0; i < n; ++i) w.set(i, i, dflt ? (T)1 : v);
    NO_THROW("scaled_identity throws", grb::Matrix<T> M = dflt ? grb::scaled_identity<grb::Matrix<T>>(n) : grb::scaled_identity<grb::Matrix<T>>(n, v); isM(M, w, "scaled identity")); sym_reach("scaled identity");
}
ENTRY chk_ident() { ident<u64>(); } ENTRY chk_ident_b() { ident<bool>(); } ENTRY chk_ident_d() { ident<double>(); }
template <class T> void split(int r, int c) {
    DM<T> d = genM<T>(1, r, c), l(r, c), u(r, c); auto A = mk(d); grb::Matrix<T> L(r, c), U(r, c);
    NO_THROW("split throws", grb::split(A, L, U));
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (d.P(i, j)) (j > i ? u : l).set(i, j, d.V(i, j));
    isM(A, d, "split keeps its input"); isM(L, l, "lower part with the diagonal"); isM(U, u, "strictly upper part"); sym_reach("split");
}
ENTRY chk_split22() { split<u64>(2, 2); } ENTRY chk_split33() { split<u64>(3, 3); } ENTRY chk_split23() { split<u64>(2, 3); } ENTRY chk_split31() { split<double>(3, 1); }
#else
static u64 db(double d) { u64 b; __builtin_memcpy(&b, &d, 8); return b; }
static double val(u64 id, bool few) { u64 q = sym_bits(id, 2), r = few ? sym_select(q & 1, db(0.5), db(-3)) : sym_select(q & 1, sym_select(q >> 1, db(1), db(3)), sym_select(q >> 1, db(0.5), db(-8))); double d; __builtin_memcpy(&d, &r, 8); return d; }
static bool near(double a, double b) { double e = (b < 0 ? -b : b) * 1e-12; return (a >= b - e) & (a <= b + e); }
template <class T> void norm(int r, int c, bool cols) {
    DM<T> d(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (symp(100 + i * 10 + j)) d.set(i, j, val(200 + i * 10 + j, r * c > 4));
    auto A = mk(d); NO_THROW("normalize throws", if (cols) grb::normalize_cols(A); else grb::normalize_rows(A));
    sym_assert(A.nrows() == (Ix)r && A.ncols() == (Ix)c && A.nvals() == (Ix)d.count(), "shape and count are kept");
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { bool h = A.hasElement(i, j); sym_assert(h == d.P(i, j), "structure is kept"); if (!h) continue;
        double s = 0; if (cols) { for (int k = 0; k < r; ++k) if (d.P(k, j)) s += d.V(k, j); } else for (int k = 0; k < c; ++k) if (d.P(i, k)) s += d.V(i, k);
        sym_assert(near(A.extractElement(i, j), d.V(i, j) / s), cols ? "value over its column sum" : "value over its row sum"); }
    sym_reach("normalized");
}
ENTRY chk_rows22() { norm<double>(2, 2, false); } ENTRY chk_rows23() { norm<double>(2, 3, false); } ENTRY chk_rows31() { norm<double>(3, 1, false); }
ENTRY chk_cols22() { norm<double>(2, 2, true); } ENTRY chk_cols23() { norm<double>(2, 3, true); } ENTRY chk_cols32() { norm<double>(3, 2, true); } ENTRY chk_cols13() { norm<double>(1, 3, true); }
#endif
