#include "model.hpp"
typedef std::vector<Ix> IV;
// Complete observation of an object: dimensions, count, membership, values, tuples in canonical order
static void look(grb::Matrix<u64> const &m, DM<u64> const &d) {
    same(m, d, "container contents", "container value"); sameElements(m, d, "container elements", "container element value");
    int n = d.count();
    IV r(n), c(n); std::vector<u64> v(n);
    m.extractTuples(r, c, v);
    int k = 0;
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if (d.P(i, j)) {
        sym_assert(r[k] == (Ix)i && c[k] == (Ix)j, "extractTuples order");
        sym_assert(v[k] == d.V(i, j), "extractTuples value"); ++k;
    }
}
static void look(grb::Vector<u64> const &m, DV<u64> const &d, int from = 0) {
    for (int i = from; i < d.n; ++i) ;
    same(m, d, "container contents", "container value"); sameElements(m, d, "container elements", "container element value");
    int n = d.count();
    IV r(n); std::vector<u64> v(n);
    m.extractTuples(r, v);
    int k = 0;
    for (int i = 0; i < d.n; ++i) if (d.p[i]) { sym_assert(r[k] == (Ix)i, "extractTuples order"); sym_assert(v[k] == d.v[i], "extractTuples value"); ++k; }
}
template <class F> int thrown(F f) {   // 0 none, 1 IndexOutOfBounds, 2 NoValue, 3 InvalidValue, 4 Dimension, 9 other
    try { f(); } catch (grb::IndexOutOfBoundsException &) { return 1; } catch (grb::NoValueException &) { return 2; }
    catch (grb::InvalidValueException &) { return 3; } catch (grb::DimensionException &) { return 4; } catch (...) { return 9; }
    return 0;
}
#if KIND == 0
// one arbitrary operation with arbitrary 64-bit indices
static void stepM(grb::Matrix<u64> &m, DM<u64> &d, int s) {
    int op = sym_choice(5); sym_note("op", op);
    if (op <= 1) {
        Ix i = sym_bits(100 + s, 64), j = sym_bits(110 + s, 64); u64 x = sym_bits(120 + s, 64);
        bool in = i < (Ix)d.r && j < (Ix)d.c;
        int e = thrown([&] { if (op == 0) m.setElement(i, j, x); else m.removeElement(i, j); });
        sym_assert(e == (in ? 0 : 1), "element access throws IndexOutOfBoundsException exactly out of range");
        if (in) { int a = sym_concrete(i), b = sym_concrete(j); if (op == 0) d.set(a, b, x); else d.P(a, b) = false; }
    } else if (op == 2) { m.clear(); for (auto &p : d.p) p = false; }
    else if (op == 3) {
        int r = sym_choice(4), c = sym_choice(4); sym_note("rows", r); sym_note("cols", c);
        int e = thrown([&] { m.resize(r, c); });
        sym_assert(e == (r && c ? 0 : 3), "resize rejects exactly zero dimensions");
        if (r && c) { DM<u64> n(r, c); for (int i = 0; i < r && i < d.r; ++i) for (int j = 0; j < c && j < d.c; ++j) if (d.P(i, j)) n.set(i, j, d.V(i, j)); d = n; }
    } else {
        Ix i = sym_bits(100 + s, 64), j = sym_bits(110 + s, 64); u64 x = 0; bool h = false;
        bool in = i < (Ix)d.r && j < (Ix)d.c;
        bool st = in && d.P(sym_concrete(i), sym_concrete(j));
        int e = thrown([&] { x = m.extractElement(i, j); });
        sym_assert(e == (!in ? 1 : st ? 0 : 2), "extractElement throws for out of range / no value");
        if (st) sym_assert(x == d.V(sym_concrete(i), sym_concrete(j)), "extracted value");
        e = thrown([&] { h = m.hasElement(i, j); });
        sym_assert(e == (in ? 0 : 1) && h == st, "hasElement");
    }
    look(m, d);
}
ENTRY chk_ops() {
    static const int S[][2] = {{2, 2}, {1, 3}, {3, 1}};
    int s = sym_choice(3);
    DM<u64> d = genM<u64>(1, S[s][0], S[s][1]); auto m = mk(d); look(m, d);
#ifdef THOROUGH
    int n = 3;
#else
    int n = 2;
#endif
    for (int i = 0; i < n; ++i) stepM(m, d, i);
    sym_reach("matrix ops");
}
ENTRY chk_resize() {
    static const int S[][2] = {{2, 2}, {1, 4}, {3, 2}};
    int s = sym_choice(3);
    DM<u64> d = genM<u64>(1, S[s][0], S[s][1]); auto m = mk(d);
    for (int k = 0; k < 2; ++k) {
        int r = 1 + sym_choice(4), c = 1 + sym_choice(4);
        m.resize(r, c);
        DM<u64> n(r, c); for (int i = 0; i < r && i < d.r; ++i) for (int j = 0; j < c && j < d.c; ++j) if (d.P(i, j)) n.set(i, j, d.V(i, j)); d = n;
        look(m, d);
    }
    sym_reach("matrix resize");
}
ENTRY chk_copy() {
    static const int S[][2] = {{2, 2}, {1, 3}};
    int s = sym_choice(2);
    DM<u64> a = genM<u64>(1, S[s][0], S[s][1]), b = genM<u64>(2, S[s][0], S[s][1], sym_choice(2) ? G_FULL : G_EMPTY);
    auto A = mk(a), B = mk(b);
    grb::Matrix<u64> Cc(A);
    look(Cc, a);
    NO_THROW("assignment of equal dimensions throws", B = A);
    look(B, a);
    B.clear(); look(A, a); look(Cc, a);                 // copies are independent
    A.setElement(0, 0, 5); look(Cc, a);
    A = A; a.set(0, 0, 5); look(A, a);
    grb::Matrix<u64> D(S[s][1] + 1, S[s][0]);
    D.setElement(0, 0, 3);
    sym_assert(thrown([&] { D = A; }) == 4, "assignment of other dimensions throws DimensionException");
    DM<u64> dd(S[s][1] + 1, S[s][0]); dd.set(0, 0, 3); look(D, dd);
    sym_reach("matrix copy");
}
ENTRY chk_dense() {
    int r = 1 + sym_choice(2), c = 1 + sym_choice(3); u64 z = sym_bits(50, 64);
    std::vector<std::vector<u64>> v(r, std::vector<u64>(c));
    DM<u64> full(r, c), sp(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { u64 x = v[i][j] = sym_bits(i * 4 + j, 64); full.set(i, j, x); if (x != z) sp.set(i, j, x); }
    grb::Matrix<u64> A(v), B(v, z);
    look(A, full); look(B, sp);
    if (r == 2) { v[1].push_back(1); sym_assert(thrown([&] { grb::Matrix<u64> X(v); }) == 4 && thrown([&] { grb::Matrix<u64> X(v, z); }) == 4, "ragged dense data throws DimensionException"); }
    sym_reach("matrix dense");
}
#elif KIND == 1
static void stepV(grb::Vector<u64> &m, DV<u64> &d, int s) {
    int op = sym_choice(6); sym_note("op", op);
    if (op <= 1) {
        Ix i = sym_bits(100 + s, 64); u64 x = sym_bits(120 + s, 64);
        bool in = i < (Ix)d.n; if (in) i = sym_concrete(i);
        int e = thrown([&] { if (op == 0) m.setElement(i, x); else m.removeElement(i); });
        sym_assert(e == (in ? 0 : 1), "element access throws IndexOutOfBoundsException exactly out of range");
        if (in) { int a = sym_concrete(i); if (op == 0) d.set(a, x); else d.p[a] = false; }
    } else if (op == 2) { m.clear(); for (auto &p : d.p) p = false; }
    else if (op == 3) {
        int r = sym_choice(7); sym_note("size", r);
        int e = thrown([&] { m.resize(r); });
        sym_assert(e == (r ? 0 : 3), "resize rejects exactly zero sizes");
        if (r) { for (int i = r; i < d.n; ++i) d.p[i] = false; d.n = r; }
    } else if (op == 4) {
        std::vector<u64> v(3 + sym_choice(2)); for (size_t i = 0; i < v.size(); ++i) v[i] = sym_bits(130 + s * 5 + i, 64);
        int e = thrown([&] { m = v; });
        sym_assert(e == (v.size() == (size_t)d.n ? 0 : 4), "dense assignment throws DimensionException exactly on another size");
        if (!e) for (int i = 0; i < d.n; ++i) d.set(i, v[i]);
    } else {
        Ix i = sym_bits(100 + s, 64); u64 x = 0; bool h = false;
        bool in = i < (Ix)d.n; if (in) i = sym_concrete(i); bool st = in && d.p[sym_concrete(i)];
        int e = thrown([&] { x = m.extractElement(i); });
        sym_assert(e == (!in ? 1 : st ? 0 : 2), "extractElement throws for out of range / no value");
        if (st) sym_assert(x == d.v[sym_concrete(i)], "extracted value");
        e = thrown([&] { h = m.hasElement(i); });
        sym_assert(e == (in ? 0 : 1) && h == st, "hasElement");
    }
    look(m, d);
}
ENTRY chk_ops() {
    DV<u64> d = genV<u64>(1, 3 + sym_choice(2)); auto m = mk(d); look(m, d);
#ifdef THOROUGH
    int n = 3;
#else
    int n = 2;
#endif
    for (int i = 0; i < n; ++i) stepV(m, d, i);
    sym_reach("vector ops");
}
ENTRY chk_resize() {
    DV<u64> d = genV<u64>(1, 5); auto m = mk(d);
    for (int k = 0; k < 2; ++k) { int n = 1 + sym_choice(8); m.resize(n); for (int i = n; i < d.n; ++i) d.p[i] = false; d.n = n; look(m, d); }
    sym_reach("vector resize");
}
ENTRY chk_fill() {
    int n = 1 + sym_choice(4); u64 x = sym_bits(1, 64), z = sym_bits(2, 64);
    DV<u64> d(n); for (int i = 0; i < n; ++i) d.set(i, x);
    grb::Vector<u64> a(n, x); look(a, d);
    grb::Vector<u64> e(n); look(e, DV<u64>(n));
    a.removeElement(0); d.p[0] = false; look(a, d);
    std::vector<u64> v(n); DV<u64> f(n), sp(n);
    for (int i = 0; i < n; ++i) { v[i] = sym_bits(10 + i, 64); f.set(i, v[i]); if (v[i] != z) sp.set(i, v[i]); }
    grb::Vector<u64> b(v), c(v, z); look(b, f); look(c, sp);
    sym_assert(thrown([&] { grb::Vector<u64> q(0); }) == 3 && thrown([&] { grb::Vector<u64> q(std::vector<u64>{}); }) == 3, "zero-size vectors are rejected");
    sym_reach("vector ctor");
}
ENTRY chk_copy() {
    DV<u64> a = genV<u64>(1, 3), b = genV<u64>(2, 3, sym_choice(2) ? G_FULL : G_EMPTY);
    auto A = mk(a), B = mk(b);
    grb::Vector<u64> Cc(A); look(Cc, a);
    B = A; look(B, a);
    B.clear(); look(A, a); look(Cc, a);
    A.setElement(0, 5); look(Cc, a);
    A = A; a.set(0, 5); look(A, a);
    grb::Vector<u64> D(4); D.setElement(3, 1);
    sym_assert(thrown([&] { D = A; }) == 4, "assignment of another size throws DimensionException");
    DV<u64> dd(4); dd.set(3, 1); look(D, dd);
    sym_reach("vector copy");
}
#ifdef THOROUGH
#define NQ 12
#else
#define NQ 6
#endif
// any positions in a vector that spans several bitmap words
ENTRY chk_words() {
    const int N = 131;
    Ix p = sym_choice(N), q; u64 x = sym_bits(4, 64), y = sym_bits(5, 64);
    static const int Q[] = {0, 1, 63, 62, 64, 31, 65, 66, 127, 126, 128, 130};
    q = Q[sym_choice(NQ) * (12 / NQ)];
    grb::Vector<u64> v(N);
    v.setElement(p, x); v.setElement(q, y);
    sym_assert(v.nvals() == (p == q ? 1u : 2u), "nvals of a long vector");
    for (int t = 0; t < 12; ++t) sym_assert(v.hasElement(Q[t]) == ((Ix)Q[t] == p || (Ix)Q[t] == q), "hasElement of a long vector");
    Ix nn = Q[sym_choice(NQ) * (12 / NQ)] + 1;
    v.resize(nn);
    int left = (p < nn) + (q < nn && p != q);
    sym_assert(v.nvals() == (Ix)left && v.size() == nn, "resized long vector");
    v.resize(N);
    sym_assert(v.nvals() == (Ix)left, "regrown long vector");
    for (int t = 0; t < 12; ++t) { Ix k = Q[t]; sym_assert(v.hasElement(k) == (k < nn && (k == p || k == q)), "regrown long vector elements"); }
    IV ri(left); std::vector<u64> rv(left); v.extractTuples(ri, rv);
    for (int t = 0; t < left; ++t) sym_assert(ri[t] < nn && (ri[t] == q ? rv[t] == y : ri[t] == p && rv[t] == x), "tuples of a long vector");
    sym_reach("vector words");
}
#elif KIND == 2   // build / extractTuples
static const int MAXT = 3;
template <class F> void tuples(int n, int bound, F f) { IV v; for (int i = 0; i < n; ++i) { v.push_back(sym_choice(bound)); sym_note("i", v.back()); } f(v); }
ENTRY chk_build_v() {
    int n = sym_choice(MAXT + 2), N = 1 + sym_choice(3), how = sym_choice(3); sym_note("dup", how);
    IV ix; std::vector<u64> v; DV<u64> d(N);
    for (int i = 0; i < n; ++i) {
        ix.push_back(sym_choice(N)); v.push_back(sym_bits(10 + i, 64));
        int k = ix[i];
        d.set(k, !d.p[k] || how == 0 ? v[i] : how == 1 ? Bin()(d.v[k], v[i]) : d.v[k] + v[i]);
    }
    DV<u64> old = genV<u64>(7, N, sym_choice(2) ? G_FULL : G_EMPTY); auto m = mk(old);   // Vector::build replaces old content
    if (how == 0) m.build(ix, v); else if (how == 1) m.build(ix.begin(), v.begin(), n, Bin()); else m.build(ix, v, grb::Plus<u64>());
    look(m, d);
    // round trip
    int c = d.count(); IV ri(c); std::vector<u64> rv(c); m.extractTuples(ri.begin(), rv.begin());
    grb::Vector<u64> w(N); w.build(ri, rv); look(w, d); sym_assert(w == m && !(w != m), "rebuild from tuples is equal");
    sym_reach("build vector");
}
ENTRY chk_build_m() {
    static const int S[][2] = {{2, 2}, {1, 3}, {3, 1}};
    int s = sym_choice(3), n = sym_choice(MAXT + 1), how = sym_choice(3), R = S[s][0], Cn = S[s][1]; sym_note("dup", how);
    IV ri, ci; std::vector<u64> v; DM<u64> d(R, Cn);
    for (int i = 0; i < n; ++i) {
        ri.push_back(sym_choice(R)); ci.push_back(sym_choice(Cn)); v.push_back(sym_bits(10 + i, 64));
        bool h = d.P(ri[i], ci[i]); u64 o = d.V(ri[i], ci[i]);
        d.set(ri[i], ci[i], !h || how == 0 ? v[i] : how == 1 ? Bin()(o, v[i]) : o + v[i]);
    }
    grb::Matrix<u64> m(R, Cn);
    if (how == 0) m.build(ri, ci, v); else if (how == 1) m.build(ri.begin(), ci.begin(), v.begin(), n, Bin()); else m.build(ri, ci, v, grb::Plus<u64>());
    look(m, d);
    int c = d.count(); IV r2(c), c2(c); std::vector<u64> v2(c); m.extractTuples(r2.begin(), c2.begin(), v2.begin());
    grb::Matrix<u64> w(R, Cn); w.build(r2, c2, v2); look(w, d); sym_assert(w == m && !(w != m), "rebuild from tuples is equal");
    sym_reach("build matrix");
}
ENTRY chk_build_err() {
    int bad = sym_choice(4); sym_note("bad", bad);
    Ix i = sym_bits(1, 64), j = sym_bits(2, 64);
    grb::Vector<u64> v(3); grb::Matrix<u64> m(2, 3);
    if (bad == 0) sym_assert(thrown([&] { v.build(IV{0, i}, std::vector<u64>{1, 2}); }) == (i < 3 ? 0 : 1), "vector build throws IndexOutOfBoundsException exactly out of range");
    if (bad == 1) sym_assert(thrown([&] { m.build(IV{0, i}, IV{1, j}, std::vector<u64>{1, 2}); }) == (i < 2 && j < 3 ? 0 : 1), "matrix build throws IndexOutOfBoundsException exactly out of range");
    if (bad == 2) { int a = sym_choice(3), b = sym_choice(3); sym_assert(thrown([&] { v.build(IV(a, 0), std::vector<u64>(b, 1)); }) == (a == b ? 0 : 4), "vector build throws DimensionException exactly on unequal array lengths"); }
    if (bad == 3) { int a = sym_choice(3), b = sym_choice(3), c = sym_choice(3); sym_assert(thrown([&] { m.build(IV(a, 0), IV(b, 0), std::vector<u64>(c, 1)); }) == (a == b && b == c ? 0 : 4), "matrix build throws DimensionException exactly on unequal array lengths"); }
    sym_reach("build errors");
}
#else   // equality
ENTRY chk_eq_m() {
    static const int S[][2] = {{2, 2}, {1, 3}, {3, 1}, {2, 1}};
    int s = sym_choice(4), t = sym_choice(4);
    DM<u64> a = genM<u64>(1, S[s][0], S[s][1]), b = genM<u64>(2, S[t][0], S[t][1]);
    auto A = mk(a), B = mk(b);
    bool eq = a.r == b.r && a.c == b.c;
    if (eq) for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { if (a.P(i, j) != b.P(i, j)) eq = false; else if (a.P(i, j) && a.V(i, j) != b.V(i, j)) eq = false; }
    sym_assert((A == B) == eq, "operator== is equality of dimensions, structure and values");
    sym_assert((A != B) == !eq, "operator!= is the negation of operator==");
    sym_reach("matrix equality");
}
ENTRY chk_eq_v() {
    DV<u64> a = genV<u64>(1, 2 + sym_choice(2)), b = genV<u64>(2, 2 + sym_choice(2));
    auto A = mk(a), B = mk(b);
    bool eq = a.n == b.n;
    if (eq) for (int i = 0; i < a.n; ++i) { if (a.p[i] != b.p[i]) eq = false; else if (a.p[i] && a.v[i] != b.v[i]) eq = false; }
    sym_assert((A == B) == eq, "operator== is equality of size, structure and values");
    sym_assert((A != B) == !eq, "operator!= is the negation of operator==");
    sym_reach("vector equality");
}
// the route to a content does not matter
ENTRY chk_eq_history() {
    DM<u64> a = genM<u64>(1, 2, 2); auto A = mk(a);
    grb::Matrix<u64> B(3, 3);
    for (int i = 2; i >= 0; --i) for (int j = 2; j >= 0; --j) B.setElement(i, j, 77);
    B.resize(2, 2);
    for (int i = 1; i >= 0; --i) for (int j = 1; j >= 0; --j) { B.setElement(i, j, a.V(i, j)); if (!a.P(i, j)) B.removeElement(i, j); }
    sym_assert(A == B && !(A != B), "equal contents reached by other histories compare equal");
    DV<u64> v = genV<u64>(2, 3); auto V = mk(v);
    grb::Vector<u64> W(5, 9); W.resize(3);
    for (int i = 2; i >= 0; --i) { W.setElement(i, v.v[i]); if (!v.p[i]) W.removeElement(i); }
    sym_assert(V == W && !(V != W), "equal contents reached by other histories compare equal");
    sym_reach("history equality");
}
#endif
