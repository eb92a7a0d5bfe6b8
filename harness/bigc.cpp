#include "big.hpp"
// containers of larger shapes: KIND 0 matrix, 1 vector, 2 build, 3 equality
template <class F> static int thrown(F f) {   // 0 none, 1 IndexOutOfBounds, 2 NoValue, 3 InvalidValue, 4 Dimension, 9 other
    try { f(); } catch (grb::IndexOutOfBoundsException &) { return 1; } catch (grb::NoValueException &) { return 2; }
    catch (grb::InvalidValueException &) { return 3; } catch (grb::DimensionException &) { return 4; } catch (...) { return 9; }
    return 0;
}
static const char *CT = "container contents", *CV = "container value";
static const int S[][2] = {{5, 9}, {2, 40}, {33, 2}};
#if KIND == 0
static BM resized(BM const &d, int r, int c) { BM n(r, c); for (int i = 0; i < r && i < d.r; ++i) for (int j = 0; j < c && j < d.c; ++j) if (d.P(i, j)) n.set(i, j, d.V(i, j)); return n; }
static void look(grb::Matrix<u64> const &m, BM const &d) {
    same(m, d, CT, CV);
    int n = d.count(); IV r(n), c(n); std::vector<u64> v(n); m.extractTuples(r, c, v); int k = 0; bool s = true, e = true;
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if (d.P(i, j)) { s &= r[k] == (Ix)i && c[k] == (Ix)j; e &= v[k] == d.V(i, j) && m.extractElement(i, j) == d.V(i, j); ++k; }
    sym_assert(s, CT); sym_assert(e, CV);
}
ENTRY chk_big() {
    int s = sym_choice(3), r = S[s][0], c = S[s][1]; BM d = bigM(1, r, c, sym_choice(6), 0); auto m = mk(d); grb::Matrix<u64> keep(m); BM old = d;
    int op = sym_choice(4); sym_note("op", op);
    if (op < 2) {       // set or remove anywhere, then once more at the same place or its neighbours
        Ix i = sym_bits(100, 64), j = sym_bits(110, 64); u64 x = sym_bits(120, 64), y = sym_bits(121, 64); bool in = i < (Ix)r && j < (Ix)c;
        int e = thrown([&] { if (op == 0) m.setElement(i, j, x); else m.removeElement(i, j); });
        sym_assert(e == (in ? 0 : 1), "element access throws IndexOutOfBoundsException exactly out of range"); if (!in) { look(m, d); sym_end(); }
        int a = (int)sym_concrete(i), b = (int)sym_concrete(j); if (op == 0) d.set(a, b, x); else d.del(a, b);
        int w = sym_choice(3), a2 = a, b2 = w == 0 ? b : w == 1 ? (b + 1) % c : (b + c - 1) % c;
        NO_THROW("element access throws", if (op == 0) m.removeElement(a2, b2); else m.setElement(a2, b2, y)); if (op == 0) d.del(a2, b2); else d.set(a2, b2, y);
    } else if (op == 2) {
        int nr = 1 + sym_choice(r + 2), nc = sym_choice(2) ? c + 3 : 1 + sym_choice(c);
        NO_THROW("resize throws", m.resize(nr, nc); m.resize(r, c); m.setElement(r - 1, c - 1, 5)); d = resized(resized(d, nr, nc), r, c); d.set(r - 1, c - 1, 5);
    } else { NO_THROW("clear throws", m.clear()); d = BM(r, c); for (int k = 0; k < 3; ++k) { int i = k % r, j = (c - 1 - k * 2 + 4 * c) % c; m.setElement(i, j, k + 1); d.set(i, j, k + 1); } }
    look(m, d); look(keep, old); keep = m; look(keep, d);
    sym_reach("big matrix");
}
#elif KIND == 1
static void look(grb::Vector<u64> const &m, BV const &d) {
    same(m, d, CT, CV);
    int n = d.count(); IV r(n); std::vector<u64> v(n); m.extractTuples(r, v); int k = 0; bool s = true, e = true;
    for (int i = 0; i < d.n; ++i) if (d.p[i]) { s &= r[k] == (Ix)i; e &= v[k] == d.v[i] && m.extractElement(i) == d.v[i]; ++k; }
    sym_assert(s, CT); sym_assert(e, CV);
}
ENTRY chk_big() {
    int n = sym_choice(2) ? 131 : 67; BV d = bigV(1, n, sym_choice(6), 0); auto m = mk(d); grb::Vector<u64> keep(m); BV old = d; int op = sym_choice(5); sym_note("op", op);
    if (op < 2) {
        Ix i = sym_bits(100, 64); u64 x = sym_bits(120, 64), y = sym_bits(121, 64); bool in = i < (Ix)n; if (in) i = sym_concrete(i);
        int e = thrown([&] { if (op == 0) m.setElement(i, x); else m.removeElement(i); });
        sym_assert(e == (in ? 0 : 1), "element access throws IndexOutOfBoundsException exactly out of range"); if (!in) { look(m, d); sym_end(); }
        int a = (int)i; if (op == 0) d.set(a, x); else d.p[a] = 0;
        int w = sym_choice(3), b = w == 0 ? a : w == 1 ? (a + 1) % n : (a + 64) % n;
        NO_THROW("element access throws", if (op == 0) m.removeElement(b); else m.setElement(b, y)); if (op == 0) d.p[b] = 0; else d.set(b, y);
    } else if (op == 2) { int k = 1 + sym_choice(n + 3); NO_THROW("resize throws", m.resize(k); m.resize(n)); for (int i = k; i < n; ++i) d.p[i] = 0; }
    else if (op == 3) { NO_THROW("clear throws", m.clear(); m.setElement(n - 1, 3)); d = BV(n); d.set(n - 1, 3); }
    else { std::vector<u64> v(n); for (int i = 0; i < n; ++i) { v[i] = sym_bits(200 + i, 64); d.set(i, v[i]); } NO_THROW("dense assignment throws", m = v); }
    look(m, d); look(keep, old); keep = m; look(keep, d);
    sym_reach("big vector");
}
#elif KIND == 2
// n tuples over distinct positions in some order, with one position (any) given again at another place in the list
static int order(int w, int k, int n) { return w == 0 ? k : w == 1 ? n - 1 - k : (k * 5 + 2) % n; }
ENTRY chk_big_v() {
    int N = sym_choice(2) ? 70 : 13, n = 9, w = sym_choice(3), a = sym_choice(n), b = sym_choice(n + 1), how = sym_choice(3); IV ix; std::vector<u64> v; BV d(N);
    for (int k = 0; k < n; ++k) ix.push_back(order(w, k, n) * (N / n)); ix.insert(ix.begin() + b, ix[a]);
    for (int k = 0; k <= n; ++k) { int q = ix[k]; v.push_back(sym_bits(10 + k, 64)); d.set(q, !d.p[q] || how == 0 ? v[k] : how == 1 ? Bin()(d.v[q], v[k]) : d.v[q] + v[k]); }
    grb::Vector<u64> m(N);
    NO_THROW("build throws", if (how == 0) m.build(ix, v); else if (how == 1) m.build(ix.begin(), v.begin(), n + 1, Bin()); else m.build(ix, v, grb::Plus<u64>()));
    same(m, d, CT, CV); sym_reach("big build vector");
}
ENTRY chk_big_m() {
    int s = sym_choice(3), R = S[s][0], C = S[s][1], n = 11, w = sym_choice(3), a = sym_choice(n), b = sym_choice(n + 1), how = sym_choice(3); IV ri, ci; std::vector<u64> v; BM d(R, C);
    for (int k = 0; k < n; ++k) { int q = order(w, k, n) * (R * C / n); ri.push_back(q / C); ci.push_back(q % C); } ri.insert(ri.begin() + b, ri[a]); { Ix x = ci[a]; ci.insert(ci.begin() + b, x); }
    for (int k = 0; k <= n; ++k) { int i = ri[k], j = ci[k]; v.push_back(sym_bits(10 + k, 64)); d.set(i, j, !d.P(i, j) || how == 0 ? v[k] : how == 1 ? Bin()(d.V(i, j), v[k]) : d.V(i, j) + v[k]); }
    grb::Matrix<u64> m(R, C);
    NO_THROW("build throws", if (how == 0) m.build(ri, ci, v); else if (how == 1) m.build(ri.begin(), ci.begin(), v.begin(), n + 1, Bin()); else m.build(ri, ci, v, grb::Plus<u64>()));
    same(m, d, CT, CV);
    int c = d.count(); IV r2(c), c2(c); std::vector<u64> v2(c); m.extractTuples(r2, c2, v2); grb::Matrix<u64> x(R, C); x.build(r2, c2, v2); sym_assert(x == m, "rebuild from tuples is equal");
    sym_reach("big build matrix");
}
#else
ENTRY chk_big_m() {
    int s = sym_choice(3), r = S[s][0], c = S[s][1], p = sym_choice(6), i = sym_choice(r), j = sym_choice(c), how = sym_choice(3); BM a = bigM(1, r, c, p); auto A = mk(a), B = mk(a); u64 x = sym_bits(5, 64); bool eq;
    if (how == 0) { B.setElement(i, j, x); eq = a.P(i, j) && x == a.V(i, j); } else if (how == 1) { B.removeElement(i, j); eq = !a.P(i, j); }
    else { if (i != 0 || j > 1) sym_end(); B.resize(r + 1, c); eq = false; if (j) { B.resize(r, c + 1); } }
    sym_assert((A == B) == eq && (B == A) == eq, "operator== is equality of dimensions, structure and values");
    sym_assert((A != B) == !eq, "operator!= is the negation of operator==");
    sym_reach("big matrix equality");
}
ENTRY chk_big_v() {
    int n = sym_choice(2) ? 131 : 67, p = sym_choice(6), i = sym_choice(n), how = sym_choice(3); BV a = bigV(1, n, p); auto A = mk(a), B = mk(a); u64 x = sym_bits(5, 64); bool eq;
    if (how == 0) { B.setElement(i, x); eq = a.p[i] && x == a.v[i]; } else if (how == 1) { B.removeElement(i); eq = !a.p[i]; }
    else { if (i) sym_end(); B.resize(n + 1); eq = false; }
    sym_assert((A == B) == eq && (B == A) == eq, "operator== is equality of size, structure and values");
    sym_assert((A != B) == !eq, "operator!= is the negation of operator==");
    sym_reach("big vector equality");
}
#endif
