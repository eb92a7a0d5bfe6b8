// Larger objects: a fixed sparsity pattern with one position toggled, every stored value symbolic.
#pragma once
#include "model.hpp"
typedef std::vector<Ix> IV;
#ifdef THOROUGH
#define WIDER(n, x) sym_choice(n)
#else
#define WIDER(n, x) (x)
#endif
struct BM {
    int r, c; std::vector<char> p; std::vector<u64> v;
    BM(int r, int c) : r(r), c(c), p(r * c, 0), v(r * c, 0) {}
    bool P(int i, int j) const { return p[i * c + j]; }
    u64 V(int i, int j) const { return v[i * c + j]; }
    void set(int i, int j, u64 x) { p[i * c + j] = 1; v[i * c + j] = x; }
    void del(int i, int j) { p[i * c + j] = 0; }
    BM T_() const { BM t(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (P(i, j)) t.set(j, i, V(i, j)); return t; }
    int count() const { int n = 0; for (char x : p) n += x; return n; }
};
struct BV {
    int n; std::vector<char> p; std::vector<u64> v;
    BV(int n) : n(n), p(n, 0), v(n, 0) {}
    void set(int i, u64 x) { p[i] = 1; v[i] = x; }
    int count() const { int k = 0; for (char x : p) k += x; return k; }
};
enum { NPAT = 6 };
inline bool bigPat(int k, int i, int j, int r, int c) {
    switch (k) {
    case 0: return true;
    case 1: return (i + j) % 2 == 0;                                  // checkerboard
    case 2: return (i * 5 + j * 3) % 7 < 2;                           // scattered
    case 3: return i == j || i == r - 1 || j == 0;                    // diagonal, last row, first column
    case 4: return i % 3 == 1;                                        // every third row
    default: return false;
    }
}
// one position flipped: none, first, last, middle
inline int flip(int which, int r, int c) { return which == 0 ? -1 : which == 1 ? 0 : which == 2 ? r * c - 1 : (r / 2) * c + c / 2; }
inline BM bigM(int o, int r, int c, int pat, int fl = 0) {
    BM m(r, c); int f = flip(fl, r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (bigPat(pat, i, j, r, c) != (i * c + j == f)) m.set(i, j, sym_bits(o * 10000 + i * 100 + j, 64));
    return m;
}
inline BV bigV(int o, int n, int pat, int fl = 0) {
    BV m(n); int f = flip(fl, 1, n);
    for (int j = 0; j < n; ++j) if (bigPat(pat == 4 ? 0 : pat == 3 ? 2 : pat, pat == 4 ? 0 : pat, pat == 4 ? j / 3 * 2 + j : j, 7, n) != (j == f) && !(pat == 4 && j % 5 == 2)) m.set(j, sym_bits(o * 10000 + j, 64));
    return m;
}
template <class M> BM maskM(int o, int r, int c, int pat, M) { return bigM(o, r, c, pat); }
inline grb::Matrix<u64> mk(BM const &d) { grb::Matrix<u64> m(d.r, d.c); for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) if (d.P(i, j)) m.setElement(i, j, d.V(i, j)); return m; }
inline grb::Vector<u64> mk(BV const &d) { grb::Vector<u64> m(d.n); for (int i = 0; i < d.n; ++i) if (d.p[i]) m.setElement(i, d.v[i]); return m; }
static const char *ST = "stored structure of the result", *VA = "stored value of the result";
inline void same(grb::Matrix<u64> const &m, BM const &d, const char *st = ST, const char *va = VA) {
    sym_assert(m.nrows() == (Ix)d.r && m.ncols() == (Ix)d.c, st);
    int n = d.count(), k = 0; sym_assert(m.nvals() == (Ix)n, st); if (m.nvals() != (Ix)n) sym_end();
    IV ri(n + 1, ~(Ix)0), ci(n + 1, ~(Ix)0); std::vector<u64> v(n + 1, 0); m.extractTuples(ri.begin(), ci.begin(), v.begin());
    bool s = true, e = true;
    for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) {
        if (d.P(i, j)) { s &= ri[k] == (Ix)i && ci[k] == (Ix)j; e &= v[k] == d.V(i, j); ++k; }
        s &= m.hasElement(i, j) == d.P(i, j);
    }
    sym_assert(s && ri[n] == ~(Ix)0, st); sym_assert(e, va);
}
inline void same(grb::Vector<u64> const &m, BV const &d, const char *st = ST, const char *va = VA) {
    sym_assert(m.size() == (Ix)d.n, st);
    int n = d.count(), k = 0; sym_assert(m.nvals() == (Ix)n, st); if (m.nvals() != (Ix)n) sym_end();
    IV ix(n + 1, ~(Ix)0); std::vector<u64> v(n + 1, 0); m.extractTuples(ix.begin(), v.begin());
    bool s = true, e = true;
    for (int i = 0; i < d.n; ++i) { if (d.p[i]) { s &= ix[k] == (Ix)i; e &= v[k] == d.v[i]; ++k; } s &= m.hasElement(i) == (bool)d.p[i]; }
    sym_assert(s && ix[n] == ~(Ix)0, st); sym_assert(e, va);
}
// mask values: a fixed mixture of true and stored false, one position's value chosen by the solver
inline bool bit(u64 id) { return sym_concrete(sym_bits(id, 1)) != 0; }
struct BMask { BM d; grb::Matrix<bool> m; BMask(int r, int c, int pat) : d(bigM(8, r, c, pat)), m(r, c) {
    bool first = true; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (d.P(i, j)) { bool b = first ? bit(89999) : (i * 2 + j) % 3 != 0; first = false; d.set(i, j, b); m.setElement(i, j, b); } } };
struct BMaskV { BV d; grb::Vector<bool> m; BMaskV(int n, int pat) : d(bigV(8, n, pat)), m(n) {
    bool first = true; for (int j = 0; j < n; ++j) if (d.p[j]) { bool b = first ? bit(89999) : j % 3 != 0; first = false; d.set(j, b); m.setElement(j, b); } } };
inline bool allowB(BM const &m, int k, int i, int j) { bool p = m.P(i, j), v = p && m.V(i, j); return k == MK_NONE || (k == MK_VALUE ? v : k == MK_COMP ? !v : k == MK_STRUCT ? p : !p); }
inline bool allowB(BV const &m, int k, int i) { bool p = m.p[i], v = p && m.v[i]; return k == MK_NONE || (k == MK_VALUE ? v : k == MK_COMP ? !v : k == MK_STRUCT ? p : !p); }
inline BM wbB(BM const &C, BM const &T, BM const &M, int kind, bool acc, bool rep) {
    BM o(C.r, C.c);
    for (int i = 0; i < C.r; ++i) for (int j = 0; j < C.c; ++j) {
        bool c = C.P(i, j), t = T.P(i, j);
        if (allowB(M, kind, i, j)) { if (acc && c) o.set(i, j, t ? Acc()(C.V(i, j), T.V(i, j)) : C.V(i, j)); else if (t) o.set(i, j, T.V(i, j)); }
        else if (!rep && c) o.set(i, j, C.V(i, j));
    }
    return o;
}
inline BV wbB(BV const &C, BV const &T, BV const &M, int kind, bool acc, bool rep) {
    BV o(C.n);
    for (int i = 0; i < C.n; ++i) {
        bool c = C.p[i], t = T.p[i];
        if (allowB(M, kind, i)) { if (acc && c) o.set(i, t ? Acc()(C.v[i], T.v[i]) : C.v[i]); else if (t) o.set(i, T.v[i]); }
        else if (!rep && c) o.set(i, C.v[i]);
    }
    return o;
}
// mode 0..: (kind, accum, replace) combinations; the output and mask patterns vary with it
struct Mode { int kind, acc, rep, cp, mp; };
inline Mode mode() { Mode m; m.kind = sym_choice(5); m.acc = sym_choice(2); m.rep = m.kind ? sym_choice(2) : 0; m.cp = WIDER(2, m.acc) ? 2 : 1; m.mp = m.kind ? 1 + WIDER(3, (m.acc + m.rep + m.kind) % 3) : 5; sym_note("mask", m.kind); sym_note("accum", m.acc); sym_note("replace", m.rep); return m; }
template <class F> void runB(BM const &T, F call, bool assigned = false) {
    Mode q = mode(); BM Cd = bigM(7, T.r, T.c, q.cp, 3); BMask M(T.r, T.c, q.mp); auto C = mk(Cd);
    grb::OutputControlEnum o = q.rep ? grb::REPLACE : grb::MERGE;
    withMask(q.kind, M.m, [&](auto const &mask) { withAccum(q.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(C, mask, ac, o)); }); });
    same(C, wbB(Cd, T, M.d, q.kind, q.acc, q.rep));
}
template <class F> void runB(BV const &T, F call) {
    Mode q = mode(); BV Cd = bigV(7, T.n, q.cp, 3); BMaskV M(T.n, q.mp); auto C = mk(Cd);
    grb::OutputControlEnum o = q.rep ? grb::REPLACE : grb::MERGE;
    withMask(q.kind, M.m, [&](auto const &mask) { withAccum(q.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(C, mask, ac, o)); }); });
    same(C, wbB(Cd, T, M.d, q.kind, q.acc, q.rep));
}
