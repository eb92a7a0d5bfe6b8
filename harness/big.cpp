#include "big.hpp"
// larger shapes: OP selects the operation, TR the transposed operands
#ifndef TR
#define TR 0
#endif
static constexpr bool TA = TR & 1, TB = TR & 2;
template <bool t, class M> decltype(auto) view(M const &m) { if constexpr (t) return grb::transpose(m); else return (m); }
static BM gA(int o, int r, int c, bool t, int pat, int fl) { return t ? bigM(o, r, c, pat, fl).T_() : bigM(o, r, c, pat, fl); }   // op(A) has the pattern
static BM op(BM const &d, bool t) { return t ? d.T_() : d; }
static int shape(int n) { int s = sym_choice(n); sym_note("shape", s); return s; }
static int pat() { int p = sym_choice(5); sym_note("pattern", p); return p; }
static int fl() { int p = sym_choice(4); sym_note("flip", p); return p; }
#define GO [&](auto &C, auto const &mask, auto acc, auto o)
#if OP == 1   // mxm
ENTRY chk_big() {
    static const int S[][3] = {{5, 7, 6}, {2, 66, 2}, {9, 1, 8}, {1, 9, 33}};
    int s = shape(4), m = S[s][0], k = S[s][1], n = S[s][2], pa = pat(), pb = s ? (pa + 1) % 5 : pat();
    BM A = gA(1, m, k, TA, pa, fl()), B = gA(2, k, n, TB, pb, s == 0 ? 0 : sym_choice(2)); auto a = mk(A), b = mk(B);
    BM X = op(A, TA), Y = op(B, TB), T(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < k; ++q) if (X.P(i, q) && Y.P(q, j)) { u64 v = Ring().mult(X.V(i, q), Y.V(q, j)); T.set(i, j, T.P(i, j) ? T.V(i, j) + v : v); }
    runB(T, GO { grb::mxm(C, mask, acc, Ring(), view<TA>(a), view<TB>(b), o); });
    sym_reach("big mxm");
}
#elif OP == 2 || OP == 3
ENTRY chk_big() {
    static const int S[][2] = {{6, 7}, {2, 66}, {66, 2}, {9, 9}};
    int s = shape(4), m = S[s][0], k = S[s][1];
#if OP == 2
    BM A = gA(1, m, k, TA, pat(), fl()); BV U = bigV(2, k, pat()); auto a = mk(A); auto u = mk(U); BM X = op(A, TA); BV T(m);
    for (int i = 0; i < m; ++i) for (int q = 0; q < k; ++q) if (X.P(i, q) && U.p[q]) { u64 v = Ring().mult(X.V(i, q), U.v[q]); T.set(i, T.p[i] ? T.v[i] + v : v); }
    runB(T, GO { grb::mxv(C, mask, acc, Ring(), view<TA>(a), u, o); });
#else
    BM A = gA(1, m, k, TA, pat(), fl()); BV U = bigV(2, m, pat()); auto a = mk(A); auto u = mk(U); BM X = op(A, TA); BV T(k);
    for (int q = 0; q < m; ++q) for (int j = 0; j < k; ++j) if (X.P(q, j) && U.p[q]) { u64 v = Ring().mult(U.v[q], X.V(q, j)); T.set(j, T.p[j] ? T.v[j] + v : v); }
    runB(T, GO { grb::vxm(C, mask, acc, Ring(), u, view<TA>(a), o); });
#endif
    sym_reach("big product");
}
#elif OP == 4 || OP == 5
#if OP == 4
#define EW grb::eWiseAdd
#else
#define EW grb::eWiseMult
#endif
ENTRY chk_big() {
    static const int S[][2] = {{6, 7}, {2, 40}, {40, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1], pa = pat(), pb = sym_choice(2) ? 2 : (pa + 2) % 5; BM A = gA(1, m, k, TA, pa, fl()), B = gA(2, m, k, TB, pb, 0), X = op(A, TA), Y = op(B, TB), T(m, k); auto a = mk(A), b = mk(B);
    for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) { bool p = X.P(i, j), q = Y.P(i, j); if (p && q) T.set(i, j, Bin()(X.V(i, j), Y.V(i, j))); else if (OP == 4 && p) T.set(i, j, X.V(i, j)); else if (OP == 4 && q) T.set(i, j, Y.V(i, j)); }
    runB(T, GO { EW(C, mask, acc, Bin(), view<TA>(a), view<TB>(b), o); });
    sym_reach("big elementwise");
}
#if TR == 0
ENTRY chk_bigv() {
    int n = sym_choice(2) ? 70 : 17, pa = pat(), pb = pat(); BV X = bigV(1, n, pa, fl()), Y = bigV(2, n, pb), T(n); auto a = mk(X), b = mk(Y);
    for (int j = 0; j < n; ++j) { bool p = X.p[j], q = Y.p[j]; if (p && q) T.set(j, Bin()(X.v[j], Y.v[j])); else if (OP == 4 && p) T.set(j, X.v[j]); else if (OP == 4 && q) T.set(j, Y.v[j]); }
    runB(T, GO { EW(C, mask, acc, Bin(), a, b, o); });
    sym_reach("big vectors");
}
#endif
#elif OP == 6
static u64 K() { return sym_bits(5, 64); }
ENTRY chk_big() {
    static const int S[][2] = {{6, 7}, {2, 40}, {40, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1], w = sym_choice(3); BM A = gA(1, m, k, TA, pat(), fl()), X = op(A, TA), T(m, k); auto a = mk(A);
    for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) if (X.P(i, j)) T.set(i, j, w == 0 ? Un()(X.V(i, j)) : w == 1 ? Bin()(K(), X.V(i, j)) : Bin()(X.V(i, j), K()));
    runB(T, GO { if (w == 0) grb::apply(C, mask, acc, Un(), view<TA>(a), o); else if (w == 1) grb::apply(C, mask, acc, Bin(), K(), view<TA>(a), o); else grb::apply(C, mask, acc, Bin(), view<TA>(a), K(), o); });
    sym_reach("big apply");
}
#if TR == 0
ENTRY chk_bigv() {
    int n = sym_choice(2) ? 70 : 17, w = sym_choice(3); BV X = bigV(1, n, pat(), fl()), T(n); auto a = mk(X);
    for (int j = 0; j < n; ++j) if (X.p[j]) T.set(j, w == 0 ? Un()(X.v[j]) : w == 1 ? Bin()(K(), X.v[j]) : Bin()(X.v[j], K()));
    runB(T, GO { if (w == 0) grb::apply(C, mask, acc, Un(), a, o); else if (w == 1) grb::apply(C, mask, acc, Bin(), K(), a, o); else grb::apply(C, mask, acc, Bin(), a, K(), o); });
    sym_reach("big vectors");
}
#endif
#elif OP == 7
typedef AddMonoid<u64> Mon;
ENTRY chk_big() {
    static const int S[][2] = {{6, 7}, {2, 66}, {66, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1]; BM A = gA(1, m, k, TA, pat(), fl()), X = op(A, TA); BV T(m); auto a = mk(A);
    for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) if (X.P(i, j)) T.set(i, T.p[i] ? T.v[i] + X.V(i, j) : X.V(i, j));
    runB(T, GO { grb::reduce(C, mask, acc, Mon(), view<TA>(a), o); });
    sym_reach("big rows");
}
#if TR == 0
ENTRY chk_bigs() {
    u64 e = 0, old = sym_bits(77, 64), v = old; bool acc = sym_choice(2), vec = sym_choice(2), any = false;
    if (vec) { int n = sym_choice(2) ? 130 : 70; BV X = bigV(1, n, sym_choice(6), fl()); auto a = mk(X); for (int j = 0; j < n; ++j) if (X.p[j]) e += X.v[j]; NO_THROW("reduce throws", if (acc) grb::reduce(v, Acc(), Mon(), a); else grb::reduce(v, grb::NoAccumulate(), Mon(), a)); }
    else { static const int S[][2] = {{6, 7}, {2, 66}, {66, 2}}; int s = shape(3); BM X = bigM(1, S[s][0], S[s][1], sym_choice(6), fl()); auto a = mk(X); for (size_t j = 0; j < X.p.size(); ++j) if (X.p[j]) e += X.v[j]; NO_THROW("reduce throws", if (acc) grb::reduce(v, Acc(), Mon(), a); else grb::reduce(v, grb::NoAccumulate(), Mon(), a)); }
    sym_assert(v == (acc ? Acc()(old, e) : e), "scalar value");
    sym_reach("big scalars");
}
#endif
#elif OP == 8
ENTRY chk_big() {
    static const int S[][2] = {{6, 7}, {2, 40}, {40, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1]; bool v = sym_choice(2); BM A = bigM(1, m, k, pat(), fl()); auto a = mk(A);
    if (v) runB(A, GO { grb::transpose(C, mask, acc, grb::transpose(a), o); }); else runB(A.T_(), GO { grb::transpose(C, mask, acc, a, o); });
    same(a, A, "input unchanged", "input unchanged");
    sym_reach("big transpose");
}
#elif OP == 9
ENTRY chk_big() {
    static const int S[][4] = {{3, 2, 2, 4}, {1, 9, 5, 1}, {5, 1, 1, 9}};
    int s = shape(3); const int *d = S[s]; BM A = gA(1, d[0], d[1], TA, pat(), fl()), B = gA(2, d[2], d[3], TB, pat(), 0), X = op(A, TA), Y = op(B, TB), T(d[0] * d[2], d[1] * d[3]); auto a = mk(A), b = mk(B);
    for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) if (X.P(i, j)) for (int k = 0; k < d[2]; ++k) for (int l = 0; l < d[3]; ++l) if (Y.P(k, l)) T.set(i * d[2] + k, j * d[3] + l, Bin()(X.V(i, j), Y.V(k, l)));
    runB(T, GO { grb::kronecker(C, mask, acc, Bin(), view<TA>(a), view<TB>(b), o); });
    sym_reach("big kronecker");
}
#elif OP == 10   // extract
static IV list(int which, int n) {   // reversed, every second backwards, repeats, a permutation
    IV v; if (which == 0) for (int i = n - 1; i >= 0; --i) v.push_back(i);
    else if (which == 1) for (int i = n - 1; i >= 0; i -= 2) v.push_back(i);
    else if (which == 2) for (int i = 0; i < n + 3; ++i) v.push_back((i / 2) * 5 % n);
    else { for (int i = 0; i < n; ++i) v.push_back((i * 5 + 2) % n); int k = WIDER(n, n / 3); v.push_back(k); sym_note("index", k); }
    return v;
}
static IV all(int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
ENTRY chk_big() {
    static const int S[][2] = {{6, 7}, {2, 19}, {19, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1], w = sym_choice(4), how = sym_choice(4); BM A = gA(1, m, k, TA, 1 + sym_choice(3), sym_choice(2)), X = op(A, TA); auto a = mk(A);
    IV r = how & 1 ? all(m) : list(w, m), c = how & 2 ? all(k) : list(w == 3 ? 2 : (w + 1) % 3, k);
    BM T(r.size(), c.size()); for (int i = 0; i < T.r; ++i) for (int j = 0; j < T.c; ++j) if (X.P(r[i], c[j])) T.set(i, j, X.V(r[i], c[j]));
    grb::AllIndices AI;
    runB(T, GO { if (how == 0) grb::extract(C, mask, acc, view<TA>(a), r, c, o); else if (how == 1) grb::extract(C, mask, acc, view<TA>(a), AI, c, o); else if (how == 2) grb::extract(C, mask, acc, view<TA>(a), r, AI, o); else grb::extract(C, mask, acc, view<TA>(a), AI, AI, o); });
    sym_reach("big matrix");
}
ENTRY chk_bigcol() {
    static const int S[][2] = {{6, 7}, {2, 19}, {19, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1], w = sym_choice(4), x = WIDER(k, sym_choice(2) ? k - 1 : k / 2); bool al = sym_choice(2); BM A = gA(1, m, k, TA, sym_choice(4), sym_choice(2)), X = op(A, TA); auto a = mk(A); sym_note("column", x);
    IV r = al ? all(m) : list(w, m); BV T(r.size()); for (int i = 0; i < T.n; ++i) if (X.P(r[i], x)) T.set(i, X.V(r[i], x));
    grb::AllIndices AI;
    runB(T, GO { if (al) grb::extract(C, mask, acc, view<TA>(a), AI, (Ix)x, o); else grb::extract(C, mask, acc, view<TA>(a), r, (Ix)x, o); });
    sym_reach("big column");
}
#if TR == 0
ENTRY chk_bigv() {
    int n = sym_choice(2) ? 70 : 11, w = sym_choice(5); BV X = bigV(1, n, 1 + sym_choice(4), fl()); auto a = mk(X); grb::AllIndices AI;
    IV r = w == 4 ? all(n) : list(w, n); BV T(r.size()); for (int i = 0; i < T.n; ++i) if (X.p[r[i]]) T.set(i, X.v[r[i]]);
    runB(T, GO { if (w == 4) grb::extract(C, mask, acc, a, AI, o); else grb::extract(C, mask, acc, a, r, o); });
    sym_reach("big vector");
}
#endif
#elif OP == 11 || OP == 12   // assign: source or constant
static IV list(int which, int n, int k) {   // k distinct indices below n
    IV v; if (which == 0) for (int i = 0; i < k; ++i) v.push_back(n - 1 - i); else if (which == 1) for (int i = 0; i < k; ++i) v.push_back(i * (n / k)); else for (int i = 0; i < k; ++i) v.push_back((i * 5 + 2) % n);
    if (OP == 12 && k > 2) v[1] = v[k - 1];     // a constant may be assigned twice to a position
    return v;
}
static IV all(int n) { IV v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static int at(IV const &v, int x) { for (size_t i = 0; i < v.size(); ++i) if ((int)v[i] == x) return i; return -1; }
static u64 K() { return sym_bits(5, 64); }
template <class F> static void go(BM const &U, IV const &r, IV const &c, int m, int k, F call) {
    Mode q = mode(); BM Cd = bigM(7, m, k, q.cp, 3); BMask M(m, k, q.mp); auto C = mk(Cd); grb::OutputControlEnum o = q.rep ? grb::REPLACE : grb::MERGE;
    withMask(q.kind, M.m, [&](auto const &mask) { withAccum(q.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(C, mask, ac, o)); }); });
    BM Z = Cd; for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) { int x = at(r, i), y = at(c, j); if (x < 0 || y < 0) continue; bool u = U.P(x, y); if (u) Z.set(i, j, q.acc && Cd.P(i, j) ? Acc()(Cd.V(i, j), U.V(x, y)) : U.V(x, y)); else if (!q.acc) Z.del(i, j); }
    same(C, wbB(Cd, Z, M.d, q.kind, false, q.rep));
}
template <class F> static void go(BV const &U, IV const &r, int n, F call) {
    Mode q = mode(); BV Cd = bigV(7, n, q.cp, 3); BMaskV M(n, q.mp); auto C = mk(Cd); grb::OutputControlEnum o = q.rep ? grb::REPLACE : grb::MERGE;
    withMask(q.kind, M.m, [&](auto const &mask) { withAccum(q.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments", call(C, mask, ac, o)); }); });
    BV Z = Cd; for (int i = 0; i < n; ++i) { int x = at(r, i); if (x < 0) continue; if (U.p[x]) Z.set(i, q.acc && Cd.p[i] ? Acc()(Cd.v[i], U.v[x]) : U.v[x]); else if (!q.acc) Z.p[i] = 0; }
    same(C, wbB(Cd, Z, M.d, q.kind, false, q.rep));
}
ENTRY chk_big() {
    static const int S[][4] = {{6, 7, 4, 5}, {2, 19, 2, 9}, {19, 2, 9, 2}};
    int s = shape(3), m = S[s][0], k = S[s][1], w = sym_choice(3), how = sym_choice(4), mr = how & 1 ? m : S[s][2], mc = how & 2 ? k : S[s][3];
#if OP == 11
    BM A = gA(1, mr, mc, TA, 1 + sym_choice(3), sym_choice(2)), X = op(A, TA); auto a = mk(A);
#define SRC view<TA>(a)
#else
    BM X(mr, mc); for (int i = 0; i < mr; ++i) for (int j = 0; j < mc; ++j) X.set(i, j, K());
#define SRC K()
#endif
    IV r = how & 1 ? all(m) : list(w, m, mr), c = how & 2 ? all(k) : list((w + 1) % 3, k, mc); grb::AllIndices AI;
    go(X, r, c, m, k, GO { if (how == 0) grb::assign(C, mask, acc, SRC, r, c, o); else if (how == 1) grb::assign(C, mask, acc, SRC, AI, c, o); else if (how == 2) grb::assign(C, mask, acc, SRC, r, AI, o); else grb::assign(C, mask, acc, SRC, AI, AI, o); });
    sym_reach("big matrix");
}
#if TR == 0
ENTRY chk_bigv() {
    int n = sym_choice(2) ? 72 : 11, w = sym_choice(4), k = w == 3 ? n : n / 2;
#if OP == 11
    BV X = bigV(1, k, 1 + sym_choice(4), fl()); auto a = mk(X);
#define SRCV a
#else
    BV X(k); for (int i = 0; i < k; ++i) X.set(i, K());
#define SRCV K()
#endif
    IV r = w == 3 ? all(n) : list(w, n, k); grb::AllIndices AI;
    go(X, r, n, GO { if (w == 3) grb::assign(C, mask, acc, SRCV, AI, o); else grb::assign(C, mask, acc, SRCV, r, o); });
    sym_reach("big vector");
}
#endif
#if OP == 11 && TR == 0
ENTRY chk_bigline() {   // a row or column of a matrix
    bool row = sym_choice(2), al = sym_choice(2); int X = 5, L = 13, w = sym_choice(3), k = al ? L : 6, x = sym_choice(2) * 3 + 1; BV U = bigV(1, k, 1 + sym_choice(3), sym_choice(2)); auto u = mk(U);
    Mode q = mode(); BM Cd = bigM(7, row ? X : L, row ? L : X, q.cp, 3); BMaskV M(L, q.mp); auto C = mk(Cd); grb::OutputControlEnum o = q.rep ? grb::REPLACE : grb::MERGE; IV r = al ? all(L) : list(w, L, k); grb::AllIndices AI;
    withMask(q.kind, M.m, [&](auto const &mask) { withAccum(q.acc, [&](auto ac) { NO_THROW("operation throws on valid arguments",
        if (row) { if (al) grb::assign(C, mask, ac, u, (Ix)x, AI, o); else grb::assign(C, mask, ac, u, (Ix)x, r, o); } else { if (al) grb::assign(C, mask, ac, u, AI, (Ix)x, o); else grb::assign(C, mask, ac, u, r, (Ix)x, o); }); }); });
    BV cl(L); for (int i = 0; i < L; ++i) { int a = row ? x : i, b = row ? i : x; if (Cd.P(a, b)) cl.set(i, Cd.V(a, b)); }
    BV Z = cl; for (int i = 0; i < L; ++i) { int y = at(r, i); if (y < 0) continue; if (U.p[y]) Z.set(i, q.acc && cl.p[i] ? Acc()(cl.v[i], U.v[y]) : U.v[y]); else if (!q.acc) Z.p[i] = 0; }
    BV nl = wbB(cl, Z, M.d, q.kind, false, q.rep);
    for (int i = 0; i < L; ++i) { int a = row ? x : i, b = row ? i : x; if (nl.p[i]) Cd.set(a, b, nl.v[i]); else Cd.del(a, b); }
    same(C, Cd); sym_reach("big row or column");
}
#endif
#endif
