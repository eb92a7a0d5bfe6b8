#include <algorithm>
#include "expr.hpp"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <set>

namespace se {
Ctx *C = nullptr;

static void zerr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

Ctx::Ctx() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    z_ = Z3_mk_context(cfg);
    Z3_set_error_handler(z_, zerr);
    Z3_del_config(cfg);
    sol_ = Z3_mk_simple_solver(z_);
    Z3_solver_inc_ref(z_, sol_);
    tab_.assign(1 << 16, nullptr);
}

Expr *Ctx::alloc() {
    const size_t per = 4096;
    if (blocks_.empty() || bpos_ == per) {
        blocks_.push_back((char *)malloc(per * sizeof(Expr)));
        bpos_ = 0;
    }
    return (Expr *)(blocks_.back()) + bpos_++;
}
void Ctx::grow() {
    std::vector<Expr *> old;
    old.swap(tab_);
    tab_.assign(old.size() * 2, nullptr);
    for (Expr *e : old)
        if (e) {
            size_t h = e->hash & (tab_.size() - 1);
            while (tab_[h]) h = (h + 1) & (tab_.size() - 1);
            tab_[h] = e;
        }
}
static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
E Ctx::mk(Op op, int w, uint64_t c, E a, E b, E d, int fl) {
    uint64_t h = mix(mix((uint64_t)op * 131 + w * 7 + fl, c),
                     (a ? a->id : 0) * 0x1000193ull + (b ? (uint64_t)b->id << 21 : 0));
    h = mix(h, d ? d->id : 0);
    uint32_t hh = (uint32_t)h;
    size_t i = hh & (tab_.size() - 1);
    while (Expr *e = tab_[i]) {
        if (e->hash == hh && e->op == op && e->w == w && e->c == c && e->k[0] == a &&
            e->k[1] == b && e->k[2] == d && e->fl == fl)
            return e;
        i = (i + 1) & (tab_.size() - 1);
    }
    Expr *e = alloc();
    e->op = op; e->w = w; e->fl = fl; e->c = c;
    e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->nk = (a != nullptr) + (b != nullptr) + (d != nullptr);
    e->id = nextid_++; e->hash = hh; e->estamp = 0; e->eval = 0; e->z3 = nullptr;
    e->size = 1;
    memset(&e->sup, 0, sizeof e->sup);
    for (int j = 0; j < 3; ++j)
        if (e->k[j]) {
            e->sup.join(e->k[j]->sup);
            e->size = e->size + e->k[j]->size > 1000000 ? 1000000 : e->size + e->k[j]->size;
        }
    auto K = [&](int j) { return (int)e->k[j]->nb; };
    int nb = w; bool nar = false;
    switch (op) {
    case Op::Const: nb = c ? 64 - __builtin_clzll(c) : 0; nar = true; break;
    case Op::ZExt: nb = K(0); nar = true; break;
    case Op::Add: nb = std::max(K(0), K(1)) + 1; nar = a->nar && b->nar; break;
    case Op::Mul: nb = K(0) + K(1); break;
    case Op::And: nb = std::min(K(0), K(1)); nar = a->nar && b->nar; break;
    case Op::Or: case Op::Xor: nb = std::max(K(0), K(1)); nar = a->nar && b->nar; break;
    case Op::Ite: nb = std::max(K(1), K(2)); nar = b->nar && d->nar; break;
    case Op::UDiv: break;
    default: break;
    }
    e->nb = std::min(nb, w); e->nar = nar;
    e->leaves = op == Op::Const ? 1 : op == Op::Ite && b->leaves && d->leaves && b->leaves + d->leaves <= 64 ? b->leaves + d->leaves : 0;
    if (op == Op::Var) { static unsigned seq = 0; unsigned b = seq++ % 240; e->sup.w[b >> 6] |= 1ull << (b & 63); }
    if (op == Op::UF) { unsigned b = 240 + (c & 15); e->sup.w[b >> 6] |= 1ull << (b & 63); }
    tab_[i] = e;
    if (++n_ * 2 > tab_.size()) grow();
    return e;
}

E Ctx::cst(uint64_t v, int w) { return mk(Op::Const, w, v & maskw(w), nullptr, nullptr, nullptr); }
E Ctx::var(uint64_t id, int w) { return mk(Op::Var, w, id, nullptr, nullptr, nullptr); }
E Ctx::uf(uint64_t id, int w, E a, E b, E c) { return mk(Op::UF, w, id, a, b, c); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w, bool &ok) {
    ok = true;
    uint64_t m = maskw(w);
    switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: if (!b) { ok = false; return 0; } return a / b;
    case Op::URem: if (!b) { ok = false; return 0; } return a % b;
    case Op::SDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) { ok = false; return 0; } if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case Op::SRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) { ok = false; return 0; } if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case Op::Shl: return b >= (uint64_t)w ? 0 : (a << b) & m;
    case Op::LShr: return b >= (uint64_t)w ? 0 : a >> b;
    case Op::AShr: return (uint64_t)(sx(a, w) >> (b >= (uint64_t)w ? w - 1 : b)) & m;
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sx(a, w) < sx(b, w);
    case Op::Sle: return sx(a, w) <= sx(b, w);
    default: ok = false; return 0;
    }
}
static inline double asd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asf(uint64_t v) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
static inline uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t fb(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

uint64_t foldF(Op op, int fw, int w, uint64_t a, uint64_t b) {
    if (op == Op::SIToF) { int64_t x = sx(a, fw); return w == 32 ? fb((float)x) : db((double)x); }
    if (op == Op::UIToF) { return w == 32 ? fb((float)a) : db((double)a); }
    if (op == Op::FToF) return fw == 32 ? (w == 64 ? db((double)asf(a)) : a) : (w == 32 ? fb((float)asd(a)) : a);
#define DO(T, g, p)                                                            \
    T x = g(a), y = g(b);                                                      \
    switch (op) {                                                              \
    case Op::FAdd: return p(x + y);                                            \
    case Op::FSub: return p(x - y);                                            \
    case Op::FMul: return p(x * y);                                            \
    case Op::FDiv: return p(x / y);                                            \
    case Op::FRem: return p(std::fmod(x, y));                                  \
    case Op::FAbs: return p(std::fabs(x));                                     \
    case Op::FSqrt: return p(std::sqrt(x));                                    \
    case Op::FMin: return p(std::fmin(x, y));                                  \
    case Op::FMax: return p(std::fmax(x, y));                                  \
    case Op::FOEq: return x == y;                                              \
    case Op::FOLt: return x < y;                                               \
    case Op::FOLe: return x <= y;                                              \
    case Op::FUno: return std::isnan(x) || std::isnan(y);                      \
    case Op::FToSI: { if (std::isnan(x)) return 0; long double t = x; if (t >= 9223372036854775807.0L) return maskw(w) >> 1; if (t <= -9223372036854775808.0L) return 1ull << (w - 1); return (uint64_t)(int64_t)t & maskw(w); } \
    case Op::FToUI: { if (std::isnan(x)) return 0; long double t = x; if (t < 0) return (uint64_t)(int64_t)t & maskw(w); if (t >= 18446744073709551615.0L) return maskw(w); return (uint64_t)t & maskw(w); } \
    default: abort();                                                          \
    }
    if (op == Op::FNeg) return a ^ (1ull << (fw - 1));
    if (fw == 32) { DO(float, asf, fb) }
    else { DO(double, asd, db) }
#undef DO
}

E Ctx::extract(E a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case Op::Const: return cst(a->c >> lo, w);
    case Op::Extract: return extract(a->k[0], a->c + lo, w);
    case Op::ZExt:
        if (lo >= a->k[0]->w) return cst(0, w);
        if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
        if (lo == 0) return zext(a->k[0], w);
        return zext(extract(a->k[0], lo, a->k[0]->w - lo), w);
    case Op::SExt:
        if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
        if (lo == 0) return sext(a->k[0], w);
        break;
    case Op::Concat: {
        int lw = a->k[1]->w;
        if (lo >= lw) return extract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return extract(a->k[1], lo, w);
        return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
    }
    case Op::And: case Op::Or: case Op::Xor:
        if (a->k[1]->op == Op::Const || w == 1) return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
        break;
    case Op::Shl:
        if (a->k[1]->op == Op::Const) {
            uint64_t s = a->k[1]->c;
            if (s >= (uint64_t)a->w || lo + w <= (int)s) return cst(0, w);
            if (lo >= (int)s) return extract(a->k[0], lo - s, w);
        }
        break;
    case Op::LShr:
        if (a->k[1]->op == Op::Const) {
            uint64_t s = a->k[1]->c;
            if (s + lo >= (uint64_t)a->w) return cst(0, w);
            if (s + lo + w <= (uint64_t)a->w) return extract(a->k[0], lo + s, w);
        }
        break;
    case Op::Ite:
        if (a->k[1]->op == Op::Const || a->k[2]->op == Op::Const || w == 1)
            return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
        break;
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
        break;
    default: break;
    }
    return mk(Op::Extract, w, lo, a, nullptr, nullptr);
}
E Ctx::concat(E hi, E lo) {
    int w = hi->w + lo->w;
    if (hi->op == Op::Const && lo->op == Op::Const) return cst(hi->c << lo->w | lo->c, w);
    if (hi->op == Op::Const && hi->c == 0) return zext(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
        return extract(hi->k[0], lo->c, w);
    if (hi->op == Op::Extract && hi->k[0] == lo && hi->c == lo->w) return extract(lo, 0, w);
    return mk(Op::Concat, w, 0, hi, lo, nullptr);
}
E Ctx::narrow(E a, int n) {
    if (n == a->w) return a;
    if (!a->nar || a->op == Op::Const || a->op == Op::ZExt) return extract(a, 0, n);
    uint64_t key = (uint64_t)a->id << 8 | n;
    auto it = narm_.find(key);
    if (it != narm_.end()) return it->second;
    E r = a->op == Op::Ite ? ite(a->k[0], narrow(a->k[1], n), narrow(a->k[2], n)) : bin(a->op, narrow(a->k[0], n), narrow(a->k[1], n));
    narm_[key] = r;
    return r;
}
E Ctx::zext(E a, int w) {
    if (w == a->w) return a;
    if (a->op == Op::Const) return cst(a->c, w);
    if (a->op == Op::ZExt) return zext(a->k[0], w);
    if (a->op == Op::Ite && a->k[1]->op == Op::Const && a->k[2]->op == Op::Const)
        return ite(a->k[0], cst(a->k[1]->c, w), cst(a->k[2]->c, w));
    return mk(Op::ZExt, w, 0, a, nullptr, nullptr);
}
E Ctx::sext(E a, int w) {
    if (w == a->w) return a;
    if (a->op == Op::Const) return cst((uint64_t)sx(a->c, a->w), w);
    if (a->op == Op::SExt) return sext(a->k[0], w);
    if (a->op == Op::ZExt) return zext(a->k[0], w);
    return mk(Op::SExt, w, 0, a, nullptr, nullptr);
}
E Ctx::notb(E a) {
    if (a->op == Op::Const) return cst(!a->c, 1);
    if (a->op == Op::Xor && a->w == 1 && a->k[1]->op == Op::Const && a->k[1]->c == 1) return a->k[0];
    return mk(Op::Xor, 1, 0, a, cst(1, 1), nullptr);
}
E Ctx::ite(E c, E a, E b) {
    if (c->op == Op::Const) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == Op::Xor && c->k[1]->op == Op::Const) return ite(c->k[0], b, a);
    if (a->w == 1) {
        if (a->op == Op::Const && b->op == Op::Const) return a->c ? c : notb(c);
        if (a->op == Op::Const) return a->c ? bin(Op::Or, c, b) : bin(Op::And, notb(c), b);
        if (b->op == Op::Const) return b->c ? bin(Op::Or, notb(c), a) : bin(Op::And, c, a);
    }
    if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return mk(Op::Ite, a->w, 0, c, a, b);
}
E Ctx::eq(E a, E b) {
    if (a == b) return cst(1, 1);
    if (a->op == Op::Const) std::swap(a, b);
    if (b->op == Op::Const) {
        if (a->op == Op::Const) return cst(a->c == b->c, 1);
        if (a->w == 1) return b->c ? a : notb(a);
        switch (a->op) {
        case Op::ZExt:
            if (b->c >> a->k[0]->w) return cst(0, 1);
            return eq(a->k[0], cst(b->c, a->k[0]->w));
        case Op::SExt: {
            E s = cst(b->c, a->k[0]->w);
            if ((uint64_t)sx(s->c, s->w) != (uint64_t)sx(b->c, b->w)) return cst(0, 1);
            return eq(a->k[0], s);
        }
        case Op::Ite:
            if (a->k[1]->op == Op::Const || a->k[2]->op == Op::Const)
                return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
            break;
        case Op::And:
            if (a->k[1]->op == Op::Const) {
                uint64_t m = a->k[1]->c;
                if (b->c & ~m) return cst(0, 1);
                if (m && !(m & (m - 1))) {
                    int i = __builtin_ctzll(m);
                    E bit = extract(a->k[0], i, 1);
                    return b->c ? bit : notb(bit);
                }
            }
            break;
        case Op::Xor:
            if (a->k[1]->op == Op::Const) return eq(a->k[0], cst(a->k[1]->c ^ b->c, a->w));
            break;
        case Op::Add:
            if (a->k[1]->op == Op::Const) return eq(a->k[0], cst(b->c - a->k[1]->c, a->w));
            break;
        case Op::Concat: {
            E r = bin(Op::And, eq(a->k[0], cst(b->c >> a->k[1]->w, a->k[0]->w)), eq(a->k[1], cst(b->c, a->k[1]->w)));
            return r;
        }
        default: break;
        }
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
    if (int n = std::max(a->nb, b->nb); n > 0 && n < a->w && a->nar && b->nar) return eq(narrow(a, n), narrow(b, n));
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Eq, 1, 0, a, b, nullptr);
}
E Ctx::cmp(Op op, E a, E b) {
    if (op == Op::Eq) return eq(a, b);
    if (a->op == Op::Const && b->op == Op::Const) { bool ok; return cst(foldBin(op, a->c, b->c, a->w, ok), 1); }
    if (a == b) return cst(op == Op::Ule || op == Op::Sle, 1);
    int w = a->w;
    if (op == Op::Ult) {
        if (b->op == Op::Const) { if (b->c == 0) return cst(0, 1); if (b->c == 1) return eq(a, cst(0, w)); }
        if (a->op == Op::Const) { if (a->c == maskw(w)) return cst(0, 1); if (a->c == 0) return notb(eq(b, cst(0, w))); }
    }
    if (op == Op::Ule) {
        if (a->op == Op::Const && a->c == 0) return cst(1, 1);
        if (b->op == Op::Const && b->c == maskw(w)) return cst(1, 1);
        if (b->op == Op::Const && b->c == 0) return eq(a, b);
        return notb(cmp(Op::Ult, b, a));
    }
    if (op == Op::Sle) return notb(cmp(Op::Slt, b, a));
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w && a->w > a->k[0]->w)
        return cmp(Op::Ult, a->k[0], b->k[0]);
    if (op == Op::Ult && a->op == Op::ZExt && b->op == Op::Const) {
        if (b->c > maskw(a->k[0]->w)) return cst(1, 1);
        return cmp(op, a->k[0], cst(b->c, a->k[0]->w));
    }
    if (op == Op::Slt && a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return cmp(op, a->k[0], b->k[0]);
    if (int n = std::max(a->nb, b->nb); n < w && op == Op::Slt) return cmp(Op::Ult, a, b);      // neither is negative
    if (int n = std::max(a->nb, b->nb); op == Op::Ult && n > 0 && n < w && a->nar && b->nar) return cmp(op, narrow(a, n), narrow(b, n));
    return mk(op, 1, 0, a, b, nullptr);
}
E Ctx::bin(Op op, E a, E b) {
    int w = a->w;
    if (a->op == Op::Const && b->op == Op::Const) {
        bool ok; uint64_t r = foldBin(op, a->c, b->c, w, ok);
        if (ok) return cst(r, w);
    }
    bool ca = a->op == Op::Const, cb = b->op == Op::Const;
    switch (op) {
    case Op::Add:
        if (ca) { std::swap(a, b); std::swap(ca, cb); }
        if (cb && b->c == 0) return a;
        if (cb && a->op == Op::Add && a->k[1]->op == Op::Const) return bin(Op::Add, a->k[0], cst(a->k[1]->c + b->c, w));
        if (a->op == Op::Add || b->op == Op::Add || a->id > b->id) {      // sums are kept flat, in term order, constant last
            E leaf[24]; int n = 0; uint64_t k = 0; bool fits = true;
            E st[48]; int sp = 0; st[sp++] = a; st[sp++] = b;
            while (sp && fits) {
                E x = st[--sp];
                if (x->op == Op::Const) k += x->c;
                else if (x->op == Op::Add) { if (sp + 2 > 48) fits = false; else { st[sp++] = x->k[0]; st[sp++] = x->k[1]; } }
                else if (n == 24) fits = false;
                else leaf[n++] = x;
            }
            if (fits) {
                std::sort(leaf, leaf + n, [](E x, E y) { return x->id < y->id; });
                k &= maskw(w);
                if (!n) return cst(k, w);
                E r = leaf[0];
                for (int i = 1; i < n; ++i) r = mk(Op::Add, w, 0, r, leaf[i], nullptr);
                return k ? mk(Op::Add, w, 0, r, cst(k, w), nullptr) : r;
            }
        }
        break;
    case Op::Sub:
        if (cb) return b->c == 0 ? a : bin(Op::Add, a, cst(0 - b->c, w));
        if (a == b) return cst(0, w);
        break;
    case Op::Mul:
        if (ca) { std::swap(a, b); std::swap(ca, cb); }
        if (cb && b->c == 0) return b;
        if (cb && b->c == 1) return a;
        break;
    case Op::UDiv: case Op::SDiv:
        if (cb && b->c == 1 && w > 1) return a;
        break;
    case Op::Shl: case Op::LShr: case Op::AShr:
        if (cb && b->c == 0) return a;
        if (op == Op::AShr && cb && b->c < (uint64_t)w) return sext(extract(a, b->c, w - b->c), w);
        if (op == Op::LShr && cb && b->c < (uint64_t)w) return zext(extract(a, b->c, w - b->c), w);
        break;
    case Op::And:
        if (ca) { std::swap(a, b); std::swap(ca, cb); }
        if (a == b) return a;
        if (cb) {
            if (b->c == 0) return b;
            if (b->c == maskw(w)) return a;
            if ((b->c & (b->c + 1)) == 0) { int n = __builtin_popcountll(b->c); return zext(extract(a, 0, n), w); }
            if (a->op == Op::Ite && a->k[1]->op == Op::Const && a->k[2]->op == Op::Const) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
            if (a->op == Op::And && a->k[1]->op == Op::Const) return bin(op, a->k[0], cst(a->k[1]->c & b->c, w));
            if (a->op == Op::Or && a->k[1]->op == Op::Const && (a->k[1]->c & b->c) == 0) return bin(op, a->k[0], b);
        }
        if (w == 1 && b == notb(a)) return cst(0, 1);
        break;
    case Op::Or:
        if (ca) { std::swap(a, b); std::swap(ca, cb); }
        if (a == b) return a;
        if (cb) {
            if (b->c == 0) return a;
            if (b->c == maskw(w)) return b;
            if (a->op == Op::Or && a->k[1]->op == Op::Const) return bin(op, a->k[0], cst(a->k[1]->c | b->c, w));
        }
        if (w == 1 && b == notb(a)) return cst(1, 1);
        break;
    case Op::Xor:
        if (ca) { std::swap(a, b); std::swap(ca, cb); }
        if (a == b) return cst(0, w);
        if (cb && b->c == 0) return a;
        if (cb && w == 1) return notb(a);
        if (cb && a->op == Op::Xor && a->k[1]->op == Op::Const) return bin(op, a->k[0], cst(a->k[1]->c ^ b->c, w));
        if (cb && b->c == maskw(w) && a->op == Op::ZExt) break;
        break;
    default: break;
    }
    return mk(op, w, 0, a, b, nullptr);
}
// a choice tree under the assumption that condition c has value v
static E givenIn(Ctx &x, E t, E c, bool v) {
    if (t->op != Op::Ite) return t;
    if (t->k[0] == c) return givenIn(x, v ? t->k[1] : t->k[2], c, v);
    E p = givenIn(x, t->k[1], c, v), q = givenIn(x, t->k[2], c, v);
    return p == t->k[1] && q == t->k[2] ? t : x.ite(t->k[0], p, q);
}
E Ctx::given(E t, E c, bool v) { return givenIn(*this, t, c, v); }
static bool conds(E t, E *s, int &n) {
    if (t->op != Op::Ite) return true;
    bool in = false; for (int i = 0; i < n; ++i) in |= s[i] == t->k[0];
    if (!in) { if (n == 6) return false; s[n++] = t->k[0]; }
    return conds(t->k[1], s, n) && conds(t->k[2], s, n);
}
bool fewConds(E a, E b) { E s[6]; int n = 0; return conds(a, s, n) && (!b || conds(b, s, n)); }
E Ctx::fop(Op op, int fw, int w, E a, E b) {
    if (a->op == Op::Const && (!b || b->op == Op::Const)) return cst(foldF(op, fw, w, a->c, b ? b->c : 0), w);
    if (a->op != Op::Const || (b && b->op != Op::Const))      // choices between few constants: compute each case
        if (a->leaves && (!b || b->leaves) && (a->leaves * (b ? b->leaves : 1) <= 64 || fewConds(a, b))) {
            uint64_t key = mix(mix((uint64_t)op << 32 | fw << 16 | w, a->id), b ? b->id : 0);
            auto it = fopm_.find(key);
            if (it != fopm_.end() && it->second.a == a && it->second.b == b && it->second.op == op) return it->second.r;
            E c = a->op == Op::Ite ? a->k[0] : b->k[0];
            E r = ite(c, fop(op, fw, w, given(a, c, true), b ? given(b, c, true) : b), fop(op, fw, w, given(a, c, false), b ? given(b, c, false) : b));
            fopm_[key] = {op, a, b, r};
            return r;
        }
    if (op == Op::FNeg) return bin(Op::Xor, a, cst(1ull << (fw - 1), fw));
    if (op == Op::FAbs) return bin(Op::And, a, cst(maskw(fw) >> 1, fw));
    return mk(op, w, 0, a, b, nullptr, fw);
}

uint64_t Ctx::evalE(E e, const Model &m) {
    if (e->op == Op::Const) return e->c;
    if (e->estamp == estamp_) return e->eval;
    uint64_t r = 0, a = 0, b = 0;
    if (e->op == Op::Ite) {
        r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m);
    } else if (e->op == Op::Var) {
        auto it = m.vars.find(e->c);
        r = it == m.vars.end() ? 0 : it->second & maskw(e->w);
    } else if (e->op == Op::UF) {
        std::string key;
        for (int i = 0; i < e->nk; ++i) { uint64_t v = evalE(e->k[i], m); key.append((char *)&v, 8); }
        auto it = m.ufs.find(e->c);
        if (it != m.ufs.end()) { auto j = it->second.tab.find(key); r = j == it->second.tab.end() ? it->second.other : j->second; }
        r &= maskw(e->w);
    } else {
        a = evalE(e->k[0], m);
        if (e->k[1]) b = evalE(e->k[1], m);
        switch (e->op) {
        case Op::ZExt: r = a; break;
        case Op::SExt: r = (uint64_t)sx(a, e->k[0]->w) & maskw(e->w); break;
        case Op::Extract: r = (a >> e->c) & maskw(e->w); break;
        case Op::Concat: r = a << e->k[1]->w | b; break;
        default:
            if (e->op >= Op::FAdd) r = foldF(e->op, e->fl, e->w, a, b);
            else {
                bool ok; r = foldBin(e->op, a, b, e->k[0]->w, ok);
                if (!ok) { // SMT-LIB division by zero
                    int w = e->w;
                    if (e->op == Op::UDiv) r = maskw(w);
                    else if (e->op == Op::SDiv) r = sx(a, w) < 0 ? 1 : maskw(w);
                    else r = a;
                }
            }
        }
    }
    e->estamp = estamp_; e->eval = r;
    return r;
}

Z3_sort Ctx::fsort(int fw) { return fw == 32 ? Z3_mk_fpa_sort_32(z_) : Z3_mk_fpa_sort_64(z_); }
Z3_ast Ctx::fterm(E e, int fw) { return Z3_mk_fpa_to_fp_bv(z_, tr(e), fsort(fw)); }
Z3_ast Ctx::fpuf(E e) {
    uint64_t key = (uint64_t)e->op << 32 | (uint64_t)e->fl << 16 | e->w << 4 | e->nk;
    Z3_func_decl d;
    auto it = fpd_.find(key);
    if (it == fpd_.end()) {
        Z3_sort s[2] = {Z3_mk_bv_sort(z_, e->k[0]->w), e->k[1] ? Z3_mk_bv_sort(z_, e->k[1]->w) : nullptr};
        char nm[64]; snprintf(nm, sizeof nm, "fp%llx", (unsigned long long)key);
        d = Z3_mk_func_decl(z_, Z3_mk_string_symbol(z_, nm), e->nk, s, Z3_mk_bv_sort(z_, e->w));
        Z3_inc_ref(z_, Z3_func_decl_to_ast(z_, d));
        fpd_[key] = d;
    } else d = it->second;
    Z3_ast a[2] = {tr(e->k[0]), e->k[1] ? tr(e->k[1]) : nullptr};
    return Z3_mk_app(z_, d, e->nk, a);
}
Z3_ast Ctx::toBool(E e) {
    auto it = boolz_.find(e->id);
    if (it != boolz_.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
    case Op::Const: r = e->c ? Z3_mk_true(z_) : Z3_mk_false(z_); break;
    case Op::Eq: r = Z3_mk_eq(z_, tr(e->k[0]), tr(e->k[1])); break;
    case Op::Ult: r = Z3_mk_bvult(z_, tr(e->k[0]), tr(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(z_, tr(e->k[0]), tr(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(z_, tr(e->k[0]), tr(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(z_, tr(e->k[0]), tr(e->k[1])); break;
    case Op::And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(z_, 2, a); break; }
    case Op::Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(z_, 2, a); break; }
    case Op::Xor:
        if (e->k[1]->op == Op::Const && e->k[1]->c) r = Z3_mk_not(z_, toBool(e->k[0]));
        else r = Z3_mk_xor(z_, toBool(e->k[0]), toBool(e->k[1]));
        break;
    case Op::Ite: r = Z3_mk_ite(z_, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case Op::FOEq: r = Z3_mk_fpa_eq(z_, fterm(e->k[0], e->fl), fterm(e->k[1], e->fl)); break;
    case Op::FOLt: r = Z3_mk_fpa_lt(z_, fterm(e->k[0], e->fl), fterm(e->k[1], e->fl)); break;
    case Op::FOLe: r = Z3_mk_fpa_leq(z_, fterm(e->k[0], e->fl), fterm(e->k[1], e->fl)); break;
    case Op::FUno: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(z_, fterm(e->k[0], e->fl)), Z3_mk_fpa_is_nan(z_, fterm(e->k[1], e->fl))}; r = Z3_mk_or(z_, 2, a); break; }
    default: r = Z3_mk_eq(z_, tr(e), Z3_mk_unsigned_int64(z_, 1, Z3_mk_bv_sort(z_, 1)));
    }
    Z3_inc_ref(z_, r);
    boolz_[e->id] = r;
    return r;
}
Z3_ast Ctx::tr(E e) {
    if (e->z3) return e->z3;
    Z3_ast r = nullptr;
    Z3_sort s = Z3_mk_bv_sort(z_, e->w);
    auto K = [&](int i) { return tr(e->k[i]); };
    switch (e->op) {
    case Op::Const: r = Z3_mk_unsigned_int64(z_, e->c, s); break;
    case Op::Var: { char nm[32]; snprintf(nm, sizeof nm, "v%llu_%d", (unsigned long long)e->c, e->w); r = Z3_mk_const(z_, Z3_mk_string_symbol(z_, nm), s); break; }
    case Op::UF: {
        uint64_t key = e->c << 8 | e->nk;
        auto it = ufd_.find(key);
        Z3_func_decl d;
        if (it == ufd_.end()) {
            Z3_sort ss[3];
            for (int i = 0; i < e->nk; ++i) ss[i] = Z3_mk_bv_sort(z_, e->k[i]->w);
            char nm[32]; snprintf(nm, sizeof nm, "uf%llu", (unsigned long long)e->c);
            d = Z3_mk_func_decl(z_, Z3_mk_string_symbol(z_, nm), e->nk, ss, s);
            Z3_inc_ref(z_, Z3_func_decl_to_ast(z_, d));
            ufd_[key] = d; uflist_.push_back(key);
        } else d = it->second;
        Z3_ast a[3];
        for (int i = 0; i < e->nk; ++i) a[i] = K(i);
        r = Z3_mk_app(z_, d, e->nk, a);
        break;
    }
#define B(O, F) case Op::O: r = F(z_, K(0), K(1)); break;
    B(Add, Z3_mk_bvadd) B(Sub, Z3_mk_bvsub) B(Mul, Z3_mk_bvmul) B(UDiv, Z3_mk_bvudiv) B(SDiv, Z3_mk_bvsdiv)
    B(URem, Z3_mk_bvurem) B(SRem, Z3_mk_bvsrem) B(Shl, Z3_mk_bvshl) B(LShr, Z3_mk_bvlshr) B(AShr, Z3_mk_bvashr)
#undef B
    case Op::And: if (e->w == 1) goto boolean; r = Z3_mk_bvand(z_, K(0), K(1)); break;
    case Op::Or: if (e->w == 1) goto boolean; r = Z3_mk_bvor(z_, K(0), K(1)); break;
    case Op::Xor: if (e->w == 1) goto boolean; r = Z3_mk_bvxor(z_, K(0), K(1)); break;
    case Op::Ite: r = Z3_mk_ite(z_, toBool(e->k[0]), K(1), K(2)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(z_, e->w - e->k[0]->w, K(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(z_, e->w - e->k[0]->w, K(0)); break;
    case Op::Extract: r = Z3_mk_extract(z_, e->c + e->w - 1, e->c, K(0)); break;
    case Op::Concat: r = Z3_mk_concat(z_, K(0), K(1)); break;
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
    case Op::FOEq: case Op::FOLt: case Op::FOLe: case Op::FUno:
    boolean:
        r = Z3_mk_ite(z_, toBool(e), Z3_mk_unsigned_int64(z_, 1, s), Z3_mk_unsigned_int64(z_, 0, s));
        break;
    case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FToF: {
        Z3_ast rm;
        if (e->op == Op::FToSI) { rm = Z3_mk_fpa_round_toward_zero(z_); r = Z3_mk_fpa_to_sbv(z_, rm, fterm(e->k[0], e->fl), e->w); }
        else if (e->op == Op::FToUI) { rm = Z3_mk_fpa_round_toward_zero(z_); r = Z3_mk_fpa_to_ubv(z_, rm, fterm(e->k[0], e->fl), e->w); }
        else {
            rm = Z3_mk_fpa_round_nearest_ties_to_even(z_);
            Z3_ast f;
            if (e->op == Op::SIToF) f = Z3_mk_fpa_to_fp_signed(z_, rm, K(0), fsort(e->w));
            else if (e->op == Op::UIToF) f = Z3_mk_fpa_to_fp_unsigned(z_, rm, K(0), fsort(e->w));
            else f = Z3_mk_fpa_to_fp_float(z_, rm, fterm(e->k[0], e->fl), fsort(e->w));
            r = Z3_mk_fpa_to_ieee_bv(z_, f);
        }
        break;
    }
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FSqrt: {
        if (!fp_exact) { r = fpuf(e); break; }
        Z3_ast rm = Z3_mk_fpa_round_nearest_ties_to_even(z_);
        Z3_ast x = fterm(e->k[0], e->fl), y = e->k[1] ? fterm(e->k[1], e->fl) : nullptr, f;
        if (e->op == Op::FAdd) f = Z3_mk_fpa_add(z_, rm, x, y);
        else if (e->op == Op::FSub) f = Z3_mk_fpa_sub(z_, rm, x, y);
        else if (e->op == Op::FMul) f = Z3_mk_fpa_mul(z_, rm, x, y);
        else if (e->op == Op::FDiv) f = Z3_mk_fpa_div(z_, rm, x, y);
        else f = Z3_mk_fpa_sqrt(z_, rm, x);
        r = Z3_mk_fpa_to_ieee_bv(z_, f);
        break;
    }
    default: r = fpuf(e); break;
    }
    Z3_inc_ref(z_, r);
    e->z3 = r;
    return r;
}

static void collect(E e, std::set<uint64_t> &vars, std::unordered_map<uint32_t, bool> &seen, std::vector<E> &vs) {
    if (seen[e->id]) return;
    seen[e->id] = true;
    if (e->op == Op::Var && vars.insert(e->c).second) vs.push_back(e);
    for (int i = 0; i < e->nk; ++i) collect(e->k[i], vars, seen, vs);
}

void Ctx::readModel(Z3_model zm, const std::vector<E> &cs, Model *m) {
    std::set<uint64_t> vars; std::unordered_map<uint32_t, bool> seen; std::vector<E> vs;
    for (E c : cs) collect(c, vars, seen, vs);
    m->vars.clear(); m->ufs.clear();
    auto num = [&](Z3_ast a) { uint64_t v = 0; if (!Z3_get_numeral_uint64(z_, a, (uint64_t *)&v)) v = 0; return v; };
    for (E v : vs) {
        Z3_ast out;
        if (Z3_model_eval(z_, zm, tr(v), true, &out)) { Z3_inc_ref(z_, out); m->vars[v->c] = num(out); Z3_dec_ref(z_, out); }
    }
    for (uint64_t key : uflist_) {
        Z3_func_decl d = ufd_[key];
        if (!Z3_model_has_interp(z_, zm, d)) continue;
        Z3_func_interp fi = Z3_model_get_func_interp(z_, zm, d);
        if (!fi) continue;
        Z3_func_interp_inc_ref(z_, fi);
        Model::UFI &u = m->ufs[key >> 8];
        unsigned n = Z3_func_interp_get_num_entries(z_, fi);
        for (unsigned i = 0; i < n; ++i) {
            Z3_func_entry en = Z3_func_interp_get_entry(z_, fi, i);
            Z3_func_entry_inc_ref(z_, en);
            std::vector<uint64_t> row; std::string k;
            for (unsigned j = 0; j < Z3_func_entry_get_num_args(z_, en); ++j) { uint64_t v = num(Z3_func_entry_get_arg(z_, en, j)); row.push_back(v); k.append((char *)&v, 8); }
            uint64_t val = num(Z3_func_entry_get_value(z_, en));
            u.tab[k] = val; u.rows.push_back({row, val});
            Z3_func_entry_dec_ref(z_, en);
        }
        Z3_ast el = Z3_func_interp_get_else(z_, fi);
        if (el) u.other = Z3_get_ast_kind(z_, el) == Z3_NUMERAL_AST ? num(el) : 0;
        Z3_func_interp_dec_ref(z_, fi);
    }
}
void Ctx::setTimeout(Z3_solver s, unsigned timeout_ms) {
    Z3_params p = Z3_mk_params(z_);
    Z3_params_inc_ref(z_, p);
    Z3_params_set_uint(z_, p, Z3_mk_string_symbol(z_, "timeout"), timeout_ms);
    Z3_solver_set_params(z_, s, p);
    Z3_params_dec_ref(z_, p);
}
int Ctx::finish(Z3_solver s, Z3_lbool r, const std::vector<E> &cs, Model *m) {
    if (r == Z3_L_TRUE && m) {
        Z3_model zm = Z3_solver_get_model(z_, s);
        Z3_model_inc_ref(z_, zm);
        readModel(zm, cs, m);
        Z3_model_dec_ref(z_, zm);
    }
    if (r == Z3_L_TRUE) { ++nsat; return 1; }
    if (r == Z3_L_FALSE) { ++nunsat; return 0; }
    ++nunknown;
    return -1;
}
// 0: bit vectors only, 1: also uninterpreted functions, 2: floating point terms
static int kind(E e, std::unordered_map<uint32_t, bool> &seen) {
    if (seen[e->id]) return 0;
    seen[e->id] = true;
    int r = e->op >= Op::FAdd ? 2 : e->op == Op::UF ? 1 : 0;
    for (int i = 0; i < e->nk && r < 2; ++i) r = std::max(r, kind(e->k[i], seen));
    return r;
}
int Ctx::solve(const std::vector<E> &cs, Model *m, unsigned timeout_ms) {
    auto t0 = std::chrono::steady_clock::now();
    ++nqueries;
    std::unordered_map<uint32_t, bool> seen; int kd = 0;
    for (E c : cs) kd = std::max(kd, kind(c, seen));
    Z3_solver_reset(z_, sol_);
    setTimeout(sol_, kd == 2 ? timeout_ms : std::min(timeout_ms, 60u));
    for (E c : cs) Z3_solver_assert(z_, sol_, toBool(c));
    Z3_lbool lb = Z3_solver_check(z_, sol_);
    int r;
    if (lb == Z3_L_UNDEF && kd < 2) {     // hard: pre-process, bit-blast, SAT
        Z3_tactic t = Z3_mk_tactic(z_, kd ? "qfufbv" : "qfbv"); Z3_tactic_inc_ref(z_, t);
        Z3_solver s = Z3_mk_solver_from_tactic(z_, t); Z3_solver_inc_ref(z_, s);
        setTimeout(s, timeout_ms);
        for (E c : cs) Z3_solver_assert(z_, s, toBool(c));
        ++nhard;
        r = finish(s, Z3_solver_check(z_, s), cs, m);
        Z3_solver_dec_ref(z_, s); Z3_tactic_dec_ref(z_, t);
    } else r = finish(sol_, lb, cs, m);
    zsecs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return r;
}
std::string show(E e, int depth) {
    static const char *nm[] = {"c", "v", "uf", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "ext", "cat", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fabs", "fsqrt", "fmin", "fmax", "foeq", "folt", "fole", "funo", "ftosi", "ftoui", "sitof", "uitof", "ftof"};
    if (e->op == Op::Const) return std::to_string(e->c);
    if (e->op == Op::Var) return "v" + std::to_string(e->c);
    if (depth == 0) return "..";
    std::string s = std::string("(") + nm[(int)e->op];
    if (e->op == Op::UF) s += std::to_string(e->c);
    if (e->op == Op::Extract) s += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
    for (int i = 0; i < e->nk; ++i) s += " " + show(e->k[i], depth - 1);
    return s + ")";
}
} // namespace se
