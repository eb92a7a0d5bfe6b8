// P22: the predefined operators, monoids and semirings against independent definitions
#include "model.hpp"
#include <type_traits>
using namespace grb;
typedef __int128 W;
// reference results: integers in 128-bit arithmetic, reduced to T
template <class T> T red(W x) { if constexpr (std::is_same<T, bool>::value) return x != 0; else if constexpr (std::is_integral<T>::value) return (T)(u64)x; else return (T)x; }
template <class T> constexpr bool INT = std::is_integral<T>::value;
template <class T> bool same(T a, T b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> T sv(u64 id) {
    if constexpr (std::is_same<T, float>::value) { uint32_t b = (uint32_t)sym_bits(id, 32); float f; __builtin_memcpy(&f, &b, 4); return f; }
    else return symv<T>(id);
}
#define EQ(got, want, what) sym_assert(same<T>((T)(got), (T)(want)), what)
#define EQB(got, want, what) sym_assert((bool)(got) == (bool)(want), what)
template <class T> T minT() { return std::numeric_limits<T>::has_infinity ? (T)-std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest(); }
template <class T> T maxT() { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
template <class T> T rmin(T a, T b) { return b < a ? b : a; }
template <class T> T rmax(T a, T b) { return a < b ? b : a; }
template <class T> T add(T a, T b) { if constexpr (INT<T>) return red<T>((W)a + (W)b); else return a + b; }
template <class T> T sub(T a, T b) { if constexpr (INT<T>) return red<T>((W)a - (W)b); else return a - b; }
template <class T> T mul(T a, T b) { if constexpr (std::is_same<T, bool>::value) return a && b; else if constexpr (INT<T>) return (T)((u64)a * (u64)b); else return a * b; }

template <class T> void unary() {
    T a = sv<T>(1);
    EQ((Identity<T>()(a)), a, "Identity"); EQB((Identity<T, bool>()(a)), a != (T)0, "Identity to bool");
    EQB(LogicalNot<T>()(a), a == (T)0, "LogicalNot");
    if constexpr (INT<T>) {
        if (std::is_signed<T>::value == false || a != std::numeric_limits<T>::min() || sizeof(T) < 4) {
            EQ(Abs<T>()(a), red<T>((W)a < 0 ? -(W)a : (W)a), "Abs"); 
            if constexpr (!std::is_same<T, bool>::value) EQ(AdditiveInverse<T>()(a), red<T>(-(W)a), "AdditiveInverse");
        }
        if constexpr (!std::is_same<T, bool>::value) {
            EQ(BitwiseNot<T>()(a), red<T>(-(W)a - 1), "BitwiseNot");
            if (a != 0) EQ(MultiplicativeInverse<T>()(a), (T)(a == 1 ? 1 : (std::is_signed<T>::value && a == (T)-1) ? -1 : 0), "MultiplicativeInverse");
        }
    } else {
        T z = 0; EQ(Abs<T>()(a), std::signbit(a) ? -a : a, "Abs"); EQ(AdditiveInverse<T>()(a), -a, "AdditiveInverse"); EQ(MultiplicativeInverse<T>()(a), (T)1 / a, "MultiplicativeInverse"); (void)z;
    }
    sym_reach("unary operators");
}
template <class T> void binary() {
    T a = sv<T>(1), b = sv<T>(2); bool la = a != (T)0, lb = b != (T)0;
    if constexpr (!INT<T>) { sym_assume(a == a); sym_assume(b == b); }
    EQ(LogicalOr<T>()(a, b), la | lb, "LogicalOr"); EQ(LogicalAnd<T>()(a, b), la & lb, "LogicalAnd");
    EQ(LogicalXor<T>()(a, b), la ^ lb, "LogicalXor"); EQ(LogicalXnor<T>()(a, b), !(la ^ lb), "LogicalXnor");
    EQB(Equal<T>()(a, b), !(a < b) && !(b < a), "Equal"); EQB(NotEqual<T>()(a, b), a < b || b < a, "NotEqual");
    EQB(GreaterThan<T>()(a, b), b < a, "GreaterThan"); EQB(LessThan<T>()(a, b), a < b, "LessThan");
    EQB(GreaterEqual<T>()(a, b), !(a < b), "GreaterEqual"); EQB(LessEqual<T>()(a, b), !(b < a), "LessEqual");
    EQ(First<T>()(a, b), a, "First"); EQ(Second<T>()(a, b), b, "Second");
    T mi = Min<T>()(a, b), ma = Max<T>()(a, b);
    sym_assert(mi <= a && mi <= b && (mi == a || mi == b), "Min"); sym_assert(ma >= a && ma >= b && (ma == a || ma == b), "Max");
    EQ(Plus<T>()(a, b), add(a, b), "Plus"); EQ(Minus<T>()(a, b), sub(a, b), "Minus"); EQ(Times<T>()(a, b), mul(a, b), "Times");
    if constexpr (!INT<T>) EQ(Div<T>()(a, b), a / b, "Div");
    else if constexpr (!std::is_same<T, bool>::value) {
        if constexpr (sizeof(T) == 1) if (b != 0) {       // truncated quotient: a = q b + r, |r| < |b|, sign of r that of a
            int q = Div<T>()(a, b), r = (int)a - q * (int)b; int ar = r < 0 ? -r : r, ab = b < 0 ? -(int)b : (int)b;
            if (!(std::is_signed<T>::value && a == std::numeric_limits<T>::min() && b == (T)-1)) sym_assert(ar < ab && (r == 0 || ((r < 0) == ((int)a < 0))), "Div");
        }
        if constexpr (sizeof(T) > 1) if (b != 0 && !(std::is_signed<T>::value && b == (T)-1)) EQ(Div<T>()(a, b), a / b, "Div");
        EQ(BitwiseOr<T>()(a, b), a | b, "BitwiseOr"); EQ(BitwiseAnd<T>()(a, b), a & b, "BitwiseAnd");
        EQ(BitwiseXor<T>()(a, b), (a | b) & ~(a & b), "BitwiseXor"); EQ(BitwiseXnor<T>()(a, b), (a & b) | ~(a | b), "BitwiseXnor");
    }
    sym_reach("binary operators");
}
template <class T, class M> void mmon(M m, bool mx, const char *w) {
    T a = sv<T>(1), b = sv<T>(2), c = sv<T>(3);
    if constexpr (!INT<T>) { sym_assume(a == a); sym_assume(b == b); sym_assume(c == c); }
    T r = m(a, b); sym_assert(r == (mx ? rmax(a, b) : rmin(a, b)), w);
    sym_assert(same<T>(m.identity(), mx ? minT<T>() : maxT<T>()), w);
    sym_assert(m(a, m.identity()) == a, w); sym_assert(m(m.identity(), a) == a, w);
    sym_assert(m(a, b) == m(b, a), w); sym_assert(m(m(a, b), c) == m(a, m(b, c)), w);
}
template <class T> T rlor(T a, T b) { return (T)((a != (T)0) | (b != (T)0)); }
template <class T> T rland(T a, T b) { return (T)((a != (T)0) & (b != (T)0)); }
template <class T> T rlxor(T a, T b) { return (T)((a != (T)0) != (b != (T)0)); }
template <class T> T rlxnor(T a, T b) { return (T)((a != (T)0) == (b != (T)0)); }
template <class T, class M> void lmon(M m, T (*ref)(T, T), T id, const char *w) {
    T x = sv<T>(1), y = sv<T>(2); sym_assert(same<T>(m(x, y), ref(x, y)), w);          // any value converts to bool
    T a = (T)(sym_bits(4, 1) != 0), b = (T)(sym_bits(5, 1) != 0), c = (T)(sym_bits(6, 1) != 0);   // laws on the boolean domain
    sym_assert(same<T>(m.identity(), id), w); sym_assert(m(a, m.identity()) == a, w); sym_assert(m(m.identity(), a) == a, w);
    sym_assert(m(a, b) == m(b, a), w); sym_assert(m(m(a, b), c) == m(a, m(b, c)), w);
}
template <class T> void monoids() {
    constexpr bool i = INT<T>;
    { T a = sv<T>(1), b = sv<T>(2); if constexpr (!i) { sym_assume(a == a); sym_assume(b == b); }
      PlusMonoid<T> p; TimesMonoid<T> t; sym_assert(p.identity() == (T)0, "PlusMonoid identity"); sym_assert(t.identity() == (T)1, "TimesMonoid identity");
      EQ(p(a, b), add(a, b), "PlusMonoid"); EQ(t(a, b), mul(a, b), "TimesMonoid");
      if constexpr (i) { sym_assert(p(a, p.identity()) == a, "PlusMonoid identity law"); sym_assert(p(p.identity(), a) == a, "PlusMonoid identity law"); sym_assert(t(a, t.identity()) == a, "TimesMonoid identity law"); sym_assert(t(t.identity(), a) == a, "TimesMonoid identity law"); } }
    mmon<T>(MaxMonoid<T>(), true, "MaxMonoid"); mmon<T>(MinMonoid<T>(), false, "MinMonoid");
    lmon<T>(LogicalOrMonoid<T>(), rlor<T>, (T)0, "LogicalOrMonoid"); lmon<T>(LogicalAndMonoid<T>(), rland<T>, (T)1, "LogicalAndMonoid");
    lmon<T>(LogicalXorMonoid<T>(), rlxor<T>, (T)0, "LogicalXorMonoid"); lmon<T>(LogicalXnorMonoid<T>(), rlxnor<T>, (T)1, "LogicalXnorMonoid");
    sym_reach("monoids");
}
template <class T, class S> void sr(S s, T (*ad)(T, T), T (*mu)(T, T), T zero, const char *w) {
    T a = sv<T>(1), b = sv<T>(2);
    if constexpr (!INT<T>) { sym_assume(a == a); sym_assume(b == b); sym_assume(a != 0); sym_assume(b != 0); }
    sym_assert(same<T>(s.zero(), zero), w); sym_assert(same<T>(s.add(a, b), ad(a, b)), w); sym_assert(same<T>(s.mult(a, b), mu(a, b)), w);
    auto m = multiply_op(s); auto p = add_monoid(s);
    sym_assert(same<T>(m(a, b), mu(a, b)), w); sym_assert(same<T>(p(a, b), ad(a, b)), w); sym_assert(same<T>(p.identity(), zero), w);
}
template <class T> T rf(T a, T) { return a; }
template <class T> T rs(T, T b) { return b; }
template <class T> void semirings() {
    T lo = minT<T>(), hi = maxT<T>();
    sr<T>(ArithmeticSemiring<T>(), add<T>, mul<T>, (T)0, "ArithmeticSemiring");
    sr<T>(MinPlusSemiring<T>(), rmin<T>, add<T>, hi, "MinPlusSemiring"); sr<T>(MaxPlusSemiring<T>(), rmax<T>, add<T>, lo, "MaxPlusSemiring");
    sr<T>(MinTimesSemiring<T>(), rmin<T>, mul<T>, hi, "MinTimesSemiring"); sr<T>(MaxTimesSemiring<T>(), rmax<T>, mul<T>, lo, "MaxTimesSemiring");
    sr<T>(MinMaxSemiring<T>(), rmin<T>, rmax<T>, hi, "MinMaxSemiring"); sr<T>(MaxMinSemiring<T>(), rmax<T>, rmin<T>, lo, "MaxMinSemiring");
    sr<T>(PlusMinSemiring<T>(), add<T>, rmin<T>, (T)0, "PlusMinSemiring");
    sr<T>(LogicalSemiring<T>(), rlor<T>, rland<T>, (T)0, "LogicalSemiring"); sr<T>(AndOrSemiring<T>(), rland<T>, rlor<T>, (T)1, "AndOrSemiring");
    sr<T>(XorAndSemiring<T>(), rlxor<T>, rland<T>, (T)0, "XorAndSemiring"); sr<T>(XnorOrSemiring<T>(), rlxnor<T>, rlor<T>, (T)1, "XnorOrSemiring");
    sr<T>(MinFirstSemiring<T>(), rmin<T>, rf<T>, hi, "MinFirstSemiring"); sr<T>(MinSecondSemiring<T>(), rmin<T>, rs<T>, hi, "MinSecondSemiring");
    sr<T>(MaxFirstSemiring<T>(), rmax<T>, rf<T>, lo, "MaxFirstSemiring"); sr<T>(MaxSecondSemiring<T>(), rmax<T>, rs<T>, lo, "MaxSecondSemiring");
    sym_reach("semirings");
}
#define FOR(T, N) ENTRY chk_unary_##N() { unary<T>(); } ENTRY chk_binary_##N() { binary<T>(); } ENTRY chk_monoid_##N() { monoids<T>(); } ENTRY chk_semiring_##N() { semirings<T>(); }
#if FAM == 0
FOR(bool, bool) FOR(int8_t, i8) FOR(int16_t, i16) FOR(int32_t, i32) FOR(int64_t, i64)
#elif FAM == 1
FOR(uint8_t, u8) FOR(uint16_t, u16) FOR(uint32_t, u32) FOR(uint64_t, u64)
#elif FAM == 2
FOR(float, f32) FOR(double, f64)
#else
// operands and result of different types: computed in the common type, converted once
ENTRY chk_mixed() {
    int8_t a = symv<int8_t>(1); int64_t b = symv<int64_t>(2); uint8_t u = symv<uint8_t>(3); int32_t s = symv<int32_t>(4); bool p = symv<bool>(5);
    typedef int16_t O;
    sym_assert(Plus<int8_t, int64_t, O>()(a, b) == (O)((u64)(int64_t)a + (u64)b), "Plus"); sym_assert(Minus<int8_t, int64_t, O>()(a, b) == (O)((u64)(int64_t)a - (u64)b), "Minus");
    sym_assert(Times<int8_t, int64_t, int64_t>()(a, b) == (int64_t)((u64)(int64_t)a * (u64)b), "Times");
    sym_assert(Times<uint8_t, uint8_t, int32_t>()(u, u) == (int32_t)u * u, "Times widening"); sym_assert(Plus<uint8_t, int8_t, int32_t>()(u, a) == (int)u + (int)a, "Plus widening"); sym_assert(Minus<uint8_t, uint8_t, int64_t>()(u, (uint8_t)p) == (int64_t)u - p, "Minus widening");
    sym_assert(First<int8_t, int64_t, O>()(a, b) == a, "First"); sym_assert(Second<int8_t, int64_t>()(a, b) == b, "Second"); sym_assert(Second<int8_t, int64_t, O>()(a, b) == (O)b, "Second");
    sym_assert(Min<int8_t, int64_t, int64_t>()(a, b) == ((int64_t)a < b ? (int64_t)a : b), "Min"); sym_assert(Max<int8_t, int64_t, int64_t>()(a, b) == ((int64_t)a < b ? b : (int64_t)a), "Max"); sym_assert(Min<uint8_t, int32_t, int32_t>()(u, s) == ((int)u < s ? (int)u : s), "Min");
    sym_assert(Equal<int8_t, int64_t>()(a, b) == (b == a), "Equal"); sym_assert(NotEqual<int8_t, int64_t>()(a, b) == (b != a), "NotEqual"); sym_assert(LessThan<uint8_t, int32_t>()(u, s) == ((int)u < s), "LessThan"); sym_assert(GreaterEqual<uint8_t, int32_t>()(u, s) == ((int)u >= s), "GreaterEqual");
    sym_assert(LogicalAnd<int64_t, bool, bool>()(b, p) == ((b != 0) & p), "LogicalAnd"); sym_assert(LogicalOr<int64_t, bool, bool>()(b, p) == ((b != 0) | p), "LogicalOr"); sym_assert(LogicalXor<int64_t, int8_t, bool>()(b, a) == ((b != 0) != (a != 0)), "LogicalXor"); sym_assert(LogicalXnor<int64_t, int8_t, bool>()(b, a) == ((b != 0) == (a != 0)), "LogicalXnor");
    sym_assert(LogicalNot<int64_t, bool>()(b) == (b == 0), "LogicalNot"); sym_assert(Identity<int64_t, int8_t>()(b) == (int8_t)b, "Identity"); sym_assert(Abs<int8_t, int32_t>()(a) == (a < 0 ? -(int)a : (int)a), "Abs"); sym_assert(AdditiveInverse<int8_t, int32_t>()(a) == -(int)a, "AdditiveInverse");
    sym_assert(ArithmeticSemiring<int8_t, int64_t, int64_t>().mult(a, b) == (int64_t)((u64)(int64_t)a * (u64)b), "ArithmeticSemiring"); sym_assert(ArithmeticSemiring<uint8_t, uint8_t, int32_t>().mult(u, u) == (int)u * u, "ArithmeticSemiring widening"); sym_assert(MinPlusSemiring<uint8_t, uint8_t, int32_t>().mult(u, u) == 2 * (int)u, "MinPlusSemiring widening"); sym_assert(MaxFirstSemiring<int8_t, int64_t, int32_t>().mult(a, b) == a, "MaxFirstSemiring"); sym_assert(MinSecondSemiring<int8_t, int64_t, int64_t>().mult(a, b) == b, "MinSecondSemiring");
    sym_assert(ArithmeticSemiring<int8_t, int64_t, int64_t>().add(b, s) == (int64_t)((u64)b + (u64)(int64_t)s), "add in the result type");
    sym_reach("mixed operand types");
}
#endif
