#include "vcgen.h"
// A01: lane-wise arithmetic
template <class V> struct binary {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        auto b = genArr<T, N>(s, "b");
        const V va = toV<V>(a), vb = toV<V>(b);
        s.nontrivial(!allSame(a) || !allSame(b));
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::add(a[i], b[i]);
        expectSame("a + b", lanes<V>(va + vb), want);
        { V x = va; V &r = (x += vb); expectSame("a += b", lanes(x), want); PBT_CHECK(&r == &x, ""); }
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::sub(a[i], b[i]);
        expectSame("a - b", lanes<V>(va - vb), want);
        { V x = va; x -= vb; expectSame("a -= b", lanes(x), want); }
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::mul(a[i], b[i]);
        expectSame("a * b", lanes<V>(va * vb), want);
        { V x = va; x *= vb; expectSame("a *= b", lanes(x), want); }
        expectSame("operand unchanged", lanes(va), a);
        expectSame("operand unchanged", lanes(vb), b);
    }
};
template <class V> struct scalar_operand {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        const T b = genVal<T>(s);
        s.note("b", [&](std::ostream &os) { os << b; });
        const V va = toV<V>(a);
        s.nontrivial(!allSame(a) && b != T(0));
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::add(a[i], b);
        expectSame("a + scalar", lanes<V>(va + b), want);
        expectSame("scalar + a", lanes<V>(b + va), want);
        { V x = va; x += b; expectSame("a += scalar", lanes(x), want); }
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::sub(a[i], b);
        expectSame("a - scalar", lanes<V>(va - b), want);
        { V x = va; x -= b; expectSame("a -= scalar", lanes(x), want); }
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::sub(b, a[i]);
        expectSame("scalar - a", lanes<V>(b - va), want);
        for (size_t i = 0; i < N; ++i) want[i] = Ar<T>::mul(a[i], b);
        expectSame("a * scalar", lanes<V>(va * b), want);
        expectSame("scalar * a", lanes<V>(b * va), want);
        { V x = va; x *= b; expectSame("a *= scalar", lanes(x), want); }
        for (size_t i = 0; i < N; ++i) want[i] = b;
        expectSame("V(scalar)", lanes(V(b)), want);
        { V x = va; x = b; expectSame("v = scalar", lanes(x), want); }
    }
};
template <class V, bool = isSA<V>::value> struct IncDec {  // SimdArray has no ++ and --
    template <class A> static void go(const V &, const A &, const A &, const A &) {}
};
template <class V> struct IncDec<V, false> {
    template <class A> static void go(const V &va, const A &a, const A &inc, const A &dec)
    {
        { V x = va; V r = ++x; expectSame("++a", lanes(x), inc); expectSame("++a result", lanes(r), inc); }
        { V x = va; V r = x++; expectSame("a++", lanes(x), inc); expectSame("a++ result", lanes(r), a); }
        { V x = va; V r = --x; expectSame("--a", lanes(x), dec); expectSame("--a result", lanes(r), dec); }
        { V x = va; V r = x--; expectSame("a--", lanes(x), dec); expectSame("a-- result", lanes(r), a); }
    }
};
template <class V> struct unary {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        const V va = toV<V>(a);
        s.nontrivial(!allSame(a));
        typename Tr<V>::A want, inc, dec;
        for (size_t i = 0; i < N; ++i) {
            want[i] = Ar<T>::neg(a[i]);
            inc[i] = Ar<T>::add(a[i], T(1));
            dec[i] = Ar<T>::sub(a[i], T(1));
        }
        expectSame("-a", lanes<V>(-va), want);
        expectSame("+a", lanes<V>(+va), a);
        IncDec<V>::go(va, a, inc, dec);
    }
};
// a chain of operations on an accumulator, checked after every step
template <class V> struct chain {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto m = genArr<T, N>(s, "x0");
        V x = toV<V>(m);
        const int n = s.range(1, 8);
        s.nontrivial(n > 1);
        for (int k = 0; k < n; ++k) {
            auto b = genArr<T, N>(s, "b");
            const V vb = toV<V>(b);
            const int op = s.range(0, 6);
            s.note("op", [&](std::ostream &os) { os << op; });
            switch (op) {
            case 0: x += vb; for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::add(m[i], b[i]); break;
            case 1: x -= vb; for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::sub(m[i], b[i]); break;
            case 2: x *= vb; for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::mul(m[i], b[i]); break;
            case 3: x = -x; for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::neg(m[i]); break;
            case 4: x = vb - x; for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::sub(b[i], m[i]); break;
            case 5: x = x + x; for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::add(m[i], m[i]); break;
            case 6: x += V(T(1)); for (size_t i = 0; i < N; ++i) m[i] = Ar<T>::add(m[i], T(1)); break;
            }
            expectSame("after step", lanes(x), m);
        }
    }
};
#ifndef PBT_TEMPLATES_ONLY
// both operands are the same object, or the scalar operand is a lane of the vector that is assigned to
template <class V> struct aliased {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        const auto a = genArr<T, N>(s, "a");
        const size_t k = s.draw(N - 1);
        s.note("lane", [&](std::ostream &os) { os << k; });
        const V va = toV<V>(a);
        s.nontrivial(N == 1 || !allSame(a));
        typename Tr<V>::A w;
#define C(op, f)                                                                          \
    for (size_t i = 0; i < N; ++i) w[i] = Ar<T>::f(a[i], a[i]);                           \
    { V x = va; x op##= x; expectSame("x " #op "= x", lanes(x), w); }                     \
    { V x = va; x = x op x; expectSame("x = x " #op " x", lanes(x), w); }                 \
    for (size_t i = 0; i < N; ++i) w[i] = Ar<T>::f(a[i], a[k]);                           \
    { V x = va; x op##= T(x[k]); expectSame("x " #op "= x[k]", lanes(x), w); }               \
    { V x = va; x = x op T(x[k]); expectSame("x = x " #op " x[k]", lanes(x), w); }
        C(+, add) C(-, sub) C(*, mul)
#undef C
        { V x = va; const V &r = x; x = r; expectSame("x = x", lanes(x), a); }
        for (size_t i = 0; i < N; ++i) w[i] = Ar<T>::neg(a[i]);
        { V x = va; x = -x; expectSame("x = -x", lanes(x), w); }
        for (size_t i = 0; i < N; ++i) w[i] = a[k];
        { V x = va; x = T(x[k]); expectSame("x = x[k]", lanes(x), w); }
    }
};
REG_ALL(binary, AllVectors, 1);
REG_ALL(scalar_operand, AllVectors, 1);
REG_ALL(unary, AllVectors, 1);
REG_ALL(aliased, AllVectors, 0.4);
REG_ALL(chain, AllVectors, 0.3);
PBT_MAIN
#endif
