#include "vcgen.h"
// A02: division and remainder
template <class T> static bool divDefined(T a, T b)
{
    if (!std::is_integral<T>::value) return true;
    if (b == T(0)) return false;
    if (std::is_signed<T>::value && b == T(-1) && a == std::numeric_limits<T>::min()) return false;
    return true;
}
template <class T> static T divRef(T a, T b)
{
    volatile T x = a, y = b;
    volatile T r = T(x / y);
    return r;
}
template <class T> static typename std::enable_if<std::is_integral<T>::value, T>::type remRef(T a, T b)
{
    volatile T x = a, y = b;
    volatile T r = T(x % y);
    return r;
}
// operand pairs for integers: also a = b*q + {-1,0,1}, where rounding a quotient goes wrong
template <class T> static typename std::enable_if<std::is_integral<T>::value>::type genPair(Src &s, T &a, T &b)
{
    b = genVal<T>(s);
    if (b == T(0)) b = T(1);
    if (s.coin()) {
        const T q = genVal<T>(s);
        a = T(Ar<T>::mul(b, q) + T(s.range(0, 2) - 1));
    } else {
        a = genVal<T>(s);
    }
    if (!divDefined(a, b)) a = T(1);
}
template <class T> static typename std::enable_if<std::is_floating_point<T>::value>::type genPair(Src &s, T &a, T &b)
{
    b = genVal<T>(s);
    a = genVal<T>(s);
}
template <class V, bool = isInt<typename V::EntryType>::value> struct Rem {
    static void run(const V &va, const V &vb, const typename Tr<V>::A &a, const typename Tr<V>::A &b)
    {
        typename Tr<V>::A want;
        for (size_t i = 0; i < V::Size; ++i) want[i] = remRef(a[i], b[i]);
        expectSame("a % b", lanes<V>(va % vb), want);
        { V x = va; x %= vb; expectSame("a %= b", lanes(x), want); }
    }
    template <class T> static void scalar(const V &va, T b, const typename Tr<V>::A &a)
    {
        typename Tr<V>::A want;
        for (size_t i = 0; i < V::Size; ++i) want[i] = remRef(a[i], b);
        expectSame("a % scalar", lanes<V>(va % b), want);
        { V x = va; x %= b; expectSame("a %= scalar", lanes(x), want); }
    }
};
template <class V> struct Rem<V, false> {
    template <class... A> static void run(A &&...) {}
    template <class... A> static void scalar(A &&...) {}
};
template <class V> struct division {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        typename Tr<V>::A a, b, want;
        for (size_t i = 0; i < N; ++i) genPair(s, a[i], b[i]);
        s.note("a", [&](std::ostream &os) { os << a; });
        s.note("b", [&](std::ostream &os) { os << b; });
        const V va = toV<V>(a), vb = toV<V>(b);
        for (size_t i = 0; i < N; ++i) want[i] = divRef(a[i], b[i]);
        s.nontrivial(!allSame(want) || (N == 1 && want[0] != T(0)));
        expectSame("a / b", lanes<V>(va / vb), want);
        { V x = va; V &r = (x /= vb); expectSame("a /= b", lanes(x), want); PBT_CHECK(&r == &x, ""); }
        Rem<V>::run(va, vb, a, b);
        expectSame("operand unchanged", lanes(va), a);
        expectSame("operand unchanged", lanes(vb), b);
    }
};
template <class V> struct scalar_divisor {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        typename Tr<V>::A a, want;
        T b;
        genPair(s, a[0], b);
        for (size_t i = 1; i < N; ++i) {
            a[i] = isInt<T>::value && s.coin() ? T(Ar<T>::mul(b, genVal<T>(s)) + T(s.range(0, 2) - 1)) : genVal<T>(s);
            if (!divDefined(a[i], b)) a[i] = T(1);
        }
        s.note("a", [&](std::ostream &os) { os << a; });
        s.note("b", [&](std::ostream &os) { os << b; });
        const V va = toV<V>(a);
        for (size_t i = 0; i < N; ++i) want[i] = divRef(a[i], b);
        s.nontrivial(!allSame(want) || (N == 1 && want[0] != T(0)));
        expectSame("a / scalar", lanes<V>(va / b), want);
        { V x = va; x /= b; expectSame("a /= scalar", lanes(x), want); }
        Rem<V>::scalar(va, b, a);
        // scalar dividend
        bool ok = true;
        for (size_t i = 0; i < N; ++i) ok = ok && divDefined(b, a[i]);
        if (ok) {
            for (size_t i = 0; i < N; ++i) want[i] = divRef(b, a[i]);
            expectSame("scalar / a", lanes<V>(b / va), want);
        }
    }
};
// the Euclidean identity over whole vectors
template <class V> struct identity {
    static void run(Src &s)
    {
        typename Tr<V>::A a, b;
        for (size_t i = 0; i < V::Size; ++i) genPair(s, a[i], b[i]);
        s.note("a", [&](std::ostream &os) { os << a; });
        s.note("b", [&](std::ostream &os) { os << b; });
        s.nontrivial();
        const V va = toV<V>(a), vb = toV<V>(b);
        expectSame("(a/b)*b + a%b", lanes<V>((va / vb) * vb + va % vb), a);
    }
};
#ifndef PBT_TEMPLATES_ONLY
// both operands are the same object, or the divisor is a lane of the vector that is assigned to
template <class V, bool = isInt<typename V::EntryType>::value> struct RemAliased {
    using T = typename V::EntryType;
    template <class A> static void run(const V &va, const A &a, size_t k)
    {
        A w;
        for (size_t i = 0; i < V::Size; ++i) w[i] = 0;
        { V x = va; x %= x; expectSame("x %= x", lanes(x), w); }
        for (size_t i = 0; i < V::Size; ++i) w[i] = remRef(a[i], a[k]);
        { V x = va; x %= T(x[k]); expectSame("x %= x[k]", lanes(x), w); }
        { V x = va; x = x % T(x[k]); expectSame("x = x % x[k]", lanes(x), w); }
    }
};
template <class V> struct RemAliased<V, false> {
    template <class... A> static void run(A &&...) {}
};
template <class V> struct aliased {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        const size_t k = s.draw(N - 1);
        auto a = genArr<T, N>(s, "a");
        if (isInt<T>::value) {
            for (size_t i = 0; i < N; ++i)
                if (a[i] == T(0)) a[i] = T(5);
            for (size_t i = 0; i < N; ++i)
                if (!divDefined(a[i], a[k])) a[i] = T(3);
        }
        s.note("lane", [&](std::ostream &os) { os << k; });
        const V va = toV<V>(a);
        s.nontrivial(N == 1 || !allSame(a));
        typename Tr<V>::A w;
        for (size_t i = 0; i < N; ++i) w[i] = divRef(a[i], a[i]);
        { V x = va; x /= x; expectSame("x /= x", lanes(x), w); }
        { V x = va; x = x / x; expectSame("x = x / x", lanes(x), w); }
        for (size_t i = 0; i < N; ++i) w[i] = divRef(a[i], a[k]);
        { V x = va; x /= T(x[k]); expectSame("x /= x[k]", lanes(x), w); }
        { V x = va; x = x / T(x[k]); expectSame("x = x / x[k]", lanes(x), w); }
        RemAliased<V>::run(va, a, k);
    }
};
REG_ALL(division, AllVectors, 1);
REG_ALL(scalar_divisor, AllVectors, 1);
REG_ALL(aliased, AllVectors, 0.4);
REG_ALL(identity, AllInts, 0.3);
PBT_MAIN
#endif
