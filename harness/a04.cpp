#include "vcgen.h"
// A04: bitwise operators and shifts
template <class V> struct bitwise {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        auto b = genArr<T, N>(s, "b");
        const V x = toV<V>(a), y = toV<V>(b);
        s.nontrivial(!allSame(a) && !allSame(b));
        if (N == 1) s.nontrivial(true);
        typename Tr<V>::A w;
#define C(op)                                                                        \
    for (size_t i = 0; i < N; ++i) w[i] = T(a[i] op b[i]);                           \
    expectSame("a " #op " b", lanes<V>(x op y), w);                                  \
    { V z = x; V &r = (z op##= y); expectSame("a " #op "= b", lanes(z), w); PBT_CHECK(&r == &z, ""); } \
    for (size_t i = 0; i < N; ++i) w[i] = T(a[i] op b[0]);                           \
    expectSame("a " #op " scalar", lanes<V>(x op b[0]), w);                          \
    expectSame("scalar " #op " a", lanes<V>(b[0] op x), w);                          \
    { V z = x; z op##= b[0]; expectSame("a " #op "= scalar", lanes(z), w); }
        C(&) C(|) C(^)
#undef C
        for (size_t i = 0; i < N; ++i) w[i] = T(~a[i]);
        expectSame("~a", lanes<V>(~x), w);
        expectSame("~~a", lanes<V>(~~x), a);
        expectSame("operand unchanged", lanes(x), a);
    }
};
template <class T> static T shl(T a, int n) { using U = typename std::make_unsigned<T>::type; return T(U((unsigned long long)(U(a)) << n)); }
template <class T> static T shr(T a, int n) { return T(a >> n); }
template <class V> struct shift_scalar {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        const int n = s.range(0, int(sizeof(T) * 8) - 1);
        s.note("n", [&](std::ostream &os) { os << n; });
        const V x = toV<V>(a);
        s.nontrivial(n != 0);
        typename Tr<V>::A w;
        for (size_t i = 0; i < N; ++i) w[i] = shl(a[i], n);
        expectSame("a << n", lanes<V>(x << n), w);
        { V z = x; z <<= n; expectSame("a <<= n", lanes(z), w); }
        for (size_t i = 0; i < N; ++i) w[i] = shr(a[i], n);
        expectSame("a >> n", lanes<V>(x >> n), w);
        { V z = x; z >>= n; expectSame("a >>= n", lanes(z), w); }
    }
};
template <class V, bool = isSA<V>::value> struct VecShift {
    static V l(const V &x, const V &y) { return x << y; }
    static V r(const V &x, const V &y) { return x >> y; }
};
template <class V> struct VecShift<V, true> {  // SimdArray has only the compound forms
    static V l(const V &x, const V &y) { V z = x; z <<= y; return z; }
    static V r(const V &x, const V &y) { V z = x; z >>= y; return z; }
};
template <class V> struct shift_vector {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        auto n = genArr<T, N>(s, "n", [](Src &q) { return T(q.draw(sizeof(T) * 8 - 1)); });
        const V x = toV<V>(a), y = toV<V>(n);
        s.nontrivial(!allSame(n) || N == 1);
        typename Tr<V>::A w;
        for (size_t i = 0; i < N; ++i) w[i] = shl(a[i], int(n[i]));
        expectSame("a << v", lanes<V>(VecShift<V>::l(x, y)), w);
        { V z = x; z <<= y; expectSame("a <<= v", lanes(z), w); }
        for (size_t i = 0; i < N; ++i) w[i] = shr(a[i], int(n[i]));
        expectSame("a >> v", lanes<V>(VecShift<V>::r(x, y)), w);
        { V z = x; z >>= y; expectSame("a >>= v", lanes(z), w); }
    }
};
template <class V> struct logical {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto z = [](Src &q) { return q.oneIn(3) ? T(0) : genVal<T>(q); };
        auto a = genArr<T, N>(s, "a", z);
        auto b = genArr<T, N>(s, "b", z);
        const V x = toV<V>(a), y = toV<V>(b);
        Arr<bool, N> w;
        size_t zeros = 0;
        for (size_t i = 0; i < N; ++i) { w[i] = a[i] == T(0); zeros += w[i]; }
        s.nontrivial(N == 1 || (zeros && zeros != N));
        expectMask("!a", !x, w);
        for (size_t i = 0; i < N; ++i) w[i] = a[i] && b[i];
        expectMask("a && b", x && y, w);
        for (size_t i = 0; i < N; ++i) w[i] = a[i] || b[i];
        expectMask("a || b", x || y, w);
        const bool t = s.coin();
        for (size_t i = 0; i < N; ++i) w[i] = a[i] && t;
        expectMask("a && bool", x && t, w);
        for (size_t i = 0; i < N; ++i) w[i] = t || a[i];
        expectMask("bool || a", t || x, w);
    }
};
#ifndef PBT_TEMPLATES_ONLY
// both operands are the same object, or the scalar operand is a lane of the vector that is assigned to
template <class V> struct aliased {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        const size_t k = s.draw(N - 1);
        s.note("lane", [&](std::ostream &os) { os << k; });
        const V v = toV<V>(a);
        s.nontrivial(N == 1 || !allSame(a));
        typename Tr<V>::A w;
#define C(op)                                                                        \
    for (size_t i = 0; i < N; ++i) w[i] = T(a[i] op a[i]);                           \
    { V z = v; z op##= z; expectSame("x " #op "= x", lanes(z), w); }                 \
    { V z = v; z = z op z; expectSame("x = x " #op " x", lanes(z), w); }             \
    for (size_t i = 0; i < N; ++i) w[i] = T(a[i] op a[k]);                           \
    { V z = v; z op##= T(z[k]); expectSame("x " #op "= x[k]", lanes(z), w); }
        C(&) C(|) C(^)
#undef C
        for (size_t i = 0; i < N; ++i) w[i] = T(~a[i]);
        { V z = v; z = ~z; expectSame("x = ~x", lanes(z), w); }
        auto c = a;
        for (size_t i = 0; i < N; ++i) c[i] = T((unsigned long long)(a[i]) % (sizeof(T) * 8));
        const V y = toV<V>(c);
        for (size_t i = 0; i < N; ++i) w[i] = shl(c[i], int(c[i]));
        { V z = y; z <<= z; expectSame("x <<= x", lanes(z), w); }
        for (size_t i = 0; i < N; ++i) w[i] = shr(c[i], int(c[i]));
        { V z = y; z >>= z; expectSame("x >>= x", lanes(z), w); }
        for (size_t i = 0; i < N; ++i) w[i] = shl(c[i], int(c[k]));
        { V z = y; z <<= int(z[k]); expectSame("x <<= x[k]", lanes(z), w); }
    }
};
REG_ALL(bitwise, AllInts, 1);
REG_ALL(shift_scalar, AllInts, 1);
REG_ALL(shift_vector, AllInts, 1);
REG_ALL(aliased, AllInts, 0.4);
REG_ALL(logical, AllVectors, 0.5);
PBT_MAIN
#endif
