#include "vcgen.h"
// A03: comparisons and lane predicates
template <class T, size_t N> static Arr<T, N> near(Src &s, const Arr<T, N> &a)
{
    // second operand lanes: often equal to / one off the first operand
    auto b = genArr<T, N>(s, "b0");
    for (size_t i = 0; i < N; ++i) {
        switch (s.draw(5)) {
        case 0: case 1: b[i] = a[i]; break;
        case 2: b[i] = std::is_integral<T>::value ? T(Ar<T>::add(a[i], T(1))) : fromBits<T>(bits(a[i]) + 1); break;
        case 3: b[i] = Ar<T>::neg(a[i]); break;
        default: break;
        }
    }
    s.note("b", [&](std::ostream &os) { os << b; });
    return b;
}
template <class V> static void cmpAll(const V &x, const V &y, const typename Tr<V>::A &a, const typename Tr<V>::A &b)
{
    constexpr size_t N = V::Size;
    Arr<bool, N> w;
#define C(op)                                              \
    for (size_t i = 0; i < N; ++i) w[i] = a[i] op b[i];    \
    expectMask("a " #op " b", x op y, w);
    C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
}
template <class V> struct compare {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        auto b = near(s, a);
        size_t eq = 0;
        for (size_t i = 0; i < N; ++i) eq += a[i] == b[i];
        s.nontrivial(N == 1 || (eq != 0 && eq != N));
        const V x = toV<V>(a), y = toV<V>(b);
        cmpAll<V>(x, y, a, b);
        expectSame("operand unchanged", lanes(x), a);
        expectSame("operand unchanged", lanes(y), b);
    }
};
template <class V> struct compare_scalar {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        const T b = s.coin() ? a[s.draw(N - 1)] : genVal<T>(s);
        s.note("b", [&](std::ostream &os) { os << b; });
        s.nontrivial(!allSame(a) || N == 1);
        const V x = toV<V>(a);
        Arr<bool, N> w;
#define C(op)                                              \
    for (size_t i = 0; i < N; ++i) w[i] = a[i] op b;       \
    expectMask("a " #op " scalar", x op b, w);             \
    for (size_t i = 0; i < N; ++i) w[i] = b op a[i];       \
    expectMask("scalar " #op " a", b op x, w);
        C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
    }
};
// algebra between the comparison operators, evaluated with masks only
template <class V> struct relations {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        auto b = near(s, a);
        s.nontrivial(!allSame(a));
        const V x = toV<V>(a), y = toV<V>(b);
        PBT_CHECK(((x < y) == (y > x)), "a<b is not b>a");
        PBT_CHECK(((x <= y) == (y >= x)), "a<=b is not b>=a");
        PBT_CHECK(((x != y) == !(x == y)), "a!=b is not !(a==b)");
        PBT_CHECK((((x < y) || (x == y)) == (x <= y)), "a<=b is not a<b or a==b");
        PBT_CHECK(none_of((x < y) && (x >= y)), "a<b and a>=b");
        size_t lt = 0;
        for (size_t i = 0; i < N; ++i) lt += a[i] < b[i];
        PBT_CHECK(any_of(x < y) == (lt > 0), "any_of");
        PBT_CHECK(all_of(x < y) == (lt == N), "all_of");
        PBT_CHECK(size_t((x < y).count()) == lt, "count");
    }
};
template <class V> struct classify_real {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        const V x = toV<V>(a);
        Arr<bool, N> nan, inf, fin, neg;
        bool mixed = false;
        for (size_t i = 0; i < N; ++i) {
            const auto u = bits(a[i]);
            const auto e = (u >> FP<T>::mant) & ((1u << FP<T>::ebits) - 1);
            const auto m = u & ((typename BitsOf<T>::type(1) << FP<T>::mant) - 1);
            const bool top = e == ((1u << FP<T>::ebits) - 1);
            nan[i] = top && m != 0;
            inf[i] = top && m == 0;
            fin[i] = !top;
            neg[i] = u >> (FP<T>::mant + FP<T>::ebits);
            mixed = mixed || top;
        }
        s.nontrivial(mixed || N == 1);
        expectMask("isnan", isnan(x), nan);
        expectMask("isinf", isinf(x), inf);
        expectMask("isfinite", isfinite(x), fin);
        const auto cls = fpclassify(x);
        for (size_t i = 0; i < a.size(); ++i) expectEq("fpclassify", int(cls[i]), int(std::fpclassify(a[i])));
        // the sign of a NaN carries no meaning: only the other lanes are judged
        const auto g = isnegative(x);
        for (size_t i = 0; i < N; ++i)
            if (!nan[i]) PBT_CHECK(bool(g[i]) == neg[i], "isnegative");
    }
};
template <class V> struct classify_int {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        s.nontrivial(!allSame(a) || N == 1);
        Arr<bool, N> neg;
        for (size_t i = 0; i < N; ++i) neg[i] = a[i] < T(0);
        expectMask("isnegative", isnegative(toV<V>(a)), neg);
    }
};
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(compare, AllVectors, 1);
REG_ALL(compare_scalar, AllVectors, 0.5);
REG_ALL(relations, AllVectors, 0.5);
REG_ALL(classify_real, AllReals, 1);
REG_ALL(classify_int, AllInts, 0.3);
PBT_MAIN
#endif
