#include "vcgen.h"
// F04: rsqrt and reciprocal
template <class T> T genScale(Src &s, bool anySign)
{
    T x;
    switch (s.draw(3)) {
    default: x = fromBits<T>(typename BitsOf<T>::type(bits(T(1)) + typename BitsOf<T>::type(s.draw((1ull << (FP<T>::mant + 2)) - 1)))); break;  // [1, 16[
    case 1: x = std::fabs(genFinite<T>(s)); break;
    case 2: case 3:
        x = fromBits<T>(typename BitsOf<T>::type(s.draw(bits(std::numeric_limits<T>::max()))));
    }
    if (!std::isnormal(x)) x = T(1);
    return anySign && s.coin() ? -x : x;
}
template <class T> void within(const char *what, T x, T got, long double exact)
{
    const long double rel = std::fabs(((long double)(got) - exact) / exact);
    PBT_CHECK(rel <= 1.5L / 4096, what << "(" << x << ") is " << got << ", exact " << exact << ", relative error " << rel << " exceeds 1.5 * 2^-12");
}
template <class V> struct rsqrt_op {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", [](Src &q) { return genScale<T>(q, false); });
        s.nontrivial(!allSame(a));
        const auto got = lanes<V>(rsqrt(toV<V>(a)));
        for (size_t i = 0; i < N; ++i) within("rsqrt", a[i], got[i], 1 / std::sqrt((long double)(a[i])));
    }
};
template <class V> struct reciprocal_op {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", [](Src &q) {
            const T x = genScale<T>(q, true);
            return std::isnormal(T(1) / x) && std::isnormal(T(1) / (x * T(1.001))) ? x : T(3);
        });
        s.nontrivial(!allSame(a));
        const auto got = lanes<V>(reciprocal(toV<V>(a)));
        for (size_t i = 0; i < N; ++i) within("reciprocal", a[i], got[i], 1 / (long double)(a[i]));
    }
};
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(rsqrt_op, AllReals, 1);
REG_ALL(reciprocal_op, AllReals, 1);
PBT_MAIN
#endif
