#include "vcgen.h"
// F02: accuracy of log, log2, log10 and exp
template <class T> struct Wide;  // a type with at least 11 more mantissa bits than T
template <> struct Wide<float> { using type = double; };
template <> struct Wide<double> { using type = long double; };
// distance of r from the exact value in units in the last place of the exact value rounded to T
template <class T> inline double ulpError(T r, typename Wide<T>::type exact)
{
    using W = typename Wide<T>::type;
    if (W(r) == exact) return 0;
    if (std::isnan(r) || std::isinf(r)) return INFINITY;
    int e;
    std::frexp(exact, &e);
    e = std::max(e, std::numeric_limits<T>::min_exponent);
    return double(std::ldexp(std::fabs(W(r) - exact), FP<T>::mant + 1 - e));
}
template <class T>
inline void expectUlp(const char *what, T x, T got, typename Wide<T>::type exact, double bound)
{
    const double err = ulpError(got, exact);
    if (!(err <= bound)) {
        std::ostringstream os;
        os.precision(20);
        os << what << " of " << x << " is " << got << ", the exact value is " << exact << ": off by " << err << " ulp (bound " << bound << ")";
        pbt::fail(os.str());
    }
}
template <class T> T genLogArg(Src &s)
{
    switch (s.draw(9)) {
    default: return genVal<T>(s);
    case 3: case 4: {  // around 1
        const T x = T(1) + T(s.range(0, 2000) - 1000) * std::numeric_limits<T>::epsilon() * T(s.oneIn(2) ? 1 : 1000);
        return x;
    }
    case 5: {  // documented range ]0, 1000]
        return T(s.draw((1ull << FP<T>::mant) - 1) + 1) * std::ldexp(T(1000), -FP<T>::mant);
    }
    case 6: {  // around 2^k sqrt(1/2): where the reduction switches
        const T x = std::ldexp(T(0.70710678118654752440L), s.range(0, 2 * FP<T>::bias - 4) - FP<T>::bias + 3);
        return fromBits<T>(typename BitsOf<T>::type(bits(x) + typename BitsOf<T>::type(s.range(0, 8) - 4)));
    }
    case 7: {  // positive denormals
        return fromBits<T>(typename BitsOf<T>::type(s.draw((1ull << FP<T>::mant) - 1)));
    }
    case 8: case 9: return std::fabs(genFinite<T>(s));
    }
}
template <class V, class F, class G>
void checkLog(Src &s, const char *what, double bound, F &&vec, G &&ref)
{
    using T = typename Tr<V>::T;
    using W = typename Wide<T>::type;
    constexpr size_t N = Tr<V>::N;
    auto a = genArr<T, N>(s, "x", &genLogArg<T>);
    s.nontrivial(!allSame(a));
    const auto got = lanes<V>(vec(toV<V>(a)));
    for (size_t i = 0; i < N; ++i) {
        if (std::isnan(a[i]) || a[i] < 0)
            PBT_CHECK(std::isnan(got[i]), what << " of " << a[i] << " is " << got[i] << ", expected NaN (lane " << i << ")");
        else if (a[i] == 0 || std::isinf(a[i]))
            expectEq(what, got[i], a[i] == 0 ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity());
        else
            expectUlp<T>(what, a[i], got[i], ref(W(a[i])), bound);
    }
}
template <class V> struct natural_log {
    static void run(Src &s)
    {
        using W = typename Wide<typename Tr<V>::T>::type;
        checkLog<V>(s, "log", 2, [](const V &x) -> V { return log(x); }, [](W x) { return std::log(x); });
    }
};
template <class V> struct binary_log {
    static void run(Src &s)
    {
        using W = typename Wide<typename Tr<V>::T>::type;
        checkLog<V>(s, "log2", 3, [](const V &x) -> V { return log2(x); }, [](W x) { return std::log2(x); });
    }
};
template <class V> struct decimal_log {
    static void run(Src &s)
    {
        using W = typename Wide<typename Tr<V>::T>::type;
        checkLog<V>(s, "log10", 3, [](const V &x) -> V { return log10(x); }, [](W x) { return std::log10(x); });
    }
};
template <class T> T genExpArg(Src &s)
{
    const T maxlog = std::log(std::numeric_limits<T>::max()), minlog = std::log(std::numeric_limits<T>::min());
    switch (s.draw(7)) {
    default: return genVal<T>(s);
    case 3: case 4: {  // the range without overflow and underflow
        const T f = T(s.draw((1ull << FP<T>::mant) - 1)) * std::ldexp(T(1), -FP<T>::mant);
        return minlog + f * (maxlog - minlog);
    }
    case 5: {  // [-10, 10]
        return (T(s.draw((1ull << FP<T>::mant) - 1)) * std::ldexp(T(1), -FP<T>::mant) - T(0.5)) * 20;
    }
    case 6: {  // around (n + 1/2) ln 2: where the reduction switches
        const T x = (T(s.range(0, 2 * FP<T>::bias - 4) - FP<T>::bias + 2) + T(0.5)) * T(0.69314718055994530942L);
        return fromBits<T>(typename BitsOf<T>::type(bits(x) + typename BitsOf<T>::type(s.range(0, 8) - 4)));
    }
    case 7: {  // near the limits
        const T x = s.coin() ? maxlog : minlog;
        return fromBits<T>(typename BitsOf<T>::type(bits(x) + typename BitsOf<T>::type(s.range(0, 4000) - 2000)));
    }
    }
}
template <class V> struct exponential {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        using W = typename Wide<T>::type;
        using L = std::numeric_limits<T>;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", &genExpArg<T>);
        s.nontrivial(!allSame(a));
        const auto got = lanes<V>(exp(toV<V>(a)));
        for (size_t i = 0; i < N; ++i) {
            if (std::isnan(a[i])) {
                PBT_CHECK(std::isnan(got[i]), "exp of NaN is " << got[i]);
                continue;
            }
            const W exact = std::exp(W(a[i]));
            if (exact > W(L::max()) || std::isinf(a[i])) expectEq("exp", got[i], a[i] > 0 ? L::infinity() : T(0));
            else if (exact < W(L::min())) PBT_CHECK(got[i] >= 0 && got[i] <= L::min(), "exp of " << a[i] << " is " << got[i]);
            // the single-precision limit is documented in the source as 2^127.99998
            else if (got[i] == L::infinity() && exact > W(L::max()) * W(0.99997)) ;
            else expectUlp<T>("exp", a[i], got[i], exact, 2.5);
        }
    }
};
// a lane's result does not depend on the other lanes
template <class V> struct lane_independence {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", [](Src &q) { return q.coin() ? genLogArg<T>(q) : genExpArg<T>(q); });
        s.nontrivial(N == 1 || !allSame(a));
        const V v = toV<V>(a);
        const auto l = lanes<V>(log(v)), l2 = lanes<V>(log2(v)), l10 = lanes<V>(log10(v)), e = lanes<V>(exp(v));
        const size_t i = s.draw(N - 1);
        const V u(a[i]);
        for (size_t k = 0; k < N; ++k) {
            expectEq("log in a uniform vector", lanes<V>(log(u))[k], l[i]);
            expectEq("log2 in a uniform vector", lanes<V>(log2(u))[k], l2[i]);
            expectEq("log10 in a uniform vector", lanes<V>(log10(u))[k], l10[i]);
            expectEq("exp in a uniform vector", lanes<V>(exp(u))[k], e[i]);
        }
    }
};
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(natural_log, AllReals, 1);
REG_ALL(binary_log, AllReals, 1);
REG_ALL(decimal_log, AllReals, 1);
REG_ALL(exponential, AllReals, 1);
REG_ALL(lane_independence, AllReals, 0.2);
PBT_MAIN
#endif
