#include "vcgen.h"
// F03: accuracy and special cases of the trigonometric functions
template <class T> struct Wide;  // more mantissa bits than T
template <> struct Wide<float> { using type = double; };
template <> struct Wide<double> { using type = long double; };
template <class T> inline double ulpError(T r, typename Wide<T>::type exact)
{
    using W = typename Wide<T>::type;
    if (W(r) == exact) return 0;
    if (std::isnan(r) || std::isinf(r)) return INFINITY;
    int e;
    std::frexp(exact, &e);
    e = std::max(e, std::numeric_limits<T>::min_exponent);
    return double(std::ldexp(std::fabs(W(r) - exact), FP<T>::mant + 1 - e));
}
template <class T>
inline void expectUlp(const char *what, T x, T got, typename Wide<T>::type exact, double bound)
{
    const double err = ulpError(got, exact);
    if (!(err <= bound)) {
        std::ostringstream os;
        os.precision(20);
        os << what << " of " << x << " is " << got << ", the exact value is " << exact << ": off by " << err << " ulp (bound " << bound << ")";
        pbt::fail(os.str());
    }
}
template <class T> T unit(Src &s) { return T(s.draw((1ull << FP<T>::mant) - 1)) * std::ldexp(T(1), -FP<T>::mant); }
// values in [-8192, 8192] for sine and cosine; `kind` selects the range all lanes share (the code has one path per range)
template <class T> T genAngle(Src &s, unsigned kind)
{
    const T pi_4 = T(0.78539816339744830962L);
    T x;
    switch (kind) {
    case 0: x = unit<T>(s) * pi_4; break;
    case 1: x = unit<T>(s) * 33 * pi_4; break;
    case 2: x = unit<T>(s) * 1025 * pi_4; break;
    case 3: x = unit<T>(s) * 8192; break;
    case 4: {  // next to a multiple of pi/4
        x = T((long double)(s.range(0, 10430)) * 0.78539816339744830962L);
        x = fromBits<T>(typename BitsOf<T>::type(bits(x) + typename BitsOf<T>::type(x == 0 ? s.range(0, 8) : s.range(0, 16) - 8)));
        break;
    }
    case 5: x = T(s.range(0, 8192)); break;
    case 6: x = std::ldexp(T(1) + unit<T>(s), s.range(0, 13 + FP<T>::bias - 1) - FP<T>::bias + 1); break;
    default: return genAngle<T>(s, unsigned(s.draw(6)));
    }
    if (x > 8192) x = 8192;
    return s.coin() ? -x : x;
}
// documented: 2 ulp (float), 3 ulp (double); next to the zeros of the functions the argument reduction leaves an absolute error
template <class T>
inline void expectSin(const char *what, T x, T got, typename Wide<T>::type exact)
{
    using W = typename Wide<T>::type;
    if (std::fabs(W(got) - exact) <= (sizeof(T) == 4 ? W(1e-12L) : W(1e-26L))) return;
    expectUlp<T>(what, x, got, exact, sizeof(T) == 4 ? 2.5 : 3.5);
}
template <class V> struct sine_cosine {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        using W = typename Wide<T>::type;
        constexpr size_t N = Tr<V>::N;
        const unsigned kind = unsigned(s.draw(7));
        auto a = genArr<T, N>(s, "x", [kind](Src &q) { return genAngle<T>(q, kind); });
        s.nontrivial(!allSame(a));
        const V v = toV<V>(a);
        const auto si = lanes<V>(sin(v)), co = lanes<V>(cos(v));
        V s2, c2;
        sincos(v, &s2, &c2);
        const auto si2 = lanes(s2), co2 = lanes(c2);
        for (size_t i = 0; i < N; ++i) {
            const W ws = std::sin(W(a[i])), wc = std::cos(W(a[i]));
            expectSin<T>("sin", a[i], si[i], ws);
            expectSin<T>("cos", a[i], co[i], wc);
            expectSin<T>("sincos (sine)", a[i], si2[i], ws);
            expectSin<T>("sincos (cosine)", a[i], co2[i], wc);
        }
    }
};
// beyond the documented range: still a point on the unit circle close to the true one for |x| <= 2^20
template <class V> struct large_angle {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        using W = typename Wide<T>::type;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", [](Src &q) {
            const T x = q.coin() ? unit<T>(q) * T(1 << 20) : genAngle<T>(q, 7);
            return q.coin() ? x : -x;
        });
        s.nontrivial(!allSame(a));
        const V v = toV<V>(a);
        const auto si = lanes<V>(sin(v)), co = lanes<V>(cos(v));
        V s2, c2;
        sincos(v, &s2, &c2);
        const auto si2 = lanes(s2), co2 = lanes(c2);
        const W tol = 4 * std::numeric_limits<T>::epsilon();
        for (size_t i = 0; i < N; ++i) {
            const W ws = std::sin(W(a[i])), wc = std::cos(W(a[i]));
            PBT_CHECK(std::fabs(W(si[i]) - ws) <= tol, "sin of " << a[i] << " is " << si[i] << ", expected " << ws);
            PBT_CHECK(std::fabs(W(co[i]) - wc) <= tol, "cos of " << a[i] << " is " << co[i] << ", expected " << wc);
            PBT_CHECK(std::fabs(W(si2[i]) - ws) <= tol, "sincos(sine) of " << a[i] << " is " << si2[i] << ", expected " << ws);
            PBT_CHECK(std::fabs(W(co2[i]) - wc) <= tol, "sincos(cosine) of " << a[i] << " is " << co2[i] << ", expected " << wc);
        }
    }
};
template <class V> struct arcsine {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        using W = typename Wide<T>::type;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", [](Src &q) {
            T x;
            switch (q.draw(6)) {
            default: x = unit<T>(q); break;
            case 2: x = T(1) - unit<T>(q) * T(0.001); break;
            case 3: x = std::ldexp(unit<T>(q), -q.range(0, FP<T>::bias)); break;
            case 4: x = T(0.5) + T(q.range(0, 40) - 20) * std::numeric_limits<T>::epsilon(); break;
            case 5: x = T(0.625) + T(q.range(0, 40) - 20) * std::numeric_limits<T>::epsilon(); break;
            case 6: return genVal<T>(q);
            }
            return q.coin() ? x : -x;
        });
        s.nontrivial(!allSame(a));
        const auto got = lanes<V>(asin(toV<V>(a)));
        for (size_t i = 0; i < N; ++i) {
            if (!(std::fabs(a[i]) <= 1)) PBT_CHECK(std::isnan(got[i]), "asin of " << a[i] << " is " << got[i] << ", expected NaN");
            else expectUlp<T>("asin", a[i], got[i], std::asin(W(a[i])), sizeof(T) == 4 ? 2.5 : 36.5);
        }
    }
};
template <class T> T genTan(Src &s)
{
    T x;
    switch (s.draw(6)) {
    default: x = (unit<T>(s) + std::numeric_limits<T>::epsilon()) * T(s.coin() ? 4 : 8192); break;
    case 2: x = std::ldexp(T(1) + unit<T>(s), s.range(0, 26) - 13); break;
    case 3: {  // the thresholds of the argument reduction: tan(pi/8), tan(3pi/8), 0.66
        static const double th[] = {0.41421356237309504880, 2.41421356237309504880, 0.66, 1};
        x = fromBits<T>(typename BitsOf<T>::type(bits(T(th[s.draw(3)])) + typename BitsOf<T>::type(s.range(0, 8) - 4)));
        break;
    }
    case 4: return T(s.range(0, 12) - 6) / 2;
    case 5: case 6: return genVal<T>(s);
    }
    return s.coin() ? x : -x;
}
template <class V> struct arctangent {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        using W = typename Wide<T>::type;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "x", &genTan<T>);
        s.nontrivial(!allSame(a));
        const auto got = lanes<V>(atan(toV<V>(a)));
        for (size_t i = 0; i < N; ++i) {
            if (std::isnan(a[i])) PBT_CHECK(std::isnan(got[i]), "atan of NaN is " << got[i]);
            else expectUlp<T>("atan", a[i], got[i], std::atan(W(a[i])), sizeof(T) == 4 ? 3.5 : 2.5);
        }
    }
};
template <class V> struct arctangent2 {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        using W = typename Wide<T>::type;
        using L = std::numeric_limits<T>;
        constexpr size_t N = Tr<V>::N;
        auto y = genArr<T, N>(s, "y", &genTan<T>), x = genArr<T, N>(s, "x", &genTan<T>);
        for (size_t i = 0; i < N; ++i) {
            static const T special[] = {T(0), T(-0.), L::infinity(), -L::infinity(), T(3), T(-3), L::quiet_NaN()};
            if (s.oneIn(4)) y[i] = special[s.draw(6)];
            if (s.oneIn(4)) x[i] = special[s.draw(6)];
        }
        s.note("y", [&](std::ostream &os) { os << y; });
        s.note("x", [&](std::ostream &os) { os << x; });
        s.nontrivial(!allSame(x) || !allSame(y));
        const auto got = lanes<V>(atan2(toV<V>(y), toV<V>(x)));
        for (size_t i = 0; i < N; ++i) {
            if (std::isnan(x[i]) || std::isnan(y[i])) {
                PBT_CHECK(std::isnan(got[i]), "atan2(" << y[i] << ", " << x[i] << ") is " << got[i] << ", expected NaN");
                continue;
            }
            const W exact = std::atan2(W(y[i]), W(x[i]));
            const bool zeroY = y[i] == 0, infX = std::isinf(x[i]);
            if (zeroY || infX) PBT_CHECK(std::signbit(got[i]) == std::signbit(y[i]), "sign of atan2(" << y[i] << ", " << x[i] << ") = " << got[i]);
            const double err = ulpError<T>(got[i], exact);
            PBT_CHECK(err <= (sizeof(T) == 4 ? 4 : 3), "atan2(" << y[i] << ", " << x[i] << ") is " << got[i] << ", the exact value is " << exact << ": off by " << err << " ulp");
        }
    }
};
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(sine_cosine, AllReals, 1);
REG_ALL(large_angle, AllReals, 0.3);
REG_ALL(arcsine, AllReals, 0.5);
REG_ALL(arctangent, AllReals, 0.5);
REG_ALL(arctangent2, AllReals, 1);
PBT_MAIN
#endif
