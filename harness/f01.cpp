#include "vcgen.h"
// F01: exactly specified math functions
template <class T> struct ScalarFn {
    static T roundEven(T x)
    {   // ties to even, independent of the C library and of the rounding mode
        if (!(std::fabs(x) < std::ldexp(T(1), FP<T>::mant))) return x;
        const T f = std::floor(x), d = x - f;
        T r = d < T(0.5) ? f : d > T(0.5) ? f + 1 : std::fmod(f, T(2)) == 0 ? f : f + 1;
        return std::copysign(r, x);
    }
};
template <class T, size_t N> void expectValue(const char *what, Arr<T, N> got, Arr<T, N> want)
{   // the documentation promises the closest integer, not the sign of a zero
    for (size_t i = 0; i < N; ++i) {
        if (got[i] == 0) got[i] = 0;
        if (want[i] == 0) want[i] = 0;
    }
    expectSame(what, got, want);
}
template <class V> struct sqrt_exact {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        s.nontrivial(!allSame(a));
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = std::sqrt(a[i]);
        expectSame("sqrt(a)", lanes<V>(sqrt(toV<V>(a))), want);
    }
};
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, T>::type scalarAbs(T x) { return std::fabs(x); }
inline int scalarAbs(int x) { return x < 0 ? int(0u - unsigned(x)) : x; }
inline short scalarAbs(short x) { return short(x < 0 ? -int(x) : int(x)); }
template <class V> struct absolute {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &q) {
            T x = genVal<T>(q);
            return std::is_same<T, int>::value && x == std::numeric_limits<T>::lowest() ? T(1) : x;
        });
        bool neg = false;
        for (size_t i = 0; i < N; ++i) neg = neg || a[i] < 0;
        s.nontrivial(neg && (N == 1 || !allSame(a)));
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = scalarAbs(a[i]);
        expectSame("abs(a)", lanes<V>(abs(toV<V>(a))), want);
    }
};
// values around the points where rounding functions change behaviour
template <class T> T genRounding(Src &s)
{
    switch (s.draw(7)) {
    default: return genVal<T>(s);
    case 4: {  // k/2 + tiny
        const T x = T(s.range(0, 400) - 200) / 2;
        return s.oneIn(3) ? std::nextafter(x, T(s.coin() ? 1 : -1) * std::numeric_limits<T>::max()) : x;
    }
    case 5: {  // around 2^(mant-2) ... 2^(mant+2), and 2^31
        const int e = s.coin() ? FP<T>::mant - 3 + s.range(0, 6) : 29 + s.range(0, 5);
        const T base = std::ldexp(T(1), e), ulp = std::nextafter(base, T(2) * base) - base;
        const T x = base + T(s.range(0, 40) - 20) * ulp;
        return s.coin() ? x : -x;
    }
    case 6: {  // tiny
        const T x = std::ldexp(T(1), -s.range(1, FP<T>::bias));
        return s.coin() ? x : -x;
    }
    }
}
template <class V> struct rounding {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &q) { return genRounding<T>(q); });
        bool frac = false;
        for (size_t i = 0; i < N; ++i) frac = frac || (std::floor(a[i]) != a[i]);
        s.nontrivial(frac && (N == 1 || !allSame(a)));
        const V v = toV<V>(a);
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = std::floor(a[i]);
        expectValue("floor(a)", lanes<V>(floor(v)), want);
        for (size_t i = 0; i < N; ++i) want[i] = std::ceil(a[i]);
        expectValue("ceil(a)", lanes<V>(ceil(v)), want);
        for (size_t i = 0; i < N; ++i) want[i] = std::trunc(a[i]);
        expectValue("trunc(a)", lanes<V>(trunc(v)), want);
    }
};
template <class V> struct round_even {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &q) { return genRounding<T>(q); });
        bool frac = false;
        for (size_t i = 0; i < N; ++i) frac = frac || (std::floor(a[i]) != a[i]);
        s.nontrivial(frac && (N == 1 || !allSame(a)));
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = ScalarFn<T>::roundEven(a[i]);
        expectValue("round(a)", lanes<V>(round(toV<V>(a))), want);
    }
};
template <class V> struct copy_sign {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "mag"), b = genArr<T, N>(s, "sign");
        Arr<bool, N> w;
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = std::copysign(a[i], b[i]), w[i] = std::signbit(b[i]);
        s.nontrivial(N == 1 || (!allSame(w) && !allSame(a)));
        const auto got = lanes<V>(copysign(toV<V>(a), toV<V>(b)));
        for (size_t i = 0; i < N; ++i) expectEq("bits of copysign(mag, sign)", bits(got[i]), bits(want[i]));
    }
};
template <class V> struct min_max {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto nonan = [](Src &q) { T x = genVal<T>(q); return x != x ? T(0) : x; };
        auto a = genArr<T, N>(s, "a", nonan);
        auto b = a;
        for (size_t i = 0; i < N; ++i) {
            const unsigned k = unsigned(s.draw(5));
            b[i] = k == 1 ? T(a[i] + T(1)) : k == 2 ? Ar<T>::neg(a[i]) : k == 3 ? a[i] : nonan(s);
            if (b[i] != b[i]) b[i] = T(0);
        }
        s.note("b", [&](std::ostream &os) { os << b; });
        Arr<bool, N> w;
        for (size_t i = 0; i < N; ++i) w[i] = a[i] < b[i];
        s.nontrivial(N == 1 || !allSame(w));
        const V va = toV<V>(a), vb = toV<V>(b);
        const auto mi = lanes<V>(min(va, vb)), ma = lanes<V>(max(va, vb));
        for (size_t i = 0; i < N; ++i) {
            const T lo = b[i] < a[i] ? b[i] : a[i], hi = a[i] < b[i] ? b[i] : a[i];
            if (lo == 0) PBT_CHECK(mi[i] == 0, "min lane " << i);
            else expectEq("min(a, b)", mi[i], lo);
            if (hi == 0) PBT_CHECK(ma[i] == 0, "max lane " << i);
            else expectEq("max(a, b)", ma[i], hi);
        }
    }
};
// fma: the product enters the sum unrounded
template <class T, bool = std::is_floating_point<T>::value> struct FmaRef {
    static T gen(Src &s) { return genVal<T>(s); }
    static bool ok(T a, T b, T c, T r) { return r == Ar<T>::add(Ar<T>::mul(a, b), c); }
    static T best(T a, T b, T c) { return Ar<T>::add(Ar<T>::mul(a, b), c); }
};
template <> struct FmaRef<float, true> {
    static float best(float a, float b, float c) { return std::fma(a, b, c); }
    static bool ok(float a, float b, float c, float r)
    {   // correctly rounded, or the exact product added in double and rounded once more
        volatile double p = double(a) * double(b);
        volatile double q = p + double(c);
        return same(r, std::fma(a, b, c)) || same(r, float(q));
    }
};
template <> struct FmaRef<double, true> {
    static double best(double a, double b, double c) { return std::fma(a, b, c); }
    static bool ok(double a, double b, double c, double r) { return same(r, std::fma(a, b, c)); }
};
// Without hardware FMA for the vector type double fma is emulated with a split product; then the result is not always the
// correctly rounded one, but the product still is not rounded before the addition.
template <class V> struct FmaEmulated : std::false_type {};
#ifndef Vc_IMPL_FMA4
template <> struct FmaEmulated<Vc::Vector<double, Vc::VectorAbi::Sse>> : std::true_type {};
#ifndef Vc_IMPL_FMA
template <> struct FmaEmulated<Vc::Vector<double, Vc::VectorAbi::Avx>> : std::true_type {};
#endif
#endif
template <class T, size_t N, class VV, size_t M> struct FmaEmulated<Vc::SimdArray<T, N, VV, M>>
    : std::integral_constant<bool, std::is_same<T, double>::value> {};
template <class V> bool fmaOk(double a, double b, double c, double r)
{
    if (!FmaEmulated<V>::value) return FmaRef<double>::ok(a, b, c, r);
    const double exact = std::fma(a, b, c);
    if (exact == r) return true;
    const double ulp = std::max(std::nextafter(exact, INFINITY) - exact, exact - std::nextafter(exact, -INFINITY));
    return std::fabs(exact - r) <= 2 * ulp + std::ldexp(std::fabs(a * b), -76);
}
template <class V, class T> bool fmaOk(T a, T b, T c, T r) { return FmaRef<T>::ok(a, b, c, r); }
template <class V> typename Tr<V>::T genFma(Src &s)
{
    using T = typename Tr<V>::T;
    const T x = genVal<T>(s);
    if (!FmaEmulated<V>::value) return x;
    // the emulation splits the factors: keep every partial product normal and finite
    if (x == 0) return x;
    if (!std::isfinite(double(x))) return T(3);
    int e;
    const double m = std::frexp(double(x), &e);
    return T(std::ldexp(m, e % 250));
}
template <class V> struct fma_op {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", &genFma<V>), b = genArr<T, N>(s, "b", &genFma<V>), c = genArr<T, N>(s, "c", &genFma<V>);
        for (size_t i = 0; i < N; ++i) {
            if (!s.oneIn(2)) continue;
            c[i] = Ar<T>::neg(Ar<T>::mul(a[i], b[i]));  // cancellation, sometimes not to the last bit
            if (s.oneIn(3)) c[i] = Ar<T>::add(c[i], Ar<T>::mul(c[i], T(std::ldexp(1., -s.range(0, 52)))));
        }
        s.note("c", [&](std::ostream &os) { os << c; });
        s.nontrivial(!allSame(a) || !allSame(b) || !allSame(c));
        const auto got = lanes<V>(fma(toV<V>(a), toV<V>(b), toV<V>(c)));
        for (size_t i = 0; i < N; ++i)
            if (!fmaOk<V>(a[i], b[i], c[i], got[i])) expectEq("fma(a, b, c)", got[i], FmaRef<T>::best(a[i], b[i], c[i]));
    }
};
// known finding: the emulated double fma of a non-finite factor or overflowing partial product
template <class V> struct kf_fma_infinite {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &) { return std::numeric_limits<T>::infinity(); });
        s.nontrivial(true);
        const auto got = lanes<V>(fma(toV<V>(a), V(T(1)), V(T(1))));
        for (size_t i = 0; i < N; ++i) expectEq("fma(inf, 1, 1)", got[i], a[i]);
    }
};
template <class V> struct IntOfV { using type = Vc::SimdArray<int, Tr<V>::N>; };
template <class T> T genNormal(Src &s)
{
    for (int k = 0; k < 4; ++k) {
        const T x = genFinite<T>(s);
        if (std::isnormal(x)) return x;
    }
    return T(1);
}
// every value whose frexp is specified, except denormals (known finding below)
template <class T> T genFrexp(Src &s)
{
    const T x = genVal<T>(s);
    return std::fpclassify(x) == FP_SUBNORMAL ? std::ldexp(x, 2 * FP<T>::mant) : x;
}
template <class V> void frexpCheck(const typename Tr<V>::A &a)
{
    using T = typename Tr<V>::T;
    constexpr size_t N = Tr<V>::N;
    typename IntOfV<V>::type e;
    const auto m = lanes<V>(frexp(toV<V>(a), &e));
    for (size_t i = 0; i < N; ++i) {
        int we;
        const T wm = std::frexp(a[i], &we);
        expectEq("frexp fraction", m[i], wm);
        if (std::isfinite(a[i])) expectEq("frexp exponent", int(e[i]), we);
    }
}
template <class V> struct frexp_op {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", &genFrexp<T>);
        s.nontrivial(!allSame(a));
        frexpCheck<V>(a);
    }
};
template <class V> struct kf_frexp_denormal {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &) { return std::numeric_limits<T>::denorm_min(); });
        s.nontrivial(true);
        frexpCheck<V>(a);
    }
};
template <class V> typename Tr<V>::A ldexpLanes(const typename Tr<V>::A &a, const Arr<int, Tr<V>::N> &e)
{
    const typename IntOfV<V>::type ve(&e[0], Vc::Unaligned);
    return lanes<V>(ldexp(toV<V>(a), ve));
}
// zeros, NaN, infinities and every normal value whose result is normal (denormals, overflow, underflow: known finding below)
template <class V> struct ldexp_op {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", &genFrexp<T>);
        Arr<int, N> e;
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) {
            if (std::isfinite(a[i]) && a[i] != 0) {
                const int lo = 1 - FP<T>::bias - std::ilogb(a[i]), hi = FP<T>::bias - std::ilogb(a[i]);
                switch (s.draw(4)) {
                case 3: e[i] = lo + s.range(0, 3); break;
                case 4: e[i] = hi - s.range(0, 3); break;
                case 2: e[i] = lo + s.range(0, hi - lo); break;
                default: e[i] = std::max(lo, std::min(hi, s.range(0, 80) - 40));
                }
            } else {
                e[i] = s.coin() ? s.range(0, 4 * FP<T>::bias) - 2 * FP<T>::bias : int(s.draw(~0ull));
            }
            want[i] = std::ldexp(a[i], e[i]);
        }
        s.note("e", [&](std::ostream &os) { os << e; });
        s.nontrivial(N == 1 || (!allSame(a) && !allSame(e)));
        expectSame("ldexp(a, e)", ldexpLanes<V>(a, e), want);
    }
};
template <class V> struct kf_ldexp_range {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &) { return T(1); });
        Arr<int, N> e;
        for (size_t i = 0; i < N; ++i) e[i] = FP<T>::bias + 1;  // the smallest power of two that overflows
        s.nontrivial(true);
        const auto got = ldexpLanes<V>(a, e);
        for (size_t i = 0; i < N; ++i) {
            expectEq("ldexp(1, max_exponent)", got[i], std::numeric_limits<T>::infinity());
            e[i] = 1;
            a[i] = std::numeric_limits<T>::denorm_min();
        }
        const auto den = ldexpLanes<V>(a, e);
        for (size_t i = 0; i < N; ++i) expectEq("ldexp(denorm_min, 1)", den[i], std::ldexp(a[i], 1));
        for (size_t i = 0; i < N; ++i) e[i] = -FP<T>::bias - 2, a[i] = T(1.5);
        const auto under = ldexpLanes<V>(a, e);
        for (size_t i = 0; i < N; ++i) expectEq("ldexp(1.5, -bias - 2)", under[i], std::ldexp(a[i], e[i]));
    }
};
template <class V> struct frexp_ldexp {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", &genFrexp<T>);
        s.nontrivial(!allSame(a));
        typename IntOfV<V>::type e;
        const V m = frexp(toV<V>(a), &e);
        for (size_t i = 0; i < N; ++i)
            if (!std::isfinite(a[i])) e[i] = 0;
        expectSame("ldexp(frexp(a))", lanes<V>(ldexp(m, e)), a);
    }
};
template <class V> struct exponent_op {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &q) { return std::fabs(genNormal<T>(q)); });
        s.nontrivial(!allSame(a));
        typename Tr<V>::A want;
        for (size_t i = 0; i < N; ++i) want[i] = T(std::ilogb(a[i]));
        expectSame("exponent(a)", lanes<V>(exponent(toV<V>(a))), want);
    }
};
template <class V> struct classify {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a");
        s.nontrivial(!allSame(a));
        const auto c = fpclassify(toV<V>(a));
        for (size_t i = 0; i < N; ++i) expectEq("fpclassify", int(c[i]), int(std::fpclassify(a[i])));
    }
};
#ifndef PBT_TEMPLATES_ONLY
template <class L> struct WithAbs;
template <class V, class... R> struct WithAbs<List<V, R...>> {
    using T = typename V::EntryType;
    using type = Concat<typename std::conditional<(std::is_signed<T>::value), List<V>, List<>>::type, typename WithAbs<List<R...>>::type>;
};
template <> struct WithAbs<List<>> { using type = List<>; };
using AbsVectors = typename WithAbs<AllVectors>::type;
REG_ALL(sqrt_exact, AllReals, 1);
REG_ALL(absolute, AbsVectors, 1);
REG_ALL(rounding, AllReals, 1);
REG_ALL(round_even, AllReals, 1);
REG_ALL(copy_sign, AllReals, 0.5);
REG_ALL(min_max, AllVectors, 0.5);
REG_ALL(fma_op, AllVectors, 1);
REG_ALL(frexp_op, AllReals, 1);
REG_ALL(ldexp_op, AllReals, 1);
REG_ALL(frexp_ldexp, AllReals, 0.5);
REG_ALL(exponent_op, AllReals, 0.5);
REG_ALL(classify, AllReals, 0.3);
REG_ALL(kf_frexp_denormal, RealVectors, 0.01);
REG_ALL(kf_ldexp_range, RealVectors, 0.01);
template <class L> struct Emulated;
template <class V, class... R> struct Emulated<List<V, R...>> {
    using type = Concat<typename std::conditional<FmaEmulated<V>::value, List<V>, List<>>::type, typename Emulated<List<R...>>::type>;
};
template <> struct Emulated<List<>> { using type = List<>; };
REG_ALL(kf_fma_infinite, Emulated<AllReals>::type, 0.01);
PBT_MAIN
#endif
