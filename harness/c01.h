#pragma once
#include "vcgen.h"
// C01: simd_cast / converting constructors / reinterpret_components_cast.
namespace cc
{
template <class To, class From> struct Conv {  // is From -> To defined by C++?
    static bool ok(From x)
    {
        if (std::is_floating_point<From>::value && std::is_integral<To>::value) {
            if (!(x == x)) return false;
            const long double t = std::trunc((long double)x);
            return t >= (long double)std::numeric_limits<To>::min() && t <= (long double)std::numeric_limits<To>::max();
        }
        if (std::is_same<From, double>::value && std::is_same<To, float>::value)
            return x != x || std::isinf(double(x)) || std::fabs(double(x)) <= double(std::numeric_limits<float>::max());
        if (std::is_integral<From>::value && std::is_integral<To>::value && std::is_signed<To>::value)
            // out of range for a signed type: implementation-defined
            return (long long)(x) >= (long long)(std::numeric_limits<To>::min()) && (long long)(x) <= (long long)(std::numeric_limits<To>::max());
        return true;
    }
    static To go(From x) { volatile To r = static_cast<To>(x); return r; }
};
// values of type T whose conversion to D is defined (and interesting), from construction where possible
template <class D, class T> static T gen(Src &s)
{
    T x;
    if (std::is_floating_point<T>::value && std::is_integral<D>::value && s.oneIn(2)) {
        // around the limits of D, with fractions
        static const double f[] = {0, 0.25, 0.5, 0.75, 0.99, -0.25, -0.5, -0.99};
        const double base = s.coin() ? double(std::numeric_limits<D>::max()) : double(std::numeric_limits<D>::min());
        x = T(base + s.range(0, 4) - 2 + f[s.draw(7)]);
    } else if (std::is_integral<T>::value && std::is_integral<D>::value && s.oneIn(3)) {
        x = T((long long)(s.coin() ? std::numeric_limits<D>::max() : std::numeric_limits<D>::min()) + s.range(0, 4) - 2);
    } else
        x = genVal<T>(s);
    if (Conv<D, T>::ok(x)) return x;
    if (std::is_floating_point<T>::value && std::is_integral<D>::value) {
        // fold into range: random integer of D plus a fraction
        T y = T(genVal<D>(s));
        if (s.coin()) y = T(y * T(0.37));
        if (Conv<D, T>::ok(y)) return y;
        return T(1);
    }
    if (std::is_integral<T>::value) {
        const T y = T(D(x));
        return Conv<D, T>::ok(y) ? y : T(1);
    }
    return T(-1.5);
}
template <class To, class From, size_t K, size_t... I>
static To castN(const From *x, Vc::index_sequence<I...>) { return Vc::simd_cast<To>(x[I]...); }

template <class To, class From, size_t K> struct Up {  // casts with 1..K arguments
    using T = typename To::EntryType;
    using F = typename From::EntryType;
    static void go(const From *x, const F *lanesOf)
    {
        Up<To, From, K - 1>::go(x, lanesOf);
        Arr<T, To::Size> want;
        for (size_t i = 0; i < To::Size; ++i)
            want[i] = i < K * From::Size ? Conv<T, F>::go(lanesOf[i]) : T(0);
        expectSame(K == 1 ? "simd_cast<To>(x)" : "simd_cast<To>(x0, x1, ...)", lanes(castN<To, From, K>(x, Vc::make_index_sequence<K>())), want);
    }
};
template <class To, class From> struct Up<To, From, 0> {
    static void go(const From *, const typename From::EntryType *) {}
};
template <class To, class From, size_t P, bool = (P * To::Size < From::Size && To::Size < From::Size)> struct Down {
    static void go(const From &x, const typename From::EntryType *l)
    {
        using T = typename To::EntryType;
        using F = typename From::EntryType;
        Arr<T, To::Size> want;
        for (size_t i = 0; i < To::Size; ++i)
            want[i] = i + P * To::Size < From::Size ? Conv<T, F>::go(l[i + P * To::Size]) : T(0);
        expectSame("simd_cast<To, offset>(x)", lanes(Vc::simd_cast<To, int(P)>(x)), want);
        Down<To, From, P + 1>::go(x, l);
    }
};
template <class To, class From, size_t P> struct Down<To, From, P, false> {
    static void go(const From &, const typename From::EntryType *) {}
};
// number of sources that still contribute lanes
template <class To, class From> constexpr size_t maxArgs()
{
    return std::is_same<To, From>::value ? 1 : (To::Size + From::Size - 1) / From::Size;
}
template <class To, class From> struct vec {
    static void run(Src &s)
    {
        using T = typename To::EntryType;
        using F = typename From::EntryType;
        constexpr size_t K = maxArgs<To, From>();
        auto a = genArr<F, K * From::Size>(s, "from", gen<T, F>);
        From x[K];
        for (size_t k = 0; k < K; ++k) x[k] = From(&a.d[k * From::Size], Vc::Unaligned);
        s.nontrivial(!allSame(a) || K * From::Size == 1);
        Up<To, From, K>::go(x, a.d);
        Down<To, From, 0>::go(x[0], a.d);
        for (size_t k = 0; k < K; ++k)
            for (size_t i = 0; i < From::Size; ++i) expectEq("source unchanged", F(x[k][i]), a[k * From::Size + i]);
    }
};
// converting constructor (same ABI)
template <class To, class From, class = void> struct ctor { static void run(Src &) {} };
template <class To, class From>
struct ctor<To, From, typename std::enable_if<std::is_constructible<To, From>::value>::type> {
    static void run(Src &s)
    {
        using T = typename To::EntryType;
        using F = typename From::EntryType;
        auto a = genArr<F, From::Size>(s, "from", gen<T, F>);
        s.nontrivial(!allSame(a) || From::Size == 1);
        const From x = toV<From>(a);
        Arr<T, To::Size> want;
        for (size_t i = 0; i < To::Size; ++i) want[i] = i < From::Size ? Conv<T, F>::go(a[i]) : T(0);
        expectSame("To(x)", lanes(To(x)), want);
    }
};
template <class To, class From, size_t K> struct MUp {
    static void go(const From *x, const bool *l)
    {
        MUp<To, From, K / 2>::go(x, l);
        Arr<bool, To::Size> want;
        for (size_t i = 0; i < To::Size; ++i) want[i] = i < K * From::Size && l[i];
        expectMask(K == 1 ? "simd_cast<Mask>(m)" : "simd_cast<Mask>(m0, m1, ...)", castN<To, From, K>(x, Vc::make_index_sequence<K>()), want);
    }
};
template <class To, class From> struct MUp<To, From, 0> { static void go(const From *, const bool *) {} };
template <class To, class From, size_t P, bool = (P * To::Size < From::Size && To::Size < From::Size)> struct MDown {
    static void go(const From &x, const bool *l)
    {
        Arr<bool, To::Size> want;
        for (size_t i = 0; i < To::Size; ++i) want[i] = i + P * To::Size < From::Size && l[i + P * To::Size];
        expectMask("simd_cast<Mask, offset>(m)", Vc::simd_cast<To, int(P)>(x), want);
        MDown<To, From, P + 1>::go(x, l);
    }
};
template <class To, class From, size_t P> struct MDown<To, From, P, false> { static void go(const From &, const bool *) {} };
constexpr size_t minz(size_t a, size_t b) { return a < b ? a : b; }
template <class To, class From> constexpr size_t maskArgs()
{   // one, two and four masks
    return std::is_same<To, From>::value ? 1 : To::Size > 2 * From::Size ? 4 : To::Size > From::Size ? 2 : 1;
}
template <class ToV, class FromV> struct mask {
    static void run(Src &s)
    {
        using To = typename ToV::Mask;
        using From = typename FromV::Mask;
        constexpr size_t K = maskArgs<To, From>();
        auto b = genMaskArr<K * From::Size>(s, "from");
        From x[K];
        size_t cnt = 0;
        for (size_t k = 0; k < K; ++k) {
            Arr<bool, From::Size> p;
            for (size_t i = 0; i < From::Size; ++i) { p[i] = b[k * From::Size + i]; cnt += p[i]; }
            x[k] = toM<From>(p);
        }
        s.nontrivial(cnt > 0 && (cnt < K * From::Size || K * From::Size == 1));
        MUp<To, From, K>::go(x, b.d);
        MDown<To, From, 0>::go(x[0], b.d);
    }
};
template <class To, class From, bool = sizeof(typename To::EntryType) == sizeof(typename From::EntryType) && To::Size == From::Size> struct reinterp {
    static void run(Src &s)
    {
        using T = typename To::EntryType;
        using F = typename From::EntryType;
        auto a = genArr<F, From::Size>(s, "from");
        s.nontrivial(!allSame(a) || From::Size == 1);
        const auto got = lanes(To(Vc::reinterpret_components_cast<To>(toV<From>(a))));
        for (size_t i = 0; i < To::Size; ++i)
            PBT_CHECK(bits(got[i]) == typename BitsOf<T>::type(bits(a[i])), "reinterpret_components_cast changed the bits of lane " << i);
    }
};
template <class To, class From> struct reinterp<To, From, false> { static void run(Src &) {} };

template <class From, class L> struct RegTo;
template <class From, class... To> struct RegTo<From, List<To...>> {
    static void name(const char *k, const std::string &to, void (*f)(Src &), double w)
    {
        pbt::reg(std::string(k) + "<" + to + " <- " + VName<From>::s() + ">", f, w);
    }
    template <class X> static void one()
    {
        name("cast", VName<X>::s(), &vec<X, From>::run, 1);
        name("mask", VName<X>::s(), &mask<X, From>::run, 0.5);
    }
    static int go()
    {
        int d[] = {0, (one<To>(), 0)...};
        (void)d;
        return 0;
    }
    template <class X, class A, class B> static void sameAbi1(const Vc::Vector<A, X> *, const Vc::Vector<B, X> *)
    {
        using ToV = Vc::Vector<A, X>;
        name("ctor", VName<ToV>::s(), &ctor<ToV, From>::run, 0.5);
        if (sizeof(A) == sizeof(B)) name("reinterpret", VName<ToV>::s(), &reinterp<ToV, From>::run, 0.3);
    }
    static void sameAbi1(const void *, const void *) {}
    static int sameAbi()
    {
        int d[] = {0, (sameAbi1(static_cast<const To *>(nullptr), static_cast<const From *>(nullptr)), 0)...};
        (void)d;
        return 0;
    }
};
template <class LF, class LT> struct RegPairs;
template <class... F, class LT> struct RegPairs<List<F...>, LT> {
    static int go()
    {
        int d[] = {0, RegTo<F, LT>::go()..., RegTo<F, LT>::sameAbi()...};
        (void)d;
        return 0;
    }
};
}  // namespace cc
