#include "vcgen.h"
// A05: mixed-type operators.  Expected result types follow the documented conversion table.
enum Color { Zero = 0, One = 1, Two = 2, Big = 1000, Neg = -7, Mid = 129 };
template <> struct TName<Color> { static const char *s() { return "enum"; } };

template <class U> struct GenU { static U g(Src &s) { return genVal<U>(s); } };
template <> struct GenU<bool> { static bool g(Src &s) { return s.coin(); } };
template <> struct GenU<Color> {
    static Color g(Src &s) { static const Color c[] = {Zero, One, Two, Big, Neg, Mid}; return c[s.draw(5)]; }
};
// scalar U -> element type E, as a C++ conversion
template <class E, class U> static E conv(U u) { volatile E e = static_cast<E>(u); return e; }
template <class T> static bool divOk(T a, T b)
{
    if (!std::is_integral<T>::value) return true;
    if (b == T(0)) return false;
    return !(std::is_signed<T>::value && b == T(-1) && a == std::numeric_limits<T>::min());
}
template <class R, class X> struct Judge {  // X is not the documented type
    template <class W> static void val(const char *w, const X &, const W &)
    {
        pbt::fail(std::string(w) + ": result has a different type than documented");
    }
    template <class W> static void mask(const char *w, const X &, const W &) { val(w, X(), 0); }
};
template <class R> struct Judge<R, R> {
    template <class W> static void val(const char *w, const R &x, const W &want) { expectSame(w, lanes(x), want); }
    template <class W> static void mask(const char *w, const R &x, const W &want) { expectMask(w, x, want); }
};
template <class R, class X, class W> static void judge(const char *w, const X &x, const W &want) { Judge<R, X>::val(w, x, want); }
template <class R, class X, class W> static void judgeM(const char *w, const X &x, const W &want) { Judge<typename R::Mask, X>::mask(w, x, want); }

template <class V, class R, class X, class Y, class A, bool = std::is_integral<typename R::EntryType>::value> struct Bits {
    static void run(const X &x, const Y &y, const A &a, const A &b)
    {
        A w;
        for (size_t i = 0; i < R::Size; ++i) w[i] = a[i] & b[i];
        judge<R>("x & y", x & y, w);
        for (size_t i = 0; i < R::Size; ++i) w[i] = a[i] | b[i];
        judge<R>("x | y", x | y, w);
        for (size_t i = 0; i < R::Size; ++i) w[i] = a[i] ^ b[i];
        judge<R>("x ^ y", x ^ y, w);
        bool ok = true;
        for (size_t i = 0; i < R::Size; ++i) ok = ok && divOk(a[i], b[i]);
        if (ok) {
            for (size_t i = 0; i < R::Size; ++i) w[i] = a[i] % b[i];
            judge<R>("x % y", x % y, w);
        }
    }
};
template <class V, class R, class X, class Y, class A> struct Bits<V, R, X, Y, A, false> {
    static void run(const X &, const Y &, const A &, const A &) {}
};
// all operators of x (left) and y (right); a, b: their lanes converted to R's element type
template <class V, class R, class X, class Y, class A> static void ops(const X &x, const Y &y, const A &a, const A &b)
{
    using E = typename R::EntryType;
    constexpr size_t N = R::Size;
    A w;
    for (size_t i = 0; i < N; ++i) w[i] = Ar<E>::add(a[i], b[i]);
    judge<R>("x + y", x + y, w);
    for (size_t i = 0; i < N; ++i) w[i] = Ar<E>::sub(a[i], b[i]);
    judge<R>("x - y", x - y, w);
    for (size_t i = 0; i < N; ++i) w[i] = Ar<E>::mul(a[i], b[i]);
    judge<R>("x * y", x * y, w);
    bool ok = true;
    for (size_t i = 0; i < N; ++i) ok = ok && divOk(a[i], b[i]);
    if (ok) {
        for (size_t i = 0; i < N; ++i) { volatile E q = E(a[i] / b[i]); w[i] = q; }
        judge<R>("x / y", x / y, w);
    }
    Bits<V, R, X, Y, A>::run(x, y, a, b);
    Arr<bool, N> m;
#define C(op) for (size_t i = 0; i < N; ++i) m[i] = a[i] op b[i]; judgeM<R>("x " #op " y", x op y, m);
    C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
}
template <class V, class R, class Y, class A> static void compound(const V &v, const Y &y, const A &a, const A &b)
{
    using T = typename V::EntryType;
    using E = typename R::EntryType;
    constexpr size_t N = R::Size;
    Arr<T, N> w;
    for (size_t i = 0; i < N; ++i) w[i] = T(Ar<E>::add(a[i], b[i]));
    { V x = v; x += y; expectSame("x += y", lanes(x), w); }
    for (size_t i = 0; i < N; ++i) w[i] = T(Ar<E>::sub(a[i], b[i]));
    { V x = v; x -= y; expectSame("x -= y", lanes(x), w); }
    for (size_t i = 0; i < N; ++i) w[i] = T(Ar<E>::mul(a[i], b[i]));
    { V x = v; x *= y; expectSame("x *= y", lanes(x), w); }
}
template <class V, class U, class R> struct mix {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        using E = typename R::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "v");
        const U u = GenU<U>::g(s);
        s.note("u", [&](std::ostream &os) { os << u; });
        s.nontrivial(u != U(0));
        Arr<E, N> x, y;
        for (size_t i = 0; i < N; ++i) { x[i] = conv<E>(a[i]); y[i] = conv<E>(u); }
        const V v = toV<V>(a);
        ops<V, R>(v, u, x, y);
        ops<V, R>(u, v, y, x);
        compound<V, R>(v, u, x, y);
        expectSame("V(u)", lanes(V(u)), [&] { Arr<T, N> w; for (size_t i = 0; i < N; ++i) w[i] = conv<T>(u); return w; }());
        expectSame("operand unchanged", lanes(v), a);
    }
};
template <class V, class W, class R> struct mixvec {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        using T2 = typename W::EntryType;
        using E = typename R::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "v");
        auto b = genArr<T2, N>(s, "w");
        s.nontrivial(!allSame(a) || !allSame(b));
        Arr<E, N> x, y;
        for (size_t i = 0; i < N; ++i) { x[i] = conv<E>(a[i]); y[i] = conv<E>(b[i]); }
        const V v = toV<V>(a);
        const W w = toV<W>(b);
        ops<V, R>(v, w, x, y);
        ops<V, R>(w, v, y, x);
        compound<V, R>(v, w, x, y);
        compound<W, R>(w, v, y, x);
    }
};
template <class V, class R, class... Us> struct regMix {
    static int go(double wt)
    {
        int d[] = {0, pbt::reg("mix<" + VName<V>::s() + "," + TName<Us>::s() + ">", &mix<V, Us, R>::run, wt)...};
        return d[0];
    }
};
template <class Abi> static int regAbi()
{
    using D = Vc::Vector<double, Abi>;
    using F = Vc::Vector<float, Abi>;
    using uchar = unsigned char;
    using schar = signed char;
    using ulong = unsigned long;
    using llong = long long;
    using ullong = unsigned long long;
    regMix<D, D, double, float, short, ushort_t, int, uint_t, long, ulong, llong, ullong, Color, bool, schar, uchar>::go(0.3);
    regMix<F, F, float, short, ushort_t, int, uint_t, long, ulong, llong, ullong, Color, bool, schar, uchar>::go(0.3);
    return 0;
}
template <class Abi> static int regAbiInt()
{
    using I = Vc::Vector<int, Abi>;
    using UI = Vc::Vector<uint_t, Abi>;
    using S = Vc::Vector<short, Abi>;
    using US = Vc::Vector<ushort_t, Abi>;
    using uchar = unsigned char;
    using schar = signed char;
    regMix<I, I, int, short, ushort_t, Color, bool, schar, uchar>::go(0.3);
    regMix<I, UI, uint_t>::go(0.5);
    regMix<UI, UI, uint_t, int, short, ushort_t, Color, bool, schar, uchar>::go(0.3);
    regMix<S, S, int, short, Color, bool, schar, uchar>::go(0.3);
    regMix<S, US, uint_t, ushort_t>::go(0.5);
    regMix<US, US, uint_t, int, short, ushort_t, Color, bool, schar, uchar>::go(0.3);
    pbt::reg("mixvec<" + VName<I>::s() + "," + VName<UI>::s() + ">", &mixvec<I, UI, UI>::run, 1);
    pbt::reg("mixvec<" + VName<S>::s() + "," + VName<US>::s() + ">", &mixvec<S, US, US>::run, 1);
    return 0;
}
static int r0 = regAbi<SAbi>() + regAbiInt<SAbi>();
#ifndef Vc_IMPL_Scalar
static int r1 = regAbi<Vc::VectorAbi::Sse>() + regAbiInt<Vc::VectorAbi::Sse>();
#endif
#ifdef Vc_IMPL_AVX
static int r2 = regAbi<Vc::VectorAbi::Avx>();
#endif
#ifdef Vc_IMPL_AVX2
static int r3 = regAbiInt<Vc::VectorAbi::Avx>();
#endif
PBT_MAIN
