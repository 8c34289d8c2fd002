// Z01: simdize<T> holds size() independent objects of type T
#include "vcgen.h"
#include <tuple>
#include <vector>

// ---- shapes --------------------------------------------------------------------------------------
template <class T> struct P1 { T x; Vc_SIMDIZE_INTERFACE((x)); };
template <class T> struct P3 {
    T x, y, z;
    Vc_SIMDIZE_INTERFACE((x, y, z));
    // a member function that becomes vectorized
    T dot(const P3 &o) const { return T(x * o.x + y * o.y) + z * o.z; }
    P3 flipped() const { return P3{z, y, x}; }
};
template <class T, class U> struct P2 { T a; U b; Vc_SIMDIZE_INTERFACE((a, b)); };
// listed in an order that is not the order in memory, with a member that is not part of the interface
template <class T> struct R3 {
    T a, b, c;
    R3() : a(), b(), c() {}
    R3(const T &cc, const T &aa) : a(aa), b(T(7)), c(cc) {}
    Vc_SIMDIZE_INTERFACE((c, a));
};
template <class T, class U, class W> struct Mix {
    T i; U f; W d;
    Vc_SIMDIZE_INTERFACE((i, f, d));
};
template <class T, int X> struct WithValue { T p, q; Vc_SIMDIZE_INTERFACE((p, q)); };

template <class S> constexpr size_t members(int (*)[S::tuple_size]) { return S::tuple_size; }
template <class S> constexpr size_t members(...) { return std::tuple_size<S>::value; }
template <size_t I, class X> auto mget(X &x, int) -> decltype(x.template vc_get_<I>()) { return x.template vc_get_<I>(); }
template <size_t I, class X> auto mget(X &x, long) -> decltype((std::get<I>(x))) { return std::get<I>(x); }
template <class X> struct Naked { using type = typename std::remove_cv<typename std::remove_reference<X>::type>::type; };
template <class S, size_t I> using MemT = typename Naked<decltype(mget<I>(std::declval<S &>(), 0))>::type;
template <class T> struct GenMember { static T gen(Src &s) { return genVal<T>(s); } };
template <> struct GenMember<bool> { static bool gen(Src &s) { return s.coin(); } };

template <class S, size_t K, size_t I = 0> struct Each {
    static void gen(Src &q, S &x) { mget<I>(x, 0) = GenMember<MemT<S, I>>::gen(q); Each<S, K, I + 1>::gen(q, x); }
    static void set(S &x, int k) { mget<I>(x, 0) = MemT<S, I>(k); Each<S, K, I + 1>::set(x, k); }
    static bool eq(const S &a, const S &b)
    {
        return same(MemT<S, I>(mget<I>(a, 0)), MemT<S, I>(mget<I>(b, 0))) && Each<S, K, I + 1>::eq(a, b);
    }
    static void print(std::ostream &os, const S &a)
    {
        os << (I ? "," : "(");
        printVal(os, MemT<S, I>(mget<I>(a, 0)));
        Each<S, K, I + 1>::print(os, a);
    }
    // the members of lane i of the vectorized object
    template <class V> static void lane(const V &v, size_t i, S &x)
    {
        const auto &mv = mget<I>(v, 0);
        mget<I>(x, 0) = mv[i];
        Each<S, K, I + 1>::lane(v, i, x);
    }
    template <class V> static void setLane(V &v, size_t i, const S &x)
    {
        mget<I>(v, 0)[i] = mget<I>(x, 0);
        Each<S, K, I + 1>::setLane(v, i, x);
    }
};
template <class S, size_t K> struct Each<S, K, K> {
    static void gen(Src &, S &) {}
    static void set(S &, int) {}
    static bool eq(const S &, const S &) { return true; }
    static void print(std::ostream &os, const S &) { os << ")"; }
    template <class V> static void lane(const V &, size_t, S &) {}
    template <class V> static void setLane(V &, size_t, const S &) {}
};

// ---- which operations exist ---------------------------------------------------------------------
enum { Broadcast = 1, Cond = 2, Shift = 4, Memory = 8, Full = 15 };
template <class S_, size_t N_, int Ops_, bool Plain_ = true> struct Shape {
    using S = S_;
    static constexpr size_t N = N_;
    static constexpr int Ops = Ops_;
    static constexpr bool Plain = Plain_;  // all members listed in memory order
};
template <class S> struct SName;
template <class T> struct SName<P1<T>> { static std::string s() { return std::string("P1_") + TName<T>::s(); } };
template <class T> struct SName<P3<T>> { static std::string s() { return std::string("P3_") + TName<T>::s(); } };
template <class T> struct SName<R3<T>> { static std::string s() { return std::string("R3_") + TName<T>::s(); } };
template <class T, class U> struct SName<P2<T, U>> { static std::string s() { return std::string("P2_") + TName<T>::s() + "_" + TName<U>::s(); } };
template <class T, class U, class W> struct SName<Mix<T, U, W>> { static std::string s() { return std::string("Mix_") + TName<T>::s() + "_" + TName<U>::s() + "_" + TName<W>::s(); } };
template <class T, int X> struct SName<WithValue<T, X>> { static std::string s() { return std::string("WithValue_") + TName<T>::s() + "_" + std::to_string(X); } };
template <class T, size_t M> struct SName<std::array<T, M>> { static std::string s() { return std::string("array_") + TName<T>::s() + "_" + std::to_string(M); } };
template <class T, class U> struct SName<std::pair<T, U>> { static std::string s() { return std::string("pair_") + TName<T>::s() + "_" + TName<U>::s(); } };
template <class... Ts> struct TupName { static std::string s() { return ""; } };
template <class T, class... Ts> struct TupName<T, Ts...> { static std::string s() { return std::string("_") + TName<T>::s() + TupName<Ts...>::s(); } };
template <class... Ts> struct SName<std::tuple<Ts...>> { static std::string s() { return "tuple" + TupName<Ts...>::s(); } };
template <class S, size_t N, int O, bool P> struct VName<Shape<S, N, O, P>> { static std::string s() { return SName<S>::s() + "_" + std::to_string(N); } };

template <class Sh> struct objects {
    using S = typename Sh::S;
    using V = Vc::simdize<S, Sh::N>;
    static constexpr size_t N = V::size();
    static constexpr size_t K = members<S>(nullptr);
    using E = Each<S, K>;
    static_assert(Sh::N == 0 || N == Sh::N, "requested width");
    static_assert(std::is_same<typename V::scalar_type, S>::value, "");

    static S gen(Src &s, const char *name)
    {
        S x = S();
        E::gen(s, x);
        s.note(name, [&](std::ostream &os) { E::print(os, x); });
        return x;
    }
    static void expectObj(const char *what, size_t i, const S &got, const S &want)
    {
        if (E::eq(got, want)) return;
        std::ostringstream os;
        os << what << ": object " << i << " is ";
        E::print(os, got);
        os << ", expected ";
        E::print(os, want);
        pbt::fail(os.str());
    }
    static void check(const char *what, const V &v, const S *m)
    {
        for (size_t i = 0; i < N; ++i) {
            S x = S();
            E::lane(v, i, x);
            expectObj(what, i, x, m[i]);
        }
    }
    // broadcast constructor
    static void broadcast(std::integral_constant<int, Broadcast>, const S &x, V &v, S *m)
    {
        v = V(x);
        for (size_t i = 0; i < N; ++i) m[i] = x;
        const V w = x;
        check("broadcast", w, m);
    }
    static void broadcast(std::integral_constant<int, 0>, const S &, V &, S *) {}
    static void generator(std::integral_constant<int, Broadcast>, const S *src, V &v, S *m)
    {
        size_t calls = 0;
        bool order = true;
        v = V([&](size_t i) { order = order && i == calls; ++calls; return src[i]; });
        PBT_CHECK(calls == N && order, "generator constructor: " << calls << " calls, in order: " << order);
        for (size_t i = 0; i < N; ++i) m[i] = src[i];
    }
    static void generator(std::integral_constant<int, 0>, const S *, V &, S *) {}
    static void conditional(std::integral_constant<int, Cond>, Src &s, V &v, S *m, const V &w, const S *wm)
    {
        using F = Vc::simdize<float, N>;
        using Mask = typename F::mask_type;
        const auto k = genMaskArr<Mask::Size>(s, "mask");
        const Mask mask = toM<Mask>(k);
        Vc::where(mask) | v = w;
        for (size_t i = 0; i < N; ++i)
            if (k[i]) m[i] = wm[i];
    }
    static void conditional(std::integral_constant<int, 0>, Src &, V &, S *, const V &, const S *) {}
    static void shift(std::integral_constant<int, Shift>, Src &s, V &v, S *m)
    {
        const int a = s.range(0, int(2 * N)) - int(N);
        s.note("amount", [&](std::ostream &os) { os << a; });
        S r[N];
        for (int i = 0; i < int(N); ++i) {
            E::set(r[i], 0);
            if (i + a >= 0 && i + a < int(N)) r[i] = m[i + a];
        }
        const V before = v;
        V q = v;
        if (s.coin()) q = shifted(v, a);
        else q = Vc::decorate(v).shifted(a);
        check("argument of shifted", before, m);
        v = q;
        for (size_t i = 0; i < N; ++i) m[i] = r[i];
    }
    static void shift(std::integral_constant<int, 0>, Src &, V &, S *) {}
    static void memory(std::integral_constant<int, Memory>, Src &s, V &v, S *m, V &w, S *wm)
    {
        static GuardMem g(1);
        const bool end = s.coin();
        S *p = end ? g.atEnd<S>(N) : g.atBegin<S>();
        std::memset(static_cast<void *>(g.lo()), 0xa5, g.size());
        S other = S();
        E::set(other, 3);
        for (size_t i = 0; i < N; ++i) p[i] = other;
        const std::vector<char> before(g.lo(), g.hi());
        if (s.coin()) store_interleaved(v, p);
        else Vc::decorate(v).store(p);
        for (size_t i = 0; i < N; ++i) expectObj("stored object", i, p[i], m[i]);
        const char *a = g.lo(), *b = reinterpret_cast<const char *>(p), *e = b + N * sizeof(S);
        for (size_t i = 0; i < before.size(); ++i)
            PBT_CHECK((a + i >= b && a + i < e) || a[i] == before[i], "store changed a byte outside of the objects");
        // load_interleaved of 3, 5, 6, 7 members reads past the last object: this is the finding I01
        // kf_overread, so the objects don't end at the end of the accessible memory here
        if (K == 3 || K == 5 || K == 6 || K == 7) p = g.atBegin<S>();
        for (size_t i = 0; i < N; ++i) {
            const size_t j = size_t(s.draw(N - 1));
            p[i] = m[j];
            wm[i] = m[j];
        }
        if (s.coin()) load_interleaved(w, p);
        else Vc::decorate(w).load(p);
        check("load", w, wm);
    }
    static void memory(std::integral_constant<int, 0>, Src &, V &, S *, V &, S *) {}

    static void run(Src &s)
    {
        V v[2];
        S m[2][N];
        for (int q = 0; q < 2; ++q)
            for (size_t i = 0; i < N; ++i) {
                m[q][i] = gen(s, q ? "w" : "v");
                E::setLane(v[q], i, m[q][i]);
            }
        bool allEq = N > 1;
        for (size_t i = 1; i < N; ++i) allEq = allEq && E::eq(m[0][i], m[0][0]);
        s.nontrivial(!allEq);
        check("initial", v[0], m[0]);
        const int steps = s.range(1, 8);
        for (int st = 0; st < steps; ++st) {
            const int q = int(s.draw(1)), p = int(s.draw(1));
            const size_t i = s.draw(N - 1), j = s.draw(N - 1);
            const char *what = "";
            V &x = v[q];
            switch (s.draw(12)) {
            case 0: {
                what = "assign";
                const S o = gen(s, what);
                assign(x, i, o);
                m[q][i] = o;
                break;
            }
            case 1: {
                what = "decorate(v)[i] = x";
                const S o = gen(s, what);
                auto d = Vc::decorate(x);
                d[i] = o;
                m[q][i] = o;
                break;
            }
            case 2: {
                what = "extract";
                expectObj(what, i, extract(x, i), m[q][i]);
                const V &c = x;
                expectObj("const decorate(v)[i]", i, Vc::decorate(c)[i], m[q][i]);
                const S o = Vc::decorate(x)[i];
                expectObj("decorate(v)[i]", i, o, m[q][i]);
                break;
            }
            case 3: {
                what = "swap with a scalar object";
                S o = gen(s, what);
                const S o0 = o;
                switch (s.draw(2)) {
                case 0: swap(x, i, o); break;
                case 1: std::swap(Vc::decorate(x)[i], o); break;
                default: std::swap(o, Vc::decorate(x)[i]); break;
                }
                expectObj("scalar after swap", i, o, m[q][i]);
                m[q][i] = o0;
                break;
            }
            case 4: {
                what = "swap of two lanes";
                if (s.coin()) swap(x, i, v[p], j);
                else std::swap(Vc::decorate(x)[i], Vc::decorate(v[p])[j]);
                std::swap(m[q][i], m[p][j]);
                break;
            }
            case 5: {
                what = "copy";
                v[q] = V(v[p]);
                for (size_t l = 0; l < N; ++l) m[q][l] = m[p][l];
                break;
            }
            case 6: {
                what = "broadcast";
                const S o = gen(s, what);
                broadcast(std::integral_constant<int, Sh::Ops & Broadcast>(), o, x, m[q]);
                break;
            }
            case 7: {
                what = "generator";
                S src[N];
                for (size_t l = 0; l < N; ++l) src[l] = gen(s, what);
                generator(std::integral_constant<int, Sh::Ops & Broadcast>(), src, x, m[q]);
                break;
            }
            case 8: case 9:
                what = "where(mask) | v = w";
                conditional(std::integral_constant<int, Sh::Ops & Cond>(), s, x, m[q], v[p], m[p]);
                break;
            case 10:
                what = "shifted";
                shift(std::integral_constant<int, Sh::Ops & Shift>(), s, x, m[q]);
                break;
            default:
                what = "load_interleaved/store_interleaved";
                memory(std::integral_constant<int, Sh::Ops & Memory>(), s, x, m[q], v[1 - q], m[1 - q]);
                break;
            }
            s.noteStr(what);
            check(what, v[0], m[0]);
            check(what, v[1], m[1]);
        }
    }
};
// member functions of the template compute for every object what they compute for the scalar object
template <class Sh> struct member_functions {
    using S = typename Sh::S;
    using T = MemT<S, 0>;
    using V = Vc::simdize<S, Sh::N>;
    using O = objects<Sh>;
    static constexpr size_t N = V::size();
    static void run(Src &s)
    {
        V v, w;
        S m[N], k[N];
        for (size_t i = 0; i < N; ++i) {
            Each<S, 3>::gen(s, m[i]);
            Each<S, 3>::gen(s, k[i]);
            assign(v, i, m[i]);
            assign(w, i, k[i]);
        }
        s.nontrivial(N == 1 || !Each<S, 3>::eq(m[0], m[N - 1]));
        const auto r = v.dot(w);
        for (size_t i = 0; i < N; ++i) {
            const S &a = m[i], &b = k[i];
            expectEq("member function", T(r[i]), exact(a, b));
        }
        const V f(v.flipped());
        for (size_t i = 0; i < N; ++i) O::expectObj("member function returning an object", i, extract(f, i), m[i].flipped());
    }
    template <class U> static typename std::enable_if<std::is_integral<U>::value, U>::type exact(const P3<U> &a, const P3<U> &b)
    {
        using W = unsigned long long;
        return U(W(a.x) * W(b.x) + W(a.y) * W(b.y) + W(a.z) * W(b.z));
    }
    template <class U> static typename std::enable_if<std::is_floating_point<U>::value, U>::type exact(const P3<U> &a, const P3<U> &b)
    {
        volatile U x = a.x * b.x, y = a.y * b.y, z = a.z * b.z;
        volatile U xy = x + y;
        volatile U r = xy + z;
        return r;
    }
};
constexpr int NoBool = Full, Bools = Shift * 0 + 0;
using Same = List<Shape<P1<float>, 0, NoBool>, Shape<P3<float>, 0, NoBool>, Shape<P3<double>, 0, NoBool>, Shape<P3<int>, 0, NoBool>, Shape<P3<uint_t>, 0, NoBool>,
                  Shape<P3<short>, 0, NoBool>, Shape<P3<ushort_t>, 0, NoBool>, Shape<R3<float>, 0, NoBool>, Shape<R3<short>, 0, NoBool>,
                  Shape<WithValue<int, 5>, 0, NoBool>, Shape<std::array<float, 3>, 0, NoBool>, Shape<std::array<short, 5>, 0, NoBool>, Shape<std::array<int, 8>, 0, NoBool>,
                  Shape<std::array<double, 9>, 0, NoBool>, Shape<std::pair<int, int>, 0, NoBool>, Shape<std::tuple<float, float, float>, 0, NoBool>, Shape<std::tuple<ushort_t, ushort_t>, 0, NoBool>>;
using Mixed = List<Shape<P2<float, int>, 0, NoBool>, Shape<P2<int, float>, 0, NoBool>, Shape<P2<float, short>, 0, NoBool>, Shape<P2<short, float>, 0, NoBool>, Shape<P2<double, float>, 0, NoBool>,
                   Shape<Mix<int, float, double>, 0, NoBool>, Shape<Mix<double, short, uint_t>, 0, NoBool>, Shape<std::pair<double, int>, 0, NoBool>,
                   Shape<std::tuple<double, float, int, short>, 0, NoBool>, Shape<std::tuple<float, uint_t>, 0, NoBool>, Shape<std::tuple<ushort_t, double>, 0, NoBool>,
                   Shape<std::tuple<int, bool>, 0, Bools>, Shape<P2<float, bool>, 0, Bools>, Shape<Mix<bool, double, short>, 0, Bools>>;
using Sized = List<Shape<P3<float>, 1, NoBool>, Shape<P3<float>, 2, NoBool>, Shape<P3<float>, 3, NoBool>, Shape<P3<float>, 4, NoBool>, Shape<P3<float>, 8, NoBool>, Shape<P3<float>, 11, NoBool>,
                   Shape<P3<short>, 4, NoBool>, Shape<P3<short>, 9, NoBool>, Shape<P3<short>, 16, NoBool>, Shape<P3<double>, 2, NoBool>, Shape<P3<double>, 5, NoBool>, Shape<P3<int>, 6, NoBool>,
                   Shape<P2<double, short>, 2, NoBool>, Shape<P2<double, short>, 7, NoBool>, Shape<Mix<uint_t, ushort_t, float>, 3, NoBool>, Shape<Mix<uint_t, ushort_t, float>, 12, NoBool>,
                   Shape<std::tuple<int, double>, 5, NoBool>, Shape<std::tuple<float, float>, 6, NoBool>, Shape<std::array<ushort_t, 4>, 7, NoBool>, Shape<std::tuple<float, bool, short>, 5, Bools>>;
using Pts = List<Shape<P3<float>, 0, NoBool>, Shape<P3<double>, 0, NoBool>, Shape<P3<int>, 0, NoBool>, Shape<P3<uint_t>, 0, NoBool>, Shape<P3<short>, 0, NoBool>, Shape<P3<ushort_t>, 0, NoBool>,
                 Shape<P3<float>, 5, NoBool>, Shape<P3<double>, 3, NoBool>, Shape<P3<uint_t>, 7, NoBool>>;
#if Z01_PART == 0
REG_ALL(objects, Same, 1);
#elif Z01_PART == 1
REG_ALL(objects, Mixed, 1);
#else
REG_ALL(objects, Sized, 1);
REG_ALL(member_functions, Pts, 0.5);
#endif
PBT_MAIN
