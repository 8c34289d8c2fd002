#include "vcgen.h"
// R02: lane permutations and index-placing constructors.
template <class V> struct perm {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        constexpr int n = int(N);
        auto a = genArr<T, N>(s, "a");
        auto b = genArr<T, N>(s, "b");
        s.nontrivial(!allSame(a) || N == 1);
        const V v = toV<V>(a), w = toV<V>(b);
        const int amount = s.range(0, 2 * n) - n;
        s.note("amount", [&](std::ostream &os) { os << amount; });
        Arr<T, N> want;
        for (int i = 0; i < n; ++i) want[i] = (i + amount >= 0 && i + amount < n) ? a[i + amount] : T(0);
        expectSame("shifted(n)", lanes(V(v.shifted(amount))), want);
        for (int i = 0; i < n; ++i) {
            const int j = i + amount;
            want[i] = j < 0 ? b[j + n] : j < n ? a[j] : b[j - n];
        }
        expectSame("shifted(n, shiftIn)", lanes(V(v.shifted(amount, w))), want);
        const int rot = s.range(0, 8 * n) - 4 * n;
        s.note("rot", [&](std::ostream &os) { os << rot; });
        for (int i = 0; i < n; ++i) want[i] = a[((i + rot) % n + n) % n];
        expectSame("rotated(n)", lanes(V(v.rotated(rot))), want);
        for (int i = 0; i < n; ++i) want[i] = a[n - 1 - i];
        expectSame("reversed()", lanes(V(v.reversed())), want);
        Arr<T, 2 * N> z;
        for (int i = 0; i < n; ++i) { z[2 * i] = a[i]; z[2 * i + 1] = b[i]; }
        Arr<T, N> lo, hi;
        for (int i = 0; i < n; ++i) { lo[i] = z[i]; hi[i] = z[n + i]; }
        V r0, r1;
        std::tie(r0, r1) = Vc::interleave(v, w);
        expectSame("interleave().first", lanes(r0), lo);
        expectSame("interleave().second", lanes(r1), hi);
        expectSame("interleaveLow", lanes(V(v.interleaveLow(w))), lo);
        expectSame("interleaveHigh", lanes(V(v.interleaveHigh(w))), hi);
        expectSame("operand a unchanged", lanes(v), a);
        expectSame("operand b unchanged", lanes(w), b);
    }
};
template <class V> struct build {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "a");
        s.nontrivial(!allSame(a) || N == 1);
        Arr<T, N> want;
        const T x = a[s.draw(N - 1)];
        for (size_t i = 0; i < N; ++i) want[i] = x;
        expectSame("V(x)", lanes(V(x)), want);
        { V v = toV<V>(a); v = x; expectSame("v = x", lanes(v), want); }
        for (size_t i = 0; i < N; ++i) want[i] = T(0);
        expectSame("V(Zero)", lanes(V(Vc::Zero)), want);
        expectSame("V::Zero()", lanes(V(V::Zero())), want);
        expectSame("V()", lanes(V()), want);
        { V v = toV<V>(a); v.setZero(); expectSame("setZero()", lanes(v), want); }
        for (size_t i = 0; i < N; ++i) want[i] = T(1);
        expectSame("V(One)", lanes(V(Vc::One)), want);
        expectSame("V::One()", lanes(V(V::One())), want);
        for (size_t i = 0; i < N; ++i) want[i] = T(i);
        expectSame("V(IndexesFromZero)", lanes(V(Vc::IndexesFromZero)), want);
        expectSame("V::IndexesFromZero()", lanes(V(V::IndexesFromZero())), want);
        // generators are called with every lane index and the result lands in that lane
        Arr<int, N> calls;
        for (size_t i = 0; i < N; ++i) calls[i] = 0;
        const auto g = [&](size_t i) -> T {
            if (i < N) ++calls[i];
            return a[i];
        };
        expectSame("V::generate", lanes(V(V::generate(g))), a);
        for (size_t i = 0; i < N; ++i) expectEq("generate: calls for the lane", calls[i], 1);
        expectSame("V(generator)", lanes(V([&](int i) -> T { return a[size_t(i)]; })), a);
        { V v([&](int i) -> T { return a[size_t(i)]; }); V u(v); V t; t = u; expectSame("copy", lanes(t), a); }
    }
};
// v.broadcast<I>() (SSE and AVX float/double)
template <class V, size_t I> struct Bc {
    static void go(const V &v, const Arr<typename V::EntryType, V::Size> &a)
    {
        Arr<typename V::EntryType, V::Size> want;
        for (size_t i = 0; i < V::Size; ++i) want[i] = a[I];
        expectSame("broadcast<I>()", lanes(V(v.template broadcast<int(I)>())), want);
        Bc<V, I - 1>::go(v, a);
    }
};
template <class V> struct Bc<V, ~size_t(0)> { static void go(const V &, const Arr<typename V::EntryType, V::Size> &) {} };
template <class V> struct bcast {
    static void run(Src &s)
    {
        const auto a = genArr<typename V::EntryType, V::Size>(s, "a");
        s.nontrivial(!allSame(a));
        Bc<V, V::Size - 1>::go(toV<V>(a), a);
    }
};
// amounts that are compile-time constants take other code paths (__builtin_constant_p)
template <class V, int K, bool End = (K > int(V::Size))> struct ShiftC {
    static void go(const V &v, const V &w, const Arr<typename V::EntryType, V::Size> &a, const Arr<typename V::EntryType, V::Size> &b)
    {
        using T = typename V::EntryType;
        constexpr int n = int(V::Size);
        Arr<T, V::Size> want, cut, rot;
        for (int i = 0; i < n; ++i) {
            const int j = i + K;
            want[i] = j < 0 ? b[j + n] : j < n ? a[j] : b[j - n];
            cut[i] = j < 0 || j >= n ? T(0) : a[j];
            rot[i] = a[(j + n) % n];
        }
        const std::string k = std::to_string(K);
        expectSame(("shifted(" + k + ", shiftIn), constant amount").c_str(), lanes(V(v.shifted(K, w))), want);
        expectSame(("shifted(" + k + "), constant amount").c_str(), lanes(V(v.shifted(K))), cut);
        expectSame(("rotated(" + k + "), constant amount").c_str(), lanes(V(v.rotated(K))), rot);
        ShiftC<V, K + 1>::go(v, w, a, b);
    }
};
template <class V, int K> struct ShiftC<V, K, true> {
    static void go(const V &, const V &, const Arr<typename V::EntryType, V::Size> &, const Arr<typename V::EntryType, V::Size> &) {}
};
template <class V> struct const_amount {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "a");
        auto b = genArr<T, N>(s, "b");
        s.nontrivial(!allSame(a) || N == 1);
        ShiftC<V, -int(N)>::go(toV<V>(a), toV<V>(b), a, b);
    }
};
// mask shifts are covered by M01
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(perm, AllVectors, 4);
REG_ALL(build, AllVectors, 1);
REG_ALL(const_amount, AllVectors, 0.2);
#if !defined Vc_IMPL_Scalar
REG_ALL(bcast, RealVectors, 0.5);
#endif
PBT_MAIN
#endif
