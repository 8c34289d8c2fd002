#include "vcgen.h"
// R01: horizontal reductions.
template <class T, bool = std::is_floating_point<T>::value> struct RedGen {  // integers: anything, exact modulo 2^bits
    static T sum(Src &s) { return genVal<T>(s); }
    static T prod(Src &s) { return genVal<T>(s); }
    static T mm(Src &s) { return genVal<T>(s); }
};
template <class T> struct RedGen<T, true> {
    // multiples of 1/4 below 2^17: every partial sum of <= 64 of them is exact in any association
    static T sum(Src &s) { return s.oneIn(3) ? genSmallInt<T>(s, -20, 20) : T(s.range(0, 200000) - 100000) / T(8); }
    // at most a few factors that are not powers of two: products are exact in any association
    static T prod(Src &s)
    {
        static const T t[] = {1, -1, 2, T(0.5), -2, T(0.25), 4, T(-0.5), 1, 1, 3, 1, T(1.5), 1, 0};
        return t[s.draw(14)];
    }
    static T mm(Src &s)
    {
        T x = genVal<T>(s);
        return x != x ? T(7) : x;
    }
};
// value equality that does not distinguish -0 from +0
template <class T> static void expectVal(const char *what, T got, T want)
{
    if (!(got == want)) expectEq(what, got, want);
}
template <class V, bool = std::is_floating_point<typename V::EntryType>::value> struct Reassoc {
    static void run(Src &) {}
};
template <class V> struct Reassoc<V, true> {
    static void run(Src &s)
    {
        // arbitrary magnitudes: the association is free, the error bound is not
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "general", [](Src &q) {
            const T m = T(q.draw((1u << 24) - 1)) / T(1 << 24);
            return std::ldexp(q.coin() ? -m : m, q.range(0, 40) - 20);
        });
        const V v = toV<V>(a);
        long double sum = 0, abs = 0;
        for (size_t i = 0; i < N; ++i) { sum += a[i]; abs += std::fabs(a[i]); }
        const long double eps = std::numeric_limits<T>::epsilon() / 2, tol = N * eps * abs * 1.01L;
        PBT_CHECK(std::fabs((long double)v.sum() - sum) <= tol, "sum() off by more than any association can be: " << v.sum() << " vs " << double(sum));
    }
};
template <class V> struct reduce {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        using M = typename V::Mask;
        constexpr size_t N = V::Size;
        const auto b = genMaskArr<N>(s, "mask");
        const M m = toM<M>(b);
        size_t cnt = 0;
        for (size_t i = 0; i < N; ++i) cnt += b[i];
        bool triv = true;
        {
            auto a = genArr<T, N>(s, "s", RedGen<T>::sum);
            triv = triv && allSame(a);
            const V v = toV<V>(a);
            T all = 0, sel = 0;
            Arr<T, N> ps;
            for (size_t i = 0; i < N; ++i) {
                all = Ar<T>::add(all, a[i]);
                ps[i] = all;
                if (b[i]) sel = Ar<T>::add(sel, a[i]);
            }
            expectVal("sum()", T(v.sum()), all);
            expectVal("sum(mask)", T(v.sum(m)), sel);
            const auto got = lanes(V(v.partialSum()));
            for (size_t i = 0; i < N; ++i) expectVal("partialSum()", got[i], ps[i]);
            expectSame("operand of sum", lanes(v), a);
        }
        {
            auto a = genArr<T, N>(s, "p", RedGen<T>::prod);
            triv = triv && allSame(a);
            int odd = 0;  // limit the factors with more than one significant bit
            if (std::is_floating_point<T>::value)
                for (size_t i = 0; i < N; ++i)
                    if ((a[i] == T(3) || a[i] == T(1.5)) && ++odd > 12) a[i] = 1;
            const V v = toV<V>(a);
            T all = 1, sel = 1;
            for (size_t i = 0; i < N; ++i) {
                all = Ar<T>::mul(all, a[i]);
                if (b[i]) sel = Ar<T>::mul(sel, a[i]);
            }
            expectVal("product()", T(v.product()), all);
            expectVal("product(mask)", T(v.product(m)), sel);
        }
        {
            auto a = genArr<T, N>(s, "m", RedGen<T>::mm);
            triv = triv && allSame(a);
            const V v = toV<V>(a);
            T lo = a[0], hi = a[0], slo = 0, shi = 0;
            bool any = false;
            for (size_t i = 0; i < N; ++i) {
                lo = std::min(lo, a[i]);
                hi = std::max(hi, a[i]);
                if (b[i]) {
                    slo = any ? std::min(slo, a[i]) : a[i];
                    shi = any ? std::max(shi, a[i]) : a[i];
                    any = true;
                }
            }
            expectVal("min()", T(v.min()), lo);
            expectVal("max()", T(v.max()), hi);
            if (any) {
                expectVal("min(mask)", T(v.min(m)), slo);
                expectVal("max(mask)", T(v.max(m)), shi);
            }
        }
        Reassoc<V>::run(s);
        s.nontrivial(!triv && cnt > 0 && (cnt < N || N == 1));
    }
};
template <class V> struct minmaxindex {
    template <class W> static auto go(Src &s, W *, int) -> decltype(std::declval<W>().minIndex(), void())
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "m", RedGen<T>::mm);
        s.nontrivial(!allSame(a));
        const V v = toV<V>(a);
        size_t lo = 0, hi = 0;
        for (size_t i = 1; i < N; ++i) {
            if (a[i] < a[lo]) lo = i;
            if (a[hi] < a[i]) hi = i;
        }
        const auto mi = v.minIndex();
        const auto ma = v.maxIndex();
        for (size_t i = 0; i < N; ++i) {
            expectVal("minIndex().first", T(mi.first[i]), a[lo]);
            expectVal("maxIndex().first", T(ma.first[i]), a[hi]);
        }
        PBT_CHECK(unsigned(mi.second) < N && a[mi.second] == a[lo], "minIndex().second is " << mi.second);
        PBT_CHECK(unsigned(ma.second) < N && a[ma.second] == a[hi], "maxIndex().second is " << ma.second);
    }
    template <class W> static void go(Src &, W *, long) {}
    static void run(Src &s) { go(s, static_cast<V *>(nullptr), 0); }
};
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(reduce, AllVectors, 4);
REG_ALL(minmaxindex, NativeSix, 1);
PBT_MAIN
#endif
