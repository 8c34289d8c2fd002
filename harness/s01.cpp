#include "vcgen.h"
// S01: loads and stores
static GuardMem guard(2);
static constexpr size_t pow2(size_t n, size_t p = 1) { return p >= n ? p : pow2(n, 2 * p); }
template <class U, class V> static constexpr size_t alignFor() { return pow2(sizeof(U) * V::Size); }
template <class To, class From> static To cvt(From x) { volatile To r = static_cast<To>(x); return r; }

template <class V, class U, class F> static void loadWith(const char *name, const U *p, const Arr<typename V::EntryType, V::Size> &want, F f)
{
    expectSame((std::string("V(mem, ") + name + ")").c_str(), lanes(V(p, f)), want);
    V v = V(typename V::EntryType(1));
    v.load(p, f);
    expectSame((std::string("load(mem, ") + name + ")").c_str(), lanes(v), want);
}
template <class V, class U> struct load {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<U, N>(s, "mem");
        Arr<T, N> w;
        bool diff = false;
        for (size_t i = 0; i < N; ++i) { w[i] = cvt<T>(a[i]); diff = diff || !same(w[i], w[0]); }
        s.nontrivial(N == 1 || diff);
        // position: end of the upper guard page, start after the lower one, or in between
        const size_t al = alignFor<U, V>();
        const int where = s.range(0, 3);
        size_t off = where < 2 ? 0 : s.draw(15);
        U *p = where % 2 == 0 ? guard.atEnd<U>(N + off) : guard.atBegin<U>() + off;
        s.note("at", [&](std::ostream &os) { os << (where % 2 ? "lo+" : "hi-") << off; });
        for (size_t i = 0; i < N; ++i) p[i] = a[i];
        expectSame("V(mem)", lanes(V(static_cast<const U *>(p))), w);
        { V v; v.load(static_cast<const U *>(p)); expectSame("load(mem)", lanes(v), w); }
        loadWith<V, U>("Unaligned", p, w, Vc::Unaligned);
        loadWith<V, U>("Unaligned|PrefetchDefault", p, w, Vc::Unaligned | Vc::PrefetchDefault);
        loadWith<V, U>("Streaming|Unaligned", p, w, Vc::Streaming | Vc::Unaligned);
        if (reinterpret_cast<uintptr_t>(p) % std::max(al, size_t(V::MemoryAlignment)) == 0) {
            loadWith<V, U>("Aligned", p, w, Vc::Aligned);
            loadWith<V, U>("Aligned|Prefetch<1024,4096>", p, w, Vc::Aligned | Vc::Prefetch<1024, 4096>());
            loadWith<V, U>("Streaming", p, w, Vc::Streaming);
            loadWith<V, U>("Streaming|Aligned", p, w, Vc::Streaming | Vc::Aligned);
        }
        for (size_t i = 0; i < N; ++i) PBT_CHECK(bits(p[i]) == bits(a[i]), "memory changed by a load");
    }
};
static const unsigned char kFill = 0xc7;
template <class T> struct Window {  // N elements at p, canaries around as far as the page goes
    unsigned char *b, *e;
    T *p;
    size_t n;
    Window(Src &s, size_t n_, bool forceAligned) : n(n_)
    {
        const bool hi = s.coin();
        size_t off = s.coin() ? 0 : s.draw(31);
        if (forceAligned) off = off / 16 * 16;
        b = reinterpret_cast<unsigned char *>(guard.lo());
        e = reinterpret_cast<unsigned char *>(guard.hi());
        p = hi ? guard.atEnd<T>(n + off) : guard.atBegin<T>() + off;
        if (hi) b = reinterpret_cast<unsigned char *>(p) - 128; else e = reinterpret_cast<unsigned char *>(p + n) + 128;
        if (b < reinterpret_cast<unsigned char *>(guard.lo())) b = reinterpret_cast<unsigned char *>(guard.lo());
        s.note("at", [&](std::ostream &os) { os << (hi ? "hi-" : "lo+") << off; });
        reset();
    }
    void reset() { std::memset(b, kFill, size_t(e - b)); }
    void check(const char *what, const std::vector<T> &want)
    {
        for (unsigned char *q = b; q < e; ++q) {
            const bool inside = q >= reinterpret_cast<unsigned char *>(p) && q < reinterpret_cast<unsigned char *>(p + n);
            if (!inside && *q != kFill) {
                std::ostringstream os;
                os << what << ": byte at offset " << (q - reinterpret_cast<unsigned char *>(p)) << " relative to mem was written (" << n * sizeof(T) << " bytes belong to the store)";
                pbt::fail(os.str());
            }
        }
        for (size_t i = 0; i < n; ++i)
            if (!(bits(p[i]) == bits(want[i]))) {
                std::ostringstream os;
                os << what << ": mem[" << i << "] is ";
                printVal(os, p[i]);
                os << ", expected ";
                printVal(os, want[i]);
                pbt::fail(os.str());
            }
    }
};
template <class V> struct store {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto a = genArr<T, N>(s, "v");
        auto k = genMaskArr<N>(s, "mask");
        s.nontrivial(N == 1 || (!allSame(a) && !allSame(k)));
        const V v = toV<V>(a);
        const auto m = toM<typename V::Mask>(k);
        Window<T> w(s, N, s.coin());
        std::vector<T> full(N), part(N);
        T fill;
        std::memset(&fill, kFill, sizeof fill);
        for (size_t i = 0; i < N; ++i) { full[i] = a[i]; part[i] = k[i] ? a[i] : fill; }
#define ST(name, ...) w.reset(); v.store(w.p, ##__VA_ARGS__); w.check("store(mem" name ")", full);
#define SM(name, ...) w.reset(); v.store(w.p, m, ##__VA_ARGS__); w.check("store(mem, mask" name ")", part);
        ST("")
        ST(", Unaligned", Vc::Unaligned)
        ST(", Unaligned|PrefetchDefault", Vc::Unaligned | Vc::PrefetchDefault)
        ST(", Streaming|Unaligned", Vc::Streaming | Vc::Unaligned)
        SM("")
        SM(", Unaligned", Vc::Unaligned)
        SM(", Streaming|Unaligned", Vc::Streaming | Vc::Unaligned)
        if (reinterpret_cast<uintptr_t>(w.p) % std::max(alignFor<T, V>(), size_t(V::MemoryAlignment)) == 0) {
            ST(", Aligned", Vc::Aligned)
            ST(", Streaming", Vc::Streaming)
            ST(", Streaming|Aligned|Prefetch", Vc::Streaming | Vc::Aligned | Vc::PrefetchDefault)
            SM(", Aligned", Vc::Aligned)
            SM(", Streaming", Vc::Streaming)
            SM(", Streaming|Aligned", Vc::Streaming | Vc::Aligned)
        }
        expectSame("vector unchanged", lanes(v), a);
    }
};
// history: overlapping plain and masked stores into one buffer, then loads from it, against an array
template <class V> struct history {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size, L = 3 * N + 5;
        std::vector<T> model(L, T(0));
        T *mem = guard.atEnd<T>(L);
        for (size_t i = 0; i < L; ++i) mem[i] = T(0);
        const int n = s.range(1, 10);
        s.nontrivial(n > 2);
        for (int j = 0; j < n; ++j) {
            const size_t off = s.draw(L - N);
            const int op = s.range(0, 2);
            s.note("op", [&](std::ostream &os) { os << op << "@" << off; });
            if (op == 0) {
                auto a = genArr<T, N>(s, "v");
                toV<V>(a).store(mem + off, Vc::Unaligned);
                for (size_t i = 0; i < N; ++i) model[off + i] = a[i];
            } else if (op == 1) {
                auto a = genArr<T, N>(s, "v");
                auto k = genMaskArr<N>(s, "mask");
                toV<V>(a).store(mem + off, toM<typename V::Mask>(k), Vc::Unaligned);
                for (size_t i = 0; i < N; ++i) if (k[i]) model[off + i] = a[i];
            } else {
                Arr<T, N> w;
                for (size_t i = 0; i < N; ++i) w[i] = model[off + i];
                expectSame("load", lanes(V(mem + off, Vc::Unaligned)), w);
            }
        }
        for (size_t i = 0; i < L; ++i) PBT_CHECK(bits(mem[i]) == bits(model[i]), "memory differs from the model");
    }
};
#ifndef PBT_TEMPLATES_ONLY
template <class V, class... Us> static int regLoad()
{
    int d[] = {0, pbt::reg("load<" + VName<V>::s() + "," + TName<Us>::s() + ">", &load<V, Us>::run, 0.4)...};
    return d[0];
}
using schar = signed char;
using uchar = unsigned char;
template <class A> static int regReal()
{
    regLoad<Vc::Vector<double, A>, double, float, uint_t, int, ushort_t, short>();
    regLoad<Vc::Vector<float, A>, float, double, uint_t, int, ushort_t, short, uchar, schar>();
    return 0;
}
template <class A> static int regInt()
{
    regLoad<Vc::Vector<int, A>, int, uint_t, ushort_t, short, uchar, schar>();
    regLoad<Vc::Vector<uint_t, A>, uint_t, ushort_t, uchar>();
    regLoad<Vc::Vector<short, A>, short, uchar, schar>();
    regLoad<Vc::Vector<ushort_t, A>, ushort_t, uchar>();
    return 0;
}
static int r0 = regReal<SAbi>() + regInt<SAbi>() + regLoad<Vc::Vector<double, SAbi>, uchar, schar>();
#ifndef Vc_IMPL_Scalar
static int r1 = regReal<Vc::VectorAbi::Sse>() + regInt<Vc::VectorAbi::Sse>();
#endif
#ifdef Vc_IMPL_AVX
static int r2 = regReal<Vc::VectorAbi::Avx>() + regLoad<Vc::Vector<double, Vc::VectorAbi::Avx>, uchar, schar>();
#endif
#ifdef Vc_IMPL_AVX2
static int r3 = regInt<Vc::VectorAbi::Avx>();
#endif
REG_ALL(store, AllVectors, 1);
REG_ALL(history, AllVectors, 0.5);
PBT_MAIN
#endif
