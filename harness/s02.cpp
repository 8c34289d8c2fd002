#include "vcgen.h"
// S02: gathers; S03: scatters share the generators below
namespace gs
{
static GuardMem guard(2);
using schar = signed char;
using uchar = unsigned char;
// value of type U whose conversion to T is defined
template <class T, class U> static U genConvertible(Src &s)
{
    U u = genVal<U>(s);
    if (std::is_floating_point<U>::value && std::is_integral<T>::value) {
        using L = std::numeric_limits<T>;
        // keep strictly inside the range (also of int, through which 16-bit conversions go)
        const double lo = double(L::lowest()), hi = double(L::max());
        const double d = double(u);
        if (!(d > lo - 1 && d < hi + 1)) return U(T(s.draw(100)));
        if (double(U(d)) > hi || double(U(d)) < lo) return U(1);
        if (std::is_same<U, float>::value && sizeof(T) >= 4 && d > hi - 256) return U(2);
    }
    return u;
}
template <class To, class From> static To cvt(From x) { volatile To r = static_cast<To>(x); return r; }

// A region of L elements placed against a guard page (or with slack), addressed relative to a base
// pointer that may lie outside of it, so that indexes may be negative or far from 0.
template <class U> struct Region {
    U *first;
    size_t len;
    int shift;  // element k is base()[k + shift]
    Region(Src &s, size_t l, size_t slackBytes, bool baseInside) : len(l)
    {
        const int where = s.range(0, 2);
        if (where == 0) first = reinterpret_cast<U *>(guard.hi() - slackBytes) - l;
        else if (where == 1) first = guard.atBegin<U>();
        else first = guard.atBegin<U>() + 64 + s.draw(64);
        shift = s.range(0, 3) == 3 ? (baseInside ? -s.range(0, int(l) - 1) : s.range(0, 200) - 100) : 0;
        s.note("place", [&](std::ostream &os) { os << (where == 0 ? "end" : where == 1 ? "begin" : "middle") << " shift " << shift; });
    }
    U *base() const { return reinterpret_cast<U *>(reinterpret_cast<uintptr_t>(first) - uintptr_t(intptr_t(shift) * intptr_t(sizeof(U)))); }
};
constexpr int kWild[] = {0x10000000, -0x10000000, 0x0fffffff, 0x08000001, -0x07654321};

// indexes into [0, len) + shift; wild where the mask is false
template <size_t N> static Arr<int, N> genIndexes(Src &s, size_t len, int shift, const Arr<bool, N> *mask, bool distinct)
{
    Arr<int, N> ix;
    std::vector<int> perm;
    if (distinct) {
        perm.resize(len);
        for (size_t i = 0; i < len; ++i) perm[i] = int(i);
    }
    const int mode = s.range(0, 3);  // 0: consecutive, 1: reversed, else random
    const size_t start = len > N ? s.draw(len - N) : 0;
    for (size_t i = 0; i < N; ++i) {
        size_t k;
        if (mode == 0) k = start + i;
        else if (mode == 1) k = start + N - 1 - i;
        else if (distinct) {
            const size_t j = i + s.draw(len - 1 - i);
            std::swap(perm[i], perm[j]);
            k = size_t(perm[i]);
        } else {
            k = s.draw(len - 1);
        }
        ix[i] = int(k) + shift;
        if (mask && !(*mask)[i]) ix[i] = kWild[s.draw(4)];
    }
    s.note("indexes", [&](std::ostream &os) { os << ix; });
    return ix;
}
// known finding kf_gather16_overread: AVX2 gathers of 8/16-bit elements read 4 bytes per element, so
// keep that many bytes readable behind the last one (and no more)
#ifdef Vc_IMPL_AVX2
template <class V, class U> constexpr size_t slackFor() { return V::Size > 1 && sizeof(U) <= 2 ? 4 - sizeof(U) : 0; }
#else
template <class V, class U> constexpr size_t slackFor() { return 0; }
#endif
#ifdef Vc_USE_SET_GATHERS
constexpr bool kBaseInside = true;  // mem[0] may be read
#else
constexpr bool kBaseInside = false;
#endif

// calls f with each kind of index container
template <size_t N, class F> static void withIndexes(Src &s, const Arr<int, N> &ix, int kind, F f)
{
    using IV = Vc::SimdArray<int, N>;
#ifdef GS_SPLIT_INDEXES  // SimdArray scatters take SIMD types, pointers and std::vector
    if (kind == 1 || kind == 2) {
        s.noteStr("const int *");
        const int *q = ix.d;
        f(q);
        return;
    }
    if (kind == 3 || kind == 5) {
        s.noteStr("std::vector<int>");
        const std::vector<int> q(ix.d, ix.d + N);
        f(q);
        return;
    }
    if (kind == 4) {
        s.noteStr("SimdArray<short>");
        f(Vc::SimdArray<short, N>([&](int i) { return short(ix[size_t(i)]); }));
        return;
    }
    s.noteStr("IndexType");
    f(IV([&](int i) { return ix[size_t(i)]; }));
#else
    switch (kind) {
    default: s.noteStr("IndexType"); f(IV([&](int i) { return ix[size_t(i)]; })); break;
    case 1: {
        s.noteStr("std::array<int>");
        std::array<int, N> a;
        for (size_t i = 0; i < N; ++i) a[i] = ix[i];
        f(a);
        break;
    }
    case 2: {
        s.noteStr("int[]");
        int a[N];
        for (size_t i = 0; i < N; ++i) a[i] = ix[i];
        f(a);
        break;
    }
    case 3: {
        s.noteStr("Vc::array<unsigned>");
        Vc::array<unsigned, N> a;
        for (size_t i = 0; i < N; ++i) a[i] = unsigned(ix[i]);
        f(a);
        break;
    }
    case 4: {
        s.noteStr("SimdArray<short>");
        f(Vc::SimdArray<short, N>([&](int i) { return short(ix[size_t(i)]); }));
        break;
    }
    case 5: {
        s.noteStr("std::array<unsigned char>");
        std::array<unsigned char, N> a;
        for (size_t i = 0; i < N; ++i) a[i] = static_cast<unsigned char>(ix[i]);
        f(a);
        break;
    }
    }
#endif
}
// which kinds are possible for these indexes (selected lanes must survive the narrower type)
template <size_t N> static int genKind(Src &s, const Arr<int, N> &ix, const Arr<bool, N> *mask)
{
    int k = s.range(0, 5);
    for (size_t i = 0; i < N; ++i) {
        if (mask && !(*mask)[i]) continue;
        if (k == 3 && ix[i] < 0) k = 1;
        if (k == 5 && (ix[i] < 0 || ix[i] > 255)) k = 1;
        if (k == 4 && ix[i] != short(ix[i])) k = 0;
    }
    return k;
}
template <class V, class U> static void gatherPlain(Src &s)
{
    using T = typename V::EntryType;
    constexpr size_t N = V::Size;
    const size_t len = N + s.draw(40);
    Region<U> r(s, len, slackFor<V, U>(), kBaseInside);
    std::vector<U> data(len);
    for (size_t i = 0; i < len; ++i) r.first[i] = data[i] = genConvertible<T, U>(s);
    s.note("mem", [&](std::ostream &os) { os << TName<U>::s() << "[" << len << "]={"; for (auto x : data) { printVal(os, x); os << ","; } os << "}"; });
    const auto ix = genIndexes<N>(s, len, r.shift, static_cast<const Arr<bool, N> *>(nullptr), false);
    Arr<T, N> w;
    for (size_t i = 0; i < N; ++i) w[i] = cvt<T>(data[size_t(ix[i] - r.shift)]);
    s.nontrivial(N == 1 || !allSame(w));
    const U *p = r.base();
    withIndexes<N>(s, ix, genKind<N>(s, ix, static_cast<const Arr<bool, N> *>(nullptr)), [&](const auto &iv) {
        expectSame("V(mem, indexes)", lanes(V(p, iv)), w);
        V v = V(T(1));
        v.gather(p, iv);
        expectSame("v.gather(mem, indexes)", lanes(v), w);
    });
    for (size_t i = 0; i < len; ++i) PBT_CHECK(bits(r.first[i]) == bits(data[i]), "gather changed memory");
}
template <class V, class U> static void gatherMasked(Src &s)
{
    using T = typename V::EntryType;
    constexpr size_t N = V::Size;
    const size_t len = N + s.draw(40);
    Region<U> r(s, len, slackFor<V, U>(), kBaseInside);
    std::vector<U> data(len);
    for (size_t i = 0; i < len; ++i) r.first[i] = data[i] = genConvertible<T, U>(s);
    s.note("mem", [&](std::ostream &os) { os << TName<U>::s() << "[" << len << "]={"; for (auto x : data) { printVal(os, x); os << ","; } os << "}"; });
    auto k = genMaskArr<N>(s, "mask");
    auto old = genArr<T, N>(s, "v");
    const auto ix = genIndexes<N>(s, len, r.shift, &k, false);
    Arr<T, N> wz, wo;
    for (size_t i = 0; i < N; ++i) {
        wz[i] = k[i] ? cvt<T>(data[size_t(ix[i] - r.shift)]) : T(0);
        wo[i] = k[i] ? wz[i] : old[i];
    }
    s.nontrivial(N == 1 || !allSame(k));
    const U *p = r.base();
    const auto m = toM<typename V::Mask>(k);
    withIndexes<N>(s, ix, genKind<N>(s, ix, &k), [&](const auto &iv) {
        expectSame("V(mem, indexes, mask)", lanes(V(p, iv, m)), wz);
        V v = toV<V>(old);
        v.gather(p, iv, m);
        expectSame("v.gather(mem, indexes, mask)", lanes(v), wo);
    });
    for (size_t i = 0; i < len; ++i) PBT_CHECK(bits(r.first[i]) == bits(data[i]), "gather changed memory");
}
#define GS_DISPATCH(fn, V)                       \
    switch (s.draw(8)) {                         \
    case 0: return fn<V, typename V::EntryType>(s); \
    case 1: return fn<V, float>(s);              \
    case 2: return fn<V, double>(s);             \
    case 3: return fn<V, int>(s);                \
    case 4: return fn<V, unsigned>(s);           \
    case 5: return fn<V, short>(s);              \
    case 6: return fn<V, unsigned short>(s);     \
    case 7: return fn<V, schar>(s);              \
    default: return fn<V, uchar>(s);             \
    }
template <class V> struct gather {
    static void run(Src &s) { GS_DISPATCH(gatherPlain, V) }
};
template <class V> struct gather_masked {
    static void run(Src &s) { GS_DISPATCH(gatherMasked, V) }
};
}  // namespace gs
#ifndef PBT_TEMPLATES_ONLY
using gs::gather;
using gs::gather_masked;
REG_ALL(gather, AllVectors, 1);
REG_ALL(gather_masked, AllVectors, 1);
// a gather of 8- or 16-bit elements reads nothing behind the last element
template <class V, class U> struct overread {
    static void run(Src &s)
    {
        constexpr size_t N = V::Size;
        U *p = gs::guard.atEnd<U>(N);
        for (size_t i = 0; i < N; ++i) p[i] = U(i + 1);
        auto k = genMaskArr<N>(s, "mask");
        s.nontrivial(k[N - 1]);
        typename V::IndexType iv([](int i) { return i; });
        V v(p, iv, toM<typename V::Mask>(k));
        for (size_t i = 0; i < N; ++i) PBT_CHECK(typename V::EntryType(v[i]) == (k[i] ? typename V::EntryType(i + 1) : 0), i);
    }
};
#ifdef Vc_IMPL_AVX2
static int r_kf = pbt::reg("kf_gather16_overread<short>", &overread<Vc::short_v, short>::run, 0.05) +
                  pbt::reg("kf_gather16_overread<ushort>", &overread<Vc::ushort_v, unsigned short>::run, 0.05) +
                  pbt::reg("kf_gather16_overread<short,schar>", &overread<Vc::short_v, signed char>::run, 0.05);
#endif
PBT_MAIN
#endif
