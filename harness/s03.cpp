// S03: scatters (generators shared with S02)
#ifdef PBT_TEMPLATES_ONLY
#include "s02.cpp"
#else
#define PBT_TEMPLATES_ONLY
#include "s02.cpp"
#undef PBT_TEMPLATES_ONLY
#endif
namespace gs
{
// T -> U conversion must be defined
template <class V, class U, bool Masked> static void scatterCase(Src &s)
{
    using T = typename V::EntryType;
    constexpr size_t N = V::Size;
    const size_t len = N + s.draw(40);
    Region<U> r(s, len, 0, true);
    for (char *q = guard.lo(); q != guard.hi(); ++q) *q = char(0x5a);
    std::vector<U> model(len);
    for (size_t i = 0; i < len; ++i) r.first[i] = model[i] = genVal<U>(s);
    auto a = genArr<T, N>(s, "v", [](Src &q) { return genConvertible<U, T>(q); });
    Arr<bool, N> k;
    for (size_t i = 0; i < N; ++i) k[i] = true;
    if (Masked) k = genMaskArr<N>(s, "mask");
    s.note("type", [&](std::ostream &os) { os << TName<U>::s() << "[" << len << "]"; });
    const bool distinct = s.range(0, 3) != 3;
    const auto ix = genIndexes<N>(s, len, r.shift, Masked ? &k : nullptr, distinct);
    s.nontrivial(N == 1 || (!allSame(a) && (!Masked || !allSame(k))));
    const V v = toV<V>(a);
    const auto m = toM<typename V::Mask>(k);
    U *p = r.base();
    withIndexes<N>(s, ix, genKind<N>(s, ix, Masked ? &k : nullptr), [&](const auto &iv) {
        if (Masked) v.scatter(p, iv, m);
        else v.scatter(p, iv);
    });
    // every element holds its old value if not addressed, else the value of a lane that addresses it
    for (size_t e = 0; e < len; ++e) {
        bool addressed = false, ok = false;
        for (size_t i = 0; i < N; ++i)
            if (k[i] && size_t(ix[i] - r.shift) == e) {
                addressed = true;
                ok = ok || same(cvt<U>(a[i]), r.first[e]);
            }
        if (!addressed) ok = bits(r.first[e]) == bits(model[e]);
        PBT_CHECK(ok, "element " << e << (addressed ? " does not hold a value of a lane addressing it" : " was changed although no lane addresses it") << ", value " << +r.first[e]);
    }
    for (char *q = guard.lo(); q != guard.hi(); ++q) {
        if (q >= reinterpret_cast<char *>(r.first) && q < reinterpret_cast<char *>(r.first + len)) continue;
        PBT_CHECK(*q == char(0x5a), "byte " << (q - reinterpret_cast<char *>(r.first)) << " outside of the array was changed");
    }
    expectSame("vector unchanged", lanes(v), a);
}
template <class V, class U> static void scatterPlain(Src &s) { scatterCase<V, U, false>(s); }
template <class V, class U> static void scatterMasked(Src &s) { scatterCase<V, U, true>(s); }
template <class V> struct scatter {
    static void run(Src &s) { GS_DISPATCH(scatterPlain, V) }
};
template <class V> struct scatter_masked {
    static void run(Src &s) { GS_DISPATCH(scatterMasked, V) }
};
// scatter followed by a gather with the same indexes gives the vector back
template <class V> struct roundtrip {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        const size_t len = N + s.draw(20);
        Region<T> r(s, len, slackFor<V, T>(), true);
        for (size_t i = 0; i < len; ++i) r.first[i] = T(0);
        const int n = s.range(1, 4);
        s.nontrivial(n > 1);
        for (int j = 0; j < n; ++j) {
            auto a = genArr<T, N>(s, "v");
            const auto ix = genIndexes<N>(s, len, r.shift, static_cast<const Arr<bool, N> *>(nullptr), true);
            const typename V::IndexType iv([&](int i) { return ix[size_t(i)]; });
            toV<V>(a).scatter(r.base(), iv);
            expectSame("gather after scatter", lanes(V(static_cast<const T *>(r.base()), iv)), a);
        }
    }
};
}  // namespace gs
#ifndef PBT_TEMPLATES_ONLY
using gs::scatter;
using gs::scatter_masked;
using gs::roundtrip;
REG_ALL(scatter, AllVectors, 1);
REG_ALL(scatter_masked, AllVectors, 1);
REG_ALL(roundtrip, AllVectors, 0.5);
PBT_MAIN
#endif
