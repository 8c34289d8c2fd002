#include "vcgen.h"
#include <Vc/array>
#include <Vc/vector>
#include <Vc/span>
#include <deque>
// S04: subscripting containers with index vectors, against scalar subscripting
namespace ss
{
template <class T> struct Plain3 { T x, y, z; };
template <class T> struct Pair { T re, im; };
template <class T> struct Quad { T x, y, z, w; };
template <class T, size_t A = alignof(T)> struct alignas(A > alignof(short) ? A : alignof(short)) Mixed {
    T a;
    char x;
    T b;
    short y;
    T c;
    char z;
};
template <class T> struct alignas(8) Outer {
    double x0;
    Mixed<T> p;
    char x1;
    Mixed<T> q;
    T r;
};
template <class T> struct RowS {
    T head;
    T data[5];
    T tail;
};
constexpr size_t L = 37;
template <class X> static void randomBytes(Src &s, X &x)
{
    static_assert(std::is_trivially_copyable<X>::value, "");
    uint64_t z = s.draw(~0ull);
    unsigned char *p = reinterpret_cast<unsigned char *>(&x);
    for (size_t i = 0; i < sizeof x; ++i) {
        if (i % 8 == 0) z = pbt::mix64(z);
        p[i] = static_cast<unsigned char>(z >> (8 * (i % 8)));
    }
}
template <class V> struct Cx {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    using IT = Vc::SimdArray<int, N>;
    Arr<bool, N> k;
    Arr<int, N> ix, jx;
    Arr<T, N> a, old;
    bool masked;
    typename V::Mask m;
    Cx(Src &s, size_t len, size_t len2)
    {
        masked = s.coin();
        for (size_t i = 0; i < N; ++i) k[i] = true;
        if (masked) k = genMaskArr<N>(s, "mask");
        a = genArr<T, N>(s, "v");
        old = genArr<T, N>(s, "old");
        // distinct (for the stores), wild where unselected
        std::vector<int> perm(len);
        for (size_t i = 0; i < len; ++i) perm[i] = int(i);
        for (size_t i = 0; i < N; ++i) {
            std::swap(perm[i], perm[i + s.draw(len - 1 - i)]);
            ix[i] = perm[i];
            jx[i] = int(s.draw(len2 - 1));
            if (!k[i]) ix[i] = int(s.draw(1)) ? 900000 : -900000;
        }
        s.note("indexes", [&](std::ostream &os) { os << ix << " inner " << jx; });
        m = toM<typename V::Mask>(k);
        s.nontrivial(N == 1 || !allSame(k) || !masked);
    }
    IT iv() const { return IT([&](int i) { return ix[size_t(i)]; }); }
    IT jv() const { return IT([&](int i) { return jx[size_t(i)]; }); }
};
// R: read access path applied to a container; scalar(c, i, j): reference to the scalar object
#define PATH(name_, vec_, scal_)                                                                    \
    struct name_ {                                                                                  \
        template <class C, class IV, class JV, class F> static void vec(C &c, const IV &i, const JV &j, F f) { (void)j; f([&]() -> decltype(auto) { return vec_; }); } \
        template <class C> static auto &scal(C &c, size_t i, size_t j) { (void)j; return scal_; }   \
    };

template <class V, class Cont, class Read, class Write, class Scal>
static void both(Cx<V> &x, Cont &c, Read rd, Write wr, Scal sc, const char *what)
{
    using T = typename V::EntryType;
    constexpr size_t N = V::Size;
    Cont before = c;
    Arr<T, N> w;
    for (size_t i = 0; i < N; ++i) w[i] = x.k[i] ? sc(c, size_t(x.ix[i]), size_t(x.jx[i])) : x.old[i];
    V v = toV<V>(x.old);
    rd(v, c);
    expectSame((std::string("read ") + what).c_str(), lanes(v), w);
    const size_t bytes = sizeof(*std::addressof(c[0])) * c.size();
    PBT_CHECK(std::memcmp(std::addressof(c[0]), std::addressof(before[0]), bytes) == 0, what << ": container changed by a read");
    wr(toV<V>(x.a), c);
    for (size_t i = 0; i < N; ++i)
        if (x.k[i]) sc(before, size_t(x.ix[i]), size_t(x.jx[i])) = x.a[i];
    const unsigned char *p = reinterpret_cast<const unsigned char *>(std::addressof(c[0]));
    const unsigned char *q = reinterpret_cast<const unsigned char *>(std::addressof(before[0]));
    for (size_t i = 0; i < bytes; ++i)
        PBT_CHECK(p[i] == q[i], "write " << what << ": byte " << i << " (element " << i / sizeof(c[0]) << ") differs from scalar assignment");
}
#define BOTH(c_, path_, scal_, what_)                                                                          \
    both<V>(x, c_,                                                                                             \
            [&](V &v, auto &c) {                                                                               \
                if (!x.masked) v = V(path_);                                                                   \
                else if (how == 0) where(x.m) | v = path_;                                                     \
                else v(x.m) = path_;                                                                           \
            },                                                                                                 \
            [&](const V &v, auto &c) {                                                                         \
                if (!x.masked) path_ = v;                                                                      \
                else where(x.m) | path_ = v;                                                                   \
            },                                                                                                 \
            [&](auto &c, size_t i, size_t j) -> T & { (void)j; return scal_; }, what_)
#define PRE                                                                                                    \
    using T = typename V::EntryType;                                                                           \
    const int how = s.range(0, 1);                                                                             \
    (void)how;
template <class V> struct plain {
    static void run(Src &s)
    {
        PRE
        Cx<V> x(s, L, 1);
        const auto iv = x.iv();
        Vc::array<T, L> c;
        for (auto &e : c) e = genVal<T>(s);
        BOTH(c, c[iv], c[i], "Vc::array<T>[indexes]");
        Vc::vector<T> d(L);
        for (auto &e : d) e = genVal<T>(s);
        BOTH(d, c[iv], c[i], "Vc::vector<T>[indexes]");
    }
};
template <class V> struct members {
    static void run(Src &s)
    {
        PRE
        Cx<V> x(s, L, 1);
        const auto iv = x.iv();
        using P = Plain3<T>;
        using M = Mixed<T>;
        const int which = s.range(0, 3);
        if (which == 2) {  // sizes that the gather instructions can scale by themselves
            Vc::vector<Pair<T>> c(L);
            for (auto &e : c) randomBytes(s, e);
            BOTH(c, c[iv][&Pair<T>::re], c[i].re, "vector[indexes][&Pair::re]");
            BOTH(c, c[iv][&Pair<T>::im], c[i].im, "vector[indexes][&Pair::im]");
        } else if (which == 3) {
            Vc::array<Quad<T>, L> c;
            randomBytes(s, c);
            BOTH(c, c[iv][&Quad<T>::x], c[i].x, "array[indexes][&Quad::x]");
            BOTH(c, c[iv][&Quad<T>::w], c[i].w, "array[indexes][&Quad::w]");
        } else if (which == 0) {
            Vc::array<P, L> c;
            randomBytes(s, c);
            BOTH(c, c[iv][&P::x], c[i].x, "array[indexes][&P::x]");
            BOTH(c, c[iv][&P::z], c[i].z, "array[indexes][&P::z]");
        } else {
            Vc::vector<M> c(L);
            for (auto &e : c) randomBytes(s, e);
            BOTH(c, c[iv][&M::a], c[i].a, "vector[indexes][&M::a]");
            BOTH(c, c[iv][&M::b], c[i].b, "vector[indexes][&M::b]");
            BOTH(c, c[iv][&M::c], c[i].c, "vector[indexes][&M::c]");
        }
    }
};
template <class V> struct nested_members {
    static void run(Src &s)
    {
        PRE
        Cx<V> x(s, L, 1);
        const auto iv = x.iv();
        using M = Mixed<T>;
        using O = Outer<T>;
        Vc::array<O, L> c;
        randomBytes(s, c);
        BOTH(c, c[iv][&O::p][&M::b], c[i].p.b, "array[indexes][&O::p][&M::b]");
        BOTH(c, c[iv][&O::q][&M::c], c[i].q.c, "array[indexes][&O::q][&M::c]");
        BOTH(c, c[iv][&O::r], c[i].r, "array[indexes][&O::r]");
    }
};
template <class V> struct nested_arrays {
    static void run(Src &s)
    {
        PRE
        Cx<V> x(s, L, 5);
        const auto iv = x.iv();
        const auto jv = x.jv();
        using R = RowS<T>;
        const size_t jc = s.draw(4);
        switch (s.range(0, 2)) {
        case 0: {
            Vc::array<R, L> c;
            randomBytes(s, c);
            BOTH(c, c[iv][&R::data][jc], c[i].data[jc], "array[indexes][&R::data][j]");
            BOTH(c, c[iv][&R::data][jv], c[i].data[j], "array[indexes][&R::data][indexes2]");
            BOTH(c, c[iv][&R::tail], c[i].tail, "array[indexes][&R::tail]");
            break;
        }
        case 1: {
            if (s.coin()) {
                Vc::array<Vc::array<T, 4>, L> d;
                randomBytes(s, d);
                for (size_t i = 0; i < x.jx.size(); ++i) if (x.jx[i] > 3) x.jx[i] = 2;
                const auto jw = x.jv();
                const size_t jd = jc & 3;
                BOTH(d, c[iv][jd], c[i][jd], "array<array<4>>[indexes][j]");
                BOTH(d, c[iv][jw], c[i][j], "array<array<4>>[indexes][indexes2]");
                break;
            }
            Vc::array<Vc::array<T, 5>, L> c;
            randomBytes(s, c);
            BOTH(c, c[iv][jc], c[i][jc], "array<array>[indexes][j]");
            BOTH(c, c[iv][jv], c[i][j], "array<array>[indexes][indexes2]");
            break;
        }
        default: {
            Vc::vector<std::array<T, 5>> c(L);
            for (auto &e : c) randomBytes(s, e);
            BOTH(c, c[iv][jc], c[i][jc], "vector<std::array>[indexes][j]");
            BOTH(c, c[iv][jv], c[i][j], "vector<std::array>[indexes][indexes2]");
        }
        }
    }
};
// other containers / index types, reading only
template <class V> struct others {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        Cx<V> x(s, L, 1);
        for (size_t i = 0; i < N; ++i) if (!x.k[i]) x.ix[i] = 3;
        Vc::array<T, L> c;
        for (auto &e : c) e = genVal<T>(s);
        Arr<T, N> w;
        for (size_t i = 0; i < N; ++i) w[i] = c[size_t(x.ix[i])];
        std::array<int, N> sa;
        int ca[N];
        for (size_t i = 0; i < N; ++i) sa[i] = ca[i] = x.ix[i];
        { V v = c[sa]; expectSame("array[std::array]", lanes(v), w); }
        { V v = c[ca]; expectSame("array[int[]]", lanes(v), w); }
        { const Vc::array<T, L> &cc = c; V v = cc[x.iv()]; expectSame("const array[indexes]", lanes(v), w); }
        { Vc::span<T, L> sp(c); V v = sp[x.iv()]; expectSame("span[indexes]", lanes(v), w); }
        { Vc::span<T> sp(&c[0], L); V v = sp[x.iv()]; expectSame("dynamic span[indexes]", lanes(v), w); }
        { Vc::span<const T> sp(&c[0], L); V v = sp[x.iv()]; expectSame("const span[indexes]", lanes(v), w); }
        { Vc::SimdArray<short, N> h([&](int i) { return short(x.ix[size_t(i)]); }); V v = c[h]; expectSame("array[short indexes]", lanes(v), w); }
        { using SV = Vc::Common::AdaptSubscriptOperator<std::vector<T>>; SV d(c.begin(), c.end()); V v = d[x.iv()]; expectSame("adapted vector[indexes]", lanes(v), w); }
    }
};
// the older spelling of the same accesses: gather/scatter members and constructors taking members
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
template <class V, class I> static void deprecatedWith(Src &s, Cx<V> &x, const I &iv, const char *kind)
{
    using T = typename V::EntryType;
    constexpr size_t N = V::Size;
    using M = Mixed<T>;
    using O = Outer<T>;
    Vc::array<M, L> c1;
    randomBytes(s, c1);
    Vc::array<O, L> c2;
    randomBytes(s, c2);
    const bool masked = x.masked;
    const bool ctor = s.coin();
    auto expectRead = [&](const char *what, const V &v, auto f) {
        Arr<T, N> w;
        for (size_t i = 0; i < N; ++i) w[i] = x.k[i] ? f(size_t(x.ix[i]), size_t(x.jx[i])) : ctor ? T(0) : x.old[i];
        Arr<T, N> g = lanes(v);
        if (masked && ctor)
            for (size_t i = 0; i < N; ++i) if (!x.k[i]) g[i] = T(0);
        expectSame((std::string(kind) + " " + what).c_str(), g, w);
    };
#define READ(what_, scal_, ...)                                                    \
    {                                                                              \
        V v = toV<V>(x.old);                                                       \
        if (ctor && masked) { V u(__VA_ARGS__, x.m); v = u; }                      \
        else if (ctor) { V u(__VA_ARGS__); v = u; }                                \
        else if (masked) v.gather(__VA_ARGS__, x.m);                               \
        else v.gather(__VA_ARGS__);                                                \
        expectRead(what_, v, [&](size_t i, size_t j) -> T { (void)j; return scal_; }); \
    }
#define WRITE(what_, c_, scal_, ...)                                               \
    {                                                                              \
        unsigned char b[sizeof c_];                                                \
        std::memcpy(b, &c_, sizeof c_);                                            \
        const V v = toV<V>(x.a);                                                   \
        if (masked) v.scatter(__VA_ARGS__, x.m);                                   \
        else v.scatter(__VA_ARGS__);                                               \
        unsigned char got[sizeof c_];                                              \
        std::memcpy(got, &c_, sizeof c_);                                          \
        std::memcpy(static_cast<void *>(&c_), b, sizeof c_);                       \
        for (size_t n = 0; n < N; ++n)                                             \
            if (x.k[n]) {                                                          \
                const size_t i = size_t(x.ix[n]), j = size_t(x.jx[n]);             \
                (void)j;                                                           \
                scal_ = x.a[n];                                                    \
            }                                                                      \
        PBT_CHECK(std::memcmp(got, &c_, sizeof c_) == 0, kind << " scatter " << what_ << ": memory differs from scalar assignment"); \
    }
    const Vc::array<M, L> &k1 = c1;
    const Vc::array<O, L> &k2 = c2;
    READ("gather(p, &M::b, indexes)", k1[i].b, &k1[0], &M::b, iv)
    READ("gather(p, &M::c, indexes)", k1[i].c, &k1[0], &M::c, iv)
    READ("gather(p, &O::p, &M::a, indexes)", k2[i].p.a, &k2[0], &O::p, &M::a, iv)
    READ("gather(p, &O::q, &M::c, indexes)", k2[i].q.c, &k2[0], &O::q, &M::c, iv)
    WRITE("(p, &M::b, indexes)", c1, c1[i].b, &c1[0], &M::b, iv)
    WRITE("(p, &O::q, &M::b, indexes)", c2, c2[i].q.b, &c2[0], &O::q, &M::b, iv)
    WRITE("(p, &O::r, indexes)", c2, c2[i].r, &c2[0], &O::r, iv)
#undef READ
#undef WRITE
}
#pragma GCC diagnostic pop
template <class V> struct deprecated_members {
    static void run(Src &s)
    {
        constexpr size_t N = V::Size;
        Cx<V> x(s, L, 5);
        switch (s.range(0, 2)) {
        case 0: deprecatedWith(s, x, x.iv(), "SimdArray<int> indexes"); break;
        case 1: {
            using I = typename V::IndexType;
            I ix = I::Zero();
            for (size_t i = 0; i < N; ++i) ix[i] = x.ix[i];
            deprecatedWith(s, x, ix, "V::IndexType indexes");
            break;
        }
        default: {
            std::array<int, N> ix;
            for (size_t i = 0; i < N; ++i) ix[i] = x.ix[i];
            deprecatedWith(s, x, ix, "std::array indexes");
        }
        }
    }
};
// large containers and narrow index types: the scaled index does not fit into the index type
template <class T> struct Wide { T a[9]; T x; char c; };
template <class V> struct big {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    static constexpr size_t LB = 40000;
    using W = Wide<T>;
    static Vc::vector<W> &data()
    {
        static Vc::vector<W> c = [] {
            Vc::vector<W> c(LB);
            for (size_t i = 0; i < LB; ++i) {
                for (size_t j = 0; j < 9; ++j) c[i].a[j] = value(i, j);
                c[i].x = value(i, 9);
            }
            return c;
        }();
        return c;
    }
    static T value(size_t i, size_t j) { return static_cast<T>(static_cast<int>(pbt::mix64(i * 16 + j) & 0x7fff)); }
    template <class C, class IV> static void access(C &c, const Arr<size_t, N> &ix, const IV &iv, const Arr<T, N> &a, const Arr<bool, N> &k, bool masked, size_t j, const char *kind)
    {
        const auto m = toM<typename V::Mask>(k);
        Arr<T, N> w;
        const T old = T(5);
        for (size_t i = 0; i < N; ++i) w[i] = masked && !k[i] ? old : value(ix[i], 9);
        V v = V(old);
        if (masked) where(m) | v = c[iv][&W::x];
        else v = V(c[iv][&W::x]);
        expectSame((std::string("read x, ") + kind).c_str(), lanes(v), w);
        for (size_t i = 0; i < N; ++i) w[i] = masked && !k[i] ? old : value(ix[i], j);
        v = V(old);
        if (masked) where(m) | v = c[iv][&W::a][j];
        else v = V(c[iv][&W::a][j]);
        expectSame((std::string("read a[j], ") + kind).c_str(), lanes(v), w);
        // write, then restore
        if (masked) where(m) | c[iv][&W::x] = toV<V>(a);
        else c[iv][&W::x] = toV<V>(a);
        Arr<T, N> g;
        for (size_t i = 0; i < N; ++i) {
            w[i] = masked && !k[i] ? value(ix[i], 9) : a[i];
            g[i] = c[ix[i]].x;
            c[ix[i]].x = value(ix[i], 9);
        }
        expectSame((std::string("write x, ") + kind).c_str(), g, w);
    }
    // every element still has its value?
    static void scan(const char *kind)
    {
        auto &c = data();
        for (size_t i = 0; i < LB; ++i)
            for (size_t j = 0; j < 10; ++j) {
                const T &r = j < 9 ? c[i].a[j] : c[i].x;
                if (!(r == value(i, j))) {
                    const T got = r;
                    (j < 9 ? c[i].a[j] : c[i].x) = value(i, j);
                    PBT_CHECK(false, kind << ": element " << i << " member " << j << " changed to " << +got << " although no index addresses it");
                }
            }
    }
    template <class I, class F> static void typed(Src &s, size_t maxIndex, const char *kind, F f)
    {
        Arr<size_t, N> ix;
        const size_t step = s.draw(maxIndex / N - 1) + 1, base = s.draw(maxIndex - step * (N - 1));
        const bool rev = s.coin();
        for (size_t i = 0; i < N; ++i) ix[i] = base + step * (rev ? N - 1 - i : i);
        std::array<I, N> ai;
        for (size_t i = 0; i < N; ++i) ai[i] = static_cast<I>(ix[i]);
        const bool masked = s.coin();
        const auto k = genMaskArr<N>(s, "mask");
        const auto a = genArr<T, N>(s, "v");
        const size_t j = s.draw(8);
        s.note("indexes", [&](std::ostream &os) { os << kind << ' ' << ix; });
        s.nontrivial(base + step * (N - 1) > 3000 || sizeof(I) == 1);
        auto &c = data();
        f(ai, [&](const auto &iv) { access(c, ix, iv, a, k, masked, j, kind); });
        if (s.draw(15) == 0) scan(kind);
    }
    template <class I> static auto vec(const std::array<I, N> &a) { return Vc::SimdArray<I, N>([&](int i) { return a[size_t(i)]; }); }
    static void run(Src &s)
    {
        switch (s.range(0, 8)) {
        case 0: typed<short>(s, 32767, "SimdArray<short>", [](auto &a, auto f) { f(vec(a)); }); break;
        case 1: typed<unsigned short>(s, LB - 1, "SimdArray<ushort>", [](auto &a, auto f) { f(vec(a)); }); break;
        case 2: typed<int>(s, LB - 1, "SimdArray<int>", [](auto &a, auto f) { f(vec(a)); }); break;
        case 3: typed<unsigned>(s, LB - 1, "SimdArray<uint>", [](auto &a, auto f) { f(vec(a)); }); break;
        case 4: typed<short>(s, 32767, "std::array<short>", [](auto &a, auto f) { f(a); }); break;
        case 5: typed<unsigned short>(s, LB - 1, "std::array<ushort>", [](auto &a, auto f) { f(a); }); break;
        case 6: typed<unsigned char>(s, 255, "std::array<uchar>", [](auto &a, auto f) { f(a); }); break;
        case 7: typed<unsigned short>(s, LB - 1, "Vc::array<ushort>", [](auto &a, auto f) {
            Vc::array<unsigned short, N> b;
            for (size_t i = 0; i < N; ++i) b[i] = a[i];
            f(b);
        }); break;
        default: typed<short>(s, 32767, "short[]", [](auto &a, auto f) {
            short b[N];
            for (size_t i = 0; i < N; ++i) b[i] = a[i];
            f(b);
        }); break;
        }
    }
};
}  // namespace ss
#ifndef PBT_TEMPLATES_ONLY
using ss::plain;
using ss::members;
using ss::nested_members;
using ss::nested_arrays;
using ss::others;
using ss::deprecated_members;
REG_ALL(deprecated_members, SixVectors, 1);
using ss::big;
REG_ALL(big, SixVectors, 1);
REG_ALL(plain, SixVectors, 1);
REG_ALL(members, SixVectors, 1);
REG_ALL(nested_members, SixVectors, 1);
REG_ALL(nested_arrays, SixVectors, 1);
REG_ALL(others, SixVectors, 0.5);
using SA = List<Vc::SimdArray<float, 7>, Vc::SimdArray<int, 9>, Vc::SimdArray<short, 12>, Vc::SimdArray<double, 5>>;
REG_ALL(plain, SA, 1);
REG_ALL(big, SA, 1);
REG_ALL(members, SA, 1);
REG_ALL(nested_arrays, SA, 1);
REG_ALL(deprecated_members, SA, 1);
PBT_MAIN
#endif
