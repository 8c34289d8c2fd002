#include "vcgen.h"
#include <Vc/array>
#include <Vc/vector>
#include <tuple>
// I01: interleaved (array-of-structs) access
#ifndef I01_PART
#define I01_PART 0
#endif
template <class T, size_t N> struct St { T d[N]; };
constexpr size_t kBytes = 64 * 1024;
// pristine pattern and the memory under test; the array of structs ends at (or begins after) a guard page
static GuardMem &mem() { static GuardMem m(kBytes / 4096); return m; }
static char *pristine()
{
    static char *p = [] {
        char *q = static_cast<char *>(malloc(kBytes));
        for (size_t i = 0; i < kBytes; i += 8) {
            const uint64_t z = pbt::mix64(i + 77777);
            std::memcpy(q + i, &z, 8);
        }
        std::memcpy(mem().lo(), q, kBytes);
        return q;
    }();
    return p;
}
template <class V, size_t S> struct Fx {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    using IT = typename V::IndexType;
    using W = Vc::InterleavedMemoryWrapper<St<T, S>, V>;
    using CW = Vc::InterleavedMemoryWrapper<const St<T, S>, V>;
    size_t count;
    St<T, S> *p;
    Arr<int, N> ix;
    size_t first;
    bool dup = false;
    std::vector<char> want;
    // slack: readable bytes behind the last struct
    Fx(Src &s, bool allowDup, size_t slack = 0)
    {
        pristine();
        count = (kBytes - slack) / sizeof(St<T, S>);
        if (s.oneIn(4)) count = size_t(s.range(int(N), int(N) + 40));
        p = s.coin() ? mem().atBegin<St<T, S>>() : mem().atEnd<St<T, S>>(count);
        if (slack && p != mem().atBegin<St<T, S>>())
            p = reinterpret_cast<St<T, S> *>(reinterpret_cast<char *>(p) - slack);
        dup = allowDup && s.oneIn(3);
        const bool edge = s.coin();
        for (size_t i = 0; i < N; ++i) {
            ix[i] = edge ? int(count - 1 - s.draw(N + 3 < count ? N + 3 : count - 1)) : int(s.draw(count - 1));
            if (i && dup && s.coin()) ix[i] = ix[s.draw(i - 1)];
        }
        if (!dup)
            for (size_t i = 0; i < N; ++i)
                for (bool again = true; again;) {
                    again = false;
                    for (size_t j = 0; j < i; ++j)
                        if (ix[j] == ix[i]) {
                            ix[i] = int((size_t(ix[i]) + 1) % count);
                            again = true;
                        }
                }
        first = s.coin() ? count - N - s.draw(std::min<size_t>(3, count - N)) : s.draw(count - N);
        s.note("access", [&](std::ostream &os) { os << count << " structs, indexes " << ix << ", first " << first; });
        s.nontrivial(N == 1 || !allSame(ix));
    }
    IT indexes() const { return IT([&](int i) { return ix[size_t(i)]; }); }
    T ref(size_t st, size_t k) const
    {
        T r;
        std::memcpy(&r, pristine() + (reinterpret_cast<char *>(p + st) - mem().lo()) + k * sizeof(T), sizeof r);
        return r;
    }
    void expectMember(const char *what, const V &v, size_t k, bool successive) const
    {
        const auto a = lanes<V>(v);
        for (size_t i = 0; i < N; ++i) {
            const T w = ref(successive ? first + i : size_t(ix[i]), k);
            if (bits(a[i]) != bits(w)) {
                std::ostringstream os;
                os << what << ": lane " << i << " of vector " << k << " is ";
                printVal(os, a[i]);
                os << ", memory holds ";
                printVal(os, w);
                pbt::fail(os.str());
            }
        }
    }
    // after a write of k vectors
    template <class Vals> void expectMemory(const char *what, const Vals &vals, size_t k, bool successive)
    {
        std::vector<char> w(pristine(), pristine() + kBytes);
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < k; ++j) {
                const size_t st = successive ? first + i : size_t(ix[i]);
                std::memcpy(&w[size_t(reinterpret_cast<char *>(p + st) - mem().lo()) + j * sizeof(T)], &vals[j][i], sizeof(T));
            }
        size_t bad = kBytes;
        if (std::memcmp(w.data(), mem().lo(), kBytes) != 0)
            for (bad = 0; w[bad] == mem().lo()[bad]; ++bad) {}
        std::memcpy(mem().lo(), pristine(), kBytes);
        if (bad != kBytes) {
            const long off = long(bad) - long(reinterpret_cast<char *>(p) - mem().lo());
            const long st = off >= 0 ? off / long(sizeof(St<T, S>)) : -1;
            std::ostringstream os;
            os << what << ": struct " << st << " member " << (off - st * long(sizeof(St<T, S>))) / long(sizeof(T)) << " differs from scalar assignment";
            pbt::fail(os.str());
        }
    }
    ~Fx() {}
};
template <size_t... I> struct Seq {};
template <size_t N, size_t... I> struct MkSeq : MkSeq<N - 1, N - 1, I...> {};
template <size_t... I> struct MkSeq<0, I...> { using type = Seq<I...>; };

template <class V, size_t S, size_t K> struct Acc {
    using F = Fx<V, S>;
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    template <class A, size_t... I> static auto tieAll(A &v, Seq<I...>) { return Vc::tie(v[I]...); }
    template <class W> static void readBy(F &f, W &w, const char *what, int how, typename F::IT iv)
    {
        V v[K];
        const auto sq = typename MkSeq<K>::type();
        if (how == 0) tieAll(v, sq) = w[iv];
        else if (how == 1) tieAll(v, sq) = w.gather(iv);
        else tieAll(v, sq) = w[f.first];
        for (size_t k = 0; k < K; ++k) f.expectMember(what, v[k], k, how == 2);
    }
    template <class W> static void readArray(F &f, W &w, const char *what, int how, typename F::IT iv)
    {
        std::array<V, K> t;
        if (how == 0) t = std::array<V, K>(w[iv]);
        else t = std::array<V, K>(w[f.first]);
        for (size_t k = 0; k < K; ++k) f.expectMember(what, t[k], k, how != 0);
    }
    // known finding (kf_overread): some member counts are read with loads of 4 or 8 elements, which
    // touch memory behind the last struct; every other combination must not
    static constexpr size_t kLoad = N == 1 || sizeof(T) == 8 ? K : K == 3 ? 4 : K == 7 || (sizeof(T) == 2 && K > 4) ? 8 : K;
    static constexpr size_t kSlack = kLoad > S ? (kLoad - S) * sizeof(T) : 0;
    template <class X> static void readConst(F &f, int who, int how, X)
    {
        typename F::W w(f.p);
        readBy(f, w, "read via wrapper", how, f.indexes());
        (void)who;
    }
    // the other kinds of wrapper share the access objects; one member count per struct is enough
    static void readConst(F &f, int who, int how, std::true_type)
    {
        typename F::W w(f.p);
        typename F::CW cw(f.p);
        const typename F::CW &ccw = cw;
        auto m = Vc::make_interleave_wrapper<V>(f.p);
        const auto &c = m;
        if (who == 0) readBy(f, w, "read via wrapper", how, f.indexes());
        else if (who == 1) readBy(f, c, "read via const wrapper", how, f.indexes());
        else if (who == 2) readBy(f, ccw, "read via wrapper of const structs", how, f.indexes());
        else readArray(f, w, "read into std::array", how, f.indexes());
    }
    static void read(Src &s)
    {
        const int how = s.range(0, 2), who = s.range(0, 3);
        F f(s, true, kSlack);
        s.note("how", [&](std::ostream &os) { os << K << " of " << S << " members, access " << how << " through wrapper " << who; });
        readConst(f, who, how, std::integral_constant<bool, (S + 1) / 2 == K || (S == 8 && K == 8)>());
    }
    template <class W, class A, size_t... I> static void assign(W &&w, A &v, Seq<I...>) { std::forward<W>(w) = Vc::tie(v[I]...); }
    static void write(Src &s)
    {
        const int how = s.range(0, 2);
        F f(s, false);
        Arr<T, N> a[K];
        V v[K];
        for (size_t k = 0; k < K; ++k) {
            a[k] = genArr<T, N>(s, "v");
            v[k] = toV<V>(a[k]);
        }
        s.note("how", [&](std::ostream &os) { os << K << " of " << S << " members, write access " << how; });
        typename F::W w(f.p);
        const auto sq = typename MkSeq<K>::type();
        if (how == 0) assign(w[f.indexes()], v, sq);
        else if (how == 1) assign(w[f.first], v, sq);
        else { const V *cv = v; assign(w[f.indexes()], cv, sq); }
        f.expectMemory(how == 1 ? "write successive" : "write by indexes", a, K, how == 1);
    }
};
template <class V, size_t S, size_t K> struct AllK {
    static void pick(Src &s, size_t k, bool wr)
    {
        if (k == K) wr ? Acc<V, S, K>::write(s) : Acc<V, S, K>::read(s);
        else AllK<V, S, K - 1>::pick(s, k, wr);
    }
};
template <class V, size_t S> struct AllK<V, S, 1> {
    static void pick(Src &, size_t, bool) {}
};
// S members, 2..S of them accessed
template <class V, size_t S> struct OneS {
    static void go(Src &s, bool wr)
    {
        constexpr size_t KM = S < 8 ? S : 8;
        AllK<V, S, KM>::pick(s, size_t(KM - s.draw(KM - 2)), wr);
    }
};
template <class V> struct interleaved_read {
    static void run(Src &s)
    {
        switch (s.draw(7)) {
        case 0: OneS<V, 2>::go(s, false); break;
        case 1: OneS<V, 3>::go(s, false); break;
        case 2: OneS<V, 4>::go(s, false); break;
        case 3: OneS<V, 5>::go(s, false); break;
        case 4: OneS<V, 6>::go(s, false); break;
        case 5: OneS<V, 7>::go(s, false); break;
        case 6: OneS<V, 8>::go(s, false); break;
        case 7:
            // larger structs (the index scaling depends on the number of members)
            switch (s.draw(4)) {
            case 0: Acc<V, 11, 3>::read(s); break;
            case 1: Acc<V, 16, 2>::read(s); break;
            case 2: Acc<V, 16, 8>::read(s); break;
            case 3: Acc<V, 9, 4>::read(s); break;
            case 4: Acc<V, 32, 5>::read(s); break;
            }
            break;
        }
    }
};
template <class V> struct interleaved_write {
    static void run(Src &s)
    {
        switch (s.draw(7)) {
        case 0: OneS<V, 2>::go(s, true); break;
        case 1: OneS<V, 3>::go(s, true); break;
        case 2: OneS<V, 4>::go(s, true); break;
        case 3: OneS<V, 5>::go(s, true); break;
        case 4: OneS<V, 6>::go(s, true); break;
        case 5: OneS<V, 7>::go(s, true); break;
        case 6: OneS<V, 8>::go(s, true); break;
        case 7:
            // larger structs (the index scaling depends on the number of members)
            switch (s.draw(4)) {
            case 0: Acc<V, 11, 3>::write(s); break;
            case 1: Acc<V, 16, 2>::write(s); break;
            case 2: Acc<V, 16, 8>::write(s); break;
            case 3: Acc<V, 9, 4>::write(s); break;
            case 4: Acc<V, 32, 5>::write(s); break;
            }
            break;
        }
    }
};
#if I01_PART == 0
REG_ALL(interleaved_read, SixVectors, 1);
#else
REG_ALL(interleaved_write, SixVectors, 1);
#endif
#if !defined Vc_IMPL_Scalar && I01_PART == 0
// known finding: reading K members of structs with exactly K members at the end of readable memory
template <class V, size_t K> struct overread {
    static void run(Src &s)
    {
        Fx<V, K> f(s, false);
        for (size_t i = 0; i < V::Size; ++i) f.ix[i] = int(f.count - V::Size + i);
        f.p = mem().template atEnd<St<typename V::EntryType, K>>(f.count);
        typename Fx<V, K>::W w(f.p);
        Acc<V, K, K>::readBy(f, w, "read", 0, f.indexes());
    }
};
static int r_kf = pbt::reg("kf_overread<float,3>", &overread<Vc::float_v, 3>::run, 0.02) +
                  pbt::reg("kf_overread<float,7>", &overread<Vc::float_v, 7>::run, 0.02) +
                  pbt::reg("kf_overread<short,5>", &overread<Vc::short_v, 5>::run, 0.02);
#endif
PBT_MAIN
