// P02: stream output, numeric_limits of vector types and Random()
#include "salists.h"
#include <Vc/IO>
#include <Vc/limits>
#include <Vc/Memory>
#include <sstream>

template <class T> struct Fmt {
    std::ios_base::fmtflags f;
    int prec;
    explicit Fmt(Src &s)
    {
        std::ostringstream d;
        f = d.flags();
        prec = 6;
        if (s.oneIn(3)) return;
        if (std::is_floating_point<T>::value) {
            const int k = s.range(0, 3);
            if (k == 1) f |= std::ios::scientific;
            if (k == 2) f |= std::ios::fixed;
            prec = s.range(0, 20);
        } else {
            const int k = s.range(0, 2);
            if (k) f = (f & ~std::ios::basefield) | (k == 1 ? std::ios::hex : std::ios::oct);
            if (s.coin()) f |= std::ios::showbase;
        }
        if (s.coin()) f |= std::ios::showpos;
        if (s.coin()) f |= std::ios::uppercase;
    }
    template <class S> S &apply(S &o) const
    {
        o.flags(f);
        o.precision(prec);
        return o;
    }
    std::string one(T x) const
    {
        std::ostringstream o;
        apply(o) << x;
        return o.str();
    }
};
template <class O> static void same(const O &o, std::ios_base::fmtflags f, int prec)
{
    PBT_CHECK(o.good(), "the stream is in an error state");
    PBT_CHECK(o.flags() == f && o.precision() == prec, "the formatting state of the stream was changed");
}
// the maximal runs of characters that belong to values
static std::vector<std::string> tokens(const std::string &s)
{
    std::vector<std::string> r;
    bool in = false;
    for (char c : s) {
        if (std::isalnum((unsigned char)c) || c == '+' || c == '-' || c == '.') {
            if (!in) r.emplace_back();
            r.back() += c;
            in = true;
        } else
            in = false;
    }
    return r;
}
static void expectTokens(const std::string &s, const std::vector<std::string> &want)
{
    if (tokens(s) != want) {
        std::string w;
        for (auto &x : want) w += x + " ";
        pbt::fail("printed '" + s + "', wanted the values " + w);
    }
}

template <class V, bool = isSA<V>::value> struct Exact { static constexpr bool value = true; };
template <class V> struct Exact<V, true> { static constexpr bool value = false; };

template <class V> struct PrintVector {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        const auto a = genArr<T, V::Size>(s, "a");
        const auto b = genArr<T, V::Size>(s, "b");
        s.nontrivial(!allSame(a) || V::Size == 1);
        const Fmt<T> f(s);
        const V va = toV<V>(a), vb = toV<V>(b);
        std::ostringstream o;
        std::ostream &base = f.apply(o);
        std::ostream *ret = &(base << va);
        PBT_CHECK(ret == &base, "operator<< returns another stream");
        same(o, f.f, f.prec);
        const std::string one = o.str();
        std::vector<std::string> want;
        std::string exact = "[";
        for (size_t i = 0; i < V::Size; ++i) {
            want.push_back(f.one(a.d[i]));
            exact += (i ? ", " : "") + want.back();
        }
        exact += "]";
        if (Exact<V>::value)
            PBT_CHECK(one == exact, "printed '" + one + "', wanted '" + exact + "'");
        else
            expectTokens(one, want);
        // chained output
        o.str("");
        base << vb << '\n' << va << '#';
        std::ostringstream o2;
        f.apply(o2) << vb;
        PBT_CHECK(o.str() == o2.str() + "\n" + one + "#", "chained output differs: '" + o.str() + "'");
        expectSame("the printed vector", lanes(va), a);
    }
};
// V::Mask of a SimdArray is Mask<T, fixed_size<N>>; SimdMaskArray<T, N> has its own operator<<
template <class V> struct PlainMask {
    template <class M> static std::string print(const M &m)
    {
        std::ostringstream o;
        const Vc::SimdMaskArray<typename V::EntryType, V::Size> p(m);
        o << p;
        return o.str();
    }
};
template <class V> struct PrintMask {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        const auto a = genMaskArr<V::Size>(s, "m");
        s.nontrivial(!allSame(a) || V::Size == 1);
        const M m = toM<M>(a);
        std::ostringstream o;
        if (s.coin()) o << std::boolalpha;
        if (s.coin()) o << std::hex << std::showbase << std::showpos;
        const auto f = o.flags();
        std::ostream &base = o;
        std::ostream *ret = &(base << m);
        PBT_CHECK(ret == &base, "operator<< returns another stream");
        same(o, f, 6);
        std::string exact = "m[", bits;
        for (size_t i = 0; i < V::Size; ++i) {
            if (i && i % 4 == 0) exact += ' ';
            exact += a.d[i] ? '1' : '0';
            bits += a.d[i] ? '1' : '0';
        }
        exact += "]";
        if (Exact<V>::value) {
            PBT_CHECK(o.str() == exact, "printed '" + o.str() + "', wanted '" + exact + "'");
        } else {
            std::string got;
            for (char c : o.str())
                if (c == '0' || c == '1') got += c;
            PBT_CHECK(got == bits, "printed '" + o.str() + "', wanted the bits " + bits);
            got.clear();
            for (char c : PlainMask<V>::print(m))
                if (c == '0' || c == '1') got += c;
            PBT_CHECK(got == bits, "SimdMaskArray printed as " + got + ", wanted the bits " + bits);
        }
    }
};
template <class V> struct PrintMemory {
    using T = typename V::EntryType;
    template <class Mem> static void one(Src &s, const Mem &m, const std::vector<T> &all)
    {
        const Fmt<T> f(s);
        std::ostringstream o;
        std::ostream &base = f.apply(o);
        std::ostream *ret = &(base << m);
        PBT_CHECK(ret == &base, "operator<< returns another stream");
        same(o, f.f, f.prec);
        std::vector<std::string> want;
        for (T x : all) want.push_back(f.one(x));
        expectTokens(o.str(), want);
    }
    template <class Mem> static void flat(Src &s, Mem &m, size_t n)
    {
        std::vector<T> all;
        for (size_t i = 0; i < n; ++i) {
            all.push_back(genVal<T>(s));
            m[i] = all[i];
        }
        s.nontrivial(n % V::Size != 0 || V::Size == 1);
        // the last vector is printed with its padding
        for (size_t i = n; i < m.vectorsCount() * V::Size; ++i) {
            m.scalar(i) = T(i);
            all.push_back(T(i));
        }
        one(s, m, all);
    }
    static void run(Src &s)
    {
        switch (s.draw(3)) {
        case 0: {
            Vc::Memory<V, 11> m;
            flat(s, m, 11);
            break;
        }
        case 1: {
            const size_t n = s.range(1, 40);
            s.note("n", [&](std::ostream &o) { o << n; });
            Vc::Memory<V> m(n);
            flat(s, m, n);
            break;
        }
        case 2: {
            Vc::Memory<V, 3, 5> m;
            std::vector<T> all;
            for (size_t r = 0; r < 3; ++r) {
                auto &&row = m[r];
                for (size_t i = 0; i < row.vectorsCount() * V::Size; ++i) {
                    const T x = i < 5 ? genVal<T>(s) : T(i);
                    row.scalar(i) = x;
                    all.push_back(x);
                }
            }
            s.nontrivial(true);
            one(s, m, all);
            break;
        }
        default: {
            Vc::Memory<V, 2, 16> m;
            std::vector<T> all;
            for (size_t r = 0; r < 2; ++r) {
                auto &&row = m[r];
                for (size_t i = 0; i < row.vectorsCount() * V::Size; ++i) {
                    const T x = genVal<T>(s);
                    row.scalar(i) = x;
                    all.push_back(x);
                }
            }
            s.nontrivial(true);
            one(s, m, all);
            break;
        }
        }
    }
};

// ---- numeric_limits --------------------------------------------------------------------------
template <class V> struct Limits {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        using L = std::numeric_limits<V>;
        using S = std::numeric_limits<T>;
        const bool sameConstants = bool(L::is_specialized) && int(L::digits) == int(S::digits) && int(L::digits10) == int(S::digits10) &&
                                   bool(L::is_signed) == bool(S::is_signed) && bool(L::is_integer) == bool(S::is_integer) &&
                                   int(L::radix) == int(S::radix) && bool(L::has_infinity) == bool(S::has_infinity) &&
                                   int(L::max_exponent) == int(S::max_exponent) && int(L::min_exponent) == int(S::min_exponent);
        PBT_CHECK(sameConstants, "the constants of the limits differ");
        const auto a = genArr<T, V::Size>(s, "a");
        s.nontrivial(!allSame(a) || V::Size == 1);
        const V v = toV<V>(a);
        const auto inside = mlanes((v >= L::lowest()) & (v <= L::max()));
        for (size_t i = 0; i < V::Size; ++i)
            if (S::is_integer || std::isfinite(double(a.d[i]))) PBT_CHECK(inside.d[i], "a finite lane is not between lowest() and max()");
        const int which = s.draw(7);
        s.note("which", [&](std::ostream &o) { o << which; });
        V got = V::Zero();
        T want = T();
        switch (which) {
        case 0: got = L::max(); want = S::max(); break;
        case 1: got = L::min(); want = S::min(); break;
        case 2: got = L::lowest(); want = S::lowest(); break;
        case 3: got = L::epsilon(); want = S::epsilon(); break;
        case 4: got = L::round_error(); want = S::round_error(); break;
        case 5: got = L::infinity(); want = S::infinity(); break;
        case 6: got = L::quiet_NaN(); want = S::quiet_NaN(); break;
        case 7: got = L::denorm_min(); want = S::denorm_min(); break;
        }
        typename Tr<V>::A w;
        for (size_t i = 0; i < V::Size; ++i) w.d[i] = want;
        expectSame("numeric_limits", lanes(got), w);
    }
};

// ---- Random ------------------------------------------------------------------------------------
// A history of Random() calls of this and of other types in any order. The probability that a good generator fails
// one of the (very loose) statistical checks is below 2^-100.
template <class V> __attribute__((noinline)) V rnd() { return V::Random(); }
template <class V, bool = std::is_floating_point<typename V::EntryType>::value> struct Judge {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    unsigned long long ones[N], zeros[N];
    Judge() { std::memset(ones, 0, sizeof(ones)); std::memset(zeros, 0, sizeof(zeros)); }
    void add(size_t lane, T x)
    {
        ones[lane] |= (unsigned long long)(typename std::make_unsigned<T>::type)(x);
        zeros[lane] |= ~(unsigned long long)(typename std::make_unsigned<T>::type)(x);
    }
    void finish(size_t)
    {
        const unsigned long long all = (~0ull) >> (64 - sizeof(T) * 8);
        for (size_t i = 0; i < N; ++i)
            PBT_CHECK((ones[i] & all) == all && (zeros[i] & all) == all, "a bit of the random integers of lane " + std::to_string(i) + " never changes");
    }
};
template <class V> struct Judge<V, true> {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    unsigned bins[N][4];
    Judge() { std::memset(bins, 0, sizeof(bins)); }
    void add(size_t lane, T x)
    {
        if (!(x >= T(0) && x < T(1))) {
            std::ostringstream o;
            o.precision(20);
            o << "random number " << x << " in lane " << lane << " is not in [0, 1)";
            pbt::fail(o.str());
        }
        ++bins[lane][int(x * 4)];
    }
    void finish(size_t)
    {
        for (size_t i = 0; i < N; ++i)
            for (int k = 0; k < 4; ++k) PBT_CHECK(bins[i][k] > 0, "no random number of lane " + std::to_string(i) + " in quarter " + std::to_string(k));
    }
};
template <class V> struct Random {
    static void other(Src &s)
    {
        switch (s.draw(5)) {
        case 0: rnd<Vc::float_v>(); break;
        case 1: rnd<Vc::double_v>(); break;
        case 2: rnd<Vc::int_v>(); break;
        case 3: rnd<Vc::ushort_v>(); break;
        case 4: rnd<Vc::SimdArray<float, 7>>(); break;
        default: rnd<Vc::SimdArray<short, 12>>(); break;
        }
    }
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        const int mix = s.draw(3);  // how often other types interfere
        const size_t calls = 300;
        s.note("mix", [&](std::ostream &o) { o << mix; });
        Judge<V> j;
            std::vector<T> hist;
        for (size_t c = 0; c < calls; ++c) {
            if (mix == 1 && c % 16 == 0) other(s);
            if (mix == 2 && c % 4 == 0) other(s);
            if (mix == 3)
                switch (c % 3) {  // a fixed interleaving
                case 0: rnd<Vc::double_v>(); break;
                case 1: rnd<Vc::uint_v>(); break;
                }
            const auto a = lanes(rnd<V>());
            for (size_t i = 0; i < V::Size; ++i) {
                j.add(i, a.d[i]);
                hist.push_back(a.d[i]);
            }
        }
        s.nontrivial(true);
        j.finish(calls);
        // neither constant across calls nor across lanes, and no two lanes are copies of each other
        size_t rep = 0;
        for (size_t c = 1; c < calls; ++c) rep += std::memcmp(&hist[c * V::Size], &hist[(c - 1) * V::Size], V::Size * sizeof(T)) == 0;
        PBT_CHECK(rep < calls / 4, "consecutive calls return the same vector");
        for (size_t i = 0; i < V::Size; ++i)
            for (size_t k = 0; k < i; ++k) {
                size_t eq = 0;
                for (size_t c = 0; c < calls; ++c) eq += hist[c * V::Size + i] == hist[c * V::Size + k];
                PBT_CHECK(eq < calls / 4, "lanes " + std::to_string(k) + " and " + std::to_string(i) + " hold the same random numbers");
            }
    }
};

// more entries than any of the short lists has: the output is not limited to what fits one register
using PV = Concat<AllVectors, SAAll, List<Vc::SimdArray<float, 37>, Vc::SimdArray<short, 66>>>;
REG_ALL(PrintVector, PV, 4);
REG_ALL(PrintMask, PV, 4);
REG_ALL(PrintMemory, AllVectors, 4);
#ifndef P02_NO_LIMITS
REG_ALL(Limits, AllVectors, 4);
#endif
REG_ALL(Random, PV, 1);
PBT_MAIN
