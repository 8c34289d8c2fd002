// K03: Vc::array, Vc::span, Vc::vector and makeContainer against std models
#include "vcgen.h"
#include <Vc/array>
#include <Vc/span>
#include <Vc/vector>
#include <Vc/Allocator>
#include <Vc/Utils>
#include <array>
#include <list>
#include <deque>
#include <string>
#include <utility>

template <class T> static typename std::enable_if<std::is_arithmetic<T>::value, T>::type elem(Src &s) { return T(s.range(0, 6) - (std::is_signed<T>::value ? 3 : 0)); }
template <class T> static typename std::enable_if<std::is_same<T, std::string>::value, T>::type elem(Src &s) { return std::string(s.draw(40), char('a' + s.draw(3))); }
template <class T> static typename std::enable_if<std::is_same<T, std::pair<int, double>>::value, T>::type elem(Src &s) { return std::make_pair(s.range(0, 2), double(s.range(0, 3))); }

template <class A, class B> static void sameSeq(const char *what, const A &a, const B &b)
{
    auto i = a.begin();
    auto j = b.begin();
    size_t k = 0;
    for (; i != a.end() && j != b.end(); ++i, ++j, ++k) PBT_CHECK(*i == *j, what << ": element " << k << " differs");
    PBT_CHECK(i == a.end() && j == b.end(), what << ": lengths differ");
}

// ---------------------------------------------------------------- array
template <class T, size_t N> struct ArrayTest {
    using A = Vc::array<T, N>;
    using M = std::array<T, N>;
    static void full(const A &a, const M &m)
    {
        sameSeq("array", a, m);
        expectEq("size()", size_t(a.size()), N);
        expectEq("max_size()", size_t(a.max_size()), N);
        PBT_CHECK(a.empty() == (N == 0), "empty()");
        PBT_CHECK(a.front() == m.front() && a.back() == m.back(), "front()/back() of a const array");
        PBT_CHECK(a.data() == &*a.begin() && a.cbegin() == a.begin() && a.cend() == a.end() && size_t(a.end() - a.begin()) == N, "data()/begin()/end()");
        std::vector<T> r(a.rbegin(), a.rend()), mr(m.rbegin(), m.rend()), cr(a.crbegin(), a.crend());
        PBT_CHECK(r == mr && cr == mr, "reverse iteration");
        A w(a);
        std::vector<T> wr(w.rbegin(), w.rend());
        PBT_CHECK(wr == mr, "reverse iteration of a mutable array");
        const T moved = std::get<N - 1>(std::move(w));
        PBT_CHECK(moved == m[N - 1], "std::get of an rvalue");
        std::vector<T> adl;
        for (auto i = begin(w); i + 1 != end(w); ++i) adl.push_back(*i);
        PBT_CHECK(adl.size() == N - 1 && std::equal(adl.begin(), adl.end(), m.begin()), "begin/end of a mutable array");
        adl.clear();
        for (auto i = begin(a); i != end(a); ++i) adl.push_back(*i);
        sameSeq("begin(array)", adl, m);
        for (size_t i = 0; i < N; ++i) PBT_CHECK(a[i] == m[i] && a.at(i) == m[i] && a[int(i)] == m[i] && a[(unsigned char)(i)] == m[i], "element " << i);
        PBT_CHECK(std::get<0>(a) == m[0] && std::get<N - 1>(a) == m[N - 1], "std::get");
    }
    static void run(Src &s)
    {
        static_assert(std::tuple_size<A>::value == N && std::is_same<typename std::tuple_element<0, A>::type, T>::value, "tuple interface");
        A a{}, b{};
        M ma{}, mb{};
        const int steps = s.range(1, 12);
        s.nontrivial(steps > 2);
        for (int st = 0; st < steps; ++st) {
            const size_t i = s.draw(N - 1);
            const T x = elem<T>(s);
            switch (s.draw(10)) {
            case 0: a[i] = x; ma[i] = x; break;
            case 1: a.at(i) = x; ma[i] = x; break;
            case 2: *(a.begin() + std::ptrdiff_t(i)) = x; ma[i] = x; break;
            case 3: *(a.rbegin() + std::ptrdiff_t(i)) = x; ma[N - 1 - i] = x; break;
            case 4: if (s.oneIn(3)) { a.fill(x); ma.fill(x); } else { a.data()[i] = x; ma[i] = x; } break;
            case 5: a.swap(b); ma.swap(mb); break;
            case 6: std::swap(a, b); std::swap(ma, mb); break;
            case 7: b = a; mb = ma; break;
            case 8: a.front() = x; ma.front() = x; break;
            case 9: a.back() = x; ma.back() = x; break;
            default: std::get<N / 2>(a) = x; ma[N / 2] = x; break;
            }
            full(a, ma);
            full(b, mb);
            PBT_CHECK((a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a <= b) == (ma <= mb) && (a > b) == (ma > mb) && (a >= b) == (ma >= mb), "comparison operators");
            const size_t bad = N + s.draw(5) * s.draw(1000000);
            const A &c = a;
            bool t1 = false, t2 = false;
            try { (void)a.at(bad); } catch (const std::out_of_range &) { t1 = true; }
            try { (void)c.at(bad); } catch (const std::out_of_range &) { t2 = true; }
            PBT_CHECK(t1 && t2, "at(" << bad << ") does not throw");
        }
        const A init = {{ma[0], ma[N - 1]}};
        PBT_CHECK(init[0] == ma[0] && (N == 1 || init[1] == ma[N - 1]), "aggregate initialisation");
    }
};
template <class T> struct ArrayTest<T, 1> {
    static void run(Src &s)
    {
        const T x = elem<T>(s), y = elem<T>(s);
        s.nontrivial(!(x == y));
        Vc::array<T, 1> a = {{x}}, b = {{y}};
        PBT_CHECK(a[0] == x && a.front() == x && a.back() == x && a.at(0) == x && a.size() == 1, "one element array");
        PBT_CHECK((a == b) == (x == y) && (a < b) == (x < y), "comparison");
        a.swap(b);
        PBT_CHECK(a[0] == y && b[0] == x, "swap");
    }
};

// ---------------------------------------------------------------- span
template <class T> struct SpanTest {
    template <class S> static void full(const S &sp, const T *p, size_t n, const char *what)
    {
        PBT_CHECK(size_t(sp.size()) == n && sp.empty() == (n == 0) && size_t(sp.size_bytes()) == n * sizeof(T), what << ": size");
        PBT_CHECK(n == 0 || sp.data() == p, what << ": data()");
        size_t k = 0;
        for (auto &x : sp) { PBT_CHECK(&x == p + k, what << ": iteration"); ++k; }
        PBT_CHECK(k == n, what << ": iteration length");
        k = n;
        for (auto i = sp.rbegin(); i != sp.rend(); ++i) { --k; PBT_CHECK(&*i == p + k, what << ": reverse iteration"); }
        PBT_CHECK(k == 0 && sp.cend() - sp.cbegin() == std::ptrdiff_t(n) && sp.crend() - sp.crbegin() == std::ptrdiff_t(n), what << ": const iterators");
        for (size_t i = 0; i < n; ++i) PBT_CHECK(&sp[std::ptrdiff_t(i)] == p + i && &sp(std::ptrdiff_t(i)) == p + i && &sp[i] == p + i, what << ": element access");
    }
    // comparison and span(first, last) rely on argument dependent lookup of std algorithms: they only
    // compile for element types from namespace std
    static void compare(const Vc::Common::span<T> &, const Vc::Common::span<T> &, const std::vector<T> &, const std::vector<T> &, T *, size_t, std::false_type) {}
    template <class S> static void compare(const S &a, const S &b, const std::vector<T> &v, const std::vector<T> &w, T *p, size_t n, std::true_type)
    {
        PBT_CHECK((a == b) == (v == w) && (a != b) == (v != w) && (a < b) == (v < w) && (a <= b) == (v <= w) && (a > b) == (v > w) && (a >= b) == (v >= w), "comparison of spans");
        full(Vc::span<T>(p, p + n), p, n, "span(first, last)");
    }
    static void run(Src &s)
    {
        const size_t n = s.draw(20);
        std::vector<T> v(n);
        for (auto &x : v) x = elem<T>(s);
        T *const p = v.data();
        s.nontrivial(n > 3);
        Vc::span<T> sp(p, std::ptrdiff_t(n));
        full(sp, p, n, "span(pointer, count)");
        full(Vc::span<const T>(p, std::ptrdiff_t(n)), p, n, "span of const");
        const Vc::span<T> copy(sp);
        full(copy, p, n, "copy");
        full(Vc::Common::span<const T>(sp), p, n, "conversion to span of const");
        const size_t f = s.draw(n), c = s.draw(n - f);
        full(sp.first(std::ptrdiff_t(f)), p, f, "first(n)");
        full(sp.last(std::ptrdiff_t(f)), p + n - f, f, "last(n)");
        full(sp.subspan(std::ptrdiff_t(f), std::ptrdiff_t(c)), p + f, c, "subspan(offset, count)");
        full(sp.subspan(std::ptrdiff_t(f)), p + f, n - f, "subspan(offset)");
        if (n >= 5) {
            full(sp.template first<3>(), p, 3, "first<3>");
            full(sp.template last<3>(), p + n - 3, 3, "last<3>");
            full(sp.template subspan<2>(), p + 2, n - 2, "subspan<2>");
            full(sp.template subspan<1, 3>(), p + 1, 3, "subspan<1, 3>");
            Vc::span<T, 5> st(p, 5);
            full(st, p, 5, "span<T, 5>");
            full(st.template first<2>(), p, 2, "first<2>");
            full(st.template last<2>(), p + 3, 2, "last<2>");
            full(st.template subspan<1, 3>(), p + 1, 3, "subspan<1, 3>");
            full(st.template subspan<2>(), p + 2, 3, "subspan<2>");
            const size_t g = s.draw(5), h = s.draw(5 - g);
            full(st.first(std::ptrdiff_t(g)), p, g, "first(n)");
            full(st.last(std::ptrdiff_t(g)), p + 5 - g, g, "last(n)");
            full(st.subspan(std::ptrdiff_t(g), std::ptrdiff_t(h)), p + g, h, "subspan(o, n)");
            full(st.subspan(std::ptrdiff_t(g)), p + g, 5 - g, "subspan(o)");
            full(Vc::span<T>(st), p, 5, "dynamic from static extent");
            full(Vc::span<T, 1>(p + 1, 1), p + 1, 1, "span<T, 1>");
            full(Vc::span<const T, 1>(p, 1), p, 1, "span<const T, 1>");
            full(Vc::span<T, 2>(p + 2, 2), p + 2, 2, "span<T, 2>");
            T raw[5];
            std::copy(p, p + 5, raw);
            full(Vc::span<T, 5>(raw), raw, 5, "span<T, 5>(array)");
            full(Vc::span<T>(raw), raw, 5, "span<T>(array)");
            Vc::span<T, 5> sr(raw);
            sr.swap(st);
            full(sr, p, 5, "swap");
            full(st, raw, 5, "swap");
            // writes go through
            const T x = elem<T>(s);
            st[2] = x;
            PBT_CHECK(raw[2] == x, "write through a span");
        }
        // two spans
        std::vector<T> w(v);
        switch (s.draw(3)) {
        case 0: break;
        case 1: if (!w.empty()) w.pop_back(); break;
        case 2: w.push_back(elem<T>(s)); break;
        default: if (!w.empty()) w[s.draw(w.size() - 1)] = elem<T>(s);
        }
        Vc::span<T> q(w.data(), std::ptrdiff_t(w.size()));
        Vc::Common::span<T> a(sp), b(q);
        compare(a, b, v, w, p, n, std::is_class<T>());
        a.swap(b);
        full(a, w.data(), w.size(), "swap");
        full(b, p, n, "swap");
        a = b;
        full(a, p, n, "assignment");
        Vc::span<T> d;
        PBT_CHECK(d.size() == 0 && d.empty() && d.data() == nullptr, "default constructed span");
    }
};

// ---------------------------------------------------------------- vector
template <class T> struct VectorTest {
    static void run(Src &s)
    {
        Vc::vector<T> a, b;
        std::vector<T> ma, mb;
        const int steps = s.range(1, 25);
        s.nontrivial(steps > 3);
        for (int st = 0; st < steps; ++st) {
            const T x = elem<T>(s);
            const size_t i = s.draw(ma.size());
            switch (s.draw(11)) {
            case 0: a.push_back(x); ma.push_back(x); break;
            case 1: a.insert(a.begin() + std::ptrdiff_t(i), x); ma.insert(ma.begin() + std::ptrdiff_t(i), x); break;
            case 2: if (i < ma.size()) { a.erase(a.begin() + std::ptrdiff_t(i)); ma.erase(ma.begin() + std::ptrdiff_t(i)); } break;
            case 3: if (i < ma.size()) { a[i] = x; ma[i] = x; } break;
            case 4: { const size_t n = s.draw(12); a.resize(n); ma.resize(n); break; }
            case 5: { const size_t n = s.draw(12); a.assign(n, x); ma.assign(n, x); break; }
            case 6: a.swap(b); ma.swap(mb); break;
            case 7: b = a; mb = ma; break;
            case 8: { Vc::vector<T> c(a); sameSeq("copy construction", c, ma); b = std::move(c); mb = ma; break; }
            case 9: { const size_t n = s.draw(9); Vc::vector<T> c(n, x); std::vector<T> mc(n, x); sameSeq("vector(n, x)", c, mc); a = c; ma = mc; break; }
            case 10: { Vc::vector<T> c(ma.begin(), ma.end()); sameSeq("vector(first, last)", c, ma); Vc::vector<T> d = {x, x, elem<T>(s)}; PBT_CHECK(d.size() == 3 && d[0] == x && d[1] == x, "initializer list"); break; }
            default: std::swap(a, b); std::swap(ma, mb); break;
            }
            sameSeq("vector", a, ma);
            sameSeq("vector", b, mb);
            const Vc::vector<T> &c = a;
            for (size_t k = 0; k < ma.size(); ++k) PBT_CHECK(c[k] == ma[k] && a[int(k)] == ma[k] && a.at(k) == ma[k], "element " << k);
        }
    }
};

// ---------------------------------------------------------------- makeContainer
template <class C, class T, size_t... I> static C mk(const T *p, std::index_sequence<I...>, bool other)
{
    return other ? Vc::make_container<C>({p[I]...}) : Vc::makeContainer<C>({p[I]...});
}
template <class C, class T> static C mk0(const T *, std::index_sequence<>)
{
    return Vc::makeContainer<C, T>({});
}
template <class C, class V> static void checkC(const C &c, const typename V::EntryType *p, size_t n)
{
    using T = typename V::EntryType;
    expectEq("number of vectors", size_t(std::distance(c.begin(), c.end())), (n + V::Size - 1) / V::Size);
    size_t k = 0;
    for (const V &v : c) {
        const auto a = lanes(v);
        for (size_t j = 0; j < V::Size; ++j, ++k) expectEq(k < n ? "value" : "remaining value", a[j], k < n ? p[k] : T(0));
    }
}
template <class V> struct makeContainer {
    using T = typename V::EntryType;
    template <size_t N> static void one(Src &s, const T *p)
    {
        using C = std::vector<V, Vc::Allocator<V>>;
        const bool o = s.coin();
        switch (s.draw(3)) {
        case 0: checkC<C, V>(mk<C>(p, std::make_index_sequence<N>(), o), p, N); break;
        case 1: { using L = std::list<V, Vc::Allocator<V>>; checkC<L, V>(mk<L>(p, std::make_index_sequence<N>(), o), p, N); break; }
        case 2: { using D = std::deque<V, Vc::Allocator<V>>; checkC<D, V>(mk<D>(p, std::make_index_sequence<N>(), o), p, N); break; }
        default: arr<std::array<V, N>, N>(p, std::make_index_sequence<N>()); arr<Vc::array<V, N>, N>(p, std::make_index_sequence<N>()); break;
        }
        const auto plain = Vc::makeContainer<std::vector<T>>({p[0], p[N - 1]});
        PBT_CHECK(plain.size() == 2 && same(plain[0], p[0]) && same(plain[1], p[N - 1]), "container of scalars");
    }
    template <class C, size_t N, size_t... I> static void arr(const T *p, std::index_sequence<I...>)
    {
        const auto c = Vc::makeContainer<C>({p[I]...});
        checkC<typename std::decay<decltype(c)>::type, V>(c, p, N);
    }
    static void run(Src &s)
    {
        const auto a = genArr<T, 33>(s, "values");
        s.nontrivial(!allSame(a));
        switch (s.draw(8)) {
        case 0: one<1>(s, a.d); break;
        case 1: one<2>(s, a.d); break;
        case 2: one<4>(s, a.d); break;
        case 3: one<7>(s, a.d); break;
        case 4: one<8>(s, a.d); break;
        case 5: one<9>(s, a.d); break;
        case 6: one<16>(s, a.d); break;
        case 7: one<31>(s, a.d); break;
        default: one<33>(s, a.d); break;
        }
    }
};
// an initializer list "of arbitrary size" may be empty
template <class V> struct makeEmpty {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        s.nontrivial();
        const auto c = mk0<std::vector<V, Vc::Allocator<V>>>(static_cast<const T *>(nullptr), std::index_sequence<>());
        expectEq("number of vectors", c.size(), size_t(0));
    }
};

using pid = std::pair<int, double>;
static int k03reg =
    pbt::reg("array<int,5>", &ArrayTest<int, 5>::run) + pbt::reg("array<float,16>", &ArrayTest<float, 16>::run) + pbt::reg("array<string,3>", &ArrayTest<std::string, 3>::run) +
    pbt::reg("array<pair,2>", &ArrayTest<pid, 2>::run) + pbt::reg("array<short,1>", &ArrayTest<short, 1>::run) + pbt::reg("array<uchar,33>", &ArrayTest<unsigned char, 33>::run) +
    pbt::reg("span<int>", &SpanTest<int>::run) + pbt::reg("span<double>", &SpanTest<double>::run) + pbt::reg("span<pair>", &SpanTest<pid>::run) +
    pbt::reg("span<string>", &SpanTest<std::string>::run) +
    pbt::reg("vector<int>", &VectorTest<int>::run) + pbt::reg("vector<double>", &VectorTest<double>::run) + pbt::reg("vector<string>", &VectorTest<std::string>::run);
REG_ALL(makeContainer, AllVectors, 1);
REG_ALL(makeEmpty, NativeSix, 0.01);
PBT_MAIN
