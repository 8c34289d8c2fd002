// Z02: simd_for_each / simd_for_each_n and simdized iterators
#include "vcgen.h"
#include <deque>
#include <forward_list>
#include <list>
#include <tuple>
#include <vector>

template <class T> struct P3 { T x, y, z; Vc_SIMDIZE_INTERFACE((x, y, z)); };
template <class T> struct P4 { T x, y, z, w; Vc_SIMDIZE_INTERFACE((x, y, z, w)); };
template <class T, class U> struct P2 { T a; U b; Vc_SIMDIZE_INTERFACE((a, b)); };

// uniform view on plain values and on structured values
template <class S, class = void> struct Acc {
    static constexpr size_t K = 1;
    template <size_t I, class X> static X &get(X &x) { return x; }
};
template <class S> struct Acc<S, decltype(void(S::tuple_size))> {
    static constexpr size_t K = S::tuple_size;
    template <size_t I, class X> static auto get(X &x) -> decltype(x.template vc_get_<I>()) { return x.template vc_get_<I>(); }
};
template <class S> struct Acc<S, decltype(void(std::tuple_size<S>::value))> {
    static constexpr size_t K = std::tuple_size<S>::value;
    template <size_t I, class X> static auto get(X &x) -> decltype((std::get<I>(x))) { return std::get<I>(x); }
};
template <class S, size_t I> using MemT = typename std::decay<decltype(Acc<S>::template get<I>(std::declval<S &>()))>::type;

template <class S, size_t I = 0, size_t K = Acc<S>::K> struct Each {
    using A = Acc<S>;
    using T = MemT<S, I>;
    using Next = Each<S, I + 1, K>;
    static void gen(Src &q, S &x) { A::template get<I>(x) = genVal<T>(q); Next::gen(q, x); }
    static bool eq(const S &a, const S &b) { return same(T(A::template get<I>(a)), T(A::template get<I>(b))) && Next::eq(a, b); }
    static void print(std::ostream &os, const S &a)
    {
        os << (I ? "," : K > 1 ? "(" : "");
        printVal(os, T(A::template get<I>(a)));
        Next::print(os, a);
    }
    static T change(T x) { return change_(x, std::is_floating_point<T>()); }
    static T change_(T x, std::false_type) { return T(x ^ T(0x55)); }
    static T change_(T x, std::true_type) { return -x; }
    static void modify(S &x) { A::template get<I>(x) = change(A::template get<I>(x)); Next::modify(x); }
    template <class V> static void lane(const V &v, size_t i, S &x) { A::template get<I>(x) = A::template get<I>(v)[i]; Next::lane(v, i, x); }
    template <class V> static void setLane(V &v, size_t i, const S &x) { A::template get<I>(v)[i] = A::template get<I>(x); Next::setLane(v, i, x); }
    template <class V> static void modifyV(V &v)
    {
        auto &m = A::template get<I>(v);
        modM(m, std::is_floating_point<T>());
        Next::modifyV(v);
    }
    template <class M> static void modM(M &m, std::false_type) { m = m ^ M(T(0x55)); }
    template <class M> static void modM(M &m, std::true_type) { m = -m; }
};
template <class S, size_t K> struct Each<S, K, K> {
    static void gen(Src &, S &) {}
    static bool eq(const S &, const S &) { return true; }
    static void print(std::ostream &os, const S &) { os << (K > 1 ? ")" : ""); }
    static void modify(S &) {}
    template <class V> static void lane(const V &, size_t, S &) {}
    template <class V> static void setLane(V &, size_t, const S &) {}
    template <class V> static void modifyV(V &) {}
};
template <class S> std::string str(const S &x)
{
    std::ostringstream os;
    Each<S>::print(os, x);
    return os.str();
}
template <class S> S genObj(Src &s)
{
    S x = S();
    Each<S>::gen(s, x);
    return x;
}
template <class S> struct SName { static std::string s() { return TName<S>::s(); } };
template <class T> struct SName<P3<T>> { static std::string s() { return std::string("P3_") + TName<T>::s(); } };
template <class T> struct SName<P4<T>> { static std::string s() { return std::string("P4_") + TName<T>::s(); } };
template <class T, class U> struct SName<P2<T, U>> { static std::string s() { return std::string("P2_") + TName<T>::s() + "_" + TName<U>::s(); } };
template <class T, size_t M> struct SName<std::array<T, M>> { static std::string s() { return std::string("array_") + TName<T>::s() + "_" + std::to_string(M); } };
template <class T, class U> struct SName<std::pair<T, U>> { static std::string s() { return std::string("pair_") + TName<T>::s() + "_" + TName<U>::s(); } };
template <class T, class U> struct SName<std::tuple<T, U>> { static std::string s() { return std::string("tuple_") + TName<T>::s() + "_" + TName<U>::s(); } };

// ---- simd_for_each -------------------------------------------------------------------------------
template <class S> struct Log {
    std::vector<S> seen;
    template <class V> void add(const V &v)
    {
        for (size_t i = 0; i < V::size(); ++i) {
            S x = S();
            Each<S>::lane(v, i, x);
            seen.push_back(x);
        }
    }
};
template <class S> struct MutRef {
    Log<S> &log;
    size_t count;
    template <class V> void operator()(V &v)
    {
        log.add(v);
        count += V::size();
        Each<S>::modifyV(v);
    }
};
template <class S> struct ByValue {
    Log<S> &log;
    size_t count;
    template <class V> void operator()(V v)
    {
        log.add(v);
        count += V::size();
        Each<S>::modifyV(v);
    }
};
template <class S> struct ConstRef {
    Log<S> &log;
    size_t count;
    template <class V> void operator()(const V &v)
    {
        log.add(v);
        count += V::size();
        V w = v;
        Each<S>::modifyV(w);
    }
};
template <class S> struct ElemOf { using type = S; };
template <class S_, bool overread> struct Elem {};
template <class S, bool o> struct VName<Elem<S, o>> { static std::string s() { return SName<S>::s(); } };

template <class E> struct for_each;
template <class S, bool overread> struct for_each<Elem<S, overread>> {
    static constexpr size_t W = Vc::simdize<S>::size();
    template <class It, class F> static F call(bool n, It b, size_t len, F f)
    {
        return n ? Vc::simd_for_each_n(b, len, f) : Vc::simd_for_each(b, b + len, f);
    }
    template <class F> static size_t run1(int it, bool n, S *p, size_t len, F f)
    {
        if (it == 0) return call(n, p, len, f).count;
        // an iterator of class type
        std::vector<S> v(p, p + len);
        const size_t r = call(n, v.begin(), len, f).count;
        std::copy(v.begin(), v.end(), p);
        return r;
    }
    static void run(Src &s)
    {
        static GuardMem g(6);
        const size_t len = s.oneIn(4) ? W * s.draw(4) : s.draw(4 * W + 3);
        const int place = int(s.draw(2));
        S *lo = g.template atBegin<S>();
        // interleaved loads of 3, 5, 6, 7 members read past the last object (finding I01 kf_overread)
        S *p = overread || place == 2 ? lo + s.draw(W) : place == 1 ? lo : g.template atEnd<S>(len);
        const bool n = s.coin();
        const int kind = int(s.draw(4));
        const int it = s.oneIn(4);
        s.note("len", [&](std::ostream &os) { os << len << (n ? " for_each_n" : " for_each") << " kind " << kind << " place " << place; });
        std::memset(static_cast<void *>(g.lo()), 0xa5, g.size());
        std::vector<S> m(len);
        for (auto &x : m) x = genObj<S>(s);
        std::copy(m.begin(), m.end(), p);
        for (size_t i = 0; i < len; ++i) s.note("", [&](std::ostream &os) { Each<S>::print(os, m[i]); });
        s.nontrivial(len >= 1 && (W == 1 || len % W != 0 || len > W));
        const std::vector<char> before(g.lo(), g.hi());
        Log<S> log;
        size_t count = 0;
        bool mut = false;
        switch (kind) {
        case 0: case 1: count = run1(it, n, p, len, MutRef<S>{log, 0}); mut = true; break;
        case 2: count = run1(it, n, p, len, ByValue<S>{log, 0}); break;
        case 3: count = run1(it, n, p, len, ConstRef<S>{log, 0}); break;
        default: {
            const S *c = p;
            count = call(n, c, len, ConstRef<S>{log, 0}).count;
        }
        }
        PBT_CHECK(log.seen.size() == len, "the functor saw " << log.seen.size() << " elements instead of " << len);
        PBT_CHECK(count == len, "the returned functor counted " << count << " elements instead of " << len);
        for (size_t i = 0; i < len; ++i)
            PBT_CHECK(Each<S>::eq(log.seen[i], m[i]), "element " << i << " was seen as " << str(log.seen[i]) << " instead of " << str(m[i]));
        for (size_t i = 0; i < len; ++i) {
            S want = m[i];
            if (mut) Each<S>::modify(want);
            PBT_CHECK(Each<S>::eq(p[i], want), "element " << i << " is " << str(p[i]) << " afterwards instead of " << str(want));
        }
        const char *a = g.lo(), *b = reinterpret_cast<const char *>(p), *e = reinterpret_cast<const char *>(p + len);
        for (size_t i = 0; i < before.size(); ++i)
            PBT_CHECK((a + i >= b && a + i < e) || a[i] == before[i], "a byte outside of the range changed");
    }
};

// ---- simdized iterators --------------------------------------------------------------------------
template <class C_, size_t N_> struct Cont {};
// the reverse iterators of a container
template <class C> struct Rev : C {
    using iterator = typename C::reverse_iterator;
    using const_iterator = typename C::const_reverse_iterator;
    template <class It> Rev(It b, It e) : C(b, e) { std::reverse(C::begin(), C::end()); }
    iterator begin() { return C::rbegin(); }
    iterator end() { return C::rend(); }
};
template <class C> struct CName;
template <class S> struct CName<std::vector<S>> { static std::string s() { return "vector_" + SName<S>::s(); } };
template <class S> struct CName<std::list<S>> { static std::string s() { return "list_" + SName<S>::s(); } };
template <class S> struct CName<std::deque<S>> { static std::string s() { return "deque_" + SName<S>::s(); } };
template <class S> struct CName<std::forward_list<S>> { static std::string s() { return "forward_list_" + SName<S>::s(); } };
template <class C> struct CName<Rev<C>> { static std::string s() { return "reverse_" + CName<C>::s(); } };
template <class C, size_t N> struct VName<Cont<C, N>> { static std::string s() { return CName<C>::s() + "_" + std::to_string(N); } };

template <class It, class Tag> struct Moves {
    static void step(Src &, It &it, long &pos, long last, It &, long)
    {
        if (pos < last) { ++it; ++pos; }
    }
    static void index(Src &, It &, long, long, const std::vector<int> *) {}
};
template <class E> struct iterators;
template <class C, size_t NReq> struct iterators<Cont<C, NReq>> {
    using S = typename C::value_type;
    using ScIt = typename C::iterator;
    using CIt = typename C::const_iterator;
    using It = Vc::simdize<ScIt, NReq>;
    using KIt = Vc::simdize<CIt, NReq>;
    using V = typename It::value_type;
    static constexpr size_t N = It::size();
    using tag = typename std::iterator_traits<ScIt>::iterator_category;
    static constexpr bool bidi = std::is_base_of<std::bidirectional_iterator_tag, tag>::value;
    static constexpr bool ra = std::is_base_of<std::random_access_iterator_tag, tag>::value;
    static_assert(NReq == 0 || N == NReq, "");

    template <class X> static void checkChunk(const char *what, const X &v, const std::vector<S> &m, long chunk)
    {
        for (size_t i = 0; i < N; ++i) {
            S x = S();
            Each<S>::lane(static_cast<const V &>(v), i, x);
            PBT_CHECK(Each<S>::eq(x, m[chunk * N + i]), what << " of chunk " << chunk << ": entry " << i << " is " << str(x) << " instead of " << str(m[chunk * N + i]));
        }
    }
    // movements depending on the iterator category
    static void back(It &it, long &pos, Src &s, std::true_type)
    {
        if (pos == 0) return;
        if (s.coin()) --it;
        else {
            const auto old = it--;
            PBT_CHECK(static_cast<const ScIt &>(old) != static_cast<const ScIt &>(it), "it-- returned the new position");
        }
        --pos;
    }
    static void back(It &, long &, Src &, std::false_type) {}
    static void random(It &it, long &pos, long chunks, std::vector<S> &m, ScIt begin, Src &s, std::true_type)
    {
        const long to = long(s.draw(chunks));
        const long d = to - pos;
        switch (s.draw(6)) {
        case 0: it += d; pos = to; break;
        case 1: it -= -d; pos = to; break;
        case 2: it = it + d; pos = to; break;
        case 3: it = it - (-d); pos = to; break;
        case 4: it = d + it; pos = to; break;
        case 5: {
            const It o = it + d;
            PBT_CHECK(o - it == d && it - o == -d, "distance " << (o - it) << " instead of " << d);
            // every entry of the one comes before the other
            PBT_CHECK((it < o) == (d > 0), "it < it + " << d << " is " << (it < o));
            PBT_CHECK((it > o) == (d < 0), "it > it + " << d << " is " << (it > o));
            if (d != 0) PBT_CHECK((it <= o) == (d > 0) && (it >= o) == (d < 0), "it <= / >= it + " << d);
            // also if the distance is no multiple of the width (loops over ranges with a remainder)
            const long r = long(s.draw(chunks * long(N))) - pos * long(N);
            const It q(static_cast<const ScIt &>(it) + r);
            PBT_CHECK((it < q) == (r >= long(N)) && (it > q) == (-r >= long(N)), "it < / > an iterator " << r << " entries away is " << (it < q) << " / " << (it > q));
            break;
        }
        default:
            if (to < chunks) {
                if (s.coin()) checkChunk("it[n]", it[d], m, to);
                const It &c = it;
                checkChunk("const it[n]", c[d], m, to);
                if (s.coin()) {
                    V v;
                    for (size_t i = 0; i < N; ++i) {
                        m[to * N + i] = genObj<S>(s);
                        Each<S>::setLane(v, i, m[to * N + i]);
                    }
                    it[d] = v;
                }
            }
        }
        (void)begin;
    }
    static void random(It &, long &, long, std::vector<S> &, ScIt, Src &, std::false_type) {}
    template <class I> static auto arrow(const char *what, I &it, const std::vector<S> &m, long chunk, int) -> decltype(void(it->template vc_get_<0>()))
    {
        using T = MemT<S, 0>;
        for (size_t i = 0; i < N; ++i)
            PBT_CHECK(same(T((it->template vc_get_<0>())[i]), T(Acc<S>::template get<0>(m[chunk * N + i]))), what << ": wrong member value in entry " << i);
    }
    template <class I> static void arrow(const char *, I &, const std::vector<S> &, long, long) {}
    // writing through operator->
    template <class I> static auto arrowWrite(I &it, std::vector<S> &m, long chunk, int) -> decltype(void(it->template vc_get_<0>()))
    {
        using T = MemT<S, 0>;
        it->template vc_get_<0>() = typename std::decay<decltype(it->template vc_get_<0>())>::type(T(5));
        for (size_t i = 0; i < N; ++i) Acc<S>::template get<0>(m[chunk * N + i]) = T(5);
    }
    template <class I> static void arrowWrite(I &, std::vector<S> &, long, long) {}

    // positions the chunks anywhere relative to the blocks of a deque
    static bool isDeque(const std::deque<S> *) { return true; }
    static bool isDeque(const void *) { return false; }

    static void run(Src &s)
    {
        const long chunks = 1 + long(s.draw(5)), offset = long(s.draw(isDeque(static_cast<C *>(nullptr)) ? 512 / sizeof(S) : 3)), tail = long(s.draw(3));
        const long len = chunks * long(N);
        std::vector<S> m(len);
        for (auto &x : m) x = genObj<S>(s);
        S other = S();
        std::vector<S> all(offset, other);
        all.insert(all.end(), m.begin(), m.end());
        all.insert(all.end(), tail, other);
        C cont(all.begin(), all.end());
        s.note("chunks", [&](std::ostream &os) { os << chunks << " offset " << offset << " tail " << tail; });
        s.nontrivial(chunks > 1 || N > 1);
        ScIt b = cont.begin();
        std::advance(b, offset);
        ScIt e = b;
        std::advance(e, len);
        // reading everything
        {
            long k = 0;
            const It end = e;
            for (It it = b; it != end; ++it, ++k) {
                PBT_CHECK(k < chunks, "the iteration went past the end");
                checkChunk("*it", *it, m, k);
            }
            PBT_CHECK(k == chunks, "visited " << k << " chunks instead of " << chunks);
            const CIt cb = b, ce = e;
            const KIt kend = ce;
            k = 0;
            for (KIt it = cb; it != kend; it++, ++k) {
                PBT_CHECK(k < chunks, "the iteration went past the end");
                checkChunk("*const_iterator", *it, m, k);
                const KIt &c = it;
                arrow("const_iterator->", c, m, k, 0);
            }
            PBT_CHECK(k == chunks, "visited " << k << " chunks instead of " << chunks);
        }
        It it = b;
        const It begin = b;
        const It end = e;
        long pos = 0;
        const int steps = s.range(2, 14);
        for (int st = 0; st < steps; ++st) {
            const int op = int(s.draw(8));
            s.note("op", [&](std::ostream &os) { os << op << "@" << pos; });
            switch (op) {
            case 0:
                if (pos < chunks) {
                    if (s.coin()) ++it;
                    else {
                        const auto old = it++;
                        const long p = pos;
                        checkChunk("*(it++)", *old, m, p);
                    }
                    ++pos;
                }
                break;
            case 1: back(it, pos, s, std::integral_constant<bool, bidi>()); break;
            case 2: case 3: random(it, pos, chunks, m, b, s, std::integral_constant<bool, ra>()); break;
            case 4: case 5:
                if (pos < chunks) {
                    V v;
                    for (size_t i = 0; i < N; ++i) {
                        m[pos * N + i] = genObj<S>(s);
                        Each<S>::setLane(v, i, m[pos * N + i]);
                    }
                    if (op == 4) *it = v;
                    else {
                        auto &&r = *it;
                        r = v;
                        checkChunk("reference after assignment", r, m, pos);
                    }
                }
                break;
            case 6:
                if (pos < chunks) {
                    arrow("it->", it, m, pos, 0);
                    arrowWrite(it, m, pos, 0);
                }
                break;
            case 7: {
                It copy(it);
                PBT_CHECK(copy == it && !(copy != it), "a copy differs");
                It o = b;
                o = it;
                PBT_CHECK(o == it, "an assigned iterator differs");
                o = b;
                PBT_CHECK(o == begin, "assigning a scalar iterator");
                break;
            }
            default: it = b; pos = 0; break;
            }
            // position and content
            PBT_CHECK(long(std::distance(b, static_cast<const ScIt &>(it))) == pos * long(N), "position " << std::distance(b, static_cast<const ScIt &>(it)) << " instead of " << pos * long(N));
            PBT_CHECK((it == end) == (pos == chunks) && (it != end) == (pos != chunks), "comparison with the end");
            PBT_CHECK((end == it) == (pos == chunks) && (end != it) == (pos != chunks), "comparison of the end with the iterator");
            PBT_CHECK((it == begin) == (pos == 0) && (it != begin) == (pos != 0) && (begin == it) == (pos == 0), "comparison with the begin");
            if (pos < chunks) {
                checkChunk("*it", *it, m, pos);
                const It &c = it;
                checkChunk("*const it", *c, m, pos);
            }
            long i = 0;
            for (const S &x : cont) {
                const S &want = i < offset || i >= offset + len ? other : m[i - offset];
                PBT_CHECK(Each<S>::eq(x, want), "element " << (i - offset) << " of the container is " << str(x) << " instead of " << str(want));
                ++i;
            }
        }
    }
};
using Elems = List<Elem<float, 0>, Elem<double, 0>, Elem<int, 0>, Elem<uint_t, 0>, Elem<short, 0>, Elem<ushort_t, 0>>;
using Objs = List<Elem<P3<float>, 1>, Elem<P3<short>, 1>, Elem<P4<float>, 0>, Elem<P4<ushort_t>, 0>, Elem<P4<double>, 0>, Elem<P2<float, int>, 0>, Elem<P2<double, short>, 0>, Elem<std::pair<int, int>, 0>,
                  Elem<std::tuple<float, double>, 0>, Elem<std::tuple<short, short>, 0>, Elem<std::array<float, 3>, 1>, Elem<std::array<uint_t, 2>, 0>>;
using Its = List<Cont<std::vector<float>, 0>, Cont<std::vector<double>, 0>, Cont<std::vector<int>, 0>, Cont<std::vector<ushort_t>, 0>, Cont<std::vector<short>, 0>, Cont<std::vector<uint_t>, 0>,
                 Cont<std::vector<float>, 3>, Cont<std::vector<short>, 4>, Cont<std::vector<double>, 1>, Cont<std::list<float>, 0>, Cont<std::list<double>, 0>, Cont<std::list<ushort_t>, 0>, Cont<std::list<int>, 5>,
                 Cont<std::forward_list<float>, 0>, Cont<std::forward_list<uint_t>, 3>, Cont<std::deque<double>, 0>, Cont<std::deque<short>, 0>, Cont<std::deque<int>, 12>,
                 Cont<Rev<std::vector<float>>, 0>, Cont<Rev<std::vector<ushort_t>>, 0>, Cont<Rev<std::list<int>>, 0>, Cont<Rev<std::deque<uint_t>>, 0>>;
using StructIts = List<Cont<std::vector<P3<float>>, 0>, Cont<std::vector<P2<double, short>>, 0>, Cont<std::list<P3<short>>, 0>, Cont<std::list<P2<float, int>>, 3>, Cont<std::vector<P4<uint_t>>, 6>,
                       Cont<std::deque<P3<double>>, 0>, Cont<std::forward_list<P2<int, float>>, 0>>;
#if Z02_PART == 0
REG_ALL(for_each, Elems, 1);
REG_ALL(for_each, Objs, 1);
#else
REG_ALL(iterators, Its, 1);
REG_ALL(iterators, StructIts, 1);
#endif
PBT_MAIN
