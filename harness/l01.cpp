// L01: scalar lane access (element references, iterators, where-iteration)
#include "vcgen.h"
#include "salists.h"
#include <iterator>

// operations with a defined result in the promoted type
enum Op { OAdd, OSub, OMul, ODiv, OMod, OAnd, OOr, OXor, OShl, OShr, OCount };
template <class T, bool I = std::is_integral<T>::value> struct Lane;
template <class T> struct Lane<T, true> {
    using P = decltype(T() + T());
    static bool defined(Op op, T a, T b)
    {
        const bool sgn = std::is_signed<P>::value;
        const __int128 x = a, y = b;
        const auto in = [&](__int128 r) { return !sgn || (r >= std::numeric_limits<P>::min() && r <= std::numeric_limits<P>::max()); };
        switch (op) {
        case OAdd: return in(x + y);
        case OSub: return in(x - y);
        case OMul: return in(x * y);
        case ODiv: case OMod: return b != 0 && in(x / (y ? y : 1));
        case OShl: return b >= 0 && y < int(sizeof(T) * 8) && x >= 0 && in(x << int(y));
        case OShr: return b >= 0 && y < int(sizeof(T) * 8);
        default: return true;
        }
    }
    static T eval(Op op, T a, T b)
    {
        switch (op) {
        case OAdd: return T(a + b);
        case OSub: return T(a - b);
        case OMul: return T(a * b);
        case ODiv: return T(a / b);
        case OMod: return T(a % b);
        case OAnd: return T(a & b);
        case OOr: return T(a | b);
        case OXor: return T(a ^ b);
        case OShl: return T(a << b);
        default: return T(a >> b);
        }
    }
    template <class R> static void apply(R &&r, Op op, T b)
    {
        switch (op) {
        case OAdd: std::move(r) += b; break;
        case OSub: std::move(r) -= b; break;
        case OMul: std::move(r) *= b; break;
        case ODiv: std::move(r) /= b; break;
        case OMod: std::move(r) %= b; break;
        case OAnd: std::move(r) &= b; break;
        case OOr: std::move(r) |= b; break;
        case OXor: std::move(r) ^= b; break;
        case OShl: std::move(r) <<= b; break;
        default: std::move(r) >>= b; break;
        }
    }
    static const int count = OCount;
    static T operand(Src &s, Op op) { return op == OShl || op == OShr ? T(s.draw(sizeof(T) * 8 - 1)) : genVal<T>(s); }
};
template <class T> struct Lane<T, false> {
    static bool defined(Op, T, T) { return true; }
    static T eval(Op op, T a, T b)
    {
        volatile T r = op == OAdd ? a + b : op == OSub ? a - b : op == OMul ? a * b : a / b;
        return r;
    }
    template <class R> static void apply(R &&r, Op op, T b)
    {
        switch (op) {
        case OAdd: std::move(r) += b; break;
        case OSub: std::move(r) -= b; break;
        case OMul: std::move(r) *= b; break;
        default: std::move(r) /= b; break;
        }
    }
    static const int count = 4;
    static T operand(Src &s, Op) { return genVal<T>(s); }
};
template <class T> static bool incOk(T x, int d)
{
    return !std::is_integral<T>::value || std::is_unsigned<T>::value || sizeof(T) < 4 || (d > 0 ? x < std::numeric_limits<T>::max() : x > std::numeric_limits<T>::lowest());
}

// history of lane accesses on two vectors
template <class V> struct vector_lanes {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    using A = Arr<T, N>;
    static void check(const V &v, const A &m, const char *what)
    {
        for (size_t i = 0; i < N; ++i) expectEq(what, T(v[i]), m[i]);
        expectSame(what, lanes(v), m);
    }
    static void run(Src &s)
    {
        A m[2] = {genArr<T, N>(s, "v"), genArr<T, N>(s, "w")};
        V v[2] = {toV<V>(m[0]), toV<V>(m[1])};
        s.nontrivial(N == 1 || !allSame(m[0]));
        check(v[0], m[0], "fresh vector");
        const int steps = s.range(1, 8);
        for (int st = 0; st < steps; ++st) {
            const int q = int(s.draw(1)), p = int(s.draw(1));
            const size_t i = s.draw(N - 1), j = s.draw(N - 1);
            V &x = v[q];
            T &mi = m[q][i];
            const bool viaIt = s.oneIn(3);
            const char *what = "";
            switch (s.draw(10)) {
            case 0: case 1: {
                const T y = genVal<T>(s);
                what = "lane assignment";
                if (viaIt) *(begin(x) + int(i)) = y;
                else x[i] = y;
                mi = y;
                break;
            }
            case 2: case 3: case 4: {
                const Op op = Op(s.draw(unsigned(Lane<T>::count - 1)));
                const T y = Lane<T>::operand(s, op);
                if (!Lane<T>::defined(op, mi, y)) break;
                what = "lane compound assignment";
                s.note("op", [&](std::ostream &os) { os << int(op) << " lane " << i << " "; printVal(os, y); });
                if (viaIt) Lane<T>::apply(*(begin(x) + int(i)), op, y);
                else Lane<T>::apply(x[i], op, y);
                mi = Lane<T>::eval(op, mi, y);
                break;
            }
            case 5: {
                const int d = s.coin() ? 1 : -1;
                if (!incOk(mi, d)) break;
                const T old = mi;
                T r = old;
                volatile T nv = d > 0 ? T(mi + T(1)) : T(mi - T(1));
                mi = nv;
                what = "lane increment/decrement";
                if (d > 0) { if (s.coin()) { r = x[i]++; } else { T t = ++x[i]; expectEq("value of ++v[i]", t, mi); } }
                else { if (s.coin()) { r = x[i]--; } else { T t = --x[i]; expectEq("value of --v[i]", t, mi); } }
                expectEq("value of v[i]++", r, old);
                break;
            }
            case 6: {
                what = "swap of two lanes";
                using std::swap;
                swap(x[i], v[p][j]);
                std::swap(m[q][i], m[p][j]);
                break;
            }
            case 7: {
                what = "swap of a lane and a scalar";
                T y = genVal<T>(s);
                const T y0 = y;
                if (s.coin()) swap(x[i], y);
                else swap(y, x[i]);
                expectEq("scalar after swap", y, mi);
                mi = y0;
                break;
            }
            case 8: {
                what = "lane to lane assignment";
                x[i] = T(v[p][j]);
                mi = m[p][j];
                break;
            }
            case 9: {
                what = "chained assignment";
                const T y = genVal<T>(s);
                T z = (x[i] = y);
                expectEq("value of v[i] = x", z, y);
                mi = y;
                break;
            }
            default: {
                what = "read";
                const V &c = x;
                expectEq("v[i]", T(x[i]), mi);
                expectEq("const v[i]", T(c[int(i)]), mi);
                break;
            }
            }
            s.noteStr(what);
            check(v[0], m[0], what);
            check(v[1], m[1], what);
        }
        // iteration
        size_t k = 0;
        for (auto &&e : v[0]) { PBT_CHECK(k < N && same(T(e), m[0][k]), "iteration over a vector: element " << k); ++k; }
        expectEq("elements visited", k, N);
        const V &c = v[0];
        k = 0;
        for (T e : c) { PBT_CHECK(k < N && same(e, m[0][k]), "iteration over a const vector: element " << k); ++k; }
        expectEq("elements visited", k, N);
        auto b = Vc::cbegin(v[0]), e = Vc::cend(v[0]);
        expectEq("cend - cbegin", int(e - b), int(N));
        const int o = s.range(0, int(N));
        auto it = b + o;
        PBT_CHECK((it == e) == (o == int(N)) && (it != e) == (o != int(N)) && (it < e) == (o < int(N)) && it >= b && b <= it && (it > b) == (o > 0), "iterator comparison");
        for (auto jt = e; jt != b;) { const auto before = jt--; PBT_CHECK(before - jt == 1, "post-decrement"); PBT_CHECK(same(T(*jt), m[0][size_t(jt - b)]), "backward iteration"); }
        for (auto jt = b; jt != e;) { const auto before = jt++; PBT_CHECK(same(T(*before), m[0][size_t(before - b)]) && jt - before == 1, "post-increment"); }
        if (o < int(N)) PBT_CHECK(same(T(*it), m[0][size_t(o)]) && same(T(b[o]), m[0][size_t(o)]) && same(T(*(o + b)), m[0][size_t(o)]), "random access");
        for (int j = 0; j < int(N); ++j) {
            PBT_CHECK(same(T(it[j - o]), m[0][size_t(j)]), "const iterator at " << o << ": it[" << j - o << "]");
            auto mt = begin(v[0]) + o;
            PBT_CHECK(same(T(mt[j - o]), m[0][size_t(j)]), "iterator at " << o << ": it[" << j - o << "]");
        }
        {
            auto jt = e;
            jt -= int(N) - o;
            PBT_CHECK(jt == it && e - (int(N) - o) == it, "it -= n");
            jt += int(N) - o;
            PBT_CHECK(jt == e && (it <= e) && (e >= it) && (it <= b) == (o == 0), "it += n");
            --jt;
            PBT_CHECK(e - jt == 1 && jt < e && e > jt && !(e < jt) && !(jt > e) && !(e <= jt) && !(jt >= e) && same(T(*jt), m[0][N - 1]), "--it");
            PBT_CHECK(jt->operator==(jt) && !(jt->operator==(e)), "it->");
        }
        // writing through iterators
        const T y = genVal<T>(s);
        k = 0;
        for (auto jt = begin(v[1]); jt != end(v[1]); ++jt, ++k) {
            if (k % 2 == 0) *jt = y;
            else (begin(v[1]) + o)[int(k) - o] = m[0][k];
            m[1][k] = k % 2 ? m[0][k] : y;
        }
        check(v[1], m[1], "writing through an iterator");
    }
};
template <class V> struct mask_lanes {
    using M = typename V::Mask;
    static constexpr size_t N = M::Size;
    using B = Arr<bool, N>;
    static void check(const M &x, const B &m, const char *what)
    {
        bool any = false, all = true;
        size_t cnt = 0, first = N;
        for (size_t i = 0; i < N; ++i) {
            expectEq(what, bool(x[i]), m[i]);
            any = any || m[i];
            all = all && m[i];
            cnt += m[i];
            if (m[i] && first == N) first = i;
        }
        PBT_CHECK(Vc::any_of(x) == any && Vc::all_of(x) == all && Vc::none_of(x) == !any, what << ": any_of/all_of/none_of");
        expectEq("count()", size_t(x.count()), cnt);
        if (any) expectEq("firstOne()", size_t(x.firstOne()), first);
        bool mem[N];
        x.store(mem);
        for (size_t i = 0; i < N; ++i) expectEq("stored mask", mem[i], m[i]);
        // iteration over the selected lanes
        size_t k = 0;
        for (size_t i : Vc::where(x)) {
            while (k < N && !m[k]) ++k;
            PBT_CHECK(k < N && i == k, what << ": where(mask) visits " << i << ", expected " << k);
            ++k;
        }
        while (k < N && !m[k]) ++k;
        PBT_CHECK(k == N, what << ": where(mask) does not visit lane " << k);
        {
            auto &&w = Vc::where(x);
            auto i = begin(w);
            const auto e = end(w);
            PBT_CHECK((i == e) == !any && (i != e) == any && e == e, what << ": where(mask).begin() == end()");
            for (k = 0; k < N; ++k) {
                if (!m[k]) continue;
                PBT_CHECK(i != e && *i == k && size_t(i.operator->()) == k, what << ": where(mask) iterator is not at lane " << k);
                const auto old = i++;
                PBT_CHECK(*old == k && old != i, what << ": post-increment of where(mask).begin()");
            }
            PBT_CHECK(i == e, what << ": where(mask) iterator does not end");
        }
        // and it selects the same lanes of a vector
        V sel = V(0);
        Vc::where(x) | sel = V(1);
        for (size_t i = 0; i < N; ++i) PBT_CHECK((sel[i] == typename V::EntryType(1)) == m[i], what << ": where() write of lane " << i);
    }
    static void run(Src &s)
    {
        B m[2] = {genMaskArr<N>(s, "m"), genMaskArr<N>(s, "k")};
        M x[2] = {toM<M>(m[0]), toM<M>(m[1])};
        s.nontrivial(N == 1 || !allSame(m[0]));
        check(x[0], m[0], "fresh mask");
        const int steps = s.range(1, 8);
        for (int st = 0; st < steps; ++st) {
            const int q = int(s.draw(1)), p = int(s.draw(1));
            const size_t i = s.draw(N - 1), j = s.draw(N - 1);
            const bool y = s.coin();
            const char *what = "";
            switch (s.draw(6)) {
            case 0: case 1: what = "assignment"; if (s.oneIn(3)) *(begin(x[q]) + int(i)) = y; else x[q][i] = y; m[q][i] = y; break;
            case 2: what = "|="; x[q][i] |= y; m[q][i] = m[q][i] || y; break;
            case 3: what = "&="; x[q][i] &= y; m[q][i] = m[q][i] && y; break;
            case 4: what = "^="; x[q][i] ^= y; m[q][i] = m[q][i] != y; break;
            case 5: what = "swap"; swap(x[q][i], x[p][j]); std::swap(m[q][i], m[p][j]); break;
            default: what = "copy"; x[q][i] = bool(x[p][j]); m[q][i] = m[p][j]; break;
            }
            s.noteStr(what);
            check(x[0], m[0], what);
            check(x[1], m[1], what);
        }
        size_t k = 0;
        for (auto &&e : x[0]) { PBT_CHECK(k < N && bool(e) == m[0][k], "iteration over a mask: element " << k); ++k; }
        expectEq("elements visited", k, N);
        const M &c = x[1];
        k = 0;
        for (bool e : c) { PBT_CHECK(k < N && e == m[1][k], "iteration over a const mask: element " << k); ++k; }
        expectEq("elements visited", k, N);
    }
};
#if L01_PART == 0
REG_ALL(vector_lanes, AllVectors, 1);
REG_ALL(mask_lanes, AllVectors, 1);
#elif L01_PART == 1
REG_ALL(vector_lanes, SAAll, 0.5);
#else
REG_ALL(mask_lanes, SAAll, 0.5);
using BigMasks = SAs<short, 40, 64>;
REG_ALL(mask_lanes, BigMasks, 0.5);
#endif
PBT_MAIN
