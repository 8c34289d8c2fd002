// L02: call, apply, fill, generate and callWithValuesSorted
#include "vcgen.h"
#include "salists.h"
#include <vector>

DETECT2(HasCall, std::declval<const A &>().call(std::declval<B>()));
DETECT2(HasSorted, std::declval<A &>().callWithValuesSorted(std::declval<B>()));
template <class T> struct NoOp { void operator()(T) const {} };

// state of the functions passed to fill(), which takes references to plain functions
template <class T> struct Fn {
    static const T *vals;
    static size_t calls;
    static bool inOrder;
    static T byIndexI(int i) { inOrder = inOrder && size_t(i) == calls; ++calls; return vals[i]; }
    static T byIndexZ(size_t i) { inOrder = inOrder && i == calls; ++calls; return vals[i]; }
    static T noArg() { return vals[calls++]; }
};
template <class T> const T *Fn<T>::vals;
template <class T> size_t Fn<T>::calls;
template <class T> bool Fn<T>::inOrder;

template <class T> static T image(T x, T salt, size_t call)
{
    // a result that depends on the value and on how often the function was called before
    return fromBits<T>(typename BitsOf<T>::type(bits(x) ^ bits(salt) ^ (typename BitsOf<T>::type(call) << 1)));
}
template <class T> static void expectCalls(const char *what, const std::vector<T> &got, const std::vector<T> &want)
{
    PBT_CHECK(got.size() == want.size(), what << ": function called " << got.size() << " times, expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) expectEq(what, got[i], want[i]);
}

template <class V> struct traverse {
    using T = typename V::EntryType;
    using M = typename V::Mask;
    static constexpr size_t N = V::Size;
    using A = Arr<T, N>;
    using B = Arr<bool, N>;
    static void calls(std::true_type, const V &v, const M &k, const std::vector<T> &all, const std::vector<T> &sel)
    {
        std::vector<T> got;
        v.call([&](T x) { got.push_back(x); });
        expectCalls("call(f)", got, all);
        got.clear();
        v.call([&](T x) { got.push_back(x); }, k);
        expectCalls("call(f, mask)", got, sel);
        got.clear();
        V w = v;
        w(k).call([&](T x) { got.push_back(x); });
        expectCalls("v(mask).call(f)", got, sel);
        got.clear();
        const auto f = [&](T x) { got.push_back(x); };
        w(k).call(f);
        expectCalls("v(mask).call(const f)", got, sel);
    }
    static void calls(std::false_type, const V &, const M &, const std::vector<T> &, const std::vector<T> &) {}
    static void sortedCalls(std::true_type, Src &s, const A &a0)
    {
        A a = a0;
        for (size_t i = 0; i < N; ++i)
            if (a[i] != a[i]) a[i] = T(0);
        // few distinct values
        if (s.coin())
            for (size_t i = 1; i < N; ++i)
                if (s.coin()) a[i] = a[s.draw(i - 1)];
        std::sort(a.d, a.d + N);
        std::vector<T> want(1, a[0]), got;
        for (size_t i = 1; i < N; ++i)
            if (a[i] != a[i - 1]) want.push_back(a[i]);
        V v = toV<V>(a);
        v.callWithValuesSorted([&](T x) { got.push_back(x); });
        PBT_CHECK(got.size() == want.size(), "callWithValuesSorted: " << got.size() << " calls for " << want.size() << " distinct values");
        for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(got[i] == want[i], "callWithValuesSorted: call " << i << " has the wrong value");
        s.note("sorted", [&](std::ostream &os) { os << a; });
    }
    static void sortedCalls(std::false_type, Src &, const A &) {}
    static void fills(std::false_type, Src &, const A &) {}
    static void fills(std::true_type, Src &, const A &a)
    {
        using F = Fn<T>;
        F::vals = a.d;
        F::inOrder = true;
        V v = V(T(3));
        F::calls = 0;
        v.fill(F::byIndexI);
        PBT_CHECK(F::calls == N && F::inOrder, "fill(f(int)): " << F::calls << " calls, in order: " << F::inOrder);
        expectSame("fill(f(int))", lanes(v), a);
        v = V(T(5));
        F::calls = 0;
        v.fill(F::byIndexZ);
        PBT_CHECK(F::calls == N && F::inOrder, "fill(f(size_t)): " << F::calls << " calls, in order: " << F::inOrder);
        expectSame("fill(f(size_t))", lanes(v), a);
        v = V(T(7));
        F::calls = 0;
        v.fill(F::noArg);
        expectEq("calls made by fill(f())", F::calls, N);
        expectSame("fill(f())", lanes(v), a);
    }
    static void run(Src &s)
    {
        const A a = genArr<T, N>(s, "v");
        const B m = genMaskArr<N>(s, "m");
        const T salt = s.coin() ? genVal<T>(s) : T(0);
        const V v = toV<V>(a);
        const M k = toM<M>(m);
        std::vector<T> all(a.d, a.d + N), sel;
        A want, wantSel = a;
        size_t c = 0;
        for (size_t i = 0; i < N; ++i) {
            want[i] = image(a[i], salt, i);
            if (m[i]) {
                sel.push_back(a[i]);
                wantSel[i] = image(a[i], salt, c++);
            }
        }
        s.nontrivial(N == 1 || (!allSame(a) && !allSame(m)));
        using Fun = NoOp<T>;
        calls(HasCall<V, Fun>(), v, k, all, sel);
        std::vector<T> got;
        const auto f = [&](T x) { const T r = image(x, salt, got.size()); got.push_back(x); return r; };
        A r = lanes(V(v.apply(f)));
        expectCalls("apply(f)", got, all);
        expectSame("apply(f)", r, want);
        got.clear();
        r = lanes(V(v.apply(f, k)));
        expectCalls("apply(f, mask)", got, sel);
        expectSame("apply(f, mask)", r, wantSel);
        expectSame("vector after const apply", lanes(v), a);
        applyThroughMask(std::integral_constant<bool, !isSA<V>::value>(), v, k, f, got, sel, wantSel, a);
        // generate
        std::vector<size_t> idx;
        r = lanes(V(V::generate([&](size_t i) { idx.push_back(i); return a[i]; })));
        PBT_CHECK(idx.size() == N, "generate: " << idx.size() << " calls");
        for (size_t i = 0; i < N; ++i) PBT_CHECK(idx[i] == i, "generate: call " << i << " got index " << idx[i]);
        expectSame("generate", r, a);
        fills(HasCall<V, Fun>(), s, a);
        sortedCalls(HasSorted<V, Fun>(), s, a);
        // the identity with and without a mask
        expectSame("apply(identity)", lanes(V(v.apply([](T x) { return x; }))), a);
    }
    template <class F> static void applyThroughMask(std::true_type, const V &v, const M &k, const F &f, std::vector<T> &got, const std::vector<T> &sel, const A &wantSel, const A &a)
    {
        got.clear();
        V w = v;
        const A r = lanes(V(w(k).apply(f)));
        expectCalls("v(mask).apply(f)", got, sel);
        expectSame("v(mask).apply(f)", r, wantSel);
        expectSame("vector after v(mask).apply", lanes(w), a);
    }
    template <class F> static void applyThroughMask(std::false_type, const V &, const M &, const F &, std::vector<T> &, const std::vector<T> &, const A &, const A &) {}
};
#if L02_PART == 0
REG_ALL(traverse, AllVectors, 1);
#else
REG_ALL(traverse, SAAll, 0.5);
#endif
PBT_MAIN
