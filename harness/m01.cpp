#include "vcgen.h"
// M01: masks are arrays of bool
static GuardMem guard(1);
template <size_t N> static int bitsOf(const Arr<bool, N> &a)
{
    unsigned r = 0;
    for (size_t i = 0; i < N && i < 32; ++i) r |= unsigned(a[i]) << i;
    return int(r);
}
template <class M, size_t N> static void checkQueries(const M &m, const Arr<bool, N> &a)
{
    size_t cnt = 0, first = N;
    for (size_t i = N; i-- > 0;) if (a[i]) { ++cnt; first = i; }
    expectMask("lanes", m, a);
    PBT_CHECK(size_t(m.count()) == cnt, "count");
    if (cnt) PBT_CHECK(size_t(m.firstOne()) == first, "firstOne");
    PBT_CHECK(m.isFull() == (cnt == N), "isFull");
    PBT_CHECK(m.isEmpty() == (cnt == 0), "isEmpty");
    PBT_CHECK(m.isNotEmpty() == (cnt != 0), "isNotEmpty");
    PBT_CHECK(m.isMix() == (cnt != 0 && cnt != N), "isMix");
    PBT_CHECK(all_of(m) == (cnt == N), "all_of");
    PBT_CHECK(any_of(m) == (cnt != 0), "any_of");
    PBT_CHECK(none_of(m) == (cnt == 0), "none_of");
    PBT_CHECK(some_of(m) == (cnt != 0 && cnt != N), "some_of");
    if (N <= 31) PBT_CHECK(m.toInt() == bitsOf(a), "toInt");
    M c = m;
    for (size_t i = 0; i < N; ++i) {
        PBT_CHECK(bool(c[i]) == a[i], "non-const subscript");
        const bool b = a[i];
        PBT_CHECK(Vc::all_of(b) == b && Vc::any_of(b) == b && Vc::none_of(b) == !b && !Vc::some_of(b), "all_of/any_of/none_of/some_of(bool)");
    }
    expectEq("size()", size_t(M::size()), N);
}
template <class V> struct queries {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        constexpr size_t N = M::Size;
        auto a = genMaskArr<N>(s, "m");
        s.nontrivial(N == 1 || !allSame(a));
        checkQueries(toM<M>(a), a);
    }
};
template <class V> struct memory {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        constexpr size_t N = M::Size;
        auto a = genMaskArr<N>(s, "m");
        s.nontrivial(N == 1 || !allSame(a));
        bool *p = s.coin() ? guard.atEnd<bool>(N) : guard.atBegin<bool>() + 64 * s.draw(3);
        for (size_t i = 0; i < N; ++i) p[i] = a[i];
        expectMask("M(mem)", M(static_cast<const bool *>(p)), a);
        { M m(static_cast<const bool *>(p), Vc::Unaligned); expectMask("M(mem, Unaligned)", m, a); }
        { M m; m.load(p); expectMask("load", m, a); }
        { M m; m.load(p, Vc::Unaligned); expectMask("load Unaligned", m, a); }
        if (reinterpret_cast<uintptr_t>(p) % M::MemoryAlignment == 0) {
            M m; m.load(p, Vc::Aligned); expectMask("load Aligned", m, a);
        }
        const M m = toM<M>(a);
        // store: exactly N bools, each 0 or 1, neighbours untouched
        unsigned char *q = guard.atEnd<unsigned char>(N);
        const bool aligned = reinterpret_cast<uintptr_t>(q) % M::MemoryAlignment == 0;
        for (int mode = 0; mode < 3; ++mode) {
            std::memset(q - 64, 0xa5, 64 + N);
            bool *w = reinterpret_cast<bool *>(q);
            if (mode == 0) m.store(w);
            else if (mode == 1) m.store(w, Vc::Unaligned);
            else if (aligned) m.store(w, Vc::Aligned);
            else break;
            for (size_t i = 0; i < N; ++i) PBT_CHECK(q[i] == (a[i] ? 1 : 0), "stored bool");
            for (int i = 1; i <= 64; ++i) PBT_CHECK(q[-i] == 0xa5, "byte before the stored range changed");
        }
        unsigned char *b = guard.atBegin<unsigned char>();
        std::memset(b, 0x5a, N + 64);
        m.store(reinterpret_cast<bool *>(b));
        for (size_t i = 0; i < N; ++i) PBT_CHECK(b[i] == (a[i] ? 1 : 0), "stored bool");
        for (size_t i = N; i < N + 64; ++i) PBT_CHECK(b[i] == 0x5a, "byte after the stored range changed");
    }
};
template <class V> struct operators {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        constexpr size_t N = M::Size;
        auto a = genMaskArr<N>(s, "a");
        auto b = genMaskArr<N>(s, "b");
        if (s.oneIn(4)) b = a;
        if (s.oneIn(4)) { b = a; const size_t k = s.draw(N - 1); b[k] = !b[k]; }
        const M x = toM<M>(a), y = toM<M>(b);
        s.nontrivial(N == 1 || (!allSame(a) && !allSame(b)));
        Arr<bool, N> w;
        bool eq = true;
        for (size_t i = 0; i < N; ++i) eq = eq && a[i] == b[i];
        PBT_CHECK((x == y) == eq, "==");
        PBT_CHECK((x != y) == !eq, "!=");
        for (size_t i = 0; i < N; ++i) w[i] = a[i] && b[i];
        expectMask("a & b", M(x & y), w);
        expectMask("a && b", M(x && y), w);
        { M z = x; z &= y; expectMask("a &= b", z, w); checkQueries(z, w); }
        for (size_t i = 0; i < N; ++i) w[i] = a[i] || b[i];
        expectMask("a | b", M(x | y), w);
        expectMask("a || b", M(x || y), w);
        { M z = x; z |= y; expectMask("a |= b", z, w); checkQueries(z, w); }
        for (size_t i = 0; i < N; ++i) w[i] = a[i] != b[i];
        expectMask("a ^ b", M(x ^ y), w);
        { M z = x; z ^= y; expectMask("a ^= b", z, w); checkQueries(z, w); }
        for (size_t i = 0; i < N; ++i) w[i] = !a[i];
        expectMask("!a", M(!x), w);
        checkQueries(M(!x), w);
        expectMask("operand unchanged", x, a);
    }
};
template <class V> struct construct {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        constexpr size_t N = M::Size;
        auto a = genMaskArr<N>(s, "m");
        s.nontrivial(N == 1 || !allSame(a));
        const bool t = s.coin();
        Arr<bool, N> w;
        for (size_t i = 0; i < N; ++i) w[i] = t;
        checkQueries(M(t), w);
        checkQueries(t ? M::One() : M::Zero(), w);
        checkQueries(t ? M(Vc::One) : M(Vc::Zero), w);
        checkQueries(M::generate([&](int i) { return a[size_t(i)]; }), a);
        // a mask obtained from a comparison
        using T = typename V::EntryType;
        Arr<T, V::Size> v;
        for (size_t i = 0; i < N; ++i) v[i] = a[i] ? T(1) : T(0);
        checkQueries(M(toV<V>(v) == T(1)), a);
        checkQueries(M(toV<V>(v) != T(0)), a);
        // lane writes
        M m = toM<M>(a);
        const int n = s.range(1, 6);
        for (int k = 0; k < n; ++k) {
            const size_t i = s.draw(N - 1);
            const bool b = s.coin();
            s.note("set", [&](std::ostream &os) { os << i << "=" << b; });
            m[i] = b;
            a[i] = b;
            checkQueries(m, a);
        }
        M c(m);
        m[0] = !a[0];
        checkQueries(c, a);
        c = m;
        a[0] = !a[0];
        checkQueries(c, a);
    }
};
template <class V> struct shifted_mask {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        constexpr size_t N = M::Size;
        auto a = genMaskArr<N>(s, "m");
        const int n = s.range(0, 2 * int(N)) - int(N);
        s.note("n", [&](std::ostream &os) { os << n; });
        s.nontrivial(n != 0);
        Arr<bool, N> w;
        for (int i = 0; i < int(N); ++i) w[i] = i + n >= 0 && i + n < int(N) && a[i + n];
        expectMask("shifted", M(toM<M>(a).shifted(n)), w);
    }
};
// masks of the signed and unsigned type convert implicitly
template <class A, class B> struct conversion {
    static void run(Src &s)
    {
        using MA = typename A::Mask;
        using MB = typename B::Mask;
        constexpr size_t N = MA::Size;
        auto a = genMaskArr<N>(s, "m");
        s.nontrivial(N == 1 || !allSame(a));
        const MA x = toM<MA>(a);
        const MB y = x;
        checkQueries(y, a);
        const MA z = y;
        checkQueries(z, a);
        PBT_CHECK(z == x, "round trip");
    }
};
#ifndef PBT_TEMPLATES_ONLY
template <class Abi> static int regConv()
{
    using I = Vc::Vector<int, Abi>;
    using UI = Vc::Vector<uint_t, Abi>;
    using S = Vc::Vector<short, Abi>;
    using US = Vc::Vector<ushort_t, Abi>;
    pbt::reg("conversion<" + VName<I>::s() + ">", &conversion<I, UI>::run, 0.3);
    pbt::reg("conversion<" + VName<S>::s() + ">", &conversion<S, US>::run, 0.3);
    return 0;
}
static int r0 = regConv<SAbi>();
#ifndef Vc_IMPL_Scalar
static int r1 = regConv<Vc::VectorAbi::Sse>();
#endif
#ifdef Vc_IMPL_AVX2
static int r3 = regConv<Vc::VectorAbi::Avx>();
#endif
REG_ALL(queries, AllVectors, 0.5);
REG_ALL(memory, AllVectors, 0.5);
REG_ALL(operators, AllVectors, 0.5);
REG_ALL(construct, AllVectors, 0.5);
REG_ALL(shifted_mask, AllVectors, 0.3);
PBT_MAIN
#endif
