#include "vcgen.h"
// M02: masked assignment
template <class T, class V> static Arr<T, V::Size> sel(const Arr<bool, V::Size> &k, const Arr<T, V::Size> &t, const Arr<T, V::Size> &f)
{
    Arr<T, V::Size> r;
    for (size_t i = 0; i < V::Size; ++i) r[i] = k[i] ? t[i] : f[i];
    return r;
}
// unselected lanes must keep every bit, also of a NaN
template <class T, size_t N> static void expectMerged(const char *what, const Arr<T, N> &got, const Arr<bool, N> &k,
                                                      const Arr<T, N> &old, const Arr<T, N> &want)
{
    for (size_t i = 0; i < N; ++i) {
        const bool ok = k[i] ? same(got[i], want[i]) : bits(got[i]) == bits(old[i]);
        if (!ok) {
            std::ostringstream os;
            os.precision(20);
            os << what << ": " << (k[i] ? "selected" : "unselected") << " lane " << i << " is ";
            printVal(os, got[i]);
            os << ", expected ";
            printVal(os, k[i] ? want[i] : old[i]);
            pbt::fail(os.str());
        }
    }
}
template <class V> struct Cx {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    Arr<T, N> a, b;
    Arr<bool, N> k;
    explicit Cx(Src &s)
    {
        a = genArr<T, N>(s, "v");
        b = genArr<T, N>(s, "x");
        k = genMaskArr<N>(s, "mask");
        s.nontrivial(N == 1 || !allSame(k));
    }
};
#define ALLFORMS(name, OP, rhs, want)                                                                             \
    { V v = v0; v(m) OP rhs; expectMerged("v(mask) " name, lanes(v), c.k, c.a, want); }                           \
    { V v = v0; Vc::where(m) | v OP rhs; expectMerged("where(mask) | v " name, lanes(v), c.k, c.a, want); }       \
    { V v = v0; Vc::where(m)(v) OP rhs; expectMerged("where(mask)(v) " name, lanes(v), c.k, c.a, want); }         \
    { V v = v0; Vc::where(m, v) OP rhs; expectMerged("where(mask, v) " name, lanes(v), c.k, c.a, want); }         \
    { V v = v0; Vc::_if(m)(v) OP rhs; expectMerged("_if(mask)(v) " name, lanes(v), c.k, c.a, want); }
template <class V> struct assign {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        const T t = genVal<T>(s);
        s.note("t", [&](std::ostream &os) { os << t; });
        Arr<T, N> bt;
        for (size_t i = 0; i < N; ++i) bt[i] = t;
        ALLFORMS("= vector", =, x, c.b)
        ALLFORMS("= scalar", =, t, bt)
        { V v = v0; v.assign(x, m); expectMerged("assign(x, mask)", lanes(v), c.k, c.a, c.b); }
        Arr<T, N> z;
        for (size_t i = 0; i < N; ++i) z[i] = T(0);
        { V v = v0; v.setZero(m); expectMerged("setZero(mask)", lanes(v), c.k, c.a, z); }
        Arr<bool, N> nk;
        for (size_t i = 0; i < N; ++i) nk[i] = !c.k[i];
        { V v = v0; v.setZeroInverted(m); expectMerged("setZeroInverted(mask)", lanes(v), nk, c.a, z); }
        { V v = v0; v.setZero(); expectSame("setZero()", lanes(v), z); }
        expectMerged("iif(mask, x, v)", lanes<V>(Vc::iif(m, x, v0)), c.k, c.a, c.b);
        const bool bc = s.coin();
        expectSame("iif(bool, x, v)", lanes<V>(Vc::iif(bc, x, v0)), bc ? c.b : c.a);
        expectSame("rhs unchanged", lanes(x), c.b);
        expectMask("mask unchanged", m, c.k);
        // where with a bool
        { V v = v0; Vc::where(bc) | v = x; expectSame("where(bool) | v = x", lanes(v), bc ? c.b : c.a); }
        { T q = c.a[0]; Vc::where(bc) | q = t; expectEq("where(bool) | scalar = t", q, bc ? t : c.a[0]); }
    }
};
template <class V> struct arithmetic {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        const T t = c.b[0];
        Arr<T, N> w, ws;
        for (size_t i = 0; i < N; ++i) { w[i] = Ar<T>::add(c.a[i], c.b[i]); ws[i] = Ar<T>::add(c.a[i], t); }
        ALLFORMS("+= vector", +=, x, w) ALLFORMS("+= scalar", +=, t, ws)
        for (size_t i = 0; i < N; ++i) { w[i] = Ar<T>::sub(c.a[i], c.b[i]); ws[i] = Ar<T>::sub(c.a[i], t); }
        ALLFORMS("-= vector", -=, x, w) ALLFORMS("-= scalar", -=, t, ws)
        for (size_t i = 0; i < N; ++i) { w[i] = Ar<T>::mul(c.a[i], c.b[i]); ws[i] = Ar<T>::mul(c.a[i], t); }
        ALLFORMS("*= vector", *=, x, w) ALLFORMS("*= scalar", *=, t, ws)
    }
};
template <class V> struct incdec {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a);
        Arr<T, N> inc, dec;
        for (size_t i = 0; i < N; ++i) { inc[i] = Ar<T>::add(c.a[i], T(1)); dec[i] = Ar<T>::sub(c.a[i], T(1)); }
        { V v = v0; V r = ++v(m); expectMerged("++v(mask)", lanes(v), c.k, c.a, inc); expectMerged("++v(mask) result", lanes(r), c.k, c.a, inc); }
        { V v = v0; V r = v(m)++; expectMerged("v(mask)++", lanes(v), c.k, c.a, inc); expectSame("v(mask)++ result", lanes(r), c.a); }
        { V v = v0; V r = --v(m); expectMerged("--v(mask)", lanes(v), c.k, c.a, dec); expectMerged("--v(mask) result", lanes(r), c.k, c.a, dec); }
        { V v = v0; V r = v(m)--; expectMerged("v(mask)--", lanes(v), c.k, c.a, dec); expectSame("v(mask)-- result", lanes(r), c.a); }
        { V v = v0; ++Vc::where(m)(v); expectMerged("++where(mask)(v)", lanes(v), c.k, c.a, inc); }
        { V v = v0; Vc::where(m)(v)++; expectMerged("where(mask)(v)++", lanes(v), c.k, c.a, inc); }
        { V v = v0; --(Vc::where(m) | v); expectMerged("--(where(mask) | v)", lanes(v), c.k, c.a, dec); }
        { V v = v0; (Vc::where(m) | v)--; expectMerged("(where(mask) | v)--", lanes(v), c.k, c.a, dec); }
        // the same through the function, with the value of the expression (C++ semantics of ++ and --)
        using O = Vc::Operator;
        { V v = v0; V r = Vc::conditional_assign<O::PreIncrement>(v, m); expectMerged("PreIncrement", lanes(v), c.k, c.a, inc); expectMerged("PreIncrement result", lanes(r), c.k, c.a, inc); }
        { V v = v0; V r = Vc::conditional_assign<O::PostIncrement>(v, m); expectMerged("PostIncrement", lanes(v), c.k, c.a, inc); expectSame("PostIncrement result", lanes(r), c.a); }
        { V v = v0; V r = Vc::conditional_assign<O::PreDecrement>(v, m); expectMerged("PreDecrement", lanes(v), c.k, c.a, dec); expectMerged("PreDecrement result", lanes(r), c.k, c.a, dec); }
        { V v = v0; V r = Vc::conditional_assign<O::PostDecrement>(v, m); expectMerged("PostDecrement", lanes(v), c.k, c.a, dec); expectSame("PostDecrement result", lanes(r), c.a); }
    }
};
template <class V> struct division {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        for (size_t i = 0; i < N; ++i) {
            if (std::is_integral<T>::value && c.b[i] == T(0)) c.b[i] = T(3);
            if (std::is_integral<T>::value && std::is_signed<T>::value && c.b[i] == T(-1)) c.b[i] = T(2);
        }
        s.note("x'", [&](std::ostream &os) { os << c.b; });
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        const T t = c.b[0];
        Arr<T, N> w, ws;
        for (size_t i = 0; i < N; ++i) {
            volatile T q = T(c.a[i] / c.b[i]), r = T(c.a[i] / t);
            w[i] = q; ws[i] = r;
        }
        ALLFORMS("/= vector", /=, x, w) ALLFORMS("/= scalar", /=, t, ws)
    }
};
template <class V> struct integer_ops {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        using U = typename std::make_unsigned<T>::type;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        const T t = c.b[0];
        Arr<T, N> w, ws;
#define B(op)                                                                                         \
    for (size_t i = 0; i < N; ++i) { w[i] = T(c.a[i] op c.b[i]); ws[i] = T(c.a[i] op t); }            \
    ALLFORMS(#op "= vector", op##=, x, w) ALLFORMS(#op "= scalar", op##=, t, ws)
        B(&) B(|) B(^)
#undef B
        const int n = s.range(0, int(sizeof(T) * 8) - 1);
        s.note("n", [&](std::ostream &os) { os << n; });
        for (size_t i = 0; i < N; ++i) { w[i] = T(U((unsigned long long)(U(c.a[i])) << n)); ws[i] = T(c.a[i] >> n); }
        ALLFORMS("<<= n", <<=, n, w) ALLFORMS(">>= n", >>=, n, ws)
    }
};
template <class V> struct remainder_ops {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        for (size_t i = 0; i < N; ++i) {
            if (c.b[i] == T(0)) c.b[i] = T(3);
            if (std::is_signed<T>::value && c.b[i] == T(-1)) c.b[i] = T(2);
        }
        s.note("x'", [&](std::ostream &os) { os << c.b; });
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        const T t = c.b[0];
        Arr<T, N> w, ws;
        for (size_t i = 0; i < N; ++i) { w[i] = T(c.a[i] % c.b[i]); ws[i] = T(c.a[i] % t); }
        ALLFORMS("%= vector", %=, x, w) ALLFORMS("%= scalar", %=, t, ws)
    }
};
template <class V> struct set_qnan {
    static void run(Src &s)
    {
        using M = typename V::Mask;
        Cx<V> c(s);
        const M m = toM<M>(c.k);
        V v = toV<V>(c.a);
        v.setQnan(m);
        Arr<typename V::EntryType, V::Size> w;
        for (size_t i = 0; i < V::Size; ++i) w[i] = std::numeric_limits<typename V::EntryType>::quiet_NaN();
        expectMerged("setQnan(mask)", lanes(v), c.k, c.a, w);
        v.setQnan();
        expectSame("setQnan()", lanes(v), w);
    }
};
// integer division where an unselected lane has a zero divisor (kept out of the other sub-properties)
template <class V> struct kf_div_unselected_zero {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        for (size_t i = 0; i < N; ++i) {
            c.b[i] = T(3);
            if (!c.k[i]) c.b[i] = T(0);
        }
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        Arr<T, N> w, r;
        for (size_t i = 0; i < N; ++i) { w[i] = T(c.a[i] / T(3)); r[i] = T(c.a[i] % T(3)); }
        ALLFORMS("/= vector", /=, x, w)
        ALLFORMS("%= vector", %=, x, r)
    }
};
#ifndef PBT_TEMPLATES_ONLY
// mask, right-hand side and destination depend on each other
template <class V> struct aliased {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        using M = typename V::Mask;
        Cx<V> c(s);
        const size_t j = s.draw(N - 1);
        s.note("lane", [&](std::ostream &os) { os << j; });
        const M m = toM<M>(c.k);
        const V v0 = toV<V>(c.a), x = toV<V>(c.b);
        Arr<T, N> w, wl;
        for (size_t i = 0; i < N; ++i) { w[i] = Ar<T>::add(c.a[i], c.a[i]); wl[i] = Ar<T>::add(c.a[i], c.a[j]); }
        { V v = v0; v(m) += v; expectMerged("v(mask) += v", lanes(v), c.k, c.a, w); }
        { V v = v0; Vc::where(m) | v += v; expectMerged("where(mask) | v += v", lanes(v), c.k, c.a, w); }
        { V v = v0; Vc::where(m) | v += T(v[j]); expectMerged("where(mask) | v += v[j]", lanes(v), c.k, c.a, wl); }
        { V v = v0; v(m) = v + T(v[j]); expectMerged("v(mask) = v + v[j]", lanes(v), c.k, c.a, wl); }
        for (size_t i = 0; i < N; ++i) { w[i] = Ar<T>::sub(c.a[i], c.a[i]); wl[i] = Ar<T>::mul(c.a[i], c.a[i]); }
        { V v = v0; v(m) -= v; expectMerged("v(mask) -= v", lanes(v), c.k, c.a, w); }
        { V v = v0; Vc::where(m) | v *= v; expectMerged("where(mask) | v *= v", lanes(v), c.k, c.a, wl); }
        { V v = v0; v(m) = v; expectSame("v(mask) = v", lanes(v), c.a); }
        { V v = v0; v.assign(v, m); expectSame("v.assign(v, mask)", lanes(v), c.a); }
        { V v = v0; v = Vc::iif(m, x, v); expectMerged("v = iif(mask, x, v)", lanes(v), c.k, c.a, c.b); }
        { V v = x; v = Vc::iif(m, v, v0); expectMerged("v = iif(mask, v, y)", lanes(v), c.k, c.a, c.b); }
        // the mask comes from a comparison of the vector that is assigned to
        const T t = c.b[j];
        Arr<bool, N> lt;
        for (size_t i = 0; i < N; ++i) lt[i] = c.a[i] < t;
        { V v = v0; Vc::where(v < t) | v = x; expectMerged("where(v < t) | v = x", lanes(v), lt, c.a, c.b); }
        { V v = v0; v(v < t) = x; expectMerged("v(v < t) = x", lanes(v), lt, c.a, c.b); }
        // two masked assignments with a mask and its complement
        { V v = v0; v(m) = x; v(!m) = v0; expectMerged("v(mask) = x; v(!mask) = y", lanes(v), c.k, c.a, c.b); }
    }
};
REG_ALL(kf_div_unselected_zero, AllInts, 0.05);
REG_ALL(assign, AllVectors, 1);
REG_ALL(arithmetic, AllVectors, 0.7);
REG_ALL(incdec, AllVectors, 0.7);
REG_ALL(aliased, AllVectors, 0.4);
REG_ALL(division, AllVectors, 0.5);
REG_ALL(integer_ops, AllInts, 0.7);
REG_ALL(remainder_ops, AllInts, 0.5);
REG_ALL(set_qnan, AllReals, 0.3);
PBT_MAIN
#endif
