#include "vcgen.h"
// I02: deinterleave and transpose
template <class V, class M> struct Deint {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    static void run(Src &s)
    {
        static GuardMem mem(1);
        M a[2 * N];
        for (size_t i = 0; i < 2 * N; ++i) a[i] = genVal<M>(s);
        s.note("memory", [&](std::ostream &os) { for (auto x : a) { printVal(os, x); os << ' '; } });
        bool diff = false;
        for (size_t i = 1; i < 2 * N; ++i) diff = diff || !same(a[i], a[0]);
        s.nontrivial(diff);
        const int how = s.range(0, 3);
        M *p;
        if (how == 0) p = mem.template atEnd<M>(2 * N);                       // unaligned by nature, ends at the guard
        else if (how == 1) p = mem.template atBegin<M>() + s.draw(40);
        else p = reinterpret_cast<M *>(mem.lo() + 64 * s.draw(4));
        std::memcpy(p, a, sizeof a);
        V x, y;
        if (how == 0 || how == 1) Vc::deinterleave(&x, &y, p, Vc::Unaligned);
        else if (how == 2) Vc::deinterleave(&x, &y, p, Vc::Aligned);
        else Vc::deinterleave(&x, &y, p);
        Arr<T, N> e, o;
        for (size_t i = 0; i < N; ++i) e[i] = static_cast<T>(a[2 * i]), o[i] = static_cast<T>(a[2 * i + 1]);
        expectSame("even elements", lanes(x), e);
        expectSame("odd elements", lanes(y), o);
    }
};
template <class V> static std::string vname() { return VName<V>::s(); }
template <class V, class M> static int one()
{
    return pbt::reg(std::string("deinterleave<") + vname<V>() + "," + TName<M>::s() + ">", &Deint<V, M>::run, 1);
}
template <class A> static int allOf()
{
    using Vc::Vector;
    return one<Vector<float, A>, float>() + one<Vector<float, A>, unsigned short>() + one<Vector<float, A>, short>() +
           one<Vector<double, A>, double>() + one<Vector<int, A>, int>() + one<Vector<int, A>, short>() +
           one<Vector<unsigned, A>, unsigned>() + one<Vector<unsigned, A>, unsigned short>() + one<Vector<short, A>, short>() +
           one<Vector<unsigned short, A>, unsigned short>();
}
#ifdef Vc_IMPL_Scalar
static int r0 = allOf<SAbi>();
#else
static int r0 = allOf<Vc::VectorAbi::Sse>();
#ifdef Vc_IMPL_AVX2
static int r1 = allOf<Vc::VectorAbi::Avx>();
#elif defined Vc_IMPL_AVX
static int r1 = one<Vc::Vector<float, Vc::VectorAbi::Avx>, float>() + one<Vc::Vector<double, Vc::VectorAbi::Avx>, double>() +
                one<Vc::Vector<float, Vc::VectorAbi::Avx>, short>() + one<Vc::Vector<float, Vc::VectorAbi::Avx>, unsigned short>();
#endif
#endif
// ---- transpose
template <class In, class Out> struct transpose4 {
    using T = typename In::EntryType;
    static void run(Src &s)
    {
        constexpr size_t N = In::Size;
        static_assert(Out::Size == 4, "");
        Arr<T, N> a[4];
        In v[4];
        for (int i = 0; i < 4; ++i) {
            a[i] = genArr<T, N>(s, "row");
            v[i] = toV<In>(a[i]);
        }
        s.nontrivial(!allSame(a[0]) || !allSame(a[1]));
        Out r[N];
        go(v, r, std::integral_constant<size_t, N>());
        for (size_t i = 0; i < N; ++i) {
            Arr<T, 4> w;
            for (size_t j = 0; j < 4; ++j) w[j] = a[j][i];
            expectSame("transposed row", lanes(r[i]), w);
        }
    }
    static void go(In *v, Out *r, std::integral_constant<size_t, 4>) { Vc::tie(r[0], r[1], r[2], r[3]) = Vc::transpose(v[0], v[1], v[2], v[3]); }
    static void go(In *v, Out *r, std::integral_constant<size_t, 2>) { Vc::tie(r[0], r[1]) = Vc::transpose(v[0], v[1], v[2], v[3]); }
};
// in place: the results overwrite the inputs
template <class V> struct transpose_in_place {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        Arr<T, 4> a[4];
        V v[4];
        for (int i = 0; i < 4; ++i) {
            a[i] = genArr<T, 4>(s, "row");
            v[i] = toV<V>(a[i]);
        }
        s.nontrivial(!allSame(a[0]) || !allSame(a[1]));
        Vc::tie(v[0], v[1], v[2], v[3]) = Vc::transpose(v[0], v[1], v[2], v[3]);
        for (size_t i = 0; i < 4; ++i) {
            Arr<T, 4> w;
            for (size_t j = 0; j < 4; ++j) w[j] = a[j][i];
            expectSame("row transposed in place", lanes(v[i]), w);
        }
    }
};
using SAf4 = Vc::SimdArray<float, 4>;
#ifdef Vc_IMPL_Scalar
static void tr1(Src &s)
{
    auto a = genArr<float, 1>(s, "a");
    Vc::float_v v = toV<Vc::float_v>(a), r = 0;
    s.nontrivial(true);
    Vc::tie(r) = Vc::transpose(v);
    expectSame("1x1", lanes(r), a);
}
static int t1 = pbt::reg("transpose1<float_Scalar>", &tr1, 0.3);
// the generic implementation of arrays of scalars
static int t3 = pbt::reg("transpose4<SA_int_4>", &transpose4<Vc::SimdArray<int, 4>, Vc::SimdArray<int, 4>>::run, 1) +
                pbt::reg("transpose4<SA_double_4>", &transpose4<Vc::SimdArray<double, 4>, Vc::SimdArray<double, 4>>::run, 1) +
                pbt::reg("transpose4<SA_float_2,SA_float_4>", &transpose4<Vc::SimdArray<float, 2>, SAf4>::run, 1) +
                pbt::reg("transpose_in_place<SA_short_4>", &transpose_in_place<Vc::SimdArray<short, 4>>::run, 1);
#else
static int t1 = pbt::reg("transpose4<float_Sse>", &transpose4<Vc::SSE::float_v, Vc::SSE::float_v>::run, 1) +
                pbt::reg("transpose_in_place<float_Sse>", &transpose_in_place<Vc::SSE::float_v>::run, 1);
#endif
static int t2 = pbt::reg("transpose4<SA_float_4>", &transpose4<SAf4, SAf4>::run, 1) +
                pbt::reg("transpose_in_place<SA_float_4>", &transpose_in_place<SAf4>::run, 1);
PBT_MAIN
