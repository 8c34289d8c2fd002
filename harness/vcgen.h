// Value generators, lane helpers and type lists for Vc.
#pragma once
#include <Vc/Vc>
#include <Vc/IO>
#include "pbt.h"
#include <array>
#include <cmath>
#include <limits>
#include <type_traits>

using pbt::Src;

// ------------------------------------------------------------------ names
template <class T> struct TName;
#define TN(T, n) template <> struct TName<T> { static const char *s() { return n; } }
TN(double, "double"); TN(float, "float"); TN(int, "int"); TN(unsigned, "uint"); TN(short, "short");
TN(unsigned short, "ushort"); TN(signed char, "schar"); TN(unsigned char, "uchar"); TN(char, "char");
TN(long, "long"); TN(unsigned long, "ulong"); TN(long long, "llong"); TN(unsigned long long, "ullong");
TN(bool, "bool");
#undef TN
template <class A> struct AbiName { static std::string s() { return "abi"; } };
template <> struct AbiName<Vc::VectorAbi::Scalar> { static std::string s() { return "Scalar"; } };
template <> struct AbiName<Vc::VectorAbi::Sse> { static std::string s() { return "Sse"; } };
template <> struct AbiName<Vc::VectorAbi::Avx> { static std::string s() { return "Avx"; } };
template <int N> struct AbiName<Vc::simd_abi::fixed_size<N>> { static std::string s() { return "fixed" + std::to_string(N); } };
// SimdArray<T, N> or Vector<T, fixed_size<N>>
template <class V> struct isSA : std::false_type {};
template <class T, std::size_t N, class VT, std::size_t W> struct isSA<Vc::SimdArray<T, N, VT, W>> : std::true_type {};
template <class T, int N> struct isSA<Vc::Vector<T, Vc::simd_abi::fixed_size<N>>> : std::true_type {};
template <class V> struct VName;
template <class T, class A> struct VName<Vc::Vector<T, A>> {
    static std::string s() { return std::string(TName<T>::s()) + "_" + AbiName<A>::s(); }
};
template <class T, std::size_t N, class VT, std::size_t W> struct VName<Vc::SimdArray<T, N, VT, W>> {
    static std::string s() { return std::string("SA_") + TName<T>::s() + "_" + std::to_string(N); }
};

// ------------------------------------------------------------------ bits
template <class T> struct BitsOf { using type = typename std::make_unsigned<T>::type; };
template <> struct BitsOf<float> { using type = uint32_t; };
template <> struct BitsOf<double> { using type = uint64_t; };
template <class T> typename BitsOf<T>::type bits(T x)
{
    typename BitsOf<T>::type r;
    std::memcpy(&r, &x, sizeof r);
    return r;
}
template <class T> T fromBits(typename BitsOf<T>::type b)
{
    T r;
    std::memcpy(&r, &b, sizeof r);
    return r;
}
// identical value: bit equal, or both NaN
template <class T> inline bool same(T a, T b)
{
    return bits(a) == bits(b) || (a != a && b != b);
}
inline bool same(bool a, bool b) { return a == b; }

// ------------------------------------------------------------------ scalar generators
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type genVal(Src &s)
{
    using U = typename std::make_unsigned<T>::type;
    const int w = int(sizeof(T) * 8);
    switch (s.draw(15)) {
    default: {  // small, zig-zag
        const unsigned k = unsigned(s.draw(40));
        return T((k & 1) ? -int(k / 2 + 1) : int(k / 2));
    }
    case 4: case 5: case 6: {
        static const U table[] = {0, 1, U(-1), U(U(1) << (w - 1)), U((U(1) << (w - 1)) - 1), U((U(1) << (w - 1)) + 1),
                                  U(-2), 2, 3, U(U(1) << (w / 2)), U((U(1) << (w / 2)) - 1), U((U(1) << (w / 2)) + 1),
                                  U(0x5555555555555555ull), U(0xaaaaaaaaaaaaaaaaull), U(U(1) << (w - 2)), U(U(3) << (w - 2)),
                                  U(100), U(127), U(128), U(255)};
        return T(table[s.draw(sizeof(table) / sizeof(U) - 1)]);
    }
    case 7: case 8: {  // 2^k + d
        const int k = s.range(0, w - 1), d = s.range(0, 4) - 2;
        return T(U((U(1) << k) + U(d)));
    }
    case 9: case 10: {  // random with random bit width
        const int k = s.range(1, w);
        U v = U(s.draw(~0ull));
        if (k < w) v = U(v & ((U(1) << k) - 1));
        return s.coin() ? T(v) : T(U(-v));
    }
    case 11: case 12: case 13: case 14: case 15: return T(U(s.draw(~0ull)));
    }
}
template <class T> struct FP;
template <> struct FP<float> { static const int mant = 23, ebits = 8, bias = 127; };
template <> struct FP<double> { static const int mant = 52, ebits = 11, bias = 1023; };

template <class T> inline T specialFloat(unsigned i)
{
    using L = std::numeric_limits<T>;
    static const T table[] = {T(0), T(-0.), T(1), T(-1), T(0.5), T(-0.5), T(2), T(1.5), T(-1.5), T(2.5), T(-2.5),
                              L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::epsilon(),
                              T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(2147483647.), T(2147483648.), T(-2147483648.),
                              T(4294967295.), T(4294967296.), T(8388608.), T(8388607.5), T(4503599627370496.), T(4503599627370495.5),
                              T(32767), T(32768), T(65535), T(65536), T(0.49999999999999994), T(0.49999997f), T(3.14159265358979),
                              L::infinity(), -L::infinity(), L::quiet_NaN()};
    return table[i % (sizeof(table) / sizeof(T))];
}
constexpr unsigned kSpecialFloats = 39, kFiniteSpecialFloats = 36;

// finite==true: no NaN/inf
template <class T>
inline typename std::enable_if<std::is_floating_point<T>::value, T>::type genVal(Src &s, bool finite = false)
{
    using U = typename BitsOf<T>::type;
    switch (s.draw(15)) {
    default: {
        const unsigned k = unsigned(s.draw(40));
        return T((k & 1) ? -int(k / 2 + 1) : int(k / 2));
    }
    case 3: case 4: case 5: return specialFloat<T>(unsigned(s.draw((finite ? kFiniteSpecialFloats : kSpecialFloats) - 1)));
    case 6: case 7: {  // quarter fractions
        const int k = s.range(0, 4000) - 2000;
        return T(k) / T(4);
    }
    case 8: case 9: {  // random mantissa, moderate exponent
        const U m = U(s.draw((U(1) << FP<T>::mant) - 1));
        const U e = U(FP<T>::bias + s.range(0, 60) - 30);
        return fromBits<T>(U(m | (e << FP<T>::mant) | (U(s.coin()) << (FP<T>::mant + FP<T>::ebits))));
    }
    case 10: {  // 2^k +- ulps
        const U e = U(s.range(0, (1 << FP<T>::ebits) - 2));
        const int d = s.range(0, 4) - 2;
        U b = U(e << FP<T>::mant);
        b = (e == 0 && d < 0) ? b : U(b + U(d));
        return fromBits<T>(U(b | (U(s.coin()) << (FP<T>::mant + FP<T>::ebits))));
    }
    case 11: {  // denormal
        return fromBits<T>(U(U(s.draw((U(1) << FP<T>::mant) - 1)) | (U(s.coin()) << (FP<T>::mant + FP<T>::ebits))));
    }
    case 12: case 13: case 14: case 15: {
        U b = U(s.draw(~0ull));
        if (finite && ((b >> FP<T>::mant) & ((U(1) << FP<T>::ebits) - 1)) == (U(1) << FP<T>::ebits) - 1)
            b ^= U(1) << (FP<T>::mant + 2);
        return fromBits<T>(b);
    }
    }
}
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type genFinite(Src &s) { return genVal<T>(s); }
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, T>::type genFinite(Src &s) { return genVal<T>(s, true); }

// small exact integers: safe for sums/products in any association
template <class T> inline T genSmallInt(Src &s, int lo, int hi)
{
    const int v = s.range(0, hi - lo);
    // shrink towards 0 if in range
    if (lo <= 0 && hi >= 0) {
        const int k = (v & 1) ? -(v / 2 + 1) : v / 2;
        if (k >= lo && k <= hi) return T(k);
    }
    return T(lo + v);
}

// ------------------------------------------------------------------ arrays
template <class T> inline void printVal(std::ostream &os, T x) { os << x; }
inline void printVal(std::ostream &os, signed char x) { os << int(x); }
inline void printVal(std::ostream &os, unsigned char x) { os << int(x); }
inline void printVal(std::ostream &os, char x) { os << int(x); }
template <class T, size_t N> struct Arr {
    T d[N];
    T &operator[](size_t i) { return d[i]; }
    const T &operator[](size_t i) const { return d[i]; }
    static constexpr size_t size() { return N; }
};
template <class T, size_t N> std::ostream &operator<<(std::ostream &os, const Arr<T, N> &a)
{
    os << '{';
    for (size_t i = 0; i < N; ++i) {
        if (i) os << ", ";
        printVal(os, a.d[i]);
    }
    return os << '}';
}
template <class T, size_t N, class G> inline Arr<T, N> genArr(Src &s, const char *name, G &&g)
{
    Arr<T, N> a;
    // sometimes a uniform or mostly uniform vector; otherwise independent lanes
    const unsigned mode = unsigned(s.draw(7));
    if (mode == 0 && N > 1) {
        const T x = g(s);
        for (size_t i = 0; i < N; ++i) a.d[i] = x;
        const unsigned k = unsigned(s.draw(N));
        if (k) a.d[k - 1] = g(s);
    } else {
        for (size_t i = 0; i < N; ++i) a.d[i] = g(s);
    }
    s.note(name, [&](std::ostream &os) { os << a; });
    return a;
}
template <class T, size_t N> inline Arr<T, N> genArr(Src &s, const char *name)
{
    return genArr<T, N>(s, name, [](Src &q) { return genVal<T>(q); });
}
template <class T, size_t N> inline Arr<T, N> genFiniteArr(Src &s, const char *name)
{
    return genArr<T, N>(s, name, [](Src &q) { return genFinite<T>(q); });
}
template <size_t N> inline Arr<bool, N> genMaskArr(Src &s, const char *name)
{
    Arr<bool, N> a;
    switch (s.draw(7)) {
    case 0: for (size_t i = 0; i < N; ++i) a.d[i] = false; break;
    case 1: for (size_t i = 0; i < N; ++i) a.d[i] = true; break;
    case 2: {
        for (size_t i = 0; i < N; ++i) a.d[i] = false;
        a.d[s.draw(N - 1)] = true;
        break;
    }
    case 3: {
        for (size_t i = 0; i < N; ++i) a.d[i] = true;
        a.d[s.draw(N - 1)] = false;
        break;
    }
    default: {
        uint64_t b = s.draw(N >= 64 ? ~0ull : ((1ull << N) - 1));
        for (size_t i = 0; i < N; ++i) a.d[i] = (b >> (i % 64)) & 1;
    }
    }
    s.note(name, [&](std::ostream &os) { for (size_t i = 0; i < N; ++i) os << int(a.d[i]); });
    return a;
}
template <class T, size_t N> inline bool allSame(const Arr<T, N> &a)
{
    for (size_t i = 1; i < N; ++i)
        if (!same(a.d[i], a.d[0])) return false;
    return true;
}

// ------------------------------------------------------------------ vector <-> array
template <class V> struct Tr {
    using T = typename V::EntryType;
    static constexpr size_t N = V::Size;
    using A = Arr<T, N>;
    using M = typename V::Mask;
    using B = Arr<bool, N>;
};
template <class V> __attribute__((noinline)) V toV(const typename Tr<V>::A &a)
{
    return V(&a.d[0], Vc::Unaligned);
}
template <class V> __attribute__((noinline)) typename Tr<V>::A lanes(const V &v)
{
    typename Tr<V>::A a;
    v.store(&a.d[0], Vc::Unaligned);
    return a;
}
template <class M> __attribute__((noinline)) M toM(const Arr<bool, M::Size> &a)
{
    return M(&a.d[0]);
}
template <class M> __attribute__((noinline)) Arr<bool, M::Size> mlanes(const M &m)
{
    Arr<bool, M::Size> a;
    for (size_t i = 0; i < M::Size; ++i) a.d[i] = m[i];
    return a;
}

template <class T, size_t N>
__attribute__((noinline)) void expectSame(const char *what, const Arr<T, N> &got, const Arr<T, N> &want)
{
    for (size_t i = 0; i < N; ++i) {
        if (!same(got.d[i], want.d[i])) {
            std::ostringstream os;
            os.precision(20);
            os << what << ": lane " << i << " is ";
            printVal(os, got.d[i]);
            os << ", expected ";
            printVal(os, want.d[i]);
            os << " (all lanes " << got << ", expected " << want << ")";
            pbt::fail(os.str());
        }
    }
}
template <class T>
__attribute__((noinline)) void expectEq(const char *what, T got, T want)
{
    if (!same(got, want)) {
        std::ostringstream os;
        os.precision(20);
        os << what << ": got ";
        printVal(os, got);
        os << ", expected ";
        printVal(os, want);
        pbt::fail(os.str());
    }
}

// ------------------------------------------------------------------ guarded memory
// One mapping [guard page][data pages][guard page]; memory handed out either ends exactly at the
// upper guard page or starts right after the lower one, so any access outside faults.
class GuardMem
{
    char *base_;
    size_t page_ = 4096, data_;

public:
    explicit GuardMem(size_t dataPages = 4) : data_(dataPages * 4096)
    {
        char *p = static_cast<char *>(mmap(nullptr, data_ + 2 * page_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (p == MAP_FAILED) abort();
        mprotect(p + page_, data_, PROT_READ | PROT_WRITE);
        base_ = p + page_;
    }
    char *lo() { return base_; }
    char *hi() { return base_ + data_; }
    size_t size() const { return data_; }
    // n elements of T ending at the upper guard page
    template <class T> T *atEnd(size_t n) { return reinterpret_cast<T *>(hi() - n * sizeof(T)); }
    template <class T> T *atBegin() { return reinterpret_cast<T *>(lo()); }
};

// ------------------------------------------------------------------ type lists
template <class... Ts> struct List {};
template <class A, class B> struct Cat;
template <class... A, class... B> struct Cat<List<A...>, List<B...>> { using type = List<A..., B...>; };
template <class... Ls> struct CatAll;
template <> struct CatAll<> { using type = List<>; };
template <class L, class... Ls> struct CatAll<L, Ls...> { using type = typename Cat<L, typename CatAll<Ls...>::type>::type; };
template <class... Ls> using Concat = typename CatAll<Ls...>::type;

using SAbi = Vc::VectorAbi::Scalar;
using ushort_t = unsigned short;
using uint_t = unsigned int;
template <class A> using SixOf = List<Vc::Vector<double, A>, Vc::Vector<float, A>, Vc::Vector<int, A>, Vc::Vector<uint_t, A>,
                                      Vc::Vector<short, A>, Vc::Vector<ushort_t, A>>;
template <class A> using RealOf = List<Vc::Vector<double, A>, Vc::Vector<float, A>>;
template <class A> using IntOf = List<Vc::Vector<int, A>, Vc::Vector<uint_t, A>, Vc::Vector<short, A>, Vc::Vector<ushort_t, A>>;
#if defined Vc_IMPL_Scalar
using SixVectors = SixOf<SAbi>;
using RealVectors = RealOf<SAbi>;
using IntVectors = IntOf<SAbi>;
#elif defined Vc_IMPL_AVX2
using SixVectors = Concat<SixOf<Vc::VectorAbi::Avx>, SixOf<Vc::VectorAbi::Sse>>;
using RealVectors = Concat<RealOf<Vc::VectorAbi::Avx>, RealOf<Vc::VectorAbi::Sse>>;
using IntVectors = Concat<IntOf<Vc::VectorAbi::Avx>, IntOf<Vc::VectorAbi::Sse>>;
#elif defined Vc_IMPL_AVX
using SixVectors = Concat<RealOf<Vc::VectorAbi::Avx>, SixOf<Vc::VectorAbi::Sse>>;
using RealVectors = Concat<RealOf<Vc::VectorAbi::Avx>, RealOf<Vc::VectorAbi::Sse>>;
using IntVectors = IntOf<Vc::VectorAbi::Sse>;
#else
using SixVectors = SixOf<Vc::VectorAbi::Sse>;
using RealVectors = RealOf<Vc::VectorAbi::Sse>;
using IntVectors = IntOf<Vc::VectorAbi::Sse>;
#endif
// native (default ABI) vectors only
using NativeSix = List<Vc::double_v, Vc::float_v, Vc::int_v, Vc::uint_v, Vc::short_v, Vc::ushort_v>;

template <template <class> class Test, class L> struct RegAll;
template <template <class> class Test, class... Vs> struct RegAll<Test, List<Vs...>> {
    static void go(const char *name, double weight)
    {
        int dummy[] = {0, pbt::reg(std::string(name) + "<" + VName<Vs>::s() + ">", &Test<Vs>::run, weight)...};
        (void)dummy;
    }
};
#define REG_ALL(Test, L, weight)                                                         \
    static int PBT_CAT(reg_, __COUNTER__) = (RegAll<Test, L>::go(#Test, weight), 0)
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

// wrap-around scalar arithmetic for integers, plain for floats
template <class T, bool = std::is_integral<T>::value> struct Ar {
    using W = unsigned long long;
    static T add(T a, T b) { return T(W(a) + W(b)); }
    static T sub(T a, T b) { return T(W(a) - W(b)); }
    static T mul(T a, T b) { return T(W(a) * W(b)); }
    static T neg(T a) { return T(W(0) - W(a)); }
};
template <class T> struct Ar<T, false> {
    static T add(T a, T b) { volatile T r = a + b; return r; }
    static T sub(T a, T b) { volatile T r = a - b; return r; }
    static T mul(T a, T b) { volatile T r = a * b; return r; }
    static T neg(T a) { return -a; }
};
// expression detection: DETECT2(name, expr in a,b) gives name<A,B>::value and name<A,B>::type
#define DETECT2(name_, expr_)                                                                        \
    template <class A_, class B_> struct name_##_impl {                                              \
        template <class A, class B> static auto t(A a, B b) -> decltype(expr_);                      \
        template <class A, class B> static std::true_type v(decltype(t<A, B>(std::declval<A>(), std::declval<B>())) *); \
    };                                                                                               \
    template <class A, class B, class = void> struct name_ : std::false_type {};                     \
    template <class A, class B>                                                                      \
    struct name_<A, B, decltype(void(name_##_impl<A, B>::template t<A, B>(std::declval<A>(), std::declval<B>())))> \
        : std::true_type {                                                                           \
        using type = typename std::decay<decltype(name_##_impl<A, B>::template t<A, B>(std::declval<A>(), std::declval<B>()))>::type; \
    };
#if defined Vc_IMPL_Scalar
using AllVectors = SixVectors;
using AllInts = IntVectors;
using AllReals = RealVectors;
#else
using AllVectors = Concat<SixVectors, SixOf<SAbi>>;
using AllInts = Concat<IntVectors, IntOf<SAbi>>;
using AllReals = Concat<RealVectors, RealOf<SAbi>>;
#endif
template <class T> struct isInt : std::is_integral<T> {};
template <class M, size_t N>
__attribute__((noinline)) void expectMask(const char *what, const M &m, const Arr<bool, N> &want)
{
    static_assert(M::Size == N, "");
    for (size_t i = 0; i < N; ++i) {
        if (bool(m[i]) != want[i]) {
            std::ostringstream os;
            os << what << ": mask lane " << i << " is " << bool(m[i]) << ", expected " << want[i] << " (expected all lanes ";
            for (size_t j = 0; j < N; ++j) os << want[j];
            os << ", got ";
            for (size_t j = 0; j < N; ++j) os << bool(m[j]);
            pbt::fail(os.str() + ")");
        }
    }
}
