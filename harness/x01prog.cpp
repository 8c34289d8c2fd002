// X01 plugin: interprets a generated program over SimdArray<T, X01_N> values with the Vc implementation selected by
// the compiler flags.  Compiled once per configuration into a shared object; x01.cpp compares the traces.
#include <Vc/Vc>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <limits>
#include <type_traits>
#include "x01.h"
#ifndef X01_N
#define X01_N 4
#endif

namespace
{
constexpr size_t N = X01_N;
template <class T> using VecN = Vc::SimdArray<T, N>;
using IV = VecN<int>;

struct Out {
    unsigned char *p, *end;
    bool full = false;
    void put(const void *q, size_t n)
    {
        if (p + n > end) {
            full = true;
            return;
        }
        std::memcpy(p, q, n);
        p += n;
    }
};
template <class T, bool = std::is_floating_point<T>::value> struct Canon {
    static T f(T x) { return x; }
};
template <class T> struct Canon<T, true> {
    // the sign and payload of NaNs are not specified
    static T f(T x) { return x != x ? std::numeric_limits<T>::quiet_NaN() : x; }
};

template <class T> struct Regs {
    using V = VecN<T>;
    using M = typename V::mask_type;
    V r[X01_REGS];
    M m[X01_MASKS];
    alignas(64) T mem[X01_MEM];
};
struct State {
    Regs<float> f;
    Regs<double> d;
    Regs<int> i;
    Regs<unsigned int> u;
    Regs<short> s;
    Regs<unsigned short> us;
};
template <class T> Regs<T> &regs(State &);
template <> Regs<float> &regs(State &s) { return s.f; }
template <> Regs<double> &regs(State &s) { return s.d; }
template <> Regs<int> &regs(State &s) { return s.i; }
template <> Regs<unsigned int> &regs(State &s) { return s.u; }
template <> Regs<short> &regs(State &s) { return s.s; }
template <> Regs<unsigned short> &regs(State &s) { return s.us; }

template <class V> __attribute__((noinline)) void dumpV(Out &o, V &v)
{
    using T = typename V::value_type;
    T a[N];
    for (size_t i = 0; i < N; ++i) a[i] = Canon<T>::f(T(v[i]));
    o.put(a, sizeof(a));
    // every value that stays in a register is canonical as well
    if (std::is_floating_point<T>::value)
        for (size_t i = 0; i < N; ++i) v[i] = a[i];
}
template <class M> __attribute__((noinline)) void dumpM(Out &o, const M &m)
{
    unsigned char a[N];
    for (size_t i = 0; i < N; ++i) a[i] = m[i];
    o.put(a, sizeof(a));
}
template <class T> void dumpS(Out &o, T x)
{
    x = Canon<T>::f(x);
    o.put(&x, sizeof(x));
}

// indexes in [0, X01_MEM)
__attribute__((noinline)) IV index(const IV &x) { return x & (X01_MEM - 1); }

template <class V> using Val = typename V::value_type;

// integers only -----------------------------------------------------------------------------------------------
template <class T, bool = std::is_integral<T>::value> struct Kind {
    using V = VecN<T>;
    using M = typename V::mask_type;
    static V noZero(const V &b) { return Vc::iif(b == V(T(0)), V(T(3)), b); }
    static V divisor(const V &b)
    {
        V x = noZero(b);
        if (std::is_signed<T>::value) x(x == V(T(-1))) = V(T(5));  // MIN / -1 is undefined
        return x;
    }
    static V ordered(const V &v) { return v; }
    static bool run(State &, Regs<T> &R, const X01Op &o, Out &out)
    {
        V &d = R.r[o.d], &a = R.r[o.a], &b = R.r[o.b];
        const int sh = int(o.imm % (sizeof(T) * 8));
        switch (o.op) {
        case OpAnd: d = a & b; break;
        case OpOr: d = a | b; break;
        case OpXor: d = a ^ b; break;
        case OpNot: d = ~a; break;
        case OpShl: d = a << sh; break;
        case OpShr: d = a >> sh; break;
        case OpShlA: d <<= sh; break;
        case OpShrA: d >>= sh; break;
        case OpMod: d = a % divisor(b); break;
        case OpPartialSum: d = a.partialSum(); break;
        case OpSum: dumpS(out, T(a.sum())); return true;
        case OpProduct: dumpS(out, T(a.product())); return true;
        case OpSumMasked: dumpS(out, R.m[o.b % X01_MASKS].isEmpty() ? T(0) : T(a.sum(R.m[o.b % X01_MASKS]))); return true;
        default: return false;
        }
        dumpV(out, d);
        return true;
    }
};
// reals only ------------------------------------------------------------------------------------------------
template <class T> struct Kind<T, false> {
    using V = VecN<T>;
    using M = typename V::mask_type;
    static V divisor(const V &b) { return b; }
    // no NaN and no negative zero
    static V ordered(const V &v)
    {
        V x = v;
        x(x != x) = V(T(1));
        x(x == V(T(0))) = V(T(0));
        return x;
    }
    // the sign of a zero result of a rounding function is not specified
    static V plusZero(V x)
    {
        x(x == V(T(0))) = V(T(0));
        return x;
    }
    static bool run(State &, Regs<T> &R, const X01Op &o, Out &out)
    {
        V &d = R.r[o.d], &a = R.r[o.a], &b = R.r[o.b];
        M &m = R.m[o.d % X01_MASKS];
        switch (o.op) {
        case OpSqrt: d = Vc::sqrt(a); break;
        case OpFloor: d = plusZero(Vc::floor(a)); break;
        case OpCeil: d = plusZero(Vc::ceil(a)); break;
        case OpTrunc: d = plusZero(Vc::trunc(a)); break;
        case OpRound: d = plusZero(Vc::round(a)); break;
        case OpCopysign: d = Vc::copysign(a, b); break;
        case OpIsnan: m = Vc::isnan(a); dumpM(out, m); return true;
        case OpIsinf: m = Vc::isinf(a); dumpM(out, m); return true;
        case OpIsfinite: m = Vc::isfinite(a); dumpM(out, m); return true;
        case OpIsnegative: {
            V x = a;
            x(x != x) = V(T(-1));
            m = Vc::isnegative(x);
            dumpM(out, m);
            return true;
        }
        default: return false;
        }
        dumpV(out, d);
        return true;
    }
};

// conversions: the value must be representable (after truncation) in the destination
template <class To, class From> __attribute__((noinline)) VecN<To> convert(const VecN<From> &x)
{
    VecN<From> y = x;
    if (std::is_floating_point<From>::value && std::is_integral<To>::value) {
        const From lo = std::is_signed<To>::value ? From(-30000) : From(0);
        const From hi = sizeof(To) == 4 ? From(2e9) : From(32000);
        y(!((y >= VecN<From>(lo)) & (y <= VecN<From>(hi)))) = VecN<From>(From(7));
    }
    return Vc::simd_cast<VecN<To>>(y);
}
template <class T> struct AnyType {
    static bool run(State &S, const X01Op &o, Out &out)
    {
        using V = VecN<T>;
        using M = typename V::mask_type;
        using K = Kind<T>;
        Regs<T> &R = regs<T>(S);
        V &d = R.r[o.d], &a = R.r[o.a], &b = R.r[o.b];
        M &m = R.m[o.c], &md = R.m[o.d % X01_MASKS], &m2 = R.m[o.b % X01_MASKS];
        const uint64_t imm = o.imm;
        const T sc = R.mem[imm % X01_MEM];
        switch (o.op) {
        case OpAdd: d = a + b; break;
        case OpSub: d = a - b; break;
        case OpMul: d = a * b; break;
        case OpDiv: d = a / K::divisor(b); break;
        case OpAddA: d += a; break;
        case OpSubA: d -= a; break;
        case OpMulA: d *= a; break;
        case OpNeg: d = -a; break;
        case OpAddS: d = a + sc; break;
        case OpSSub: d = sc - a; break;
        case OpMulS: d = a * sc; break;
        case OpMin: d = Vc::min(K::ordered(a), K::ordered(b)); break;
        case OpMax: d = Vc::max(K::ordered(a), K::ordered(b)); break;
        case OpBroadcast: d = V(T(a[imm % N])); break;
        case OpSetLane: d[imm % N] = sc; break;
        case OpZero: d = V::Zero(); break;
        case OpIota: d = V::IndexesFromZero(); break;
        case OpCmp:
            switch (imm % 6) {
            case 0: md = a < b; break;
            case 1: md = a <= b; break;
            case 2: md = a > b; break;
            case 3: md = a >= b; break;
            case 4: md = a == b; break;
            case 5: md = a != b; break;
            }
            dumpM(out, md);
            return true;
        case OpMaskLogic:
            switch (imm % 6) {
            case 0: md = m & m2; break;
            case 1: md = m | m2; break;
            case 2: md = m ^ m2; break;
            case 3: md = !m; break;
            case 4: md = m && m2; break;
            case 5: md = m || m2; break;
            }
            dumpM(out, md);
            return true;
        case OpMaskSet: md[imm % N] = (imm >> 8) & 1; dumpM(out, md); return true;
        case OpMaskReduce: {
            const unsigned char r[6] = {m.isFull(), m.isEmpty(), m.isNotEmpty(), m.isMix(), (unsigned char)m.count(), (unsigned char)(m.isEmpty() ? 0 : m.firstOne())};
            out.put(r, sizeof(r));
            const unsigned char q[4] = {Vc::all_of(m), Vc::any_of(m), Vc::none_of(m), Vc::some_of(m)};
            out.put(q, sizeof(q));
            const unsigned char e[2] = {m == m2, m != m2};
            out.put(e, sizeof(e));
            return true;
        }
        case OpWhere: Vc::where(m) | d = a; break;
        case OpWhereAdd: Vc::where(m) | d += a; break;
        case OpWhereMul: d(m) *= a; break;
        case OpWhereSub: d(m) -= a; break;
        case OpIif: d = Vc::iif(m, a, b); break;
        case OpSetZeroM: d.setZero(m); break;
        case OpSetZeroInvM: d.setZeroInverted(m); break;
        case OpShifted: d = a.shifted(int(imm % (2 * N + 3)) - int(N) - 1); break;
        case OpShiftedIn: d = a.shifted(int(imm % (2 * N + 1)) - int(N), b); break;
        case OpRotated: d = a.rotated(int(imm % (3 * N)) - int(N)); break;
        case OpReversed: d = a.reversed(); break;
        case OpSorted: d = K::ordered(a).sorted(); break;
        case OpInterleaveLow: d = a.interleaveLow(b); break;
        case OpInterleaveHigh: d = a.interleaveHigh(b); break;
        case OpMinR: dumpS(out, T(K::ordered(a).min())); return true;
        case OpMaxR: dumpS(out, T(K::ordered(a).max())); return true;
        case OpLoad: d.load(R.mem + imm % (X01_MEM - N + 1), Vc::Unaligned); break;
        case OpLoadA: d.load(R.mem + (imm % 2) * 32, Vc::Aligned); break;
        case OpStore: a.store(R.mem + imm % (X01_MEM - N + 1), Vc::Unaligned); out.put(R.mem, sizeof(R.mem)); return true;
        case OpStoreM: a.store(R.mem + imm % (X01_MEM - N + 1), m, Vc::Unaligned); out.put(R.mem, sizeof(R.mem)); return true;
        case OpGather: d.gather(R.mem, index(S.i.r[o.b])); break;
        case OpGatherM: d.gather(R.mem, index(S.i.r[o.b]), m); break;
        case OpScatter: a.scatter(R.mem, index(S.i.r[o.b])); out.put(R.mem, sizeof(R.mem)); return true;
        case OpScatterM: a.scatter(R.mem, index(S.i.r[o.b]), m); out.put(R.mem, sizeof(R.mem)); return true;
        case OpAbs: return abs_(out, d, a, std::integral_constant<bool, std::is_signed<T>::value>());
        case OpApply: d = a.apply([&](T x) { return T(x + sc); }); break;
        case OpApplyM: d = a.apply([&](T x) { return T(x + sc); }, m); break;
        case OpGenerate: d = V::generate([&](int k) { return R.mem[(imm + k) % X01_MEM]; }); break;
        case OpLoadConvF: d = loadConv<float>(S.f, imm); break;
        case OpCast:
            switch (imm % 6) {
            case 0: d = convert<T>(S.f.r[o.a]); break;
            case 1: d = convert<T>(S.d.r[o.a]); break;
            case 2: d = convert<T>(S.i.r[o.a]); break;
            case 3: d = convert<T>(S.u.r[o.a]); break;
            case 4: d = convert<T>(S.s.r[o.a]); break;
            case 5: d = convert<T>(S.us.r[o.a]); break;
            }
            break;
        case OpMaskCast:
            switch (imm % 6) {
            case 0: md = Vc::simd_cast<M>(S.f.m[o.c]); break;
            case 1: md = Vc::simd_cast<M>(S.d.m[o.c]); break;
            case 2: md = Vc::simd_cast<M>(S.i.m[o.c]); break;
            case 3: md = Vc::simd_cast<M>(S.u.m[o.c]); break;
            case 4: md = Vc::simd_cast<M>(S.s.m[o.c]); break;
            case 5: md = Vc::simd_cast<M>(S.us.m[o.c]); break;
            }
            dumpM(out, md);
            return true;
        default: return K::run(S, R, o, out);
        }
        dumpV(out, d);
        return true;
    }
    template <class U> static VecN<T> loadConv(Regs<U> &R, uint64_t imm)
    {
        return convert<T>(VecN<U>(R.mem + imm % (X01_MEM - N + 1), Vc::Unaligned));
    }
    static bool abs_(Out &out, VecN<T> &d, const VecN<T> &a, std::true_type)
    {
        d = Vc::abs(a);
        dumpV(out, d);
        return true;
    }
    static bool abs_(Out &, VecN<T> &, const VecN<T> &, std::false_type) { return false; }
};

template <class T> void init(Regs<T> &R, const unsigned char *src, Out &out)
{
    std::memcpy(R.mem, src, sizeof(R.mem));
    for (size_t k = 0; k < X01_MEM; ++k) R.mem[k] = Canon<T>::f(R.mem[k]);
    for (size_t k = 0; k < X01_REGS; ++k) {
        R.r[k] = VecN<T>(R.mem + k * 16, Vc::Unaligned);
        dumpV(out, R.r[k]);
    }
    for (size_t k = 0; k < X01_MASKS; ++k) {
        R.m[k] = R.r[k] < R.r[k + 1];
        dumpM(out, R.m[k]);
    }
}
template <class T> void fini(Regs<T> &R, Out &out)
{
    for (auto &r : R.r) dumpV(out, r);
    for (auto &m : R.m) dumpM(out, m);
    out.put(R.mem, sizeof(R.mem));
}
}  // namespace

// writes the trace to out and the offsets at which the parts of the instructions begin and the last one ends to marks; returns the length of the trace
extern "C" __attribute__((visibility("default"))) size_t X01_ENTRY(const X01Op *ops, size_t n, const unsigned char *const *mem, unsigned char *out, size_t cap, size_t *marks)
{
    static State S;
    Out o{out, out + cap};
    init(S.f, mem[0], o);
    init(S.d, mem[1], o);
    init(S.i, mem[2], o);
    init(S.u, mem[3], o);
    init(S.s, mem[4], o);
    init(S.us, mem[5], o);
    marks[0] = o.p - out;
    for (size_t k = 0; k < n; ++k) {
        switch (ops[k].type) {
        case 0: AnyType<float>::run(S, ops[k], o); break;
        case 1: AnyType<double>::run(S, ops[k], o); break;
        case 2: AnyType<int>::run(S, ops[k], o); break;
        case 3: AnyType<unsigned int>::run(S, ops[k], o); break;
        case 4: AnyType<short>::run(S, ops[k], o); break;
        case 5: AnyType<unsigned short>::run(S, ops[k], o); break;
        }
        marks[k + 1] = o.p - out;
    }
    fini(S.f, o);
    fini(S.d, o);
    fini(S.i, o);
    fini(S.u, o);
    fini(S.s, o);
    fini(S.us, o);
    return o.full ? 0 : o.p - out;
}
