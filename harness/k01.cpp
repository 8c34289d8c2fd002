// K01: Memory<V, N>, Memory<V, R, C> and Memory<V>(n) against a plain array model (stateful)
#include "vcgen.h"
#include <Vc/Memory>
#include <memory>

// ---- the three kinds behind one interface ------------------------------------------------------
template <class V_, size_t N> struct Static1 {
    using V = V_;
    using Mem = Vc::Memory<V, N>;
    static constexpr bool dyn = false, twoD = false;
    static constexpr size_t rows = 1;
    static size_t cols(const Mem &) { return N; }
    static std::string s() { return VName<V>::s() + "," + std::to_string(N); }
};
template <class V_, size_t R, size_t C> struct Static2 {
    using V = V_;
    using Mem = Vc::Memory<V, R, C>;
    static constexpr bool dyn = false, twoD = true;
    static constexpr size_t rows = R;
    static size_t cols(const Mem &) { return C; }
    static std::string s() { return VName<V>::s() + "," + std::to_string(R) + "," + std::to_string(C); }
};
template <class V_> struct Dynamic {
    using V = V_;
    using Mem = Vc::Memory<V>;
    static constexpr bool dyn = true, twoD = false;
    static constexpr size_t rows = 1;
    static size_t cols(const Mem &m) { return m.entriesCount(); }
    static std::string s() { return VName<V>::s(); }
};

// an object with canaries on both sides
template <class K, bool = K::dyn> struct Holder {
    alignas(64) unsigned char lo[64];
    typename K::Mem m;
    alignas(64) unsigned char hi[64];
    explicit Holder(size_t) { std::memset(lo, 0x5a, 64); std::memset(hi, 0x5a, 64); }
    Holder(const Holder &o) : m(o.m) { std::memset(lo, 0x5a, 64); std::memset(hi, 0x5a, 64); }
    void check() const
    {
        for (int i = 0; i < 64; ++i)
            PBT_CHECK(lo[i] == 0x5a && hi[i] == 0x5a, "memory next to the object was changed");
    }
};
template <class K> struct Holder<K, true> {
    typename K::Mem m;
    explicit Holder(size_t n) : m(n) {}
    Holder(const Holder &o) : m(o.m) {}
    void check() const {}
};

template <class T> static typename std::enable_if<std::is_floating_point<T>::value, T>::type val(Src &s)
{
    return s.coin() ? T(s.range(0, 4000) - 2000) / T(4) : genFinite<T>(s);
}
template <class T> static typename std::enable_if<!std::is_floating_point<T>::value, T>::type val(Src &s)
{
    return s.coin() ? T(s.range(0, 200) - (std::is_signed<T>::value ? 100 : 0)) : genVal<T>(s);
}
// exact results only (no overflow of signed int)
template <class T> static bool fits(double x)
{
    return !std::is_integral<T>::value || std::is_unsigned<T>::value || sizeof(T) < 4 || std::fabs(x) < 2147483647.;
}
enum Op { Add, Sub, Mul, Div, And, Or, Xor };
static const char *const opName[] = {"+=", "-=", "*=", "/=", "&=", "|=", "^="};
template <class T> static bool allowed(Op op, T a, T b)
{
    switch (op) {
    case Add: return fits<T>(double(a) + double(b));
    case Sub: return fits<T>(double(a) - double(b));
    case Mul: return fits<T>(double(a) * double(b));
    case Div: return !std::is_integral<T>::value || (b != T(0) && !(std::is_signed<T>::value && b == T(-1) && a == std::numeric_limits<T>::min()));
    default: return std::is_integral<T>::value;
    }
}
template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> static T bitop(Op op, T a, T b)
{
    return op == And ? T(a & b) : op == Or ? T(a | b) : T(a ^ b);
}
template <class T, typename std::enable_if<!std::is_integral<T>::value, int>::type = 0> static T bitop(Op, T a, T) { return a; }
template <class T> static T ev(Op op, T a, T b)
{
    volatile T q;
    switch (op) {
    case Add: return Ar<T>::add(a, b);
    case Sub: return Ar<T>::sub(a, b);
    case Mul: return Ar<T>::mul(a, b);
    case Div: q = a / b; return q;
    default: return bitop(op, a, b);
    }
}
DETECT2(canAssignProxy, a.vector(size_t(0)) = b.vector(size_t(0)))

template <class K> struct machine {
    using V = typename K::V;
    using T = typename V::EntryType;
    using Mem = typename K::Mem;
    static constexpr size_t S = V::Size;

    struct Model {
        size_t cols = 0, pcols = 0;
        std::vector<T> d;
        std::vector<char> known;  // padding starts as zero and becomes unspecified by whole-object operations
        size_t total() const { return d.size(); }
        bool isEntry(size_t k) const { return k % pcols < cols; }
    };
    static Model model(size_t cols)
    {
        Model m;
        m.cols = cols;
        m.pcols = (cols + S - 1) / S * S;
        m.d.assign(m.pcols * K::rows, T(0));
        m.known.assign(m.d.size(), 1);
        return m;
    }
    static void forget(Model &m)
    {
        for (size_t k = 0; k < m.total(); ++k)
            if (!m.isEntry(k)) m.known[k] = 0;
    }

    // ---- scalar views
    static T &elem(Vc::Memory<V> &m, Src &s, size_t k, size_t) { return elem1(m, s, k); }
    template <size_t N> static T &elem(Vc::Memory<V, N> &m, Src &s, size_t k, size_t) { return elem1(m, s, k); }
    template <class M> static T &elem1(M &m, Src &s, size_t k)
    {
        switch (s.draw(3)) {
        case 1: return m.scalar(k);
        case 2: return m.entries()[k];
        case 3: return static_cast<T *>(m)[k];
        default: return m[k];
        }
    }
    template <size_t R, size_t C> static T &elem(Vc::Memory<V, R, C> &m, Src &s, size_t k, size_t pc)
    {
        switch (s.draw(3)) {
        case 1: return m.scalar(k / pc, k % pc);
        case 2: return m.entries(k / pc)[k % pc];
        case 3: return m[k / pc].scalar(k % pc);
        default: return m[k / pc][k % pc];
        }
    }
    static T celem(const Vc::Memory<V> &m, unsigned how, size_t k, size_t) { return celem1(m, how, k); }
    template <size_t N> static T celem(const Vc::Memory<V, N> &m, unsigned how, size_t k, size_t) { return celem1(m, how, k); }
    template <class M> static T celem1(const M &m, unsigned how, size_t k)
    {
        switch (how) {
        case 1: return m.scalar(k);
        case 2: return m.entries()[k];
        case 3: return static_cast<const T *>(m)[k];
        default: return m[k];
        }
    }
    template <size_t R, size_t C> static T celem(const Vc::Memory<V, R, C> &m, unsigned how, size_t k, size_t pc)
    {
        switch (how) {
        case 1: return m.scalar(k / pc, k % pc);
        case 2: return m.entries(k / pc)[k % pc];
        default: return m[k / pc][k % pc];
        }
    }

    // calls f with a vector proxy of m whose first scalar is k
    template <class M, class F> static void withProxy(Src &s, M &m, size_t k, F &&f)
    {
        const size_t n = m.vectorsCount();
        const size_t i = k / S;
        if (k % S != 0) {
            switch (s.draw(4)) {
            case 1: f(m.vector(i, int(k % S))); break;
            case 2: f(m.vector(0, int(k))); break;
            case 3: f(m.vector(i + 1, int(k % S) - int(S))); break;
            case 4: f(m.vectorAt(k, Vc::Unaligned)); break;
            default: f(m.vectorAt(k)); break;
            }
            return;
        }
        switch (s.draw(7)) {
        case 1: f(m.vectorAt(k)); break;
        case 2: f(m.vectorAt(k, Vc::Aligned)); break;
        case 3: f(m.vector(i, Vc::Unaligned)); break;
        case 4: f(m.vector(i, 0)); break;
        case 5: if (i == 0) f(m.firstVector()); else f(m.vector(i)); break;
        case 6: if (i == n - 1) f(m.lastVector()); else f(m.vector(i)); break;
        case 7: viaIterator(s, m, i, n, f); break;
        default: f(m.vector(i)); break;
        }
    }
    // begin()/end() of const objects do not compile
    template <class M, class F> static void viaIterator(Src &, const M &m, size_t i, size_t, F &&f) { f(m.vector(i, Vc::Aligned)); }
    template <class M, class F> static void viaIterator(Src &s, M &m, size_t i, size_t n, F &&f)
    {
        switch (s.draw(6)) {
        case 1: { auto it = m.begin(); it += i; f(*it); break; }
        case 5: { auto it = m.end(); it -= n - i; f(*it.operator->()); break; }
        case 6: { auto it = m.begin(Vc::Unaligned); f(*(it + i)); break; }
        case 2: f(m.begin()[i]); break;
        case 3: f(*(m.end() - (n - i))); break;
        case 4: {
            auto it = m.begin(Vc::Unaligned);
            for (size_t j = 0; j < i; ++j) { if (j & 1) it++; else ++it; }
            f(*it);
            break;
        }
        default: {
            auto it = m.end();
            for (size_t j = n; j > i; --j) { if (j & 1) it--; else --it; }
            f(*it);
            break;
        }
        }
    }
    static size_t genPos(Src &s, const Model &m) { return s.coin() ? s.draw(m.total() / S - 1) * S : s.draw(m.total() - S); }

    static void check(const Holder<K> &h, const Model &m, unsigned how, const char *after)
    {
        h.check();
        for (size_t k = 0; k < m.total(); ++k) {
            if (!m.known[k]) continue;
            const T got = m.isEntry(k) ? celem(h.m, how, k, m.pcols) : const_cast<Mem &>(h.m).entries()[k];
            if (!same(got, m.d[k])) {
                std::ostringstream os;
                os.precision(20);
                os << "after " << after << ": " << (m.isEntry(k) ? "entry " : "padding entry ") << k << " (row " << k / m.pcols << ", column " << k % m.pcols << ") is ";
                printVal(os, got);
                os << ", expected ";
                printVal(os, m.d[k]);
                pbt::fail(os.str());
            }
        }
    }
    static typename Tr<V>::A modelVec(const Model &m, size_t k)
    {
        typename Tr<V>::A a;
        for (size_t j = 0; j < S; ++j) a[j] = m.d[k + j];
        return a;
    }
    static void expectKnown(const char *what, const typename Tr<V>::A &got, const Model &m, size_t k)
    {
        for (size_t j = 0; j < S; ++j)
            if (m.known[k + j]) expectEq(what, got[j], m.d[k + j]);
    }
    template <class P, class X> static typename std::enable_if<std::is_integral<typename X::EntryType>::value>::type applyBit(P &p, Op op, const X &x)
    {
        if (op == And) p &= x;
        else if (op == Or) p |= x;
        else p ^= x;
    }
    template <class P, class X> static typename std::enable_if<!std::is_integral<typename X::EntryType>::value>::type applyBit(P &, Op, const X &) {}
    template <class P, class X> static void applyP(P &p, Op op, const X &x)
    {
        switch (op) {
        case Add: p += x; break;
        case Sub: p -= x; break;
        case Mul: p *= x; break;
        case Div: p /= x; break;
        default: applyBit(p, op, V(x)); break;
        }
    }
    // constructors that only some kinds have
    template <size_t N> static void fromPtr(Vc::Memory<V, N> &m, const T *p) { m = p; }
    static void fromPtr(Vc::Memory<V> &m, const T *p) { m = p; }
    template <size_t R, size_t C> static void fromPtr(Vc::Memory<V, R, C> &m, const T *p)
    {
        for (size_t r = 0; r < R; ++r) m[r] = p + r * C;
    }
    template <size_t N> static void fill(Vc::Memory<V, N> &m, const V &v) { m = v; }
    template <size_t R, size_t C> static void fill(Vc::Memory<V, R, C> &m, const V &v) { m = v; }
    static void fill(Vc::Memory<V> &m, const V &v)
    {
        for (size_t i = 0; i < m.vectorsCount(); ++i) m.vector(i) = v;
    }
    static void swapM(Vc::Memory<V> &a, Vc::Memory<V> &b, bool how)
    {
        if (how) a.swap(b);
        else std::swap(a, b);
    }
    template <class M> static void swapM(M &a, M &b, bool)
    {
        M t(a);
        a = b;
        b = t;
    }
    template <class M> static typename std::enable_if<K::twoD && sizeof(M) != 0>::type rowsOk(const M &m)
    {
        expectEq("rowsCount()", m.rowsCount(), K::rows);
        expectEq("rowCount()", M::rowCount(), K::rows);
    }
    template <class M> static typename std::enable_if<!K::twoD && sizeof(M) != 0>::type rowsOk(const M &) {}

    // row assignment of 2-dim objects
    template <class M> static typename std::enable_if<K::twoD && sizeof(M) != 0>::type rowCopy(Src &s, M &a, Model &ma, const M &b, const Model &mb)
    {
        const size_t i = s.draw(K::rows - 1), j = s.draw(K::rows - 1);
        a[i] = b[j];
        for (size_t k = 0; k < ma.pcols; ++k) {
            ma.d[i * ma.pcols + k] = mb.d[j * mb.pcols + k];
            ma.known[i * ma.pcols + k] = k < ma.cols;
        }
    }
    template <class M> static typename std::enable_if<!K::twoD && sizeof(M) != 0>::type rowCopy(Src &, M &, Model &, const M &, const Model &) {}

    template <class IV, class M> static typename std::enable_if<(IV::Size >= S) && !K::twoD>::type gatherVec(Src &s, const M &m, const Model &mm)
    {
        Arr<typename IV::EntryType, IV::Size> ix;
        for (size_t j = 0; j < IV::Size; ++j) ix[j] = typename IV::EntryType(s.draw(mm.cols - 1));
        const auto got = lanes(V(m[toV<IV>(ix)]));
        for (size_t j = 0; j < S; ++j) expectEq("mem[index vector]", got[j], mm.d[size_t(ix[j])]);
    }
    template <class IV, class M> static typename std::enable_if<(IV::Size < S) || K::twoD>::type gatherVec(Src &, const M &, const Model &) {}
    template <class I, class M> static typename std::enable_if<!K::twoD && sizeof(M) != 0>::type gatherPtr(Src &s, const M &m, const Model &mm)
    {
        static GuardMem g(1);
        I *ix = g.template atEnd<I>(S);
        for (size_t j = 0; j < S; ++j) ix[j] = I(s.draw(mm.cols - 1));
        const auto got = lanes(m.gather(ix));
        for (size_t j = 0; j < S; ++j) expectEq("gather(pointer)", got[j], mm.d[size_t(ix[j])]);
    }
    template <class I, class M> static typename std::enable_if<K::twoD && sizeof(M) != 0>::type gatherPtr(Src &, const M &, const Model &) {}

    static Mem *memOp(Mem &, const Mem &, Op, std::true_type) { return nullptr; }  // does not compile for SimdArray
    static Mem *memOp(Mem &x, const Mem &y, Op op, std::false_type)
    {
        switch (op) {
        case Add: return &(x += y);
        case Sub: return &(x -= y);
        case Mul: return &(x *= y);
        default: return &(x /= y);
        }
    }
    static void run(Src &s)
    {
        const size_t n = s.range(0, 3) ? size_t(s.draw(3 * S + 2) + 1) : size_t(s.draw(70) + 1);
        Holder<K> a(n), b(n);
        Model ma = model(K::cols(a.m)), mb = model(K::cols(b.m));
        if (K::dyn) expectEq("entriesCount()", a.m.entriesCount(), n);
        else expectEq("entriesCount()", a.m.entriesCount(), K::rows * ma.cols);
        expectEq("vectorsCount()", a.m.vectorsCount(), ma.total() / S);
        rowsOk(a.m);
        PBT_CHECK(reinterpret_cast<uintptr_t>(a.m.entries()) % size_t(V::MemoryAlignment) == 0, "entries() not aligned");
        // fresh objects: padding is zero
        for (size_t k = 0; k < ma.total(); ++k)
            if (ma.isEntry(k)) { ma.d[k] = T(0); elem(a.m, s, k, ma.pcols) = T(0); elem(b.m, s, k, mb.pcols) = T(0); }
        check(a, ma, 0, "construction");
        check(b, mb, 0, "construction");
        const int steps = s.range(1, 16);
        bool scalarW = false, vecW = false;
        for (int step = 0; step < steps; ++step) {
            // the roles of the two objects alternate
            const bool sw = s.coin();
            Holder<K> &x = sw ? b : a, &y = sw ? a : b;
            Model &mx = sw ? mb : ma, &my = sw ? ma : mb;
            const char *what = "";
            switch (s.draw(15)) {
            case 0: case 1: {
                size_t k;
                do k = s.draw(mx.total() - 1); while (!mx.isEntry(k) && (k = k / mx.pcols * mx.pcols, false));
                const T v = val<T>(s);
                what = "scalar write";
                elem(x.m, s, k, mx.pcols) = v;
                mx.d[k] = v;
                scalarW = true;
                break;
            }
            case 2: case 3: {
                const size_t k = genPos(s, mx);
                const auto v = genArr<T, S>(s, "v", [](Src &q) { return val<T>(q); });
                what = "vector write";
                withProxy(s, x.m, k, [&](auto &&p) { p = toV<V>(v); });
                for (size_t j = 0; j < S; ++j) { mx.d[k + j] = v[j]; mx.known[k + j] = 1; }
                vecW = true;
                break;
            }
            case 4: case 5: {
                const size_t k = genPos(s, mx);
                auto v = genArr<T, S>(s, "v", [](Src &q) { return val<T>(q); });
                Op op = Op(s.draw(std::is_integral<T>::value ? 6 : 3));
                const bool scalarOperand = s.oneIn(3);
                if (scalarOperand)
                    for (size_t j = 1; j < S; ++j) v[j] = v[0];
                bool ok = true;
                for (size_t j = 0; j < S; ++j) ok = ok && mx.known[k + j] && allowed(op, mx.d[k + j], v[j]);
                if (!ok) break;
                what = opName[op];
                withProxy(s, x.m, k, [&](auto &&p) {
                    if (scalarOperand) applyP(p, op, V(v[0]));
                    else applyP(p, op, toV<V>(v));
                });
                for (size_t j = 0; j < S; ++j) mx.d[k + j] = ev(op, mx.d[k + j], v[j]);
                vecW = true;
                break;
            }
            case 6: {  // vector read
                const size_t k = genPos(s, mx);
                what = "vector read";
                typename Tr<V>::A got, got2;
                withProxy(s, x.m, k, [&](auto &&p) { got = lanes(V(p)); });
                const Mem &c = x.m;
                withProxy(s, c, k, [&](auto &&p) { got2 = lanes(V(p)); for (size_t j = 0; j < S; ++j) if (mx.known[k + j]) expectEq("element of a vector view", T(p[j]), mx.d[k + j]); });
                expectKnown("vector view", got, mx, k);
                expectKnown("vector view of a const object", got2, mx, k);
                break;
            }
            case 7: {  // vector to vector
                const size_t k = genPos(s, mx), l = genPos(s, my);
                bool ok = true;
                for (size_t j = 0; j < S; ++j) ok = ok && my.known[l + j];
                if (!ok) break;
                what = "vector copy";
                const Mem &c = y.m;
                withProxy(s, c, l, [&](auto &&q) { withProxy(s, x.m, k, [&](auto &&p) { p = q; }); });
                for (size_t j = 0; j < S; ++j) { mx.d[k + j] = my.d[l + j]; mx.known[k + j] = my.known[l + j]; }
                vecW = true;
                break;
            }
            case 8: {
                what = "assignment";
                if (s.coin()) {
                    x.m = y.m;
                    mx.d = my.d;
                } else {
                    what = "copy construction";
                    const Holder<K> c(y);
                    check(c, (forget(my), my), unsigned(s.draw(3)), what);
                }
                forget(mx);
                break;
            }
            case 9: {
                what = "element-wise operator";
                const Op op = Op(s.draw(3));
                bool ok = true;
                for (size_t k = 0; k < mx.total(); ++k) {
                    if (op == Div && std::is_integral<T>::value) ok = ok && mx.known[k] && my.known[k] && allowed(op, mx.d[k], my.d[k]);
                    else ok = ok && (!mx.isEntry(k) || allowed(op, mx.d[k], my.d[k]));
                }
                if (!ok) break;
                Mem *r = memOp(x.m, y.m, op, isSA<V>());
                if (!r) break;
                PBT_CHECK(r == &x.m, "the operator does not return its object");
                for (size_t k = 0; k < mx.total(); ++k)
                    if (mx.isEntry(k)) mx.d[k] = ev(op, mx.d[k], my.d[k]);
                forget(mx);
                what = opName[op];
                break;
            }
            case 10: {
                what = "element-wise operator with a scalar";
                const Op op = Op(s.draw(3));
                const T v = val<T>(s);
                bool ok = true;
                for (size_t k = 0; k < mx.total(); ++k) {
                    if (op == Div && std::is_integral<T>::value) ok = ok && mx.known[k] && allowed(op, mx.d[k], v);
                    else ok = ok && (!mx.isEntry(k) || allowed(op, mx.d[k], v));
                }
                if (!ok) break;
                switch (op) {
                case Add: x.m += v; break;
                case Sub: x.m -= v; break;
                case Mul: x.m *= v; break;
                default: x.m /= v; break;
                }
                for (size_t k = 0; k < mx.total(); ++k)
                    if (mx.isEntry(k)) mx.d[k] = ev(op, mx.d[k], v);
                forget(mx);
                break;
            }
            case 11: {
                if (s.coin()) {
                    what = "setZero";
                    x.m.setZero();
                    for (auto &e : mx.d) e = T(0);
                    forget(mx);
                } else {
                    what = "fill";
                    const auto v = genArr<T, S>(s, "v", [](Src &q) { return val<T>(q); });
                    fill(x.m, toV<V>(v));
                    for (size_t k = 0; k < mx.total(); ++k) mx.d[k] = v[k % S];
                    forget(mx);
                }
                break;
            }
            case 12: {
                what = "assignment from a pointer";
                std::vector<T> src;
                for (size_t k = 0; k < mx.total(); ++k)
                    if (mx.isEntry(k)) { mx.d[k] = val<T>(s); src.push_back(mx.d[k]); }
                static GuardMem g(4);
                T *p = g.template atEnd<T>(src.size());
                std::copy(src.begin(), src.end(), p);
                fromPtr(x.m, p);
                forget(mx);
                break;
            }
            case 13: {
                what = "swap";
                swapM(x.m, y.m, s.coin());
                std::swap(mx, my);
                if (!K::dyn) { forget(mx); forget(my); }
                break;
            }
            case 14: {
                what = "gather";
                gatherVec<Vc::int_v>(s, x.m, mx);
                gatherVec<Vc::uint_v>(s, x.m, mx);
                gatherVec<Vc::ushort_v>(s, x.m, mx);
                gatherPtr<unsigned char>(s, x.m, mx);
                gatherPtr<unsigned short>(s, x.m, mx);
                gatherPtr<unsigned int>(s, x.m, mx);
                break;
            }
            case 15: {
                rowCopy(s, x.m, mx, y.m, my);
                what = "comparison / row copy";
                // the comparison may or may not include the padding
                bool eqE = true, anyEqE = false, ltE = true, leE = true, gtE = true, geE = true;
                bool known = true;
                bool eqP = true, anyEqP = false, ltP = true, leP = true, gtP = true, geP = true;
                for (size_t k = 0; k < mx.total(); ++k) {
                    const T p = mx.d[k], q = my.d[k];
                    known = known && mx.known[k] && my.known[k];
                    eqP = eqP && p == q; anyEqP = anyEqP || p == q;
                    ltP = ltP && p < q; leP = leP && p <= q; gtP = gtP && p > q; geP = geP && p >= q;
                    if (!mx.isEntry(k)) continue;
                    eqE = eqE && p == q; anyEqE = anyEqE || p == q;
                    ltE = ltE && p < q; leE = leE && p <= q; gtE = gtE && p > q; geE = geE && p >= q;
                }
                const bool full = mx.cols == mx.pcols;
                // false for the entries implies false with any padding; with unknown padding true proves nothing
                const auto one = [&](const char *w, bool got, bool e, bool p) {
                    if (full || !e || (known && e == p)) PBT_CHECK(got == e, w << " gives " << got << ", expected " << e);
                };
                one("operator==", x.m == y.m, eqE, eqP);
                one("operator<", x.m < y.m, ltE, ltP);
                one("operator<=", x.m <= y.m, leE, leP);
                one("operator>", x.m > y.m, gtE, gtP);
                one("operator>=", x.m >= y.m, geE, geP);
                // "every entry differs" versus "not equal": only where both readings agree
                if ((full || known) && !anyEqE && !anyEqP) PBT_CHECK(x.m != y.m, "operator!= is false although every entry differs");
                if ((full || known) && eqE && eqP) PBT_CHECK(!(x.m != y.m), "operator!= is true although all entries are equal");
                break;
            }
            }
            s.noteStr(what);
            check(x, mx, unsigned(s.draw(3)), what);
            check(y, my, 0, what);
        }
        s.nontrivial(scalarW && vecW);
        // iterators visit the vectors in order
        size_t i = 0;
        Mem &c = a.m;
        for (const auto &p : c) {
            expectKnown("iteration", lanes(V(p)), ma, i * S);
            ++i;
        }
        expectEq("vectors visited", i, c.vectorsCount());
        auto b0 = a.m.begin(), e0 = a.m.end();
        expectEq("end() - begin()", size_t(e0 - b0), a.m.vectorsCount());
        PBT_CHECK((b0 != e0) && !(b0 == e0) && b0 < e0 && e0 > b0 && b0 <= e0 && e0 >= b0 && b0 + a.m.vectorsCount() == e0, "iterator comparison");
    }
};

// ranges, initializer lists, raw data, copies between kinds, zero-sized dynamic objects
template <class V> struct extras {
    using T = typename V::EntryType;
    static constexpr size_t S = V::Size;
    template <size_t N> static void initList(Src &s)
    {
        auto v = genArr<T, 5>(s, "v", [](Src &q) { return val<T>(q); });
        Vc::Memory<V, N> m = {v[0], v[1], v[2], v[3], v[4]};
        for (size_t i = 0; i < 5; ++i) expectEq("initializer list", T(m[i]), v[i]);
        // the padding is part of the last vector and zero
        for (size_t i = N; i < m.vectorsCount() * S; ++i) expectEq("padding after initializer list", m.entries()[i], T(0));
    }
    static void run(Src &s)
    {
        initList<5>(s);
        initList<8>(s);
        // dynamic <- static of another size with the same number of vectors
        constexpr size_t N = 2 * S, N1 = 2 * S - (S > 1 ? 1 : 0);
        auto v = genArr<T, N>(s, "v", [](Src &q) { return val<T>(q); });
        s.nontrivial(!allSame(v));
        Vc::Memory<V, N> a;
        a = &v.d[0];
        Vc::Memory<V> d(a), e(N1);
        expectEq("entriesCount", d.entriesCount(), size_t(N));
        e = a;
        Vc::Memory<V, N1> b(a), c;
        c = a;
        for (size_t i = 0; i < N1; ++i) {
            expectEq("Memory<V>(Memory<V, N>)", T(d[i]), v[i]);
            expectEq("Memory<V> = Memory<V, N>", T(e[i]), v[i]);
            expectEq("Memory<V, M>(Memory<V, N>)", T(b[i]), v[i]);
            expectEq("Memory<V, M> = Memory<V, N>", T(c[i]), v[i]);
        }
        e.setZero();
        PBT_CHECK(same(T(a[0]), v[0]) && same(T(d[N - 1]), v[N - 1]), "copies are not independent");
        // raw data
        alignas(64) T raw[3 * N];
        for (size_t i = 0; i < 3 * N; ++i) raw[i] = v[i % N];
        auto &w = Vc::Memory<V, N, 0, false>::fromRawData(&raw[N]);
        for (size_t i = 0; i < N; ++i) expectEq("fromRawData", T(w[i]), v[i]);
        const T nv = val<T>(s);
        w[N - 1] = nv;
        w.vector(0) = V(nv);
        asm volatile("" : : "g"(&raw[0]) : "memory");
        for (size_t i = 0; i < N; ++i) {
            expectEq("before raw data", raw[i], v[i]);
            expectEq("after raw data", raw[2 * N + i], v[i]);
            expectEq("raw data", raw[N + i], i < S || i == N - 1 ? nv : v[i]);
        }
        // range
        const size_t n = 1 + s.draw(9);
        Vc::Memory<V> r(n * S);
        for (size_t i = 0; i < n * S; ++i) r[i] = T(i);
        const size_t f = s.draw(n - 1), l = f + s.draw(n - 1 - f);
        size_t k = f;
        for (const auto &p : r.range(f, l, Vc::Unaligned)) {
            const auto got = lanes(V(p));
            for (size_t j = 0; j < S; ++j) expectEq("range", got[j], T(k * S + j));
            ++k;
        }
        expectEq("vectors in range", k, l + 1);
        // an array of no elements
        Vc::Memory<V> z(0);
        expectEq("entriesCount of an empty array", z.entriesCount(), size_t(0));
        expectEq("vectorsCount of an empty array", z.vectorsCount(), size_t(0));
        Vc::Memory<V> z2(z);
        z2.swap(r);
        expectEq("entriesCount after swap", r.entriesCount(), size_t(0));
        expectEq("entriesCount after swap", z2.entriesCount(), n * S);
        for (size_t i = 0; i < n * S; ++i) expectEq("entry after swap", T(z2[i]), T(i));
    }
};

// known finding: dividing integer arrays divides the (zero) padding by zero
template <class V> struct kf_div_padding {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        Vc::Memory<V, V::Size + 1> a, b;
        const T p = T(s.draw(100)), q = T(s.draw(9) + 1);
        for (size_t i = 0; i < V::Size + 1; ++i) { a[i] = p; b[i] = q; }
        s.nontrivial();
        a /= b;
        for (size_t i = 0; i < V::Size + 1; ++i) expectEq("quotient", T(a[i]), T(p / q));
    }
};

template <class K> static int reg1(const char *name, double w) { return pbt::reg(std::string(name) + "<" + K::s() + ">", &machine<K>::run, w); }
template <class V> static int regV()
{
    reg1<Static1<V, 1>>("static", 0.3);
    reg1<Static1<V, 3>>("static", 0.5);
    reg1<Static1<V, 11>>("static", 1);
    reg1<Static1<V, 16>>("static", 1);
    reg1<Static2<V, 3, 5>>("static2d", 1);
    reg1<Static2<V, 2, 16>>("static2d", 1);
    reg1<Dynamic<V>>("dynamic", 1);
    return 0;
}
template <class L> struct RegK;
template <class... Vs> struct RegK<List<Vs...>> {
    static int go() { int d[] = {0, regV<Vs>()...}; return d[0]; }
};
static int k01reg = RegK<NativeSix>::go() + RegK<List<Vc::SimdArray<float, 8>, Vc::SimdArray<int, 4>>>::go();
REG_ALL(extras, NativeSix, 1);
REG_ALL(kf_div_padding, List<Vc::int_v>, 0.01);
PBT_MAIN
