// K02: allocation histories.  The primitive allocators underneath (posix_memalign, ::operator new)
// are replaced by recording stand-ins, so the exact extent of every underlying block is known.
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <malloc.h>
extern "C" int rec_posix_memalign(void **p, size_t a, size_t n) noexcept;
extern "C" void rec_free(void *p) noexcept;
static void realFree(void *p) { std::free(p); }
namespace std { using ::rec_free; }
#define posix_memalign rec_posix_memalign
#define free rec_free
#include <Vc/Vc>
#undef posix_memalign
#include "vcgen.h"
#include <Vc/Memory>
#include <Vc/Allocator>
#include <Vc/simdize>
#include <list>
#include <deque>

namespace rec
{
struct Block { char *p; size_t n; bool fromNew; };
static Block blocks[4096];
static int nblocks = 0;
static bool on = false;         // inside a Vc allocation call
static unsigned skew = 0;       // where operator new places its block modulo 128
static const char *error = nullptr;
static void add(void *p, size_t n, bool fromNew)
{
    if (nblocks < 4096) blocks[nblocks++] = Block{static_cast<char *>(p), n, fromNew};
}
static int find(const void *p)
{
    for (int i = 0; i < nblocks; ++i)
        if (blocks[i].p == p) return i;
    return -1;
}
// the block that contains p
static const Block *containing(const void *p)
{
    for (int i = nblocks; i-- > 0;)
        if (blocks[i].p <= p && static_cast<const char *>(p) < blocks[i].p + blocks[i].n + (blocks[i].n == 0)) return &blocks[i];
    return nullptr;
}
struct On { On() { on = true; } ~On() { on = false; } };
}  // namespace rec
extern "C" int rec_posix_memalign(void **p, size_t a, size_t n) noexcept
{
    const bool tail = rec::on && n < (size_t(1) << 30);  // 256 bytes behind the block must stay untouched
    const int r = ::posix_memalign(p, a, n + (tail ? 256 : 0));
    if (r == 0 && rec::on) {
        if (tail) {
            rec::add(*p, n, false);
            std::memset(static_cast<char *>(*p) + n, 0xa5, 256);
        }
    }
    return r;
}
extern "C" void rec_free(void *p) noexcept
{
    const int i = rec::find(p);
    if (i >= 0 && !rec::blocks[i].fromNew)
        for (size_t k = 0; k < 256; ++k)
            if (rec::blocks[i].p[rec::blocks[i].n + k] != char(0xa5)) rec::error = "memory behind a block was written";
    if (i >= 0 && !rec::blocks[i].fromNew) rec::blocks[i] = rec::blocks[--rec::nblocks];
    realFree(p);
}
// every block starts with a header of 16 bytes: a checksum of its address and the malloc pointer
static const uint64_t kMagic = 0x5bd1e995a7c3f00dull;
static void *newImpl(size_t n)
{
    if (n > (size_t(1) << 40)) throw std::bad_alloc();
    char *q = static_cast<char *>(std::malloc(n + 16 + 256));
    if (!q) throw std::bad_alloc();
    char *p = q + 16;
    if (rec::on) {
        // address is 16 * skew modulo 128: as aligned as operator new promises, not more
        p += (128 - reinterpret_cast<uintptr_t>(p) % 128) % 128 + 16 * rec::skew;
        rec::add(p, n, true);
    }
    reinterpret_cast<uint64_t *>(p)[-2] = kMagic ^ reinterpret_cast<uintptr_t>(p);
    reinterpret_cast<void **>(p)[-1] = q;
    return p;
}
static void delImpl(void *p)
{
    if (!p) return;
    if (reinterpret_cast<uint64_t *>(p)[-2] != (kMagic ^ reinterpret_cast<uintptr_t>(p))) {
        rec::error = "operator delete was called with a pointer that operator new did not return";
        return;
    }
    reinterpret_cast<uint64_t *>(p)[-2] = 0;
    const int i = rec::find(p);
    if (i >= 0) rec::blocks[i] = rec::blocks[--rec::nblocks];
    realFree(reinterpret_cast<void **>(p)[-1]);
}
void *operator new(size_t n) { return newImpl(n); }
void *operator new[](size_t n) { return newImpl(n); }
void operator delete(void *p) noexcept { delImpl(p); }
void operator delete[](void *p) noexcept { delImpl(p); }
void operator delete(void *p, size_t) noexcept { delImpl(p); }
void operator delete[](void *p, size_t) noexcept { delImpl(p); }

// ---------------------------------------------------------------- live blocks of one history
struct Live {
    char *p;
    size_t n;          // requested bytes
    unsigned char pat;
    int kind;
    std::function<void()> release;
};
static void fillPat(const Live &l)
{
    for (size_t i = 0; i < l.n; ++i) l.p[i] = char((l.pat + i * 7) & 0xff);
}
static void checkPat(const Live &l, const char *when)
{
    for (size_t i = 0; i < l.n; ++i)
        if (l.p[i] != char((l.pat + i * 7) & 0xff)) {
            std::ostringstream os;
            os << when << ": byte " << i << " of a live block of " << l.n << " bytes was changed";
            pbt::fail(os.str());
        }
}
struct History {
    Src &s;
    std::vector<Live> live;
    explicit History(Src &src) : s(src) { rec::nblocks = 0; rec::error = nullptr; }
    ~History()
    {
        for (auto &l : live) { rec::On o; l.release(); }
        rec::nblocks = 0;
    }
    template <class F> void add(void *vp, size_t n, size_t align, F &&release, const char *what)
    {
        char *p = static_cast<char *>(vp);
        PBT_CHECK(p != nullptr, what << " returned a null pointer for " << n << " bytes");
        PBT_CHECK(reinterpret_cast<uintptr_t>(p) % align == 0, what << ": block of " << n << " bytes is not aligned to " << align);
        for (const auto &l : live)
            PBT_CHECK(p + n <= l.p || l.p + l.n <= p || n == 0 || l.n == 0, what << ": the block overlaps a live block");
        if (const rec::Block *b = rec::containing(p)) {
            PBT_CHECK(p + n <= b->p + b->n, what << ": " << n << " bytes must be usable, but only " << (b->p + b->n - p) << " bytes of the underlying block follow the returned address");
        }
        live.push_back(Live{p, n, static_cast<unsigned char>(s.draw(255)), 0, std::function<void()>(release)});
        fillPat(live.back());
    }
    void release(size_t i, const char *when)
    {
        checkPat(live[i], when);
        auto r = std::move(live[i].release);
        const char *p = live[i].p;
        live.erase(live.begin() + std::ptrdiff_t(i));
        const int before = rec::nblocks;
        const bool recorded = rec::containing(p) != nullptr;
        {
            rec::On o;
            r();
        }
        PBT_CHECK(!recorded || rec::nblocks < before, "the memory of a released block was not given back");
        PBT_CHECK(!rec::error, rec::error);
    }
    void checkAll(const char *when)
    {
        for (const auto &l : live) checkPat(l, when);
    }
};

struct Three { unsigned char b[3]; };
struct S24 { double d[3]; };
struct alignas(64) A64 { char c[64]; };
struct alignas(128) A128 { char c[128]; };
struct Tracked : public Vc::AlignedBase<64> {
    static int alive;
    int v[5];
    Tracked() : v{1, 2, 3, 4, 5} { ++alive; }
    Tracked(int a, int b) : v{a, b, 3, 4, 5} { ++alive; }
    ~Tracked() { --alive; }
};
int Tracked::alive = 0;

template <class T, Vc::MallocAlignment A> static void viaMalloc(History &h, size_t n, size_t align)
{
    T *p;
    {
        rec::On o;
        p = Vc::malloc<T, A>(n);
    }
    const size_t bytes = (n * sizeof(T) + align - 1) / align * align;
    h.add(p, bytes, align, [p] { Vc::free(p); }, "Vc::malloc");
}
template <class T> static void viaMallocA(History &h, size_t n)
{
    switch (h.s.draw(2)) {
    case 0: viaMalloc<T, Vc::AlignOnVector>(h, n, Vc::VectorAlignment); break;
    case 1: viaMalloc<T, Vc::AlignOnCacheline>(h, n, 64); break;
    default: viaMalloc<T, Vc::AlignOnPage>(h, n, 4096); break;
    }
}
template <class T, class Al> static void viaAllocator(History &h, size_t n, const char *what)
{
    Al al;
    T *p;
    rec::skew = unsigned(h.s.draw(7));
    {
        rec::On o;
        p = al.allocate(n);
    }
    // over-aligned up to the widest vector of the target
    h.add(p, n * sizeof(T), std::max(alignof(T), size_t(
#if defined Vc_IMPL_AVX
        32
#elif defined Vc_IMPL_SSE
        16
#else
        1
#endif
    )), [p, n] { Al a; a.deallocate(p, n); }, what);
}
template <class T> static void viaNew(History &h, size_t n, const char *what)
{
    rec::skew = unsigned(h.s.draw(7));
    const bool arr = h.s.coin();
    T *p;
    {
        rec::On o;
        p = arr ? new T[n + 1] : new T;
    }
    h.add(static_cast<void *>(p), arr ? sizeof(T) * (n + 1) : sizeof(T), alignof(T), [p, arr] { if (arr) delete[] p; else delete p; }, what);
}
template <class T> static void viaUnique(History &h)
{
    std::unique_ptr<T, Vc::Common::Deleter<T>> p;
    size_t align = Vc::VectorAlignment;
    {
        rec::On o;
        switch (h.s.draw(2)) {
        case 0: p = Vc::make_unique<T>(); break;
        case 1: p = Vc::make_unique<T, Vc::AlignOnCacheline>(); align = 64; break;
        default: p = Vc::make_unique<T, Vc::AlignOnPage>(); align = 4096; break;
        }
    }
    T *q = p.release();
    h.add(static_cast<void *>(q), sizeof(T), std::max(align, alignof(T)), [q] { std::unique_ptr<T, Vc::Common::Deleter<T>> r(q); }, "make_unique");
}
template <class T> struct SD { T a; double b; };
Vc_DECLARE_ALLOCATOR(A64)

static size_t genCount(Src &s)
{
    switch (s.draw(5)) {
    case 0: return s.draw(3);
    case 1: return size_t(1) << s.draw(10);
    case 2: return (size_t(1) << s.draw(9)) + 1;
    case 3: return s.draw(2000);
    default: return s.draw(70);
    }
}
static void allocOne(History &h)
{
    Src &s = h.s;
    const size_t n = genCount(s);
    s.note("n", [&](std::ostream &os) { os << n; });
    switch (s.draw(31)) {
    case 0: viaMallocA<char>(h, n); break;
    case 1: viaMallocA<float>(h, n); break;
    case 2: viaMallocA<double>(h, n); break;
    case 3: viaMallocA<short>(h, n); break;
    case 4: viaMallocA<int>(h, n); break;
    case 5: viaMallocA<Three>(h, n); break;
    case 6: viaMallocA<S24>(h, n); break;
    case 7: viaAllocator<char, Vc::Allocator<char>>(h, n, "Allocator<char>"); break;
    case 8: viaAllocator<float, Vc::Allocator<float>>(h, n, "Allocator<float>"); break;
    case 9: viaAllocator<Three, Vc::Allocator<Three>>(h, n, "Allocator<3 bytes>"); break;
    case 10: viaAllocator<S24, Vc::Allocator<S24>>(h, n, "Allocator<24 bytes>"); break;
    case 11: viaAllocator<A64, Vc::Allocator<A64>>(h, n, "Allocator<64 byte alignment>"); break;
    case 12: viaAllocator<A128, Vc::Allocator<A128>>(h, n, "Allocator<128 byte alignment>"); break;
    case 13: viaAllocator<long double, Vc::Allocator<long double>>(h, n, "Allocator<long double>"); break;
    case 14: viaAllocator<Vc::float_v, std::allocator<Vc::float_v>>(h, n, "std::allocator<float_v>"); break;
    case 15: viaAllocator<Vc::double_m, std::allocator<Vc::double_m>>(h, n, "std::allocator<double_m>"); break;
    case 16: viaAllocator<Vc::SimdArray<int, 11>, std::allocator<Vc::SimdArray<int, 11>>>(h, n, "std::allocator<SimdArray>"); break;
    case 17: viaAllocator<Vc::SimdMaskArray<short, 21>, std::allocator<Vc::SimdMaskArray<short, 21>>>(h, n, "std::allocator<SimdMaskArray>"); break;
    case 18: viaAllocator<A64, std::allocator<A64>>(h, n, "Vc_DECLARE_ALLOCATOR"); break;
    case 19: viaAllocator<Vc::short_v, std::vector<Vc::short_v>::allocator_type>(h, n, "vector<short_v>::allocator_type"); break;
    case 20: viaNew<Vc::float_v>(h, n % 40, "new float_v"); break;
    case 21: viaNew<Vc::ushort_v>(h, n % 40, "new ushort_v"); break;
    case 22: viaNew<Vc::float_m>(h, n % 40, "new float_m"); break;
    case 23: viaNew<Vc::SimdArray<double, 6>>(h, n % 40, "new SimdArray<double, 6>"); break;
    case 24: viaNew<Vc::SimdArray<float, 4>>(h, n % 40, "new SimdArray<float, 4>"); break;
    case 25: viaNew<Vc::SimdArray<float, 8>::mask_type>(h, n % 40, "new SimdMaskArray<float, 8>"); break;
    case 26: viaNew<Vc::simdize<std::tuple<float, double>>>(h, n % 40, "new simdize<tuple<float, double>>"); break;
    case 27: viaNew<Vc::double_v>(h, n % 40, "new double_v"); break;
    case 28: viaUnique<S24>(h); break;
    case 29: viaUnique<Vc::float_v>(h); break;
    case 30: viaUnique<float>(h); break;
    default: viaAllocator<float, Vc::Allocator<int>::rebind<float>::other>(h, n, "rebound Allocator"); break;
    }
}
static void history(Src &s)
{
    History h(s);
    const int steps = s.range(1, 40);
    int releases = 0;
    for (int i = 0; i < steps; ++i) {
        if (!h.live.empty() && s.draw(2) == 0) {
            h.release(s.draw(h.live.size() - 1), "before release");
            ++releases;
        } else {
            allocOne(h);
        }
        if (s.oneIn(8)) h.checkAll("during the history");
    }
    h.checkAll("at the end of the history");
    s.nontrivial(steps > 3 && releases > 0);
    while (!h.live.empty()) h.release(s.draw(h.live.size() - 1), "final release");
}

// objects in containers: every element address is aligned and values survive growth and insertion
template <class V> struct containers {
    using T = typename V::EntryType;
    template <class C> static void go(Src &s, size_t al)
    {
        rec::nblocks = 0;
        C c;
        std::vector<T> model;
        const int steps = s.range(1, 30);
        for (int i = 0; i < steps; ++i) {
            const T x = genSmallInt<T>(s, 0, 100);
            rec::skew = unsigned(s.draw(7));
            rec::On o;
            switch (s.draw(3)) {
            case 0:
                if (!model.empty()) {
                    const size_t k = s.draw(model.size() - 1);
                    auto it = c.begin();
                    std::advance(it, std::ptrdiff_t(k));
                    c.erase(it);
                    model.erase(model.begin() + std::ptrdiff_t(k));
                }
                break;
            case 1: {
                const size_t k = s.draw(model.size());
                auto it = c.begin();
                std::advance(it, std::ptrdiff_t(k));
                c.insert(it, V(x));
                model.insert(model.begin() + std::ptrdiff_t(k), x);
                break;
            }
            default: c.push_back(V(x)); model.push_back(x);
            }
        }
        s.nontrivial(model.size() > 2);
        size_t k = 0;
        expectEq("size", c.size(), model.size());
        for (const V &v : c) {
            PBT_CHECK(reinterpret_cast<uintptr_t>(&v) % al == 0, "element " << k << " is not aligned");
            Arr<T, V::Size> a;
            for (size_t j = 0; j < V::Size; ++j) a[j] = model[k];
            expectSame("element", lanes(v), a);
            ++k;
        }
        {
            rec::On o;
            C().swap(c);
        }
        PBT_CHECK(!rec::error, rec::error);
        rec::nblocks = 0;
    }
    static void run(Src &s)
    {
        rec::error = nullptr;
        switch (s.draw(3)) {
        case 0: go<std::vector<V>>(s, alignof(V)); break;
        case 1: go<std::list<V, Vc::Allocator<V>>>(s, alignof(V)); break;
        case 2: go<std::deque<V, Vc::Allocator<V>>>(s, alignof(V)); break;
        default: go<Vc::vector<V>>(s, alignof(V)); break;
        }
    }
};

// construction and destruction happen exactly once
static void lifetime(Src &s)
{
    Tracked::alive = 0;
    rec::nblocks = 0;
    std::vector<std::unique_ptr<Tracked>> a;
    std::vector<std::unique_ptr<Tracked, Vc::Common::Deleter<Tracked>>> b;
    const int steps = s.range(1, 20);
    for (int i = 0; i < steps; ++i) {
        const int x = s.range(0, 1000), y = s.range(0, 1000);
        switch (s.draw(3)) {
        case 0: a.emplace_back(new Tracked(x, y)); PBT_CHECK(a.back()->v[0] == x && a.back()->v[1] == y && a.back()->v[4] == 5, "constructor arguments"); break;
        case 1: b.push_back(Vc::make_unique<Tracked>(x, y)); PBT_CHECK(b.back()->v[0] == x && b.back()->v[1] == y && b.back()->v[4] == 5, "make_unique arguments"); break;
        case 2: if (!a.empty()) a.erase(a.begin() + std::ptrdiff_t(s.draw(a.size() - 1))); break;
        default: if (!b.empty()) b.erase(b.begin() + std::ptrdiff_t(s.draw(b.size() - 1))); break;
        }
        expectEq("live objects", size_t(Tracked::alive), a.size() + b.size());
        for (auto &p : a) PBT_CHECK(reinterpret_cast<uintptr_t>(p.get()) % 64 == 0, "AlignedBase<64> object not aligned");
    }
    s.nontrivial(a.size() + b.size() > 1);
    a.clear();
    b.clear();
    expectEq("live objects at the end", Tracked::alive, 0);
}
// a request that cannot be satisfied is refused, not answered with a smaller block
template <class T> static void hugeT(Src &s)
{
    Vc::Allocator<T> al;
    size_t n = 0;
    switch (s.draw(3)) {
    case 0: n = size_t(-1) / sizeof(T) - s.draw(3); break;
    case 1: n = size_t(-1) - s.draw(100); break;
    case 2: n = al.max_size() + 1 - s.draw(2); break;
    default: n = size_t(-1) / sizeof(T) + s.draw(5);
    }
    if (n < (size_t(1) << 50)) return;
    s.nontrivial();
    s.note("n", [&](std::ostream &os) { os << n << " objects of " << sizeof(T) << " bytes"; });
    bool threw = false;
    T *p = nullptr;
    rec::nblocks = 0;
    {
        rec::On o;
        try {
            p = al.allocate(n);
        } catch (const std::bad_alloc &) {
            threw = true;
        }
    }
    (void)p;
    rec::nblocks = 0;
    PBT_CHECK(threw, "allocate(" << n << ") did not throw std::bad_alloc");
}
static void huge(Src &s)
{
    switch (s.draw(3)) {
    case 0: hugeT<Vc::float_v>(s); break;
    case 1: hugeT<A64>(s); break;
    case 2: hugeT<char>(s); break;
    default: hugeT<Vc::SimdArray<double, 7>>(s); break;
    }
}
// Memory<V>: every object owns exactly one block that is large enough and given back with the object
template <class V> struct memory_object {
    using T = typename V::EntryType;
    using Mem = Vc::Memory<V>;
    struct Obj {
        std::unique_ptr<Mem> m;
        std::vector<T> w;
    };
    static std::vector<T> values(Src &s, size_t n)
    {
        std::vector<T> r(n);
        const unsigned k = unsigned(s.draw(100));
        for (size_t i = 0; i < n; ++i) r[i] = T((k + i * 3) % 120);
        return r;
    }
    static void check(const Obj &o, const char *when)
    {
        const Mem &m = *o.m;
        const size_t n = o.w.size(), vc = (n + V::Size - 1) / V::Size;
        expectEq((std::string(when) + ": entriesCount").c_str(), m.entriesCount(), n);
        expectEq((std::string(when) + ": vectorsCount").c_str(), m.vectorsCount(), vc);
        if (n == 0) return;
        const T *p = m.entries();
        PBT_CHECK(reinterpret_cast<uintptr_t>(p) % V::MemoryAlignment == 0, when << ": entries() is not aligned");
        const rec::Block *b = rec::containing(p);
        PBT_CHECK(b, when << ": entries() is in no live block");
        PBT_CHECK(reinterpret_cast<const char *>(p + vc * V::Size) <= b->p + b->n, when << ": the block ends before the last vector");
        for (size_t i = 0; i < n; ++i) expectEq((std::string(when) + ": entry").c_str(), T(m.entries()[i]), o.w[i]);
        const V l = m.lastVector();
        for (size_t i = 0; i < V::Size && (vc - 1) * V::Size + i < n; ++i) expectEq((std::string(when) + ": last vector").c_str(), T(l[i]), o.w[(vc - 1) * V::Size + i]);
    }
    static void run(Src &s)
    {
        rec::nblocks = 0;
        rec::error = nullptr;
        {
            std::vector<Obj> v;
            const int steps = s.range(1, 14);
            bool swapped = false;
            for (int k = 0; k < steps; ++k) {
                const size_t i = v.empty() ? 0 : size_t(s.draw(v.size() - 1)), j = v.empty() ? 0 : size_t(s.draw(v.size() - 1));
                const int before = rec::nblocks;
                const int op = v.empty() ? 0 : v.size() > 5 ? 4 : int(s.draw(5));
                int grown = 0;
                {
                    switch (op) {
                    case 0: {
                        const size_t n = size_t(s.range(0, 5 * int(V::Size) + 3));
                        Obj o;
                        { rec::On on; o.m.reset(new Mem(n)); }
                        o.w = values(s, n);
                        for (size_t q = 0; q < n; ++q) (*o.m)[q] = o.w[q];
                        v.push_back(std::move(o));
                        grown = 1;
                        break;
                    }
                    case 1: {
                        Obj o;
                        { rec::On on; o.m.reset(new Mem(static_cast<const Mem &>(*v[i].m))); }
                        o.w = v[i].w;
                        v.push_back(std::move(o));
                        grown = 1;
                        break;
                    }
                    case 2: {
                        Vc::Memory<V, 2 * V::Size + 1> fixed;
                        Obj o;
                        o.w = values(s, 2 * V::Size + 1);
                        for (size_t q = 0; q < o.w.size(); ++q) fixed[q] = o.w[q];
                        { rec::On on; o.m.reset(new Mem(fixed)); }
                        v.push_back(std::move(o));
                        grown = 1;
                        break;
                    }
                    case 3:
                        v[i].m->swap(*v[j].m);
                        std::swap(v[i].w, v[j].w);
                        swapped |= v[i].w.size() != v[j].w.size();
                        break;
                    case 4: {
                        { rec::On on; v[i].m.reset(); }
                        if (i + 1 != v.size()) v[i] = std::move(v.back());
                        v.pop_back();
                        grown = -1;
                        break;
                    }
                    default:
                        if (v[i].w.size() == v[j].w.size()) {
                            *v[i].m = *v[j].m;
                            v[i].w = v[j].w;
                        }
                    }
                }
                PBT_CHECK(!rec::error, rec::error);
                // the Memory object itself (operator new) and its entries (posix_memalign)
                expectEq("live blocks", rec::nblocks - before, 2 * grown);
                for (auto &o : v) check(o, "after the step");
            }
            s.nontrivial(swapped || v.size() > 1);
            rec::On on;
            for (auto &o : v) o.m.reset();
        }
        PBT_CHECK(!rec::error, rec::error);
        expectEq("live blocks at the end", rec::nblocks, 0);
        rec::nblocks = 0;
    }
};
static int k02reg = pbt::reg("history", &history, 4) + pbt::reg("lifetime", &lifetime, 0.5) + pbt::reg("huge", &huge, 0.1);
REG_ALL(containers, NativeSix, 0.5);
REG_ALL(memory_object, NativeSix, 0.3);
PBT_MAIN
