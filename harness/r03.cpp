#include "vcgen.h"
#include <algorithm>
// R03: sorted().
template <class V> struct sorting {
    static void run(Src &s)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        auto g = [](Src &q) {
            T x = genVal<T>(q);
            return x != x ? T(-3) : x;
        };
        Arr<T, N> a;
        const unsigned mode = unsigned(s.draw(4));
        if (mode == 1) {  // zero-one principle: every 0/1 pattern
            const T lo = g(s), hi = g(s);
            const uint64_t bitsv = s.draw(N >= 64 ? ~0ull : (1ull << N) - 1);
            for (size_t i = 0; i < N; ++i) a[i] = ((bitsv >> (i % 64)) & 1) ? hi : lo;
        } else if (mode == 2) {  // permutation of 0..N-1 (few equal)
            for (size_t i = 0; i < N; ++i) a[i] = T(i);
            for (size_t i = N - 1; i > 0; --i) std::swap(a[i], a[s.draw(i)]);
        } else if (mode == 3) {  // few distinct values
            T v[3] = {g(s), g(s), g(s)};
            for (size_t i = 0; i < N; ++i) a[i] = v[s.draw(2)];
        } else
            for (size_t i = 0; i < N; ++i) a[i] = g(s);
        s.note("a", [&](std::ostream &os) { os << a; });
        Arr<T, N> want = a;
        std::sort(&want.d[0], &want.d[0] + N);
        bool wasSorted = true;
        for (size_t i = 0; i + 1 < N; ++i) wasSorted = wasSorted && a[i] <= a[i + 1];
        s.nontrivial(!wasSorted || N == 1);
        const V v = toV<V>(a);
        const auto got = lanes(V(v.sorted()));
        for (size_t i = 0; i < N; ++i)
            if (!(got[i] == want[i])) expectSame("sorted()", got, want);
        expectSame("operand unchanged", lanes(v), a);
    }
};
#ifndef PBT_TEMPLATES_ONLY
REG_ALL(sorting, AllVectors, 1);
PBT_MAIN
#endif
