// D01: the lane-wise operator properties of A01..A04, M01 and M02 for SimdArray<T, N>
#include "salists.h"
#include <Vc/array>
#define PBT_TEMPLATES_ONLY
#if D01_PART == 0
namespace arith {
#include "a01.cpp"
}
namespace div_ {
#include "a02.cpp"
}
REG_ALL(arith::binary, SAAll, 1);
REG_ALL(arith::scalar_operand, SAAll, 0.5);
REG_ALL(arith::unary, SAAll, 0.5);
REG_ALL(arith::chain, SAAll, 0.2);
REG_ALL(div_::division, SAAll, 0.5);
REG_ALL(div_::scalar_divisor, SAAll, 0.5);
#elif D01_PART == 1
namespace cmp {
#include "a03.cpp"
}
namespace bit {
#include "a04.cpp"
}
REG_ALL(cmp::compare, SAAll, 1);
REG_ALL(cmp::compare_scalar, SAAll, 0.5);
REG_ALL(cmp::classify_real, SAReals, 0.5);
REG_ALL(bit::bitwise, SAInts, 1);
REG_ALL(bit::shift_scalar, SAInts, 1);
REG_ALL(bit::shift_vector, SAInts, 1);
template <class V> struct lognot {
    static void run(Src &s)
    {
        using T = typename Tr<V>::T;
        constexpr size_t N = Tr<V>::N;
        auto a = genArr<T, N>(s, "a", [](Src &q) { return q.coin() ? T(0) : genVal<T>(q); });
        Arr<bool, N> w;
        for (size_t i = 0; i < N; ++i) w[i] = !a[i];
        s.nontrivial(N == 1 || !allSame(w));
        expectMask("!a", typename V::Mask(!toV<V>(a)), w);
    }
};
REG_ALL(lognot, SAAll, 0.3);
#elif D01_PART == 2
namespace mask {
#include "m01.cpp"
}
REG_ALL(mask::queries, SAAll, 0.5);
REG_ALL(mask::memory, SAAll, 0.5);
REG_ALL(mask::operators, SAAll, 0.5);
REG_ALL(mask::construct, SAAll, 0.5);
REG_ALL(mask::shifted_mask, SAAll, 0.5);
#else
namespace masked {
#include "m02.cpp"
}
REG_ALL(masked::assign, SAAll, 1);
REG_ALL(masked::arithmetic, SAAll, 0.5);
REG_ALL(masked::incdec, SAAll, 0.5);
REG_ALL(masked::division, SAAll, 0.3);
REG_ALL(masked::integer_ops, SAInts, 0.5);
REG_ALL(masked::remainder_ops, SAInts, 0.3);
REG_ALL(masked::set_qnan, SAReals, 0.3);
#endif
PBT_MAIN
