// D03: the math functions of F01..F04 on SimdArray<T, N> (split differently for every N and configuration)
#include "salists.h"
#define PBT_TEMPLATES_ONLY
using SAPlain = typename std::conditional<SA_PART == 2, SAReals, typename std::conditional<SA_PART == 0,
    Concat<SAs<double, 1, 3, 4, 6, 8, 9>, SAs<float, 2, 7, 8, 12, 17>>, Concat<SAs<double, 2, 5, 7, 13>, SAs<float, 1, 3, 5, 16, 24, 33>>>::type>::type;
template <class L> struct SignedOnly;
template <class V, class... R> struct SignedOnly<List<V, R...>> {
    using type = Concat<typename std::conditional<(std::is_signed<typename V::EntryType>::value), List<V>, List<>>::type, typename SignedOnly<List<R...>>::type>;
};
template <> struct SignedOnly<List<>> { using type = List<>; };
#if D03_PART == 0
namespace f01 {
#include "f01.cpp"
}
REG_ALL(f01::sqrt_exact, SAReals, 1);
REG_ALL(f01::absolute, SignedOnly<SAAll>::type, 1);
REG_ALL(f01::rounding, SAReals, 1);
REG_ALL(f01::round_even, SAReals, 1);
REG_ALL(f01::copy_sign, SAReals, 0.5);
REG_ALL(f01::min_max, SAAll, 0.5);
REG_ALL(f01::exponent_op, SAReals, 0.5);
REG_ALL(f01::fma_op, SAPlain, 1);
REG_ALL(f01::frexp_op, SAPlain, 1);
REG_ALL(f01::ldexp_op, SAPlain, 1);
REG_ALL(f01::frexp_ldexp, SAPlain, 0.5);
#elif D03_PART == 1
namespace f02 {
#include "f02.cpp"
}
namespace f04 {
#include "f04.cpp"
}
REG_ALL(f02::natural_log, SAReals, 1);
REG_ALL(f02::binary_log, SAReals, 1);
REG_ALL(f02::decimal_log, SAReals, 1);
REG_ALL(f02::exponential, SAReals, 1);
REG_ALL(f04::rsqrt_op, SAReals, 0.5);
REG_ALL(f04::reciprocal_op, SAReals, 0.5);
#else
namespace f03 {
#include "f03.cpp"
}
REG_ALL(f03::sine_cosine, SAReals, 1);
REG_ALL(f03::large_angle, SAReals, 0.3);
REG_ALL(f03::arcsine, SAReals, 0.5);
REG_ALL(f03::arctangent, SAReals, 0.5);
REG_ALL(f03::arctangent2, SAReals, 1);
#endif
PBT_MAIN
