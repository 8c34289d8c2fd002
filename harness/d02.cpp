// D02: the data-movement properties of S01..S03, R01..R03 and C01 for SimdArray<T, N>
#include "salists.h"
#include <Vc/array>
#include <tuple>
#include <algorithm>
#define PBT_TEMPLATES_ONLY
#if D02_PART == 0
namespace ls {
#include "s01.cpp"
}
template <class L> struct RegLoads;
template <class... V> struct RegLoads<List<V...>> {
    template <class T> static typename std::enable_if<std::is_floating_point<typename T::EntryType>::value>::type others()
    {
        using U = typename std::conditional<std::is_same<typename T::EntryType, float>::value, double, float>::type;
        pbt::reg("load<" + VName<T>::s() + "," + TName<U>::s() + ">", &ls::load<T, U>::run, 0.3);
        pbt::reg("load<" + VName<T>::s() + ",int>", &ls::load<T, int>::run, 0.3);
    }
    template <class T> static typename std::enable_if<std::is_integral<typename T::EntryType>::value>::type others()
    {
        pbt::reg("load<" + VName<T>::s() + ",uchar>", &ls::load<T, unsigned char>::run, 0.3);
    }
    template <class T> static int one()
    {
        pbt::reg("load<" + VName<T>::s() + ">", &ls::load<T, typename T::EntryType>::run, 0.5);
        others<T>();
        return 0;
    }
    static int go() { int d[] = {one<V>()...}; return d[0]; }
};
static int rl = RegLoads<SAAll>::go();
REG_ALL(ls::store, SAAll, 1);
REG_ALL(ls::history, SAAll, 0.5);
#elif D02_PART == 1
#include "s03.cpp"
REG_ALL(gs::gather, SAAll, 1);
REG_ALL(gs::gather_masked, SAAll, 1);
#elif D02_PART == 2
#define GS_SPLIT_INDEXES
#include "s03.cpp"
REG_ALL(gs::scatter, SAAll, 1);
REG_ALL(gs::scatter_masked, SAAll, 1);
REG_ALL(gs::roundtrip, SAAll, 0.5);
#elif D02_PART == 3
namespace rd {
#include "r01.cpp"
}
REG_ALL(rd::reduce, SAAll, 1);
#elif D02_PART == 6
namespace so {
#include "r03.cpp"
}
REG_ALL(so::sorting, SAAll, 1);
#elif D02_PART == 4
namespace pm {
#include "r02.cpp"
}
REG_ALL(pm::perm, SAAll, 1);
REG_ALL(pm::build, SAAll, 0.3);
#else
#include "c01.h"
// ordered pairs from two lists: every To with three Froms at different distances in the list
template <class L, size_t I> struct At;
template <class H, class... T> struct At<List<H, T...>, 0> { using type = H; };
template <class H, class... T, size_t I> struct At<List<H, T...>, I> { using type = typename At<List<T...>, I - 1>::type; };
template <class L> struct Len;
template <class... T> struct Len<List<T...>> { static constexpr size_t value = sizeof...(T); };
template <class To, class From> static int regPair()
{
    cc::RegTo<From, List<To>>::go();
    pbt::reg("ctor<" + VName<To>::s() + " <- " + VName<From>::s() + ">", &cc::ctor<To, From>::run, 0.3);
    return 0;
}
template <class L, size_t... I> static int regPairs(Vc::index_sequence<I...>)
{
    constexpr size_t n = Len<L>::value;
    int d[] = {regPair<typename At<L, I>::type, typename At<L, (I * 5 + 3 + D02_PART) % n>::type>()..., regPair<typename At<L, I>::type, typename At<L, (I * 7 + 11 + 5 * D02_PART) % n>::type>()...};
    return d[0];
}
using SANative = Concat<SAAll, NativeSix>;
static int rp = regPairs<SANative>(Vc::make_index_sequence<Len<SANative>::value>());
#endif
PBT_MAIN
