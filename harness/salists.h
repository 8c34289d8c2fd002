// SimdArray type lists: sizes are chosen so that every kind of recursive split (atomic, equal halves, unequal
// halves at one or several levels, halves of different ABIs) occurs for every element size and configuration.
#pragma once
#include "vcgen.h"
template <class T, std::size_t... Ns> using SAs = List<Vc::SimdArray<T, Ns>...>;
template <class T, int... Ns> using Fixed = List<Vc::fixed_size_simd<T, Ns>...>;
#ifndef SA_PART
#define SA_PART 0
#endif
#if SA_PART == 0
using SAReals = Concat<SAs<double, 1, 3, 4, 6, 9>, SAs<float, 2, 7, 8, 12, 17>, Fixed<float, 9>>;
using SAInts = Concat<SAs<int, 1, 5, 8, 19>, SAs<uint_t, 3, 4, 7, 12>, SAs<short, 2, 8, 11, 24>, SAs<ushort_t, 5, 9, 16, 27>, Fixed<int, 7>, Fixed<ushort_t, 8>>;
#elif SA_PART == 2
// the short list with which the checks of the vector properties visit SimdArray
using SAReals = Concat<SAs<double, 5>, SAs<float, 7>>;
using SAInts = Concat<SAs<int, 12>, SAs<uint_t, 6>, SAs<short, 19>, SAs<ushort_t, 16>>;
#else
using SAReals = Concat<SAs<double, 2, 5, 7, 13>, SAs<float, 1, 3, 5, 16, 33>, Fixed<double, 8>>;
using SAInts = Concat<SAs<int, 3, 6, 17>, SAs<uint_t, 2, 9, 16>, SAs<short, 1, 7, 17, 32>, SAs<ushort_t, 4, 12, 33>, Fixed<short, 13>>;
#endif
using SAAll = Concat<SAReals, SAInts>;
