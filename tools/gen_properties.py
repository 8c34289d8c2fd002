#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of semantic properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
W = ("The runnable tests only compile/link and inspect which registers the ABI uses; no value is checked. "
     "Even the dormant unit tests sample a handful of values per type; ")
prop("A01", "Lane-wise arithmetic equals scalar arithmetic",
 "For every vector type of every vector ABI, each lane of a+b, a-b, a*b, unary plus/minus, ++/-- (prefix and postfix) and the compound assignment forms equals what the scalar operator yields for that lane's operands (modulo 2^bits for integers, IEEE-754 round-to-nearest for float and double), and no lane depends on another lane. A scalar operand behaves as if it were broadcast to all lanes.",
 ["inputs","configurations"], "all operand bit patterns x all element types x all ABIs (Scalar, SSE variants, AVX, AVX2)",
 W+"the claim is for every operand pair in every lane under every instruction-set implementation.",
 ["Vc/sse/vector.h","Vc/avx/vector.h","Vc/scalar/vector.h","Vc/sse/detail.h","Vc/avx/detail.h","Vc/common/operators.h"],
 [("per-type add/sub/mul intrinsics","Vc/sse/detail.h, Vc/avx/detail.h"),("operator wrappers","Vc/sse/vector.h, Vc/avx/vector.h, Vc/scalar/vector.h, Vc/common/operators.h")],
 ["result lanes"])
prop("A02", "Division and remainder are exact per lane",
 "For every vector type, each lane of a/b equals the C++ scalar quotient (truncated toward zero for integers, correctly rounded for float and double) and, for integer vectors, each lane of a%b equals the C++ remainder, for every operand pair for which the scalar operation is defined (so not for a zero divisor or min/-1) and for vector, scalar and compound-assignment forms.",
 ["inputs","configurations"], "all dividend/divisor pairs with a defined scalar result, incl. values >= 2^(bits-1) of unsigned types, x types x ABIs",
 W+"integer division is emulated through floating-point conversions, whose errors appear only for particular operand pairs.",
 ["Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/sse/detail.h","Vc/avx/detail.h","Vc/scalar/vector.h"],
 [("integer division via float/double or scalar loops","Vc/sse/vector.tcc, Vc/avx/vector.tcc"),("remainder = a - b*(a/b)","Vc/sse/vector.tcc, Vc/avx/vector.tcc")])
prop("A03", "Comparisons yield the per-lane scalar truth value",
 "For every vector type, lane i of the mask from ==, !=, <, <=, >, >= is exactly the result of the scalar comparison of lane i: IEEE rules for NaN, infinities and signed zero, and unsigned order for unsigned types, also against scalar operands. Library predicates on lanes (isnan, isinf, isfinite, isnegative) agree with the scalar classification.",
 ["inputs","configurations"], "all operand bit patterns x types x ABIs",
 W+"unsigned and NaN comparisons are emulated on most instruction sets and fail only at sign-boundary or unordered inputs.",
 ["Vc/sse/vector.h","Vc/avx/vector.h","Vc/sse/intrinsics.h","Vc/avx/intrinsics.h","Vc/sse/detail.h","Vc/avx/detail.h"],
 [("cmpgt/cmplt emulation for unsigned","Vc/sse/intrinsics.h, Vc/avx/intrinsics.h"),("comparison operators","Vc/sse/detail.h, Vc/avx/vector.h")])
prop("A04", "Bitwise operators and shifts act on each lane alone",
 "For every integer vector type, each lane of a&b, a|b, a^b, ~a and of a<<n, a>>n (n a scalar, or a vector giving a separate count per lane, with counts in [0, element bits)) equals the scalar operation on that lane: logical right shift for unsigned, arithmetic for signed. Logical negation !a yields a mask that is true exactly in the zero lanes.",
 ["inputs","configurations"], "all operand values x all in-range shift counts x types x ABIs",
 W+"per-lane shift counts are emulated lane by lane or via multiplication where hardware lacks them.",
 ["Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/sse/detail.h","Vc/avx/detail.h","Vc/scalar/vector.tcc"],
 [("shift operators","Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/scalar/vector.tcc")])
prop("A05", "Mixed-type operators convert operands as documented",
 "A binary operator between a vector and a scalar or vector of another arithmetic type converts both operands to one documented vector type (int promotes to the vector's type, mixed signedness becomes unsigned, integer with floating becomes floating) and then acts lane-wise with that type, independent of operand order.",
 ["inputs","configurations"], "all supported operand-type pairs x operand values x operators x ABIs",
 W+"the combinations of operand types times values are too many to list by hand.",
 ["Vc/common/operators.h","Vc/scalar/operators.h","Vc/common/simdarray.h"],
 [("operator return type selection","Vc/common/operators.h, Vc/common/simdarray.h")])
prop("M01", "Masks behave as fixed-length arrays of bool",
 "Every mask operation agrees with the same operation on an array of Size booleans: construction from bool and from memory, load/store of bool arrays, [] read and write, &, |, ^, &&, ||, !, compound forms, ==, !=, count, firstOne, toInt bit order, isFull/isEmpty/isNotEmpty/isMix and all_of/any_of/none_of/some_of, masks converted between element types, and shifted(n). Stores write exactly Size bools.",
 ["inputs","histories","configurations"], "all 2^Size masks x all operations and sequences of operations x types x ABIs",
 W+"the mask representation differs per element size and instruction set, so each type has its own packing code.",
 ["Vc/sse/mask.h","Vc/sse/mask.tcc","Vc/avx/mask.h","Vc/avx/mask.tcc","Vc/scalar/mask.h","Vc/common/mask.h","Vc/common/simdmaskarray.h"],
 [("mask load/store/toInt/count/firstOne","Vc/sse/mask.tcc, Vc/avx/mask.tcc, Vc/sse/detail.h, Vc/avx/detail.h"),("SimdMaskArray","Vc/common/simdmaskarray.h")])
prop("M02", "Masked assignment changes exactly the selected lanes",
 "An assignment, compound assignment, increment or decrement through v(mask), where(mask)|v, where(mask, v) or assign/setZero/setZeroInverted/setQnan with a mask leaves every unselected lane bit-identical and gives every selected lane the value of the unmasked operation; iif(mask, a, b) takes a where the mask is true and b elsewhere.",
 ["inputs","configurations"], "all masks x all values x all operators x vector and SimdArray types x ABIs",
 W+"the claim is about every mask/value/operator combination, including lanes that hold NaN or a zero divisor.",
 ["Vc/common/where.h","Vc/common/writemaskedvector.h","Vc/common/iif.h","Vc/sse/vector.h","Vc/avx/vector.h","Vc/common/simdarray.h"],
 [("conditional_assign / blend","Vc/sse/vector.h, Vc/avx/vector.h, Vc/common/simdarray.h"),("WriteMaskedVector","Vc/common/writemaskedvector.h")])
prop("S01", "Loads and stores convert exactly and touch only their range",
 "load(mem, flags) gives lane i the value of mem[i] converted as C++ converts the source type to the element type, and store(mem, flags) writes exactly Size elements with the lane values, for every supported memory element type (loads from all arithmetic types of the documented conversion table, stores to the element type) and every flag (Aligned, Unaligned, Streaming, prefetch) on suitably aligned addresses; no byte outside the Size elements is read or written. A masked store writes only the elements whose mask lane is true and leaves all other bytes unchanged.",
 ["inputs","configurations"], "all values x memory types x flags x alignments x masks x vector types x ABIs, at page boundaries",
 W+"memory footprint and converting loads differ per type pair and instruction set and are only visible at page/array ends.",
 ["Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/scalar/vector.tcc","Vc/sse/detail.h","Vc/avx/detail.h","Vc/common/loadinterface.h","Vc/common/storeinterface.h","Vc/common/simdarray.h"],
 [("converting load","Vc/sse/detail.h load(), Vc/avx/detail.h load()"),("masked store","Vc/sse/vector.tcc, Vc/avx/vector.tcc")])
prop("S02", "Gather reads exactly the addressed elements",
 "A gather from mem with an index vector gives lane i the (converted) value of mem[index[i]]; a masked gather does so for selected lanes only, never dereferences the index of an unselected lane, and leaves unselected lanes unchanged (zero for the masked gather constructor).",
 ["inputs","configurations"], "all index vectors (repeated, extreme, out-of-range where masked) x masks x value/index types x ABIs x gather strategies",
 W+"the guarantee for masked-off invalid indexes is only observable when they would fault.",
 ["Vc/common/gatherinterface.h","Vc/common/gatherimplementation.h","Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/scalar/vector.tcc","Vc/common/simdarray.h"],
 [("executeGather strategies","Vc/common/gatherimplementation.h"),("hardware gathers","Vc/avx/vector.tcc")])
prop("S03", "Scatter writes exactly the addressed elements",
 "A scatter stores lane i to mem[index[i]] (where several lanes address the same element, one of their values is stored), a masked scatter stores only selected lanes and never touches the address of an unselected lane, and no other element of memory changes.",
 ["inputs","configurations"], "all distinct index vectors x masks x value/index/memory types x ABIs x scatter strategies",
 W+"which memory a masked scatter leaves untouched is a statement about all masks and index vectors.",
 ["Vc/common/scatterinterface.h","Vc/common/scatterimplementation.h","Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/scalar/vector.tcc","Vc/common/simdarray.h"],
 [("executeScatter strategies","Vc/common/scatterimplementation.h")])
prop("S04", "Vector subscripts of containers gather and scatter the right members",
 "For Vc::array, Vc::vector and adapted containers, reading container[indexes] (optionally followed by a member pointer and/or nested subscript) into a vector yields for each lane the value that scalar subscripting with that lane's index yields, and assigning a vector through the same expression changes exactly those elements; where(mask) restricts both to the selected lanes.",
 ["inputs","configurations"], "all index vectors and index types x containers, struct layouts and nesting x masks",
 W+"the index is rescaled by ratios of object sizes at compile time, which only matters for particular struct layouts and index magnitudes.",
 ["Vc/common/subscript.h","Vc/array","Vc/vector","Vc/common/where.h","Vc/common/detail.h"],
 [("SubscriptOperation scale arithmetic","Vc/common/subscript.h")])
prop("R01", "Horizontal reductions combine all lanes once",
 "min, max, sum and product of a vector equal the reduction over its lanes (integers modulo 2^bits, floating point up to reassociation), the masked forms reduce over exactly the selected lanes (for an empty selection sum gives 0 and product 1; min and max need at least one selected lane), partialSum gives the inclusive prefix sums, and minIndex/maxIndex locate an extreme lane.",
 ["inputs","configurations"], "all lane values and masks x types x ABIs x SimdArray sizes",
 W+"shuffle-based reductions err only for values placed in particular lanes.",
 ["Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/sse/detail.h","Vc/avx/detail.h","Vc/scalar/vector.h","Vc/common/simdarray.h"],
 [("reductions","Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/common/simdarray.h")])
prop("R02", "Lane permutations move each value to its documented lane",
 "shifted(n) moves lane i+n to lane i filling with zero (or with lanes of the second argument), rotated(n) rotates, reversed reverses, interleaveLow/High and interleave() zip two vectors, broadcast constructors and broadcast<I>(), IndexesFromZero, Zero, One and generator constructors place values by lane index; every amount in the documented range works and values are moved bit-exactly.",
 ["inputs","configurations"], "all lane values x all amounts in [-Size, Size] x types x ABIs",
 W+"each amount is a separate immediate-coded instruction path.",
 ["Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/scalar/vector.tcc","Vc/common/interleave.h","Vc/sse/shuffle.h","Vc/avx/shuffle.h"],
 [("shifted/rotated/reversed/interleave","Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/scalar/vector.tcc")])
prop("R03", "sorted() returns the ascending permutation of the lanes",
 "v.sorted() contains exactly the multiset of v's lane values in non-decreasing lane order, for every vector type and every NaN-free input.",
 ["inputs","configurations"], "all lane values and orders (duplicates, extremes, already sorted, reversed) x types x ABIs",
 W+"a sorting network is correct only if it sorts every permutation of ties and values.",
 ["src/sse_sorthelper.cpp","src/avx_sorthelper.cpp","Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/scalar/vector.h"],
 [("bitonic/odd-even merge networks","src/sse_sorthelper.cpp, src/avx_sorthelper.cpp")])
prop("C01", "simd_cast converts every lane like static_cast and keeps positions",
 "simd_cast<To>(from...) gives destination lane i the C++ conversion of lane i of the concatenated sources for every value whose conversion is defined, zero-fills lanes beyond the sources, simd_cast<To, offset> selects the given part, and converting constructors agree; casts of masks preserve each lane's truth value; reinterpret casts keep bits.",
 ["inputs","configurations"], "all lane values with defined conversion x all (source type, destination type, source count, offset) combinations x ABIs",
 W+"there are hundreds of hand-written overloads, each with its own shuffles and saturation hazards.",
 ["Vc/sse/simd_cast.h","Vc/avx/simd_cast.h","Vc/scalar/simd_cast.h","Vc/common/simd_cast.h","Vc/common/simdarray.h","Vc/common/simdmaskarray.h","Vc/sse/casts.h","Vc/avx/casts.h"],
 [("simd_cast overloads","Vc/sse/simd_cast.h, Vc/avx/simd_cast.h, Vc/common/simdarray.h")])
prop("D01", "SimdArray<T,N> computes lane-wise for every N",
 "For every element type and every N (powers of two and odd sizes), arithmetic, comparison, bitwise, shift, unary and compound operators, mask operations and masked operations on SimdArray<T,N> give in each of the N lanes the scalar result, independent of how the array is split into registers.",
 ["inputs","configurations"], "all lane values x N in 1..33 (sampled sizes) x types x ABIs",
 W+"every N is split recursively into different native vectors; only some splits expose a defect.",
 ["Vc/common/simdarray.h","Vc/common/simdarrayhelper.h","Vc/common/simdmaskarray.h","Vc/common/simdarrayfwd.h"],
 [("atomic and composite SimdArray","Vc/common/simdarray.h"),("actual_value/callable helpers","Vc/common/simdarrayhelper.h")])
prop("D02", "SimdArray<T,N> data movement covers exactly N elements in order",
 "For every N, load/store (all flags), gather/scatter (plain and masked), lane access, reductions (plain and masked), partialSum, shifted, rotated, reversed, interleave, sorted, simd_cast between sizes and generator constructors on SimdArray<T,N> and its mask type agree with the same operation on an array of N elements, and touch no memory beyond N elements.",
 ["inputs","configurations"], "all lane values, amounts, masks and indexes x N x types x ABIs",
 W+"cross-register data movement depends on the split of N and on the amount.",
 ["Vc/common/simdarray.h","Vc/common/simdmaskarray.h","Vc/common/simdarrayhelper.h"],
 [("split loads/stores/gathers, shifted/rotated over two halves","Vc/common/simdarray.h")])
prop("D03", "SimdArray math functions are lane-wise for every N",
 "For every N, abs, sqrt, the rounding functions, min, max, copysign, exponent, fma, frexp, ldexp, the logarithms, exp, the trigonometric functions, rsqrt and reciprocal applied to SimdArray<T,N> give in each of the N lanes the result the function has for that lane's value, exactly or within the documented error bound of the function, independent of how the array is split into registers.",
 ["inputs","configurations"], "all lane values x N in 1..33 (sampled sizes) x floating-point types x ABIs",
 W+"every N is split recursively into different native vectors, each with its own implementation of the function.",
 ["Vc/common/simdarray.h","Vc/common/math.h","Vc/common/simdarrayhelper.h"],
 [("SimdArray math functions","Vc/common/simdarray.h"),("math functions in terms of Vector","Vc/common/math.h")])
prop("F01", "Exactly specified math functions match the scalar functions",
 "sqrt, abs, floor, ceil, trunc, round, copysign, min, max, fma, frexp, ldexp and exponent give in every lane the value the C/C++ scalar definition gives (round: to nearest, ties to even; fma: the product is not rounded before the addition), for zeros, denormals, large magnitudes, infinities and NaN alike (only the sign of a zero returned by a rounding function is left open); frexp/ldexp are mutually inverse.",
 ["inputs","configurations"], "all finite and special float/double inputs (and integers for abs/min/max) x ABIs x SimdArray",
 W+"emulated rounding (without SSE4.1) and exponent manipulation fail only for special magnitudes.",
 ["Vc/sse/math.h","Vc/avx/math.h","Vc/scalar/math.h","Vc/common/math.h","Vc/sse/detail.h","Vc/avx/detail.h","Vc/common/simdarray.h"],
 [("rounding emulation, frexp/ldexp bit tricks","Vc/sse/math.h, Vc/avx/math.h")])
prop("F02", "log, log2, log10 and exp meet their documented accuracy",
 "For every positive finite (normal or denormal) input log and log2 are within a few ulp of the true value and log10 likewise, exp within 2 ulp over the range in which neither overflow nor underflow occurs; log of zero is -inf, of a negative number NaN; exp overflows to +inf and underflows to zero; each lane is computed independently.",
 ["inputs","configurations"], "all positive inputs incl. denormals, zeros, negatives, infinities x float/double x ABIs",
 W+"accuracy is a bound over all inputs and coefficient or range-reduction errors show only in parts of the domain.",
 ["Vc/common/logarithm.h","Vc/common/exponential.h","Vc/common/math.h","Vc/scalar/math.h","src/const.cpp"],
 [("range reduction + polynomial","Vc/common/logarithm.h, Vc/common/exponential.h"),("coefficients","src/const.cpp")])
prop("F03", "Trigonometric functions meet their accuracy bound in every lane",
 "sin, cos, sincos, asin, atan and atan2 are within a few ulp of the true value over their documented ranges (plus a tiny absolute error next to the zeros of sin and cos), have the right quadrant/sign, obey the documented special cases (signed zero, infinities, NaN) of atan2, sincos agrees with sin and cos, and each lane is computed independently.",
 ["inputs","configurations"], "all inputs in range x float/double x ABIs",
 W+"quadrant selection and range reduction errors are confined to particular intervals.",
 ["src/trigonometric.cpp","Vc/common/trigonometric.h","Vc/scalar/math.h","src/const.cpp"],
 [("argument folding and polynomial selection","src/trigonometric.cpp")])
prop("F04", "rsqrt and reciprocal approximations honour their error bound",
 "rsqrt(x) and reciprocal(x) have relative error at most 1.5*2^-12 for every positive normal x (any sign for reciprocal) whose result is normal, in every lane and for every vector type.",
 ["inputs","configurations"], "all normal inputs x float/double x ABIs",
 W+"an error bound is a universal claim.",
 ["Vc/sse/math.h","Vc/avx/math.h","Vc/scalar/math.h","Vc/common/simdarray.h"],
 [("rsqrt/reciprocal","Vc/sse/math.h, Vc/avx/math.h, Vc/scalar/math.h")])
prop("I01", "Interleaved memory access gathers and scatters whole structs",
 "Reading from an InterleavedMemoryWrapper over an array of structs with 2 to 8 members, by index vector or by consecutive position, assigns to the k-th vector the k-th member of each addressed struct; writing a tuple of vectors stores them to exactly those members of exactly those structs and leaves every other struct unchanged.",
 ["inputs","configurations"], "all index vectors and positions x member counts x types x ABIs",
 W+"each member count and vector width has its own transpose code.",
 ["Vc/common/interleavedmemory.h","Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/avx/detail.h","Vc/scalar/detail.h","Vc/common/simdarray.h"],
 [("deinterleave/interleave implementations","Vc/sse/deinterleave.tcc, Vc/avx/deinterleave.tcc, Vc/common/interleavedmemory.h, Vc/avx/transpose.h")])
prop("I02", "deinterleave and transpose permute values exactly",
 "deinterleave(&a, &b, mem) loads even elements into a and odd elements into b with conversion for every supported type pair and alignment flag, and tie(r0..r3) = transpose(v0..v3) assigns lane j of input i to lane i of output j, also when the outputs are the inputs.",
 ["inputs","configurations"], "all values x supported type combinations x flags x ABIs",
 W+"each combination has hand-written shuffles.",
 ["Vc/common/deinterleave.h","Vc/sse/deinterleave.tcc","Vc/avx/deinterleave.tcc","Vc/common/transpose.h","Vc/sse/detail.h","Vc/avx/detail.h"],
 [("deinterleave","Vc/sse/deinterleave.tcc, Vc/avx/deinterleave.tcc"),("transpose_impl","Vc/sse/transpose.h, Vc/avx/transpose.h")])
prop("K01", "Memory containers act as arrays viewed as scalars or vectors",
 "Under any sequence of scalar writes, vector writes (aligned, unaligned, offset), copies, swaps, fills, assignments and element-wise operators, a Memory object (static, 2-dimensional or dynamic) equals a plain array of entriesCount elements: scalar and vector views alias the same elements, padding stays inside the object, sizes and vector counts are consistent, and other rows/objects are not modified.",
 ["histories","inputs","configurations"], "all operation sequences x sizes x types x ABIs",
 W+"aliasing between scalar and vector views and padding is a property of histories.",
 ["Vc/common/memory.h","Vc/common/memorybase.h","Vc/Memory"],
 [("vector accessors and iterators","Vc/common/memorybase.h"),("padding and copy","Vc/common/memory.h")])
prop("K02", "Allocation honours alignment, padding and lifetime",
 "Vc::malloc, Vc::Allocator, std::allocator for Vc types, make_unique, AlignedBase-derived classes and the new operators of vector types return non-overlapping blocks aligned as requested, of which every requested byte (plus the padding documented for Vc::malloc) is usable, and every block can be released in any order.",
 ["histories","inputs","configurations"], "all sequences of allocations/frees of any size and alignment",
 W+"misalignment and overlap depend on the size and on the allocator's history.",
 ["Vc/common/malloc.h","Vc/Allocator","Vc/common/alignedbase.h","Vc/common/make_unique.h","Vc/global.h"],
 [("pointer adjustment","Vc/Allocator allocate()/deallocate()"),("aligned_malloc","Vc/common/malloc.h")])
prop("K03", "Vc::array, Vc::span and makeContainer act like their std models",
 "Vc::array and Vc::span agree with std::array / pointer+length in element access, iteration, size, comparison, fill, swap and subspans, and makeContainer distributes an initializer list over vectors in order with zeros in the remaining lanes.",
 ["inputs","histories"], "all contents, sizes and operations",
 W+"container semantics are claims about all contents and operations.",
 ["Vc/array","Vc/span","Vc/common/span.h","Vc/common/makeContainer.h","Vc/vector"],
 [("array/span/makeContainer","Vc/array, Vc/common/span.h, Vc/common/makeContainer.h")])
prop("L01", "Scalar lane access reads and writes one lane only",
 "Reading v[i] gives lane i; writing, compound-assigning, incrementing or swapping through v[i] on vectors and masks changes lane i to the scalar result and no other lane; iterating with begin()/end() visits the lanes in order, and iterating where(mask) visits exactly the selected lane indexes in ascending order.",
 ["inputs","histories","configurations"], "all lanes, values and sequences of accesses x vector/mask/SimdArray types x ABIs",
 W+"lane proxies are implemented per representation.",
 ["Vc/common/elementreference.h","Vc/common/iterators.h","Vc/sse/vector.h","Vc/avx/vector.h","Vc/common/storage.h","Vc/common/simdarray.h"],
 [("ElementReference","Vc/common/elementreference.h"),("iterators","Vc/common/iterators.h")])
prop("L02", "apply, call, fill and generate visit each lane exactly once",
 "call(f)/apply(f) invoke f once for each (selected) lane with that lane's value in lane order, apply returns f's results in those lanes and the original value in unselected lanes; generate(f)/fill(f) place f's results by lane; callWithValuesSorted on a sorted vector invokes f exactly once per distinct value, in order.",
 ["inputs","configurations"], "all values and masks x types x ABIs",
 W+"masked traversal has representation specific loops.",
 ["Vc/common/generalinterface.h","Vc/sse/vector.h","Vc/avx/vector.h","Vc/scalar/vector.h","Vc/common/simdarray.h"],
 [("call/apply loops","Vc/sse/vector.h, Vc/avx/vector.h, Vc/common/simdarray.h")])
prop("Z01", "simdize preserves scalar objects through assign and extract",
 "For a struct or tuple type T, simdize<T> holds size() independent scalar objects: assign(v,i,x) followed by extract(v,i) returns x, other lanes keep their values, a broadcast from x yields x in each lane, swap exchanges, member operators act per lane as in the scalar type, and shifted() moves whole objects.",
 ["inputs","histories","configurations"], "all values, lane indexes and sequences x struct shapes x widths",
 W+"lane bookkeeping across members of differing types is a property of sequences.",
 ["Vc/common/simdize.h"],
 [("Adapter, assign/extract/swap/shifted","Vc/common/simdize.h")])
prop("Z02", "Vectorized iteration covers a range exactly once",
 "simd_for_each and simd_for_each_n apply the function to every element of the range exactly once in order, write results back only for mutating functors, and touch nothing outside the range, for any length and alignment of a contiguous range; a simdized iterator over a container loads and stores the same elements as the scalar iterator.",
 ["inputs","configurations"], "all lengths, alignments, element types and functors x ABIs",
 W+"tail handling depends on length modulo vector width and is a claim about every length.",
 ["Vc/common/algorithms.h","Vc/common/simdize.h","Vc/common/interleavedmemory.h"],
 [("main loop and tail loop","Vc/common/algorithms.h"),("load_interleaved/store_interleaved and simdized iterators","Vc/common/simdize.h")])
prop("X01", "A program gives the same results on every implementation",
 "A program over fixed-width SIMD values using the exactly specified operations (integer and IEEE basic arithmetic, comparisons, masks, shifts, conversions, data movement) produces bit-identical results whichever instruction-set implementation (Scalar, SSE2..SSE4.2, AVX, AVX2) it is compiled for.",
 ["programs","inputs","configurations"], "all programs over the exactly specified operations x inputs x implementations",
 W+"the tests run one implementation at a time and compare nothing between them.",
 ["Vc/common/simdarray.h","Vc/sse/","Vc/avx/","Vc/scalar/"],
 [("ABI selection and splitting","Vc/common/simdarrayfwd.h, Vc/common/simdarray.h")])
prop("P01", "CPU feature detection and implementation selection are consistent",
 "CpuId reports exactly the vendor, model, feature bits and cache geometry that the CPU's cpuid instruction reports; isImplementationSupported, bestImplementationSupported and extraInstructionsSupported are monotone and consistent with those bits; the compile-time implementation descriptor answers is/is_between/runs_on consistently with its implementation and extra-instruction bits.",
 ["inputs","configurations"], "all implementation enumerators x all extra-instruction bit sets x compile-time targets",
 W+"the tests never look at these results.",
 ["src/cpuid.cpp","src/support_x86.cpp","Vc/cpuid.h","Vc/support.h","Vc/global.h"],
 [("cpuid parsing","src/cpuid.cpp"),("ImplementationT","Vc/global.h")])
prop("P02", "Stream output, limits and random numbers respect their contracts",
 "Streaming a vector, mask, SimdArray or Memory prints every lane value once, in order, in the documented format; numeric_limits of a vector type has the scalar limits in each lane; Random() yields lane values within the documented range (floating point in [0,1)) and is not constant across lanes or calls.",
 ["inputs","histories","configurations"], "all lane values; all calls",
 W+"the claims quantify over all values and call histories.",
 ["Vc/IO","Vc/limits","Vc/sse/limits.h","Vc/avx/limits.h","Vc/sse/vector.tcc","Vc/avx/vector.tcc","Vc/scalar/vector.tcc"],
 [("operator<<","Vc/IO"),("limits","Vc/limits, Vc/sse/limits.h, Vc/avx/limits.h"),("Random","Vc/*/vector.tcc")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
