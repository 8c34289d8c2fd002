"""Which harness decides which property, in which configurations, with how many cases."""

# name -> flags.  cost: relative compile cost (scheduling order); slow: divides the case count
CONFIGS = {
    "scalar": dict(flags=["-DVc_IMPL=Scalar"]),
    "sse2": dict(flags=["-msse2", "-mno-sse3"], cost=2),
    "sse3": dict(flags=["-msse3", "-mno-ssse3"], cost=2),
    "ssse3": dict(flags=["-march=core2"], cost=2),
    "sse41": dict(flags=["-march=core2", "-msse4.1"], cost=2),
    "sse42": dict(flags=["-march=nehalem"], cost=2),
    "avx": dict(flags=["-march=sandybridge"], cost=3),
    "avx2": dict(flags=["-march=haswell"], cost=4),
    # thorough only
    "avx_fma": dict(flags=["-march=sandybridge", "-mfma"], cost=3),
    "avx2_o2": dict(flags=["-march=haswell", "-DNDEBUG"], opt="-O2", cost=6),
    "sse2_o2": dict(flags=["-msse2", "-DNDEBUG"], opt="-O2", cost=4),
    "clang_sse2": dict(cxx="clang++", flags=["-msse2"], cost=3),
    "clang_sse41": dict(cxx="clang++", flags=["-msse4.1"], cost=3),
    "clang_avx": dict(cxx="clang++", flags=["-march=sandybridge"], cost=4),
    "clang_avx2": dict(cxx="clang++", flags=["-march=haswell"], opt="-O2", cost=6),
    "asan_avx2": dict(flags=["-march=haswell", "-fsanitize=address", "-g1"], ldflags=["-fsanitize=address"], cost=8, slow=5),
    "asan_sse41": dict(flags=["-msse4.1", "-fsanitize=address", "-g1"], ldflags=["-fsanitize=address"], cost=6, slow=5),
    "asan_scalar": dict(flags=["-DVc_IMPL=Scalar", "-fsanitize=address", "-g1"], ldflags=["-fsanitize=address"], cost=3, slow=5),
    "bsf_sse2": dict(flags=["-msse2", "-DVc_USE_BSF_GATHERS", "-DVc_USE_BSF_SCATTERS"], cost=2),
    "popcnt_sse42": dict(flags=["-march=nehalem", "-DVc_USE_POPCNT_BSF_GATHERS", "-DVc_USE_POPCNT_BSF_SCATTERS"], cost=2),
    "set_sse2": dict(flags=["-msse2", "-DVc_USE_SET_GATHERS"], cost=2),
    "bsf_avx": dict(flags=["-march=sandybridge", "-DVc_USE_BSF_GATHERS", "-DVc_USE_BSF_SCATTERS"], cost=3),
    "popcnt_avx2": dict(flags=["-march=haswell", "-DVc_USE_POPCNT_BSF_GATHERS", "-DVc_USE_POPCNT_BSF_SCATTERS"], cost=4),
}
QUICK = ["scalar", "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2"]
THOROUGH = QUICK + ["avx_fma", "avx2_o2", "sse2_o2", "clang_sse2", "clang_sse41", "clang_avx", "clang_avx2",
                    "asan_avx2", "asan_sse41", "asan_scalar"]

PROPS = {}


def prop(id, sources, rule, **kw):
    PROPS[id] = dict(sources=sources, rule=rule, **kw)


GEN = ("Each case is a choice sequence drawn from a seeded generator (lane values: small integers, type boundaries, "
       "powers of two +-2, NaN/inf/denormal/signed zero, uniform random bits; sometimes uniform vectors). ")

prop("A01", [dict(src="a01.cpp", cases=20000)],
     GEN + "Non-trivial: the operand lanes are not all equal (so a lane mix-up is visible); distinct by hash of the choice sequence.")
prop("A02", [dict(src="a02.cpp", cases=20000)],
     GEN + "Divisors are never 0 and the pair min/-1 is excluded for integers (undefined in C++); half of the integer dividends are b*q+{-1,0,1}. "
     "Non-trivial: the expected quotients differ between lanes.")
prop("A03", [dict(src="a03.cpp", cases=20000)],
     GEN + "Second operands are often equal to, one step from or the negative of the first. Non-trivial: some but not all lanes compare equal "
     "(classification: some lane is NaN or infinite).")
prop("A04", [dict(src="a04.cpp", cases=20000)],
     GEN + "Shift counts cover 0..bits-1. Non-trivial: lanes (or counts) differ, count not 0.")
prop("A05", [dict(src="a05.cpp", cases=10000)],
     GEN + "Every (vector type, operand type) pair of the documented conversion table. Non-trivial: the scalar operand is not 0 / lanes differ.")
prop("M01", [dict(src="m01.cpp", cases=20000)],
     GEN + "Masks: random bits, all-true, all-false, one lane different. Memory is placed against guard pages. Non-trivial: the mask has both true and false lanes.")
prop("M02", [dict(src="m02.cpp", cases=15000)],
     GEN + "Divisors are non-zero in all lanes. Non-trivial: the mask has both true and false lanes.")
prop("S01", [dict(src="s01.cpp", cases=12000)],
     GEN + "Memory lies at the very end or start of guarded pages or at random offsets; every load/store flag. "
     "Non-trivial: loaded lanes differ / vector lanes differ and the mask is mixed / more than two operations in the history.")
GATHER_CFG = QUICK + ["bsf_sse2", "popcnt_sse42", "set_sse2", "bsf_avx"]
prop("S02", [dict(src="s02.cpp", cases=6000, configs=GATHER_CFG, thorough_configs=THOROUGH + ["bsf_sse2", "popcnt_sse42", "set_sse2", "bsf_avx", "popcnt_avx2"])],
     GEN + "Source memory of nine element types against guard pages, base pointer possibly outside of it, index containers of six types, "
     "wild (unmapped) indexes in unselected lanes. Non-trivial: gathered lanes differ / the mask is mixed.")
SCATTER_CFG = QUICK + ["bsf_sse2", "popcnt_sse42", "bsf_avx"]
prop("S03", [dict(src="s03.cpp", cases=2500, configs=SCATTER_CFG, thorough_configs=THOROUGH + ["bsf_sse2", "popcnt_sse42", "bsf_avx", "popcnt_avx2"])],
     GEN + "Destination memory of nine element types inside guarded pages whose every byte is compared afterwards; wild indexes in unselected lanes; "
     "one case in four has duplicate indexes (then any addressing lane's value is accepted). Non-trivial: lanes differ and the mask is mixed.")
prop("S04", [dict(src="s04.cpp", cases=2500)],
     GEN + "Containers of scalars, structs with mixed padding, nested structs and nested arrays; half of the cases masked with far out-of-range "
     "indexes in unselected lanes; the whole container is compared bytewise with scalar subscripting. Non-trivial: unmasked or a mixed mask.")
prop("R01", [dict(src="r01.cpp", cases=8000)],
     GEN + "Integers are arbitrary (results modulo 2^bits); floating-point sums and products use values whose partial results are exact in any "
     "association, plus general values against the reassociation error bound; min/max any non-NaN value. Non-trivial: lanes differ and the mask is mixed.")
prop("R02", [dict(src="r02.cpp", cases=20000)],
     GEN + "Every shift amount in [-Size, Size], rotations in [-4 Size, 4 Size]. Non-trivial: lanes differ.")
prop("R03", [dict(src="r03.cpp", cases=20000)],
     GEN + "Also permutations of 0..N-1, 0/1 patterns (sorting-network zero-one principle) and few distinct values; NaN excluded. Non-trivial: input not already sorted.", lib=["sort"])
prop("C01", [dict(src="c01.cpp", cases=4000), dict(src="c01x.cpp", cases=3000, configs=QUICK[1:], thorough_configs=[c for c in THOROUGH if "scalar" not in c])],
     GEN + "Every ordered pair of vector types (all ABIs of the build), 1..ceil(To/From) source vectors, every offset; values include the limits of the destination type "
     "and fractions, values whose conversion C++ leaves undefined or implementation-defined are excluded by construction. Non-trivial: lanes differ.")

SA_CFG0 = ["scalar", "sse2", "ssse3", "sse41", "avx", "avx2"]
SA_CFG1 = ["sse2", "sse42", "avx", "avx2"]


def sa_sources(src, parts, cases, macro, cfgs=(SA_CFG0, SA_CFG1)):
    """two size lists (see salists.h) x parts of the harness"""
    return [dict(src="%s:%s=%d:SA_PART=%d" % (src, macro, p, a), cases=cases, configs=cfgs[a],
                 thorough_configs=[c for c in THOROUGH if c not in ("sse3", "avx_fma")]) for p in range(parts) for a in (0, 1)]


prop("D01", sa_sources("d01.cpp", 4, 4000, "D01_PART"),
     GEN + "SimdArray<T, N> and fixed_size_simd<T, N> for 50 (T, N) pairs with N in 1..33, one to six per element type and list, "
     "covering atomic, even, uneven and mixed-ABI splits. Non-trivial: as for the same sub-properties of A01-A04, M01 and M02 (lanes differ / mixed mask).",
     thorough_mult=5)
prop("D02", sa_sources("d02.cpp", 7, 4000, "D02_PART", (["scalar", "sse2", "avx", "avx2"], ["sse41", "avx2"])),
     GEN + "The (T, N) pairs of D01; memory against guard pages, index containers and wild unselected indexes as in S01-S03, casts between about a hundred "
     "(To, From) pairs of SimdArrays and native vectors with up to ceil(To/From) sources. Non-trivial: as for the same sub-properties of S01-S03, R01-R03, C01.",
     lib=["sort"], thorough_mult=5)

prop("F01", [dict(src="f01.cpp", cases=20000)],
     GEN + "Rounding inputs favour k/2 and its neighbours, 2^(mantissa +- 3), 2^31 and tiny values; fma inputs favour cancellation; frexp/ldexp exponents cover the normal range. "
     "Non-trivial: lanes differ (rounding: at least one lane is no integer).")
prop("F02", [dict(src="f02.cpp", cases=60000)],
     GEN + "Inputs: random exponents and mantissas, close to 1, close to powers of two and sqrt(2) multiples, denormals, zeros, negatives, infinities, NaN; "
     "exp: uniform over the range plus multiples of ln2/2 and the overflow/underflow limits. Reference: long double/binary128 functions. Non-trivial: lanes differ.")
prop("F03", [dict(src="f03.cpp", cases=60000)],
     GEN + "Angles: uniform in several ranges, next to multiples of pi/4, tiny, large; asin near 0, 0.5, 1; atan/atan2 over all exponents, quadrants and special pairs. "
     "Non-trivial: lanes differ.", lib=["trig"])
prop("F04", [dict(src="f04.cpp", cases=60000)],
     GEN + "All exponents whose result is normal, random mantissas and values next to powers of two. Non-trivial: lanes differ.")

IL_CFG = ["scalar", "sse2", "sse41", "avx", "avx2"]
prop("I01", [dict(src="i01.cpp:I01_PART=%d" % p, cases=10000, configs=IL_CFG) for p in (0, 1)],
     GEN + "Structs of 2-8 and 11 members, 2..all of them accessed, up to 16384 structs of random bits between guard pages, indexes anywhere or at the very end, "
     "duplicates in one of three reads; after a write all 64 KiB are compared. Non-trivial: indexes differ.", lib=["sort"])
prop("I02", [dict(src="i02.cpp", cases=20000)],
     GEN + "Memory ends at a guard page for the unaligned loads; all ten documented (vector, memory) type pairs per ABI, four rows of four (or two) values for "
     "transpose, also in place. Non-trivial: the values differ.")

CFG5 = ["scalar", "sse2", "sse41", "avx", "avx2"]
prop("K01", [dict(src="k01.cpp", cases=8000, configs=CFG5)],
     GEN + "Histories of up to a few dozen operations (scalar and vector writes, copies, moves, swaps, arithmetic with scalars and other Memory objects, "
     "iteration, gathers) on fixed, runtime-sized and two-dimensional Memory of every element type against a plain array with canary memory around it. "
     "Non-trivial: the entries differ and the size is not a multiple of the vector width.")
prop("K02", [dict(src="k02.cpp", cases=10000)],
     GEN + "Allocation sizes from 0 to the largest representable, alignments and paddings; malloc/posix_memalign/operator new are recorded. "
     "Non-trivial: a request that needs padding or alignment.")
prop("K03", [dict(src="k03.cpp", cases=10000, configs=CFG5)],
     GEN + "Random contents and lengths of Vc::array, span and makeContainer against std containers. Non-trivial: the elements differ.")
prop("L01", [dict(src="l01.cpp:L01_PART=0", cases=8000)] + sa_sources("l01.cpp", 3, 3000, "L01_PART")[2:],
     GEN + "Up to 8 lane assignments, compound assignments, increments and swaps through references and iterators on two vectors (masks) compared with two arrays "
     "after every step, then iteration in both directions. Non-trivial: lanes differ.")
prop("L02", [dict(src="l02.cpp:L02_PART=0", cases=8000)] + sa_sources("l02.cpp", 2, 4000, "L02_PART")[2:],
     GEN + "The function records its arguments and returns a value that depends on the argument and the number of calls so far. "
     "Non-trivial: lanes differ and the mask has both true and false lanes.")
prop("Z01", [dict(src="z01.cpp:Z01_PART=%d" % k, cases=20000, configs=CFG5) for k in range(3)],
     GEN + "Shapes: structs, std::pair/tuple/array with one to nine members of equal and different type, default and requested widths. Up to 8 operations "
     "(assign, extract, decorate()[i], swaps, copy, broadcast, generator, where(mask), shifted, interleaved store and load next to guard pages) on two simdized "
     "objects compared with arrays of scalar objects after each step. Non-trivial: not all objects are equal.")
prop("Z02", [dict(src="z02.cpp:Z02_PART=%d" % k, cases=15000, configs=CFG5) for k in range(2)],
     GEN + "Ranges of every length from 0 to four vectors and a tail, ending at a guard page or starting at any offset, plain and structured values, mutating and "
     "non-mutating functors; iterator histories of up to 14 moves, reads and writes over vector, list, deque, forward_list and reversed containers with a model array. "
     "Non-trivial: at least one element and the length is not just one vector / more than one chunk.")
prop("P01", [dict(src="p01.cpp", cases=4000)],
     "Each case is a generated CPU (vendor, maximum leaves, family/model, random feature words closed under the implications of real CPUs, cache descriptors "
     "of leaf 2, cache records of leaf 4 or AMD cache leaves, XCR0), emulated for the library code in a forked process, and random arguments of the compile-time descriptor. "
     "Non-trivial: feature words differ / first and second level data cache present / SSSE3 without AVX2 / arguments differ.",
     emulate_cpuid=True)
prop("P02", [dict(src="p02.cpp", cases=3000)],
     GEN + "Vectors, masks, SimdArrays and Memory printed with random formatting flags and precision; every member of numeric_limits; histories of 300 Random() calls of "
     "one type interleaved with calls of other types. Non-trivial: lanes differ / mixed mask / Memory with padding / every Random history.")
X01_PLUGINS = ["x01prog.cpp:X01_N=%d" % n for n in (4, 7, 8, 16)]
prop("X01", [dict(src="x01.cpp", cases=40000, configs=["scalar"], thorough_configs=["scalar"], plugins=X01_PLUGINS, plugin_configs=QUICK,
                  thorough_plugin_configs=QUICK + ["avx_fma", "avx2_o2", "sse2_o2", "clang_sse2", "clang_sse41", "clang_avx", "clang_avx2"])],
     "Each case is a program of up to 40 instructions (70 kinds: arithmetic, bit operations, shifts, comparisons, mask logic and reductions, masked assignment, conversions, "
     "permutations, sorting, loads, stores, gathers, scatters, exact math functions) over three registers, two masks and 64 memory words of each of six types, with N = 4, 7, 8, 16; the "
     "traces of all implementations are compared byte by byte. Non-trivial: more than three instructions.",
     lib=["sort"], seeds=8, thorough_seeds=16)
prop("D03", sa_sources("d03.cpp", 3, 15000, "D03_PART", (["scalar", "sse2", "avx", "avx2"], ["sse41", "avx2"])),
     GEN + "The floating-point (T, N) pairs of D01 (min, max and abs: all pairs) with the inputs and references of F01-F04. Non-trivial: as for the same sub-properties of F01-F04.",
     lib=["trig"], thorough_mult=5)

# The operations of SimdArray are separate code (one overload per operation and kind of split), so every vector
# property also visits a short list of SimdArray types; D01-D03 decide the long lists.
for _id, _src, _only in [
        ("A01", "d01.cpp:D01_PART=0", "arith::"), ("A02", "d01.cpp:D01_PART=0", "div_::"), ("A03", "d01.cpp:D01_PART=1", "cmp::"),
        ("A04", "d01.cpp:D01_PART=1", "bit::"), ("M01", "d01.cpp:D01_PART=2", "mask::"), ("M02", "d01.cpp:D01_PART=3", "masked::"),
        ("S01", "d02.cpp:D02_PART=0", ""), ("S02", "d02.cpp:D02_PART=1", ""), ("S03", "d02.cpp:D02_PART=2", ""),
        ("R01", "d02.cpp:D02_PART=3", ""), ("R03", "d02.cpp:D02_PART=6", ""), ("R02", "d02.cpp:D02_PART=4", ""),
        ("C01", "d02.cpp:D02_PART=5", ""), ("F01", "d03.cpp:D03_PART=0", ""), ("F02", "d03.cpp:D03_PART=1", "f02::"),
        ("F03", "d03.cpp:D03_PART=2", ""), ("F04", "d03.cpp:D03_PART=1", "f04::")]:
    _base = PROPS[_id]["sources"][0]["cases"]
    PROPS[_id]["sources"].append(dict(src=_src + ":SA_PART=2", only=_only, cases=min(_base, 6000), configs=["sse2", "avx2"],
                                      thorough_configs=["scalar", "sse2", "sse41", "avx", "avx2", "clang_avx2"]))
    PROPS[_id]["rule"] += " The same for SimdArray<T, N> with (double, 5), (float, 7), (int, 12), (unsigned, 6), (short, 19), (unsigned short, 16)."
