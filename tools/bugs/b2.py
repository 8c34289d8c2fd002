import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
H = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "head.h")).read()
BUGS = [
dict(id="b06_udiv_by_one", property="A02", flags="-O1 -march=haswell",
 needs="AVX2 unsigned int division where a lane divides a value >= 2^31 by exactly 1 (and lanes of larger divisors are not affected)",
 breaks="the quotient is 0x80000000 instead of the dividend; the correction is applied to lanes where both operands are equal",
 edits=[("Vc/avx/detail.h", "avx_cast<__m256>(cmpeq_epi32(b, setone_epi32()))));", "avx_cast<__m256>(cmpeq_epi32(a, setone_epi32()))));")],
 demo=H + r'''
int main() {
  using U = Vector<unsigned, VectorAbi::Avx>;
  U a, b; const unsigned x[] = {5u, 0x80000000u, 0xffffffffu, 0x90000001u, 1u, 100u, 0xfffffffeu, 7u}, y[] = {1u, 1u, 1u, 1u, 1u, 7u, 2u, 9u};
  for (int i = 0; i < 8; ++i) { a[i] = x[i]; b[i] = y[i]; }
  const U q = a / b, r = a % b;
  for (int i = 0; i < 8; ++i) { CHECK(q[i] == x[i] / y[i]); CHECK(r[i] == x[i] % y[i]); }
  return bad;
}'''),
dict(id="b07_sort_ushort_sign", property="R03", flags="-O1 -march=haswell",
 needs="sorting an AVX2 ushort vector in which one comparator of the last merge stage meets values on both sides of 0x8000",
 breaks="sorted() loses one value and duplicates another / is out of order",
 edits=[("src/avx_sorthelper.cpp", """        Mem::permuteHi<X5, X4, X7, X6>(Mem::blend<X0, Y1, X2, Y3, X4, Y5, X6, Y7>(h, l)));
    // Vc_DEBUG << "xy: " << AVX::addType<short>(x) << AVX::addType<short>(y);
    l = _mm_min_epu16(x, y);
    h = _mm_max_epu16(x, y);""", """        Mem::permuteHi<X5, X4, X7, X6>(Mem::blend<X0, Y1, X2, Y3, X4, Y5, X6, Y7>(h, l)));
    // Vc_DEBUG << "xy: " << AVX::addType<short>(x) << AVX::addType<short>(y);
    l = _mm_min_epi16(x, y);
    h = _mm_max_epi16(x, y);""")],
 demo=H + r'''
#include <algorithm>
int main() {
  using V = Vector<unsigned short, VectorAbi::Avx>;
  unsigned s = 1;
  for (int k = 0; k < 2000; ++k) {
    unsigned short a[16];
    for (int i = 0; i < 16; ++i) { s = s * 1664525u + 1013904223u; a[i] = s >> 16; }
    V v(a, Unaligned); const V r = v.sorted();
    std::sort(a, a + 16);
    for (int i = 0; i < 16; ++i) CHECK(r[i] == a[i]);
    if (bad) return 1;
  }
  return bad;
}'''),
dict(id="b08_cmpgt_epu32", property="A03", flags="-O1 -msse2",
 needs="SSE uint comparison > of two values that agree in the upper 16 bits and whose lower halves lie on different sides of 0x8000",
 breaks="the comparison of such a pair is inverted",
 edits=[("Vc/sse/intrinsics.h", """        return _mm_cmpgt_epi32(_mm_xor_si128(a, setmin_epi32()),
                               _mm_xor_si128(b, setmin_epi32()));""", """        return _mm_cmpgt_epi32(_mm_xor_si128(a, setmin_epi16()),
                               _mm_xor_si128(b, setmin_epi16()));""")],
 demo=H + r'''
int main() {
  using V = Vector<unsigned, VectorAbi::Sse>;
  const unsigned x[] = {0x12349000u, 0x12341000u, 0xf000ffffu, 0x00008000u}, y[] = {0x12341000u, 0x12349000u, 0xf0000000u, 0x7fffu};
  V a(x, Unaligned), b(y, Unaligned);
  for (int i = 0; i < 4; ++i) { CHECK((a > b)[i] == (x[i] > y[i])); CHECK((a < b)[i] == (x[i] < y[i])); CHECK((a <= b)[i] == (x[i] <= y[i])); CHECK((a >= b)[i] == (x[i] >= y[i])); }
  return bad;
}'''),
dict(id="b09_sa_sort_inf", property="D02", flags="-O1 -mavx",
 needs="sorted() of a SimdArray of floating-point type with an unevenly split size that holds +infinity",
 breaks="the padding value numeric_limits::max() sorts before infinity and appears in the result",
 edits=[("Vc/common/simdarray.h", """            if (limits::has_infinity) {
                sortable[i] = limits::infinity();
            } else {""", """            if (limits::is_iec559 && sizeof(value_type) > sizeof(double)) {
                sortable[i] = limits::infinity();
            } else {""")],
 demo=H + r'''
int main() {
  SimdArray<float, 5> v; const float inf = std::numeric_limits<float>::infinity();
  v[0] = inf; v[1] = 3; v[2] = inf; v[3] = -1; v[4] = 2;
  const SimdArray<float, 5> r = v.sorted();
  CHECK(r[0] == -1 && r[1] == 2 && r[2] == 3 && r[3] == inf && r[4] == inf);
  return bad;
}'''),
dict(id="b10_uint_to_float", property="C01", flags="-O1 -msse2",
 needs="SSE conversion of a uint lane >= 2^31 whose bit 7 is set and whose bits 0..6 are not all zero to float",
 breaks="double rounding: the result is one ulp too small",
 edits=[("Vc/sse/casts.h", "_mm_set1_epi32(0x7ffffe00)", "_mm_set1_epi32(0x7fffff80)"), ("Vc/sse/casts.h", "v, _mm_set1_epi32(0x000001ff))))),", "v, _mm_set1_epi32(0x0000007f))))),")],
 demo=H + r'''
int main() {
  using U = Vector<unsigned, VectorAbi::Sse>; using F = Vector<float, VectorAbi::Sse>;
  unsigned s = 1;
  for (int k = 0; k < 4000; ++k) {
    unsigned a[4]; for (int i = 0; i < 4; ++i) { s = s * 1664525u + 1013904223u; a[i] = s; }
    const F f = simd_cast<F>(U(a, Unaligned));
    for (int i = 0; i < 4; ++i) { volatile float w = a[i]; CHECK(f[i] == w); }
    if (bad) return 1;
  }
  return bad;
}'''),
dict(id="b12_samask_ne", property="D01", flags="-O1 -msse2",
 needs="operator!= of two SimdMaskArray objects (of a size that spans several registers) that differ in only one of the two parts",
 breaks="a != b is false although a == b is false as well",
 edits=[("Vc/common/simdmaskarray.h", "return data0 != mask.data0 || data1 != mask.data1;", "return data0 != mask.data0 && data1 != mask.data1;")],
 demo=H + r'''
int main() {
  using A = SimdArray<float, 11>; A::Mask a(false), b(false);
  CHECK(!(a != b));
  for (int i = 0; i < 11; ++i) { A::Mask c(false); c[i] = true; CHECK(a != c); CHECK(c != a); }
  return bad;
}'''),
dict(id="b13_load_uchar_overread", property="S01", flags="-O1 -mavx",
 needs="loading an AVX double vector from unsigned short memory that ends less than 16 bytes after the start at an unmapped page",
 breaks="the load reads 16 bytes although only 8 belong to it",
 edits=[("Vc/avx/detail.h", """    return AVX::convert<ushort, double>(
        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));""", """    return AVX::convert<ushort, double>(
        _mm_loadu_si128(reinterpret_cast<const __m128i *>(mem)));""")],
 demo=H + r'''
#include <sys/mman.h>
int main() {
  char *p = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 4096, 4096, PROT_NONE);
  unsigned short *m = (unsigned short *)(p + 4096 - 8);
  for (int i = 0; i < 4; ++i) m[i] = 200 + i;
  using V = Vector<double, VectorAbi::Avx>;
  V v(m, Unaligned);
  for (int i = 0; i < 4; ++i) CHECK(v[i] == 200 + i);
  return bad;
}'''),
]
