import os
H = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "head.h")).read()
BUGS = [
dict(id="b40_shift_uint_run", property="A04", flags="-O1 -mavx",
 needs="right shift of an AVX unsigned int vector by a runtime count of at least 16",
 breaks="the count is reduced modulo 16",
 edits=[("Vc/avx/detail.h", "Vc_INTRINSIC __m256i shiftRight(__m256i a, int shift,   uint) { return AVX::srl_epi32(a, _mm_cvtsi32_si128(shift)); }",
         "Vc_INTRINSIC __m256i shiftRight(__m256i a, int shift,   uint) { return AVX::srl_epi32(a, _mm_cvtsi32_si128(shift & 15)); }")],
 demo=H + r'''
int main() {
  using V = Vector<unsigned, VectorAbi::Avx>;
  volatile int n; unsigned seed = 0x87654321u;
  for (int s = 0; s < 32; ++s) { n = s; V v(0u); for (int i = 0; i < (int)V::size(); ++i) v[i] = seed + i; V r = v >> int(n); V q = v; q >>= int(n);
    for (int i = 0; i < (int)V::size(); ++i) { CHECK(r[i] == (seed + i) >> s); CHECK(q[i] == (seed + i) >> s); } }
  return bad;
}'''),
dict(id="b41_where_predec", property="M02", flags="-O1 -msse2",
 needs="the value returned by conditional_assign<PreDecrement>(x, mask) on SSE",
 breaks="x is decremented, but the expression yields the old values",
 edits=[("Vc/sse/vector.h", "Vc_CONDITIONAL_ASSIGN( PreDecrement, --lhs(mask));", "Vc_CONDITIONAL_ASSIGN( PreDecrement, lhs(mask)--);")],
 demo=H + r'''
int main() {
  using V = Vector<int, VectorAbi::Sse>;
  V v([](int i) { return i * 3; });
  auto m = v > 4;
  V r = conditional_assign<Operator::PreDecrement>(v, m);
  for (int i = 0; i < 4; ++i) { CHECK(v[i] == (3 * i > 4 ? 3 * i - 1 : 3 * i)); CHECK(r[i] == v[i]); }
  return bad;
}'''),
dict(id="b42_mul_madd", property="A01", flags="-O1 -msse2",
 needs="products of int or uint vectors without SSE4.1 where the low half of exactly one factor has its top bit set",
 breaks="the carry of the low halves is computed as signed: bits 16-31 of the product are wrong",
 edits=[("Vc/sse/detail.h", """    const __m128i aShift = _mm_srli_si128(a, 4);
    const __m128i ab02 = _mm_mul_epu32(a, b);  // [a0 * b0, a2 * b2]
    const __m128i bShift = _mm_srli_si128(b, 4);
    const __m128i ab13 = _mm_mul_epu32(aShift, bShift);  // [a1 * b1, a3 * b3]
    return _mm_unpacklo_epi32(_mm_shuffle_epi32(ab02, 8), _mm_shuffle_epi32(ab13, 8));""",
"""    // low * low + ((low * high + high * low) << 16)
    const __m128i bSwapped = _mm_or_si128(_mm_slli_epi32(b, 16), _mm_srli_epi32(b, 16));
    const __m128i cross = _mm_slli_epi32(_mm_madd_epi16(a, bSwapped), 16);
    const __m128i low = _mm_and_si128(_mm_mullo_epi16(a, b), _mm_srli_epi32(allone<__m128i>(), 16));
    const __m128i high = _mm_slli_epi32(_mm_mulhi_epi16(a, b), 16);
    return _mm_add_epi32(_mm_or_si128(low, high), cross);""")],
 demo=H + r'''
int main() {
  using V = Vector<int, VectorAbi::Sse>;
  unsigned s = 1;
  for (int k = 0; k < 10000; ++k) { unsigned a = s = s * 1664525u + 1013904223u, b = s = s * 1664525u + 1013904223u; if (k % 2) b &= 0xffff, a >>= 16;
    V r = V(int(a)) * V(int(b)); CHECK(unsigned(r[2]) == a * b); if (bad) return 1; }
  return bad;
}'''),
dict(id="b43_fma_cross", property="F01", flags="-O1 -msse2",
 needs="fma of float vectors on SSE without FMA, where lanes 2 and 3 of the addend differ from lanes 0 and 1 in magnitude so that the upper half is cancelled in float",
 breaks="the upper two lanes are multiplied and added in single precision",
 edits=[("Vc/sse/vectorhelper.h", "                        _mm_cvtpd_ps(_mm_add_pd(_mm_mul_pd(v1_1, v2_1), v3_1)));",
         "                        _mm_cvtpd_ps(_mm_add_pd(_mm_cvtps_pd(_mm_cvtpd_ps(_mm_mul_pd(v1_1, v2_1))), v3_1)));")],
 demo=H + r'''
#include <cmath>
int main() {
  using V = Vector<float, VectorAbi::Sse>;
  float a = 1.0000001f, b = 3.0000002f, c = -3.0000004f;
  V r = Vc::fma(V(a), V(b), V(c));
  for (int i = 0; i < 4; ++i) CHECK(r[i] == std::fma(a, b, c));
  return bad;
}'''),
dict(id="b44_isfinite_dbl", property="A03", flags="-O1 -msse2",
 needs="isfinite of an SSE double vector with a very large finite value (at least 2^1023)",
 breaks="values whose double overflows are reported as not finite",
 edits=[("Vc/sse/vectorhelper.h", "                return _mm_cmpord_pd(x, _mm_mul_pd(zero(), x));", "                const VectorType y = _mm_add_pd(x, x);\n                return _mm_cmpord_pd(x, _mm_sub_pd(y, y));")],
 demo=H + r'''
int main() {
  using V = Vector<double, VectorAbi::Sse>;
  for (double x : {1., 0., 1e300, 8e307, 1.7e308, -1.7e308, 9e307}) CHECK(Vc::isfinite(V(x)).isFull());
  CHECK(Vc::isfinite(V(__builtin_inf())).isEmpty()); CHECK(Vc::isfinite(V(__builtin_nan(""))).isEmpty());
  return bad;
}'''),
dict(id="b45_sa_ldexp", property="D03", flags="-O1 -mavx2",
 needs="ldexp of a SimdArray with an exponent below -125",
 breaks="the exponent is raised to -125: double results are far too large",
 edits=[("Vc/common/simdarray.h", """    return SimdArray<T, N>::fromOperation(Common::Operations::Forward_ldexp(), x, e);""",
 """    return SimdArray<T, N>::fromOperation(Common::Operations::Forward_ldexp(), x, SimdArray<int, N>(Vc::max(e, SimdArray<int, N>(-125))));""")],
 demo=H + r'''
#include <cmath>
int main() {
  using V = SimdArray<double, 7>; using I = SimdArray<int, 7>;
  for (int k = -200; k < 200; ++k) { V r = Vc::ldexp(V(1.5), I(k)); for (int i = 0; i < 7; ++i) CHECK(r[i] == std::ldexp(1.5, k)); if (bad) return 1; }
  return bad;
}'''),
dict(id="b46_rsqrt_dbl", property="F04", flags="-O1 -msse2",
 needs="rsqrt of an SSE double vector with |x| outside the range of float",
 breaks="the estimate comes from single precision: tiny and huge values give inf or 0 instead",
 edits=[("Vc/sse/vectorhelper.h", "                return _mm_div_pd(one(), sqrt(x));", """                // estimate with 12 bits and two Newton steps
                VectorType y = _mm_cvtps_pd(_mm_rsqrt_ps(_mm_cvtpd_ps(x)));
                const VectorType h = _mm_mul_pd(x, _mm_set1_pd(.5));
                y = _mm_mul_pd(y, _mm_sub_pd(_mm_set1_pd(1.5), _mm_mul_pd(h, _mm_mul_pd(y, y))));
                return _mm_mul_pd(y, _mm_sub_pd(_mm_set1_pd(1.5), _mm_mul_pd(h, _mm_mul_pd(y, y))));""")],
 demo=H + r'''
#include <cmath>
int main() {
  using V = Vector<double, VectorAbi::Sse>;
  for (double x : {1., 2., 1e10, 1e-10, 1e30, 1e60, 1e-60, 1e300, 1e-300}) { double r = Vc::rsqrt(V(x))[1], w = 1 / std::sqrt(x); CHECK(std::fabs(r - w) <= w * 1e-3); }
  return bad;
}'''),
dict(id="b47_sa_transpose", property="I02", flags="-O1 -mavx",
 needs="transposing four SimdArray<double, 4>-like arrays that are made of scalar vectors",
 breaks="two entries of the second half change places",
 edits=[("Vc/common/simdarray.h", """    internal_data0(internal_data1(hi)) = internal_data1(std::get<2>(proxy.in));
    internal_data1(internal_data1(hi)) = internal_data1(std::get<3>(proxy.in));""", """    internal_data0(internal_data1(hi)) = internal_data1(std::get<3>(proxy.in));
    internal_data1(internal_data1(hi)) = internal_data1(std::get<2>(proxy.in));""")],
 demo=H + r'''
template <class V> void go() {
  V a[4], r[4]; for (int i = 0; i < 4; ++i) a[i] = V([&](int j) { return 10 * i + j; });
  Vc::tie(r[0], r[1], r[2], r[3]) = Vc::transpose(a[0], a[1], a[2], a[3]);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CHECK(r[i][j] == 10 * j + i);
}
int main() { go<SimdArray<short, 4>>(); go<SimdArray<float, 4>>(); go<SimdArray<unsigned short, 4>>(); return bad; }'''),
dict(id="b48_apply_mask", property="L02", flags="-O1 -msse2",
 needs="apply(f, mask) of an SSE vector with a function whose result depends on the order or number of calls",
 breaks="the function is called for every lane; the unselected results are thrown away",
 edits=[("Vc/sse/vector.h", """            for (size_t i : where(mask)) {
                r.d.set(i, f(EntryType(r.d.m(i))));
            }
            return r;""", """            for (size_t i = 0; i < Size; ++i) {
                const EntryType x = f(EntryType(r.d.m(i)));
                if (mask[i]) {
                    r.d.set(i, x);
                }
            }
            return r;""")],
 demo=H + r'''
int main() {
  using V = Vector<int, VectorAbi::Sse>;
  V v([](int i) { return i; }); int calls = 0;
  V r = v.apply([&](int x) { ++calls; return x + 10; }, v > 1);
  CHECK(calls == 2); for (int i = 0; i < 4; ++i) CHECK(r[i] == (i > 1 ? i + 10 : i));
  return bad;
}'''),
dict(id="b50_it_pointer", property="Z02", flags="-O1 -mavx2",
 needs="writes through operator-> of a simdized iterator with more than four entries, to the last entry",
 breaks="operator-> stores back one entry too few",
 edits=[("Vc/common/simdize.h", """        for (size_t i = 0; i < Size; ++i, ++begin_iterator) {
            *begin_iterator = extract(data, i);
        }
    }

    /// Construct the Pointer object""", """        for (size_t i = 0; i + (Size > 4) < Size; ++i, ++begin_iterator) {
            *begin_iterator = extract(data, i);
        }
    }

    /// Construct the Pointer object""")],
 demo=H + r'''
#include <vector>
struct P { float x, y; P() = default; };
#include <tuple>
int main() {
  using T = std::tuple<float, float>;
  std::vector<T> v(16); for (int i = 0; i < 16; ++i) v[i] = T(i, -i);
  Vc::simdize<std::vector<T>::iterator> it = v.begin();
  constexpr int N = decltype(it)::Size;
  (void)sizeof(*it.operator->().operator->());
  std::get<0>(*it.operator->().operator->()) += 1;
  for (int i = 0; i < N; ++i) CHECK(std::get<0>(v[i]) == i + 1);
  return bad;
}'''),
dict(id="b51_print_mask", property="P02", flags="-O1 -msse2",
 needs="printing a SimdMaskArray with more than 32 entries",
 breaks="entry 32+i is shown as entry i",
 edits=[("Vc/IO", """        if ( m[i] ) {
          out""", """        if ( m[i % 32] ) {
          out""")],
 demo=H + r'''
#include <sstream>
#include <Vc/IO>
int main() {
  SimdMaskArray<float, 35> m(false); for (int i = 0; i < 35; ++i) m[i] = i < 32;
  std::ostringstream s; s << m; std::string b; for (char c : s.str()) if (c == '0' || c == '1') b += c;
  CHECK(b == std::string(32, '1') + "000");
  return bad;
}'''),
]
