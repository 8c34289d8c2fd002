import os
H = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "head.h")).read()
BUGS = [
dict(id="b60_uint_float_round", property="C01", flags="-O1 -msse2",
 needs="conversion of an unsigned value above 2^31 to float where rounding the low 31 bits first moves the result across a tie",
 breaks="the value is rounded twice: the result is one ulp off",
 edits=[("Vc/sse/casts.h", """        _mm_add_ps(_mm_cvtepi32_ps(_mm_and_si128(v, _mm_set1_epi32(0x7ffffe00))),
                      _mm_add_ps(_mm_set1_ps(1u << 31), _mm_cvtepi32_ps(_mm_and_si128(
                                                          v, _mm_set1_epi32(0x000001ff))))),""",
"""        _mm_add_ps(_mm_cvtepi32_ps(_mm_and_si128(v, _mm_set1_epi32(0x7fffffff))),
                   _mm_set1_ps(1u << 31)),""")],
 demo=H + r'''
int main() {
  using U = Vector<unsigned, VectorAbi::Sse>; using F = Vector<float, VectorAbi::Sse>;
  unsigned s = 1;
  for (int k = 0; k < 2000000 && !bad; ++k) { s = s * 1664525u + 1013904223u; F f = simd_cast<F>(U(s)); CHECK(f[1] == float(s)); }
  return bad;
}'''),
dict(id="b61_sum_short_sat", property="R01", flags="-O1 -msse2",
 needs="the sum of a ushort vector whose total exceeds the range and whose even and odd entries do not wrap on their own",
 breaks="the last step of the horizontal sum saturates instead of wrapping around",
 edits=[("Vc/sse/vectorhelper.h", """            static Vc_ALWAYS_INLINE Vc_CONST EntryType add(VectorType a) {
                // reminder: _MM_SHUFFLE(3, 2, 1, 0) means "no change"
                a = add(a, _mm_shuffle_epi32(a, _MM_SHUFFLE(1, 0, 3, 2)));
                a = add(a, _mm_shufflelo_epi16(a, _MM_SHUFFLE(1, 0, 3, 2)));
                a = add(a, _mm_shufflelo_epi16(a, _MM_SHUFFLE(1, 1, 1, 1)));""", """            static Vc_ALWAYS_INLINE Vc_CONST EntryType add(VectorType a) {
                // reminder: _MM_SHUFFLE(3, 2, 1, 0) means "no change"
                a = add(a, _mm_shuffle_epi32(a, _MM_SHUFFLE(1, 0, 3, 2)));
                a = add(a, _mm_shufflelo_epi16(a, _MM_SHUFFLE(1, 0, 3, 2)));
                a = _mm_adds_epu16(a, _mm_shufflelo_epi16(a, _MM_SHUFFLE(1, 1, 1, 1)));""")],
 demo=H + r'''
int main() {
  using U = Vector<unsigned short, VectorAbi::Sse>; unsigned s = 1;
  for (int k = 0; k < 10000; ++k) { unsigned t = 0; U u([&](int) { s = s * 1664525u + 1013904223u; t += s >> 16; return (unsigned short)(s >> 16); }); CHECK(u.sum() == static_cast<unsigned short>(t)); if (bad) return 1; }
  return bad;
}'''),
dict(id="b62_for_each_n_tail", property="Z02", flags="-O1 -mavx2",
 needs="simd_for_each_n with a functor that does not modify its argument and a count that is at least one vector and leaves exactly one entry",
 breaks="the remaining entry is visited with an overlapping vector, so that the entries before it are visited twice",
 edits=[("Vc/common/algorithms.h", """    for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
        V tmp;
        load_interleaved(tmp, std::addressof(*first));
        f(tmp);
    }
    for (; len != 0; --len, ++first) {
        V1 tmp;
        load_interleaved(tmp, std::addressof(*first));
        f(tmp);
    }
    return f;
}

template <typename InputIt, typename UnaryFunction,
          class ValueType = typename std::iterator_traits<InputIt>::value_type>
inline enable_if<
    !Traits::is_functor_argument_immutable<UnaryFunction, simdize<ValueType>>::value,
    UnaryFunction>
simd_for_each_n(""", """    for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
        V tmp;
        load_interleaved(tmp, std::addressof(*first));
        f(tmp);
    }
    if (len == 1 && count > std::size_t(V::Size)) {
        V tmp;
        load_interleaved(tmp, std::addressof(*(first - (V::Size - 1))));
        f(tmp);
        return f;
    }
    for (; len != 0; --len, ++first) {
        V1 tmp;
        load_interleaved(tmp, std::addressof(*first));
        f(tmp);
    }
    return f;
}

template <typename InputIt, typename UnaryFunction,
          class ValueType = typename std::iterator_traits<InputIt>::value_type>
inline enable_if<
    !Traits::is_functor_argument_immutable<UnaryFunction, simdize<ValueType>>::value,
    UnaryFunction>
simd_for_each_n(""")],
 demo=H + r'''
#include <vector>
struct Sum { double *s; template <class V> void operator()(const V &v) const { for (size_t i = 0; i < v.size(); ++i) *s += double(v[i]); } };
int main() {
  for (size_t n = 0; n < 100; ++n) { std::vector<float> d(n); for (size_t i = 0; i < n; ++i) d[i] = i + 1; double s = 0; simd_for_each_n(d.begin(), n, Sum{&s}); CHECK(s == double(n) * (n + 1) / 2); if (bad) return 1; }
  return bad;
}'''),
dict(id="b64_short_index_scale", property="S04", flags="-O2 -DNDEBUG -mavx2",
 needs="reading a struct member through a short index vector from a container so large that index * sizeof(struct) / sizeof(member) does not fit into a short",
 breaks="the scaled index is computed with 16 bits",
 edits=[("Vc/common/detail.h", """                        sizeof(typename IV::EntryType) < sizeof(int)),
                       fixed_size_simd<int, IV::Size>>
convertIndexVector(const IV &indexVector)
{
    return static_cast<fixed_size_simd<int, IV::Size>>(indexVector);""", """                        sizeof(typename IV::EntryType) < sizeof(int)),
                       fixed_size_simd<typename IV::EntryType, IV::Size>>
convertIndexVector(const IV &indexVector)
{
    return static_cast<fixed_size_simd<typename IV::EntryType, IV::Size>>(indexVector);""")],
 demo=H + r'''
struct S { float a[9]; float x; };
int main() {
  Vc::vector<S> c(20000); for (size_t i = 0; i < c.size(); ++i) c[i].x = i;
  using I = SimdArray<short, 8>; using F = SimdArray<float, 8>;
  for (int b = 0; b < 19000; b += 501) { I ix([&](int i) { return short(b + 100 * i); }); F f = c[ix][&S::x]; for (int i = 0; i < 8; ++i) CHECK(f[i] == b + 100 * i); if (bad) return 1; }
  return bad;
}'''),
]
