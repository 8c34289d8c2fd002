import os
H = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "head.h")).read()
BUGS = [
dict(id="b22_promotion_sign", property="A05", flags="-O1 -msse2", lib=True,
 needs="an operator between an unsigned vector and a signed operand of the same size other than int (ushort_v and short)",
 breaks="the result is signed: right shifts of and comparisons with large values go wrong",
 edits=[("Vc/common/operators.h", """        typename std::conditional<(std::is_unsigned<TT>::value ||
                                   std::is_unsigned<UU>::value),""", """        typename std::conditional<(std::is_unsigned<UU>::value ||
                                   (std::is_unsigned<TT>::value && sizeof(TT) > 2)),""")],
 demo=H + r'''
int main() {
  auto x = ushort_v(65000) + short(1);
  CHECK((std::is_same<decltype(x), ushort_v>::value)); CHECK(x[0] == 65001); CHECK(int((x / short(2))[0]) == 32500);
  auto y = short(3) * ushort_v(20000); CHECK(int(y[0]) == 60000);
  auto z = short_v(3) * ushort(20000); CHECK(int(z[0]) == 60000);
  CHECK(all_of(ushort_v(40000) > short(5)));
  return bad;
}'''),
dict(id="b23_trunc_large", property="F01", flags="-O1 -msse2",
 needs="trunc, floor or ceil of a float with magnitude of at least 2^31 in a build without SSE4.1",
 breaks="the value goes through an int conversion that is out of range: the result is -2^31",
 edits=[("Vc/sse/math.h", "        _mm_set1_epi32(0x4b000000)));", "        _mm_set1_epi32(0x4f800000)));")],
 demo=H + r'''
int main() {
  using V = Vector<float, VectorAbi::Sse>;
  for (float x : {1.5f, -2.5f, 8388609.f, 2147483520.f, 3e9f, -4e9f}) { CHECK(Vc::trunc(V(x))[1] == (float)__builtin_truncf(x)); CHECK(Vc::floor(V(x))[2] == __builtin_floorf(x)); }
  return bad;
}'''),
dict(id="b24_mask_mix", property="M01", flags="-O1 -msse2",
 needs="isMix (or some_of) of a 16-bit mask without SSE4.1 in which exactly the odd or exactly the even lanes are set",
 breaks="isMix looks at 32-bit groups: alternating patterns are reported wrongly",
 edits=[("Vc/sse/mask.h", """            const int tmp = _mm_movemask_epi8(dataI());
            return tmp != 0 && (tmp ^ 0xffff) != 0;""", """            const int tmp = _mm_movemask_ps(dataF());
            return tmp != 0 && (tmp ^ 0xf) != 0;""")],
 demo=H + r'''
int main() {
  using M = Mask<short, VectorAbi::Sse>;
  for (int p = 0; p < 256; ++p) { M m(false); for (int i = 0; i < 8; ++i) m[i] = p >> i & 1; CHECK(m.isMix() == (p != 0 && p != 255)); if (bad) return 1; }
  return bad;
}'''),
dict(id="b25_sa_firstone", property="M01", flags="-O1 -mavx2",
 needs="firstOne() of a SimdMaskArray whose halves have different sizes, with the first set lane in the second half",
 breaks="the offset of the second half is the size of the second half",
 edits=[("Vc/common/simdmaskarray.h", "return data1.firstOne() + storage_type0::size();", "return data1.firstOne() + storage_type1::size();")],
 demo=H + r'''
int main() {
  using M = SimdMaskArray<float, 11>;
  for (int k = 0; k < 11; ++k) { M m(false); m[k] = true; if (k < 10) m[10] = true; CHECK(m.firstOne() == k); }
  return bad;
}'''),
dict(id="b26_load_uint_float", property="S01", flags="-O1 -msse2",
 needs="loading a float vector from uint memory with values of at least 2^31",
 breaks="the values are converted as signed integers",
 edits=[("Vc/sse/detail.h", "    return SSE::convert<uint, float>(load<__m128i, uint>(mem, f));", "    return SSE::convert<int, float>(load<__m128i, uint>(mem, f));")],
 demo=H + r'''
int main() {
  alignas(16) unsigned m[4] = {1, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  Vector<float, VectorAbi::Sse> v(m, Vc::Aligned);
  for (int i = 0; i < 4; ++i) CHECK(v[i] == float(m[i]));
  return bad;
}'''),
dict(id="b29_sa_shift_in", property="R02", flags="-O1 -mavx2",
 needs="shifted(amount, shiftIn) with a negative amount beyond the array's own length on an array that cannot be split into equal halves",
 breaks="the lanes coming from the far end of shiftIn are zero or the lane one too far",
 edits=[("Vc/common/simdarray.h", """                } else if (i >= -SSize) {
                    return shiftIn[i + SSize];""", """                } else if (i > -SSize) {
                    return shiftIn[i + SSize];""")],
 demo=H + r'''
int main() {
  using V = SimdArray<int, 11>;
  V a([](int i) { return i + 1; }), b([](int i) { return i + 101; });
  for (int s = -22; s <= 22; ++s) {
    V r = a.shifted(s, b);
    for (int i = 0; i < 11; ++i) { int k = i + s; int w = k >= 0 && k < 11 ? k + 1 : k < 0 && k >= -11 ? k + 11 + 101 : k >= 11 && k < 22 ? k - 11 + 101 : 0; CHECK(r[i] == w); }
  }
  return bad;
}'''),
dict(id="b30_mem_assign_pad", property="K01", flags="-O1 -msse2",
 needs="a two-dimensional Memory whose row length is one more than a multiple of the vector width",
 breaks="the rows are one vector too short: the last entry of a row aliases the next row or lies behind the memory",
 edits=[("Vc/common/memory.h", """        Alignment = V::MemoryAlignment,
        PaddedSize2 = _MemorySizeCalculation<V, Size2>::PaddedSize
""", """        Alignment = V::MemoryAlignment,
        PaddedSize2 = _MemorySizeCalculation<V, Size2 - (Size2 % V::Size == 1)>::PaddedSize
""")],
 demo=H + r'''
#include <Vc/Memory>
int main() {
  using V = Vector<float, VectorAbi::Sse>;
  Memory<V, 3, 9> m;
  CHECK(m.vectorsCount() == 9);
  for (int r = 0; r < 3; ++r) for (int c = 0; c < 9; ++c) m[r][c] = r * 100 + c;
  Memory<V, 3, 9> n; n = m;
  for (int r = 0; r < 3; ++r) for (int c = 0; c < 9; ++c) CHECK(n[r][c] == r * 100 + c);
  return bad;
}'''),
dict(id="b33_postdec_elem", property="L01", flags="-O1 -mavx2",
 needs="swapping, through their references, lanes of two different vectors that have the same index",
 breaks="the second lane keeps its value",
 edits=[("Vc/common/elementreference.h", """        value_type tmp(a);
        static_cast<ElementReference &&>(a) = static_cast<value_type>(b);
        static_cast<ElementReference &&>(b) = tmp;
    }

    friend void swap(value_type &a""", """        value_type tmp(a);
        static_cast<ElementReference &&>(a) = static_cast<value_type>(b);
        if (a.index != b.index)
            static_cast<ElementReference &&>(b) = tmp;
    }

    friend void swap(value_type &a""")],
 demo=H + r'''
int main() {
  float_v a(1.f), b(2.f);
  for (size_t i = 0; i < float_v::size(); ++i) for (size_t j = 0; j < float_v::size(); ++j) {
    a = float_v([](int k) { return k; }); b = a + 100; swap(a[i], b[j]);
    CHECK(a[i] == j + 100); CHECK(b[j] == i);
  }
  return bad;
}'''),
]
