import os, sys
H = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "head.h")).read()
CPUID = H + r'''
#include <Vc/cpuid.h>
#include <cstdint>
// stands in for the cpuid instruction (see demo.sh): eax, ecx -> eax, ebx, ecx, edx
extern "C" void demoLeaf(uint32_t *r);
asm(R"asmcode(
.text
.globl demo_cpuid
demo_cpuid:
  push %rbp
  mov %rsp, %rbp
  push %rsi
  push %rdi
  push %r8
  push %r9
  push %r10
  push %r11
  sub $32, %rsp
  and $-16, %rsp
  mov %eax, (%rsp)
  mov %ecx, 8(%rsp)
  mov %rsp, %rdi
  call demoLeaf
  mov (%rsp), %eax
  mov 4(%rsp), %ebx
  mov 8(%rsp), %ecx
  mov 12(%rsp), %edx
  lea -48(%rbp), %rsp
  pop %r11
  pop %r10
  pop %r9
  pop %r8
  pop %rdi
  pop %rsi
  pop %rbp
  ret
)asmcode");
'''
CPUID_PRE = '''g++ -std=c++14 -O1 -mno-red-zone -w -I. -DVc_COMPILE_LIB -S src/cpuid.cpp -o "$t/cpuid.s"
sed -i 's/^[[:space:]]*cpuid[[:space:]]*$/\\tcall demo_cpuid/' "$t/cpuid.s"
'''
BUGS = [
dict(id="b14_cpu_model", property="P01", flags="-O1 -mno-red-zone \"$t/cpuid.s\"", pre=CPUID_PRE,
 needs="an Intel CPU of family 6 whose extended model is 8 or larger (e.g. Tiger Lake 0x8C, Alder Lake 0x97)",
 breaks="CpuId::processorModel() loses the highest bit of the extended model",
 edits=[("src/cpuid.cpp", """    } else if (s_processorFamily == 0x6) {
        const uchar processorModelExt = (eax & 0x000f0000) >> 12;""", """    } else if (s_processorFamily == 0x6) {
        const uchar processorModelExt = (eax & 0x00070000) >> 12;""")],
 demo=CPUID + r'''
extern "C" void demoLeaf(uint32_t *r) {
  const uint32_t leaf = r[0];
  r[0] = r[1] = r[2] = r[3] = 0;
  if (leaf == 0) { r[0] = 0x16; r[1] = 0x756e6547; r[3] = 0x49656e69; r[2] = 0x6c65746e; }
  if (leaf == 1) { r[0] = 0x000806c1; r[3] = 0x078bfbff; r[2] = 0x00000001; }
  if (leaf == 2) r[0] = 0x01;
  if (leaf == 0x80000000u) r[0] = 0x80000008u;
}
int main() { CpuId::init(); CHECK(CpuId::processorFamily() == 6); CHECK(CpuId::processorModel() == 0x8c); CHECK(CpuId::hasSse2()); return bad; }'''),
dict(id="b15_sin_large", property="F03", flags="-O1 -msse2",
 needs="single-precision sin/cos/sincos where the largest argument of the vector lies between about 26 and 200 and another (or the same) is close to a zero",
 breaks="the argument reduction uses the single-precision variant for at most 5 bit multiples, whose first product is inexact there: most digits of small results are wrong",
 edits=[("src/trigonometric.cpp", "all_of(r.x < 33 * C::_pi_4())", "all_of(r.x < 257 * C::_pi_4())")],
 demo=H + r'''
#include <cmath>
int main() {
  using V = Vector<float, VectorAbi::Sse>;
  for (int k = 3; k < 127; ++k) {
    const float x = k * 1.5707963267948966; const V s = Vc::sin(V(x)), c = Vc::cos(V(x));
    CHECK(std::abs(s[0] - std::sin(double(x))) <= 3e-7); CHECK(std::abs(c[1] - std::cos(double(x))) <= 3e-7);
    if (bad) return 1;
  }
  return bad;
}'''),
dict(id="b16_log_denormal", property="F02", flags="-O1 -msse2",
 needs="log, log2 or log10 of a denormal number of at least half of the smallest normal one",
 breaks="the argument is not scaled before its exponent is extracted: the result is -inf or off by the scaling",
 edits=[("Vc/common/logarithm.h", "const M denormal = x <= C::min();", "const M denormal = x + x <= C::min();")],
 demo=H + r'''
#include <cmath>
int main() {
  using V = Vector<double, VectorAbi::Sse>;
  const double in[] = {1.2e-308, 1.9e-308, 2.2e-308, 1e-310, 1., 1e300};
  for (double x : in) { CHECK(std::abs(Vc::log2(V(x))[0] - std::log2(x)) < 1e-9); CHECK(std::abs(Vc::log(V(x))[1] - std::log(x)) < 1e-9); }
  return bad;
}'''),
dict(id="b17_where_iter", property="L01", flags="-O1 -mavx2",
 needs="iterating where(mask) over a SimdMaskArray of more than 32 lanes in which lane 31 and a later lane are set",
 breaks="the lanes behind lane 31 are not visited",
 edits=[("Vc/common/iterators.h", "            mask &= (mask - 1);", "            mask &= ~(1 << bit);")],
 demo=H + r'''
int main() {
  using M = SimdMaskArray<float, 40>;
  for (unsigned pat = 0; pat < 16; ++pat) {
    M m(false); bool want[40] = {}; const int lanes[] = {3, 30, 31, 35};
    for (int k = 0; k < 4; ++k) if (pat >> k & 1) { m[lanes[k]] = true; want[lanes[k]] = true; }
    bool got[40] = {};
    int n = 0;
    for (size_t i : where(m)) { if (i < 40) got[i] = true; if (++n > 100) break; }
    CHECK(0 == std::memcmp(got, want, sizeof got));
  }
  return bad;
}'''),
dict(id="b18_malloc_pad", property="K02", flags="-O1 -msse2",
 needs="Vc::malloc of a number of bytes that exceeds a multiple of the alignment by less than half of it",
 breaks="the allocation is not padded to a multiple of the alignment (too short by up to half of it)",
 edits=[("Vc/common/malloc.h", "return (value % X) > 0 ? value + X - (value % X) : value;", "return (value % X) > 0 ? value + (X - (value % X)) % (X / 2) : value;")],
 demo=H + r'''
#include <malloc.h>
static size_t last;
extern "C" int posix_memalign(void **p, size_t a, size_t n) { last = n; *p = aligned_alloc(a, (n + a - 1) / a * a); return *p ? 0 : 12; }
int main() {
  for (size_t n = 1; n < 300; ++n) {
    char *p = Vc::malloc<char, Vc::AlignOnCacheline>(n); CHECK(last >= n && last % 64 == 0); Vc::free(p);
    p = Vc::malloc<char, Vc::AlignOnPage>(n * 100); CHECK(last >= n * 100 && last % 4096 == 0); Vc::free(p);
    if (bad) return 1;
  }
  return bad;
}'''),
dict(id="b19_subspan_empty", property="K03", flags="-O1 -msse2",
 needs="subspan(offset, 0) of a dynamic span, i.e. an explicitly empty sub-range",
 breaks="the rest of the span is returned instead of an empty one",
 edits=[("Vc/common/span.h", "        if (_count == dynamic_extent)\n", "        if (_count <= 0)\n")],
 demo=H + r'''
#include <Vc/span>
int main() {
  int d[9];
  Vc::span<int> s(d, 9);
  for (int o = 0; o <= 9; ++o) {
    for (int n = 0; n + o <= 9; ++n) { auto r = s.subspan(o, n); CHECK(r.size() == n); CHECK(r.data() == d + o); }
    CHECK(s.subspan(o).size() == 9 - o);
  }
  return bad;
}'''),
dict(id="b21_interleave16", property="I01", flags="-O1 -msse2",
 needs="InterleavedMemoryWrapper with a vector of indexes on a struct of exactly 16 members",
 breaks="the wrong structs are accessed",
 edits=[("Vc/common/interleavedmemory.h", "StructSize == 16u ? indexes << 4", "StructSize == 16u ? indexes << 3")],
 demo=H + r'''
#include <Vc/Memory>
struct S { float m[16]; };
int main() {
  S s[40]; for (int i = 0; i < 40; ++i) for (int k = 0; k < 16; ++k) s[i].m[k] = i * 16 + k;
  InterleavedMemoryWrapper<S, float_v> w(s);
  float_v::IndexType idx([](int i) { return (i * 7 + 3) % 39; });
  float_v a, b, c;
  tie(a, b, c) = w[idx];
  for (size_t i = 0; i < float_v::Size; ++i) { CHECK(a[i] == s[idx[i]].m[0]); CHECK(b[i] == s[idx[i]].m[1]); CHECK(c[i] == s[idx[i]].m[2]); }
  return bad;
}'''),
]
