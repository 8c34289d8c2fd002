H = r'''
#include <Vc/Vc>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
using namespace Vc;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
'''
BUGS = [
dict(id="b02_mask_shift_m24", property="M01", flags="-O1 -march=haswell",
 needs="AVX mask shifted by minus three quarters of the register (double_m by -3, float_m by -6, short_m by -12)",
 breaks="the mask is shifted by one byte too little, so the lane at the border reads as a neighbour's value or garbage",
 edits=[("Vc/avx/mask.tcc", "case -24: return Detail::shifted<-24>(dataI());", "case -24: return Detail::shifted<-20>(dataI());")],
 demo=H + r'''
int main() {
  for (int k = -8; k <= 8; ++k) {
    float_m m; for (size_t i = 0; i < 8; ++i) m[i] = i % 3 == 0;
    volatile int kk = k;
    const float_m r = m.shifted(kk);
    for (int i = 0; i < 8; ++i) { const bool w = i + k >= 0 && i + k < 8 && (i + k) % 3 == 0; CHECK(r[i] == w); }
  }
  return bad;
}'''),
dict(id="b03_shift_const3", property="R02", flags="-O2 -march=haswell",
 needs="shifted(3, shiftIn) with the amount known at compile time on an AVX2 vector of at least 8 lanes",
 breaks="the lanes are taken one element too early",
 edits=[("Vc/avx/vector.tcc", """                    _mm256_alignr_epi8(_mm256_permute2x128_si256(a, b, 0x21), a,
                                       3 * sizeof(EntryType))""", """                    _mm256_alignr_epi8(_mm256_permute2x128_si256(a, b, 0x21), a,
                                       2 * sizeof(EntryType))""")],
 demo=H + r'''
int main() {
  float_v a = float_v::IndexesFromZero(), b = a + 100.f;
  const float_v r = a.shifted(3, b);
  for (size_t i = 0; i < 8; ++i) CHECK(r[i] == (i + 3 < 8 ? i + 3 : 100 + i + 3 - 8));
  const short_v s = short_v::IndexesFromZero(), q = s.shifted(3, s + short(100));
  for (size_t i = 0; i < short_v::Size; ++i) CHECK(q[i] == short(i + 3 < short_v::Size ? i + 3 : 100 + i + 3 - short_v::Size));
  return bad;
}'''),
dict(id="b04_masked_max_neutral", property="R01", flags="-O1 -msse4.1",
 needs="SSE int_v::max(mask) whose selected lanes are all negative and whose mask is mixed",
 breaks="masked maximum of negative numbers is 0 or the wrong lane",
 edits=[],
 demo=H + "int main(){return 0;}"),
dict(id="b05_scatter_last_dup", property="S03", flags="-O1 -mavx",
 needs="masked scatter whose mask selects exactly the last lane only",
 breaks="the single selected element is not written",
 edits=[("Vc/common/scatterimplementation.h", """                                    typename V::MaskArgument mask)
{
    if (Vc_IS_UNLIKELY(mask.isEmpty())) {
        return;
    }
    Common::unrolled_loop<std::size_t, 0, V::Size>([&](std::size_t i) {
        if (mask[i])""", """                                    typename V::MaskArgument mask)
{
    const std::size_t first = mask.toInt() == 0 ? V::Size : std::size_t(mask.firstOne());
    if (Vc_IS_UNLIKELY(first + 1 >= V::Size)) {
        return;
    }
    Common::unrolled_loop<std::size_t, 0, V::Size>([&](std::size_t i) {
        if (i >= first && mask[i])""")],
 demo=H + r'''
int main() {
  float mem[64];
  for (int k = 0; k < (1 << float_v::Size); ++k) {
    float_m m; for (size_t i = 0; i < float_v::Size; ++i) m[i] = (k >> i) & 1;
    for (int i = 0; i < 64; ++i) mem[i] = -1;
    float_v x = float_v::IndexesFromZero(); int idx[float_v::Size]; for (size_t i = 0; i < float_v::Size; ++i) idx[i] = 3 * i + 1;
    x.scatter(mem, idx, m);
    for (size_t i = 0; i < float_v::Size; ++i) CHECK(mem[3 * i + 1] == (m[i] ? float(i) : -1.f));
  }
  return bad;
}'''),
]
BUGS = [b for b in BUGS if b["edits"]]
