// P01: CPU feature detection on generated CPUs.
// check.py compiles /repo/src/cpuid.cpp and support_x86.cpp (and this file) to assembly, replaces
// every cpuid and xgetbv instruction by an illegal instruction and this harness emulates them in
// its SIGILL handler with the registers of a generated CPU.  Every case runs in a forked child
// because CpuId::init() works only once per process.
#ifdef Vc_IMPL
#define P01_EXPLICIT_IMPL 1
#endif
#define Vc_COMPILE_LIB 1  // no initialization of CpuId before main
#include <Vc/global.h>
#include <Vc/cpuid.h>
#include <Vc/support.h>
#undef Vc_COMPILE_LIB
#include "pbt.h"
#include <ucontext.h>
#include <sys/wait.h>
using pbt::Src;
using u32 = uint32_t;
using Vc::CpuId;

struct Regs { u32 a, b, c, d; };
struct Cpu {
    bool amd, intel;
    u32 maxBasic, maxExt;
    Regs l0, l1, l2, l7, other, e1, e5, e6;
    Regs l4[8];
    u32 xcr0;
    Regs cpuid(u32 leaf, u32 sub) const
    {
        if (leaf < 0x80000000u && leaf > maxBasic) return amd ? Regs{0, 0, 0, 0} : cpuid(maxBasic, sub);
        if (leaf >= 0x80000000u && leaf > maxExt && (leaf != 0x80000000u)) return amd ? Regs{0, 0, 0, 0} : cpuid(maxBasic, sub);
        switch (leaf) {
        case 0: return l0;
        case 1: return l1;
        case 2: return l2;
        case 4: return sub < 8 ? l4[sub] : Regs{0, 0, 0, 0};
        case 7: return sub == 0 ? l7 : Regs{0, 0, 0, 0};
        case 0x80000000u: return Regs{maxExt, 0, 0, 0};
        case 0x80000001u: return e1;
        case 0x80000005u: return e5;
        case 0x80000006u: return e6;
        }
        return other;
    }
};
static Cpu g_cpu;
static void onIll(int, siginfo_t *, void *ctx)
{
    auto *u = static_cast<ucontext_t *>(ctx);
    auto &r = u->uc_mcontext.gregs;
    const unsigned char *p = reinterpret_cast<const unsigned char *>(r[REG_RIP]);
    if (p[0] != 0x0f || p[1] != 0x0b) _exit(90);
    if (p[2] == 0x43) {
        const Regs x = g_cpu.cpuid(u32(r[REG_RAX]), u32(r[REG_RCX]));
        r[REG_RAX] = x.a;
        r[REG_RBX] = x.b;
        r[REG_RCX] = x.c;
        r[REG_RDX] = x.d;
    } else if (p[2] == 0x58) {
        // xgetbv is an illegal instruction unless the OS enabled it; only register 0 exists
        if (!(g_cpu.l1.c >> 27 & 1) || u32(r[REG_RCX]) != 0) _exit(91);
        r[REG_RAX] = g_cpu.xcr0;
        r[REG_RDX] = 0;
    } else
        _exit(92);
    r[REG_RIP] += 3;
}

// ---- what the vendor manuals say -------------------------------------------------------------
struct Bit { const char *name; char word; int bit; bool (*f)(); };
#define B_(n, w, b) {#n, w, b, &CpuId::n}
static const Bit features[] = {
    B_(hasSse3, 'C', 0), B_(hasPclmulqdq, 'C', 1), B_(hasMonitor, 'C', 3), B_(hasVmx, 'C', 5), B_(hasSmx, 'C', 6), B_(hasEist, 'C', 7), B_(hasTm2, 'C', 8),
    B_(hasSsse3, 'C', 9), B_(hasFma, 'C', 12), B_(hasCmpXchg16b, 'C', 13), B_(hasPdcm, 'C', 15), B_(hasDca, 'C', 18), B_(hasSse41, 'C', 19), B_(hasSse42, 'C', 20),
    B_(hasMovbe, 'C', 22), B_(hasPopcnt, 'C', 23), B_(hasAes, 'C', 25), B_(hasOsxsave, 'C', 27), B_(hasAvx, 'C', 28), B_(hasF16c, 'C', 29), B_(hasRdrand, 'C', 30),
    B_(hasFpu, 'D', 0), B_(hasVme, 'D', 1), B_(hasDe, 'D', 2), B_(hasPse, 'D', 3), B_(hasTsc, 'D', 4), B_(hasMsr, 'D', 5), B_(hasPae, 'D', 6), B_(hasCx8, 'D', 8),
    B_(hasMtrr, 'D', 12), B_(hasCmov, 'D', 15), B_(hasClfsh, 'D', 19), B_(hasAcpi, 'D', 22), B_(hasMmx, 'D', 23), B_(hasSse, 'D', 25), B_(hasSse2, 'D', 26), B_(hasHtt, 'D', 28),
    B_(hasBmi1, '7', 3), B_(hasHle, '7', 4), B_(hasAvx2, '7', 5), B_(hasBmi2, '7', 8), B_(hasRtm, '7', 11), B_(hasAvx512f, '7', 16), B_(hasAvx512dq, '7', 17),
    B_(hasAvx512ifma, '7', 21), B_(hasAvx512pf, '7', 26), B_(hasAvx512er, '7', 27), B_(hasAvx512cd, '7', 28), B_(hasAvx512bw, '7', 30), B_(hasAvx512vl, '7', 31),
    B_(hasAvx512vbmi, 'c', 1),
    B_(hasSse4a, '8', 6), B_(hasMisAlignSse, '8', 7), B_(hasAmdPrefetch, '8', 8), B_(hasXop, '8', 11), B_(hasFma4, '8', 16), B_(hasRdtscp, 'd', 27), B_(has3DNowExt, 'd', 30),
    B_(has3DNow, 'd', 31)};
constexpr int NF = sizeof(features) / sizeof(features[0]);
static bool featureOf(const Cpu &c, const Bit &f)
{
    const bool l7 = c.maxBasic >= 7, e = c.maxExt >= 0x80000001u;
    u32 w = 0;
    switch (f.word) {
    case 'C': w = c.l1.c; break;
    case 'D': w = c.l1.d; break;
    case '7': w = l7 ? c.l7.b : 0; break;
    case 'c': w = l7 ? c.l7.c : 0; break;
    case '8': w = e ? c.e1.c : 0; break;
    case 'd': w = e ? c.e1.d : 0; break;
    }
    return w >> f.bit & 1;
}
struct Cache { u32 size, line, ways; };
struct Desc { unsigned char byte; char cache; u32 kb, ways, line; };  // cache: i d 2 3
static const Desc descs[] = {
    {0x06, 'i', 8, 4, 32}, {0x08, 'i', 16, 4, 32}, {0x09, 'i', 32, 4, 64}, {0x30, 'i', 32, 8, 64},
    {0x0A, 'd', 8, 2, 32}, {0x0C, 'd', 16, 4, 32}, {0x0D, 'd', 16, 4, 64}, {0x0E, 'd', 24, 6, 64}, {0x2C, 'd', 32, 8, 64}, {0x60, 'd', 16, 8, 64}, {0x66, 'd', 8, 4, 64}, {0x67, 'd', 16, 4, 64}, {0x68, 'd', 32, 4, 64},
    {0x21, '2', 256, 8, 64}, {0x41, '2', 128, 4, 32}, {0x42, '2', 256, 4, 32}, {0x43, '2', 512, 4, 32}, {0x44, '2', 1024, 4, 32}, {0x45, '2', 2048, 4, 32}, {0x48, '2', 3072, 12, 64}, {0x49, '2', 4096, 16, 64},
    {0x4E, '2', 6144, 24, 64}, {0x78, '2', 1024, 4, 64}, {0x79, '2', 128, 8, 64}, {0x7A, '2', 256, 8, 64}, {0x7B, '2', 512, 8, 64}, {0x7C, '2', 1024, 8, 64}, {0x7D, '2', 2048, 8, 64}, {0x7F, '2', 512, 2, 64},
    {0x80, '2', 512, 8, 64}, {0x82, '2', 256, 8, 32}, {0x83, '2', 512, 8, 32}, {0x84, '2', 1024, 8, 32}, {0x85, '2', 2048, 8, 32}, {0x86, '2', 512, 4, 64}, {0x87, '2', 1024, 8, 64},
    {0x22, '3', 512, 4, 64}, {0x23, '3', 1024, 8, 64}, {0x25, '3', 2048, 8, 64}, {0x29, '3', 4096, 8, 64}, {0x46, '3', 4096, 4, 64}, {0x47, '3', 8192, 8, 64}, {0x4A, '3', 6144, 12, 64}, {0x4B, '3', 8192, 16, 64},
    {0x4C, '3', 12288, 12, 64}, {0x4D, '3', 16384, 16, 64}, {0xD0, '3', 512, 4, 64}, {0xD1, '3', 1024, 4, 64}, {0xD2, '3', 2048, 4, 64}, {0xD6, '3', 1024, 8, 64}, {0xD7, '3', 2048, 8, 64}, {0xD8, '3', 4096, 8, 64},
    {0xDC, '3', 1536, 12, 64}, {0xDD, '3', 3072, 12, 64}, {0xDE, '3', 6144, 12, 64}, {0xE2, '3', 2048, 16, 64}, {0xE3, '3', 4096, 16, 64}, {0xE4, '3', 8192, 16, 64}, {0xEA, '3', 12288, 24, 64}, {0xEB, '3', 18432, 24, 64},
    {0xEC, '3', 24576, 24, 64}};
constexpr int ND = sizeof(descs) / sizeof(descs[0]);

using namespace Vc;
static const u32 extraBits[] = {Float16cInstructions, Fma4Instructions, XopInstructions, PopcntInstructions, Sse4aInstructions, FmaInstructions, VexInstructions, Bmi2Instructions};
static const Implementation impls[] = {ScalarImpl, SSE2Impl, SSE3Impl, SSSE3Impl, SSE41Impl, SSE42Impl, AVXImpl, AVX2Impl};
template <u32 F> using Impl = ImplementationT<F>;
// compile-time descriptors: every implementation with several sets of extra instructions
#define DESCRIPTORS(X)                                                                                                                                    \
    X(ScalarImpl) X(SSE2Impl) X(SSE3Impl) X(SSSE3Impl) X(SSE41Impl) X(SSE42Impl | PopcntInstructions) X(SSE42Impl | PopcntInstructions | Sse4aInstructions) X(AVXImpl | VexInstructions)       \
    X(AVXImpl | VexInstructions | PopcntInstructions | Float16cInstructions) X(AVXImpl | VexInstructions | XopInstructions | Fma4Instructions | Sse4aInstructions | PopcntInstructions) \
    X(AVX2Impl | VexInstructions | FmaInstructions | Bmi2Instructions | PopcntInstructions | Float16cInstructions) X(AVX2Impl | VexInstructions) X(ScalarImpl | PopcntInstructions)    \
    X(AVX2Impl | FmaInstructions) X(SSE2Impl | Sse4aInstructions) X(AVX2Impl | Bmi2Instructions | VexInstructions)

struct Result {
    unsigned char feature[NF];
    bool amd, intel;
    u32 family, model, type, line, logical;
    Cache l1i, l1d, l2, l3;
    bool supported[8], mask;
    u32 best, extra;
    bool desc[32];
    bool done;
};
static Result *shared()
{
    static Result *r = static_cast<Result *>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return r;
}
static void child(Result &r)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onIll;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGILL, &sa, nullptr);
    CpuId::init();
    for (int i = 0; i < NF; ++i) r.feature[i] = features[i].f();
    r.amd = CpuId::isAmd();
    r.intel = CpuId::isIntel();
    r.family = CpuId::processorFamily();
    r.model = CpuId::processorModel();
    r.type = CpuId::processorType();
    r.line = CpuId::cacheLineSize();
    r.logical = CpuId::logicalProcessors();
    r.l1i = Cache{CpuId::L1Instruction(), CpuId::L1InstructionLineSize(), 0};
    r.l1d = Cache{CpuId::L1Data(), CpuId::L1DataLineSize(), CpuId::L1Associativity()};
    r.l2 = Cache{CpuId::L2Data(), CpuId::L2DataLineSize(), CpuId::L2Associativity()};
    r.l3 = Cache{CpuId::L3Data(), CpuId::L3DataLineSize(), CpuId::L3Associativity()};
    for (int i = 0; i < 8; ++i) r.supported[i] = isImplementationSupported(impls[i]);
    r.mask = isImplementationSupported(ImplementationMask);
    r.best = bestImplementationSupported();
    r.extra = extraInstructionsSupported();
    int k = 0;
#define X(F) r.desc[k++] = isImplementationSupported<Impl<(F)>>();
    DESCRIPTORS(X)
#undef X
    r.done = true;
}
static const Result &runChild()
{
    Result &r = *shared();
    memset(&r, 0, sizeof r);
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
        child(r);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 91), "xgetbv was executed although the OS did not enable it");
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.done, "feature detection died with status " << st);
    return r;
}

static u32 word(Src &s) { return u32(s.draw(0xffffffffu)); }
static void genIdentity(Src &s, Cpu &c)
{
    memset(&c, 0, sizeof c);
    const int v = int(s.draw(4));
    c.amd = v >= 3;
    c.intel = v <= 1;
    c.l0.c = c.amd ? 0x444D4163u : c.intel ? 0x6C65746Eu : 0x736C7561u;
    c.l0.b = c.amd ? 0x68747541u : c.intel ? 0x756E6547u : 0x746E6543u;
    c.l0.d = c.amd ? 0x69746E65u : c.intel ? 0x49656E69u : 0x48727561u;
    static const u32 maxes[] = {0x14, 0xD, 0xB, 7, 6, 5, 4};
    c.maxBasic = c.l0.a = maxes[s.draw(6)];
    c.maxExt = s.oneIn(6) && !c.amd ? 0 : 0x80000008u;
    // family, model, stepping, type, brand, clflush, logical processors
    static const u32 fams[] = {6, 0xF, 0xF, 5, 6, 0xF};
    const u32 fam = fams[s.draw(5)];
    const u32 type = c.intel ? u32(s.draw(2)) : 0;
    const u32 extFam = fam == 0xF ? u32(s.draw(0x20)) : 0, extModel = fam == 0xF || fam == 6 ? u32(s.draw(15)) : 0;
    c.l1.a = u32(s.draw(15)) | u32(s.draw(15)) << 4 | fam << 8 | type << 12 | (c.amd && fam < 0xF ? 0 : extModel) << 16 | extFam << 20;
    c.l1.b = u32(s.draw(255)) | u32(s.oneIn(4) ? s.draw(31) : 8) << 8 | u32(s.draw(255)) << 16 | u32(s.draw(255)) << 24;
    c.other = Regs{word(s), word(s), word(s), word(s)};
}
static void genFeatures(Src &s, Cpu &c)
{
    // extended families of instructions contain each other on every real CPU
    const int level = int(s.draw(7));
    c.l1.c = word(s);
    c.l1.d = word(s);
    c.l7 = Regs{0, word(s), word(s), word(s)};
    c.e1 = Regs{word(s), word(s), word(s), word(s)};
    auto set = [](u32 &w, int b, bool on) { w = on ? w | 1u << b : w & ~(1u << b); };
    set(c.l1.d, 26, level >= 1);
    set(c.l1.c, 0, level >= 2);
    set(c.l1.c, 9, level >= 3);
    set(c.l1.c, 19, level >= 4);
    set(c.l1.c, 20, level >= 5);
    set(c.l1.c, 28, level >= 6);
    if (level < 6) set(c.l1.c, 12, false), set(c.l1.c, 29, false);
    set(c.l7.b, 5, level >= 7);
    if (level >= 7 && c.maxBasic < 7) c.maxBasic = c.l0.a = 0xD;
    if (s.coin()) set(c.l1.c, 27, true);
    static const u32 xcr[] = {7, 7, 7, 3, 1, 0xE7, 5};
    c.xcr0 = xcr[s.draw(6)];
}
static void noteCpu(Src &s, const Cpu &c)
{
    s.note("cpu", [&](std::ostream &os) {
        os << std::hex << (c.amd ? "AMD" : c.intel ? "Intel" : "other") << " max " << c.maxBasic << "/" << c.maxExt << " 1:" << c.l1.a << "," << c.l1.b << "," << c.l1.c << "," << c.l1.d << " 2:" << c.l2.a << ","
           << c.l2.b << "," << c.l2.c << "," << c.l2.d << " 7:" << c.l7.b << "," << c.l7.c << " e1:" << c.e1.c << "," << c.e1.d << " e5:" << c.e5.c << "," << c.e5.d << " e6:" << c.e6.c << "," << c.e6.d << " xcr0 " << c.xcr0
           << std::dec;
    });
}
static void genCaches(Src &s, Cpu &c, Cache *want /* i d 2 3 */, bool &l1iDesc)
{
    for (int k = 0; k < 4; ++k) want[k] = Cache{0, 0, 0};
    l1iDesc = false;
    if (c.amd) {
        static const u32 enc[][2] = {{0, 0}, {1, 1}, {2, 2}, {4, 4}, {6, 8}, {8, 16}, {0xA, 32}, {0xB, 48}, {0xC, 64}, {0xD, 96}, {0xE, 128}, {0xF, 0xff}};
        auto L1 = [&](Cache &w) {
            const u32 line = u32(s.draw(255)), ways = u32(s.draw(255)), kb = u32(s.draw(255));
            w = Cache{kb * 1024, line, ways};
            return line | u32(s.draw(255)) << 8 | ways << 16 | kb << 24;
        };
        c.e5 = Regs{word(s), word(s), L1(want[1]), L1(want[0])};
        const auto a2 = enc[s.draw(11)], a3 = enc[s.draw(11)];
        const u32 l2 = u32(s.draw(65535)), l3 = u32(s.draw(2047)), line2 = u32(s.draw(255)), line3 = u32(s.draw(255));
        c.e6 = Regs{word(s), word(s), line2 | u32(s.draw(15)) << 8 | a2[0] << 12 | l2 << 16, line3 | u32(s.draw(15)) << 8 | a3[0] << 12 | u32(s.draw(3)) << 16 | l3 << 18};
        want[2] = Cache{l2 * 1024, line2, a2[1]};
        want[3] = Cache{l3 * 512 * 1024, line3, a3[1]};
        return;
    }
    const int mode = int(s.draw(2));  // 0: descriptors, 1: descriptor 0xff -> leaf 4, 2: no leaf 2 -> leaf 4
    unsigned char bytes[15] = {0};
    int n = 0;
    if (mode == 0) {
        static const char kinds[] = "id23";
        for (int k = 0; k < 4; ++k) {
            if (s.oneIn(4)) continue;
            std::vector<int> idx;
            for (int i = 0; i < ND; ++i)
                if (descs[i].cache == kinds[k]) idx.push_back(i);
            const Desc &d = descs[idx[s.draw(idx.size() - 1)]];
            bytes[n++] = d.byte;
            int target = k;
            const u32 fam = c.l1.a >> 8 & 15, extFam = c.l1.a >> 20 & 0xff, model = (c.l1.a >> 4 & 15) | (c.l1.a >> 12 & 0xf0);
            if (d.byte == 0x49 && fam == 0xF && extFam == 0 && model == 6) target = 3;  // Xeon MP: third level cache
            want[target] = Cache{d.kb * 1024, d.line, d.ways};
            if (target == 3 && k == 2) break;
            l1iDesc = l1iDesc || k == 0;
        }
        static const unsigned char fill[] = {0, 0xF0, 0, 0x40};
        if (n < 15 && s.coin()) bytes[n++] = fill[s.draw(3)];
    } else if (mode == 1)
        bytes[n++] = 0xff;
    if (mode != 2) {
        // any position of the 15 bytes
        for (int i = 14; i > 0; --i) std::swap(bytes[i], bytes[s.draw(i)]);
        // the top byte of a register is a descriptor below 0x80
        for (int top : {2, 6, 10, 14})
            for (int k = top - 1; bytes[top] >= 0x80 && k > top - (top == 2 ? 3 : 4); --k) std::swap(bytes[top], bytes[k]);
        auto reg = [&](int k) { return u32(bytes[k]) | u32(bytes[k + 1]) << 8 | u32(bytes[k + 2]) << 16 | u32(bytes[k + 3]) << 24; };
        c.l2.a = 1u | u32(bytes[0]) << 8 | u32(bytes[1]) << 16 | u32(bytes[2]) << 24;
        c.l2.b = reg(3);
        c.l2.c = reg(7);
        c.l2.d = reg(11);
        // bit 31 says that a register contains no descriptors
        for (u32 *r : {&c.l2.a, &c.l2.b, &c.l2.c, &c.l2.d})
            if (*r >> 31) throw pbt::Discard();
        if (!(c.l2.d & ~0u) && s.oneIn(3)) c.l2.d = 0x80000000u | (word(s) >> 1);
    }
    if (mode != 0) {
        static const struct { int type, level, k; } sel[] = {{1, 1, 1}, {2, 1, 0}, {3, 2, 2}, {3, 3, 3}};
        int e = 0;
        for (auto &x : sel) {
            if (s.oneIn(5)) continue;
            const u32 line = s.coin() ? 64 : 32, parts = 1 + u32(s.oneIn(4)), ways = 1 + u32(s.draw(23)), sets = 1u << s.draw(13);
            c.l4[e].a = u32(x.type) | u32(x.level) << 5 | u32(s.draw(1)) << 8 | u32(s.draw(63)) << 14 | u32(s.draw(7)) << 26;
            c.l4[e].b = (line - 1) | (parts - 1) << 12 | (ways - 1) << 22;
            c.l4[e].c = sets - 1;
            ++e;
            want[x.k] = Cache{line * parts * ways * sets, line, ways};
        }
    }
}

struct cpu_features {
    static void run(Src &s)
    {
        Cpu &c = g_cpu;
        genIdentity(s, c);
        genFeatures(s, c);
        if (s.coin()) {  // arbitrary bits
            c.l1.c = word(s) & ~(1u << 27);
            c.l1.d = word(s);
            c.l7.b = word(s);
        }
        noteCpu(s, c);
        s.nontrivial(c.l1.c != 0 && c.l1.c != ~0u && c.l1.d != c.l1.c);
        const Result &r = runChild();
        for (int i = 0; i < NF; ++i)
            PBT_CHECK(bool(r.feature[i]) == featureOf(c, features[i]), features[i].name << " is " << int(r.feature[i]) << " but the CPU reports " << featureOf(c, features[i]));
        PBT_CHECK(r.amd == c.amd && r.intel == c.intel, "vendor");
        const u32 fam = c.l1.a >> 8 & 15, extFam = c.l1.a >> 20 & 0xff, mod = c.l1.a >> 4 & 15, extMod = c.l1.a >> 16 & 15;
        const u32 family = fam == 0xF ? fam + extFam : fam;
        const u32 model = fam == 0xF || (fam == 6 && !c.amd) ? mod | extMod << 4 : mod;
        PBT_CHECK(r.family == family, "family " << r.family << " instead of " << family);
        PBT_CHECK(r.model == model, "model " << r.model << " instead of " << model);
        PBT_CHECK(r.type == (c.l1.a >> 12 & 3), "processor type " << r.type);
        PBT_CHECK(r.line == (c.l1.b >> 8 & 0xff) * 8, "cacheLineSize " << r.line);
        PBT_CHECK(r.logical == (c.l1.b >> 16 & 0xff), "logicalProcessors " << r.logical);
    }
};
struct cpu_caches {
    static void run(Src &s)
    {
        Cpu &c = g_cpu;
        genIdentity(s, c);
        genFeatures(s, c);
        Cache want[4];
        bool l1iDesc = false;
        genCaches(s, c, want, l1iDesc);
        noteCpu(s, c);
        s.nontrivial(want[1].size && want[2].size);
        const Result &r = runChild();
        auto cmp = [](const char *n, const Cache &got, const Cache &w, bool ways) {
            PBT_CHECK(got.size == w.size, n << " size " << got.size << " instead of " << w.size);
            PBT_CHECK(got.line == w.line, n << " line size " << got.line << " instead of " << w.line);
            PBT_CHECK(!ways || got.ways == w.ways, n << " associativity " << got.ways << " instead of " << w.ways);
        };
        cmp("L1Instruction", r.l1i, want[0], false);
        cmp("L1Data", r.l1d, want[1], !l1iDesc);
        cmp("L2Data", r.l2, want[2], true);
        cmp("L3Data", r.l3, want[3], true);
    }
};
struct implementation_support {
    static void run(Src &s)
    {
        Cpu &c = g_cpu;
        genIdentity(s, c);
        genFeatures(s, c);
        noteCpu(s, c);
        const Result &r = runChild();
        const bool os = (c.l1.c >> 27 & 1) && (c.xcr0 & 6) == 6;
        auto bit = [&](u32 w, int b) { return bool(w >> b & 1); };
        const bool avx = bit(c.l1.c, 28) && os, avx2 = avx && c.maxBasic >= 7 && bit(c.l7.b, 5);
        const bool want[8] = {true, bit(c.l1.d, 26), bit(c.l1.c, 0), bit(c.l1.c, 9), bit(c.l1.c, 19), bit(c.l1.c, 20), avx, avx2};
        s.nontrivial(want[3] && !want[7]);
        int best = 0;
        for (int i = 0; i < 8; ++i) {
            PBT_CHECK(r.supported[i] == want[i], "isImplementationSupported(" << i << ") is " << r.supported[i]);
            if (want[i]) best = i;
        }
        PBT_CHECK(!r.mask, "isImplementationSupported(ImplementationMask)");
        PBT_CHECK(r.best == u32(impls[best]), "bestImplementationSupported() is " << r.best << " instead of " << best);
        const bool e = c.maxExt >= 0x80000001u;
        u32 extra = 0;
        if (bit(c.l1.c, 29)) extra |= Float16cInstructions;
        if (e && bit(c.e1.c, 16)) extra |= Fma4Instructions;
        if (e && bit(c.e1.c, 11)) extra |= XopInstructions;
        if (bit(c.l1.c, 23)) extra |= PopcntInstructions;
        if (e && bit(c.e1.c, 6)) extra |= Sse4aInstructions;
        if (bit(c.l1.c, 12)) extra |= FmaInstructions;
        if (avx) extra |= VexInstructions;
        if (c.maxBasic >= 7 && bit(c.l7.b, 8)) extra |= Bmi2Instructions;
        PBT_CHECK(r.extra == extra, "extraInstructionsSupported() is " << std::hex << r.extra << " instead of " << extra);
        int k = 0;
#define X(F)                                                                                                                                 \
    {                                                                                                                                        \
        const bool w = want[(F) & 0xfff] && (u32(F) & 0xfffff000u & ~extra) == 0;                                                             \
        PBT_CHECK(r.desc[k] == w, "isImplementationSupported<ImplementationT<" #F ">>() is " << r.desc[k]);                                    \
        ++k;                                                                                                                                 \
    }
        DESCRIPTORS(X)
#undef X
    }
};
struct descriptors {
    template <u32 F> static void one(Src &s, Implementation a, Implementation b, u32 extra)
    {
        using D = Impl<F>;
        const u32 cur = F & 0xfff;
        PBT_CHECK(u32(D::current()) == cur, "current()");
        PBT_CHECK(D::is(a) == (u32(a) == cur), "is(" << a << ") for " << F);
        PBT_CHECK(D::is_between(a, b) == (u32(a) <= cur && cur <= u32(b)), "is_between(" << a << ", " << b << ") for " << F);
        PBT_CHECK(D::runs_on(extra) == ((F & 0xfffff000u & ~extra) == 0), "runs_on(" << std::hex << extra << ") for " << F);
        (void)s;
    }
    static void run(Src &s)
    {
        const Implementation a = impls[s.draw(7)], b = impls[s.draw(7)];
        u32 extra = 0;
        for (u32 e : extraBits)
            if (s.coin()) extra |= e;
        if (s.oneIn(4)) extra |= word(s);
        s.note("args", [&](std::ostream &os) { os << a << " " << b << " " << std::hex << extra << std::dec; });
        s.nontrivial(a != b && extra);
#define X(F) one<(F)>(s, a, b, extra);
        DESCRIPTORS(X)
#undef X
        // the implementation this was compiled for
        using C = CurrentImplementation;
        PBT_CHECK(C::is(C::current()) && C::is_between(ScalarImpl, MICImpl), "CurrentImplementation");
        u32 mac = ScalarImpl, ex = 0;
#ifndef P01_EXPLICIT_IMPL  // chosen by the compiler flags
#ifdef __SSE2__
        mac = SSE2Impl;
#endif
#ifdef __SSE3__
        mac = SSE3Impl;
#endif
#ifdef __SSSE3__
        mac = SSSE3Impl;
#endif
#ifdef __SSE4_1__
        mac = SSE41Impl;
#endif
#ifdef __SSE4_2__
        mac = SSE42Impl;
#endif
#ifdef __AVX__
        mac = AVXImpl;
#endif
#ifdef __AVX2__
        mac = AVX2Impl;
#endif
#ifdef __F16C__
        ex |= Float16cInstructions;
#endif
#ifdef __FMA__
        ex |= FmaInstructions;
#endif
#ifdef __POPCNT__
        ex |= PopcntInstructions;
#endif
#ifdef __BMI2__
        ex |= Bmi2Instructions;
#endif
#ifdef __AVX__
        ex |= VexInstructions;
#endif
        PBT_CHECK(C::runs_on(ex), "CurrentImplementation requires instructions the compiler was not allowed to use");
        PBT_CHECK(C::runs_on(extra) == C::runs_on(extra & ex), "runs_on depends on instructions this build does not use");
        for (u32 e : extraBits)
            if ((ex & e) && e != Float16cInstructions)  // no Vc code uses F16C
                PBT_CHECK(!C::runs_on(~e), "CurrentImplementation ignores the extra instruction " << e);
#endif
        PBT_CHECK(u32(C::current()) == mac, "CurrentImplementation is " << C::current() << " instead of " << mac);
    }
};
static bool reg_ = (pbt::reg("cpu_features", cpu_features::run), pbt::reg("cpu_caches", cpu_caches::run), pbt::reg("implementation_support", implementation_support::run),
                    pbt::reg("descriptors", descriptors::run), true);
PBT_MAIN
