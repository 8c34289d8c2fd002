// X01: generated programs over SimdArray<T, N> registers, masks and memory produce the same trace on every
// implementation.  The interpreters (x01prog.cpp) are shared objects next to this binary, one per N and configuration:
// x01prog_<N>_<config>.so
#include "vcgen.h"
#include "x01.h"
#include <dirent.h>
#include <dlfcn.h>

typedef size_t (*Entry)(const X01Op *, size_t, const unsigned char *const *, unsigned char *, size_t, size_t *);
struct Plugin {
    std::string cfg;
    Entry run;
};
static std::map<int, std::vector<Plugin>> &plugins()
{
    static std::map<int, std::vector<Plugin>> p = [] {
        std::map<int, std::vector<Plugin>> r;
        char exe[4096];
        const ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
        exe[n > 0 ? n : 0] = 0;
        std::string dir(exe);
        dir = dir.substr(0, dir.rfind('/'));
        std::vector<std::string> files;
        if (DIR *d = opendir(dir.c_str())) {
            while (dirent *e = readdir(d)) files.push_back(e->d_name);
            closedir(d);
        }
        std::sort(files.begin(), files.end());
        for (auto &f : files) {
            int N = 0;
            char cfg[64];
            if (std::sscanf(f.c_str(), "x01prog_X01_N_%d_%63[a-z0-9_].so", &N, cfg) != 2 || f.substr(f.size() - 3) != ".so") continue;
            void *h = dlopen((dir + "/" + f).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) {
                std::fprintf(stderr, "%s\n", dlerror());
                std::exit(4);
            }
            Plugin p;
            p.cfg = cfg;
            p.run = reinterpret_cast<Entry>(dlsym(h, "x01_run"));
            if (p.cfg == "scalar")
                r[N].insert(r[N].begin(), p);  // the reference
            else
                r[N].push_back(p);
        }
        for (auto &x : r)
            if (x.second.size() < 2) {
                std::fprintf(stderr, "no plugins to compare\n");
                std::exit(4);
            }
        if (r.empty()) {
            std::fprintf(stderr, "no plugins\n");
            std::exit(4);
        }
        return r;
    }();
    return p;
}
static const char *const opNames[] = {
#define X(n) #n,
    X01_OPS(X)
#undef X
};
static const char *const typeNames[] = {"float", "double", "int", "uint", "short", "ushort"};

// values that survive many operations: mostly small numbers, sometimes anything
template <class T> static T value(Src &s, int style)
{
    if (style == 0) return T(s.range(0, 60)) - T(std::is_signed<T>::value ? 20 : 0);
    if (style == 1) return genFinite<T>(s);
    return genVal<T>(s);
}
template <class T> static void fill(Src &s, std::vector<unsigned char> &bytes, int style)
{
    bytes.resize(X01_MEM * sizeof(T));
    T buf[X01_MEM];
    // few choices, so that programs shrink well: a block of generated values and a fill pattern
    T base[16];
    for (auto &x : base) x = value<T>(s, style);
    const unsigned step = unsigned(s.draw(7));
    for (int k = 0; k < X01_MEM; ++k) {
        const T x = base[(k * (2 * step + 1) + k / 16) % 16];
        buf[k] = std::is_floating_point<T>::value ? x : T((unsigned long long)(x) + k / 16);
    }
    std::memcpy(bytes.data(), buf, sizeof(buf));
}

static void program(Src &s, int N, size_t maxOps)
{
    auto &ps = plugins()[N];
    const int style = s.draw(2);
    std::vector<unsigned char> mem[6];
    fill<float>(s, mem[0], style);
    fill<double>(s, mem[1], style);
    fill<int>(s, mem[2], style);
    fill<unsigned>(s, mem[3], style);
    fill<short>(s, mem[4], style);
    fill<unsigned short>(s, mem[5], style);
    const unsigned char *mp[6];
    for (int k = 0; k < 6; ++k) mp[k] = mem[k].data();
    const size_t n = s.range(1, int(maxOps));
    const int focus = s.draw(6);  // most instructions on one type, or all types
    std::vector<X01Op> ops(n);
    for (auto &o : ops) {
        o.type = focus < 6 && !s.oneIn(4) ? focus : uint32_t(s.draw(5));
        o.op = uint32_t(s.draw(X01NumOps - 1));
        if (o.type < 2 && o.op >= OpAnd && o.op <= OpSumMasked) o.op = OpSqrt + (o.op - OpAnd) % (X01NumOps - OpSqrt);
        if (o.type >= 2 && o.op >= OpSqrt) o.op = OpAnd + (o.op - OpSqrt);
        o.d = uint32_t(s.draw(X01_REGS - 1));
        o.a = uint32_t(s.draw(X01_REGS - 1));
        o.b = uint32_t(s.draw(X01_REGS - 1));
        o.c = uint32_t(s.draw(X01_MASKS - 1));
        o.imm = s.draw((1u << 20) - 1);
    }
    s.note("program", [&](std::ostream &os) {
        os << "N=" << N << " ";
        for (auto &o : ops)
            os << opNames[o.op] << "<" << typeNames[o.type] << ">(d" << o.d << " a" << o.a << " b" << o.b << " m" << o.c << " #" << o.imm << "); ";
    });
    s.nontrivial(n > 3);
    static std::vector<unsigned char> ref(1 << 20), got(1 << 20);
    std::vector<size_t> rm(n + 1), gm(n + 1);
    const size_t rl = ps[0].run(ops.data(), n, mp, ref.data(), ref.size(), rm.data());
    PBT_CHECK(rl > 0, "trace too long");
    for (size_t k = 1; k < ps.size(); ++k) {
        const size_t gl = ps[k].run(ops.data(), n, mp, got.data(), got.size(), gm.data());
        if (gl == rl && std::memcmp(ref.data(), got.data(), rl) == 0) continue;
        size_t at = 0;
        while (at < std::min(gl, rl) && ref[at] == got[at]) ++at;
        std::ostringstream os;
        os << ps[k].cfg << " differs from " << ps[0].cfg << " ";
        size_t i = 0;
        while (i < n && rm[i + 1] <= at) ++i;
        if (at < rm[0]) {
            os << "in the initial state";
        } else if (i < n) {
            const size_t begin = rm[i];
            os << "in " << opNames[ops[i].op] << "<" << typeNames[ops[i].type] << "> (instruction " << i << ", byte " << at - begin << " of the result): " << std::hex;
            auto hex = [&](const std::vector<unsigned char> &v, size_t e) {
                for (size_t q = begin; q < e && q < begin + 128; ++q) os << ((q - begin) % 4 ? "" : " ") << int(v[q] >> 4) << int(v[q] & 15);
            };
            hex(got, gm[i + 1]);
            os << " instead of ";
            hex(ref, rm[i + 1]);
        } else
            os << "in the final state";
        pbt::fail(os.str());
    }
}
template <int N> static void programs(Src &s) { program(s, N, 40); }
template <int N> static void short_programs(Src &s) { program(s, N, 6); }
#define REG_N(n)                                                                         \
    static int reg_a##n = pbt::reg("programs<" #n ">", &programs<n>, 1);                 \
    static int reg_b##n = pbt::reg("short_programs<" #n ">", &short_programs<n>, 2);
#ifndef X01_NS
REG_N(4)
REG_N(7)
REG_N(8)
REG_N(16)
#endif
PBT_MAIN
