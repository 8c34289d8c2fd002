// Small property-based-testing engine.
//
// A test case is a finite sequence of bounded integer choices drawn from Src.  Random mode draws
// the choices from a PRNG that is a pure function of (VERIF_SEED, configuration, sub-property);
// replay mode reads them back from a file.  Shrinking works on the choice sequence (delete,
// zero, halve, decrement), so every generator shrinks for free and every failure replays exactly.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <fstream>
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace pbt
{
struct Failure {
    std::string msg;
};
struct Discard {
};

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix64(h);
}

constexpr size_t kMaxChoices = 1u << 16;

// state that survives a crash of the process (mmapped file)
struct CrashState {
    char subprop[256];
    uint64_t count;
    uint64_t choices[kMaxChoices];
};

class Src
{
public:
    bool verbose = false;       // collect notes
    bool nontrivial_ = false;
    std::vector<uint64_t> choices;
    std::string notes;

    void startRandom(uint64_t seed)
    {
        replay = nullptr;
        rng = seed;
        reset();
    }
    void startReplay(const std::vector<uint64_t> &c)
    {
        replay = &c;
        reset();
    }
    // uniform in [0, bound]
    uint64_t draw(uint64_t bound)
    {
        uint64_t r;
        if (replay) {
            r = pos < replay->size() ? (*replay)[pos] : 0;
            if (r > bound) r = modulo ? r % (bound + 1) : bound;
        } else {
            rng += 0x9e3779b97f4a7c15ull;
            uint64_t z = rng;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            z ^= z >> 31;
            if (bound == ~0ull) {
                r = z;
            } else {
                r = uint64_t((static_cast<unsigned __int128>(z) * (bound + 1)) >> 64);
            }
        }
        ++pos;
        if (choices.size() < kMaxChoices) {
            choices.push_back(r);
            if (crash) {
                crash->choices[choices.size() - 1] = r;
                crash->count = choices.size();
            }
        }
        return r;
    }
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo))); }
    bool coin() { return draw(1) != 0; }
    // true with probability 1/n, shrinks to false
    bool oneIn(int n) { return draw(static_cast<uint64_t>(n - 1)) == static_cast<uint64_t>(n - 1) && n > 1; }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }

    template <class F> void note(const char *name, F &&f)
    {
        if (verbose) {
            std::ostringstream os;
            os.precision(20);
            f(os);
            notes += std::string(name) + "=" + os.str() + " ";
        }
    }
    void noteStr(const std::string &s)
    {
        if (verbose) notes += s + " ";
    }
    static CrashState *crash;
    static bool modulo;  // how a replayed choice is brought into range

private:
    void reset()
    {
        pos = 0;
        choices.clear();
        notes.clear();
        nontrivial_ = false;
        if (crash) crash->count = 0;
    }
    const std::vector<uint64_t> *replay = nullptr;
    size_t pos = 0;
    uint64_t rng = 0;
};
CrashState *Src::crash = nullptr;
bool Src::modulo = false;

struct Sub {
    std::string name;
    void (*fn)(Src &);
    double weight;   // multiplies the number of cases
};
inline std::vector<Sub> &registry()
{
    static std::vector<Sub> r;
    return r;
}
inline int reg(const std::string &name, void (*fn)(Src &), double weight = 1)
{
    registry().push_back(Sub{name, fn, weight});
    return 0;
}

[[noreturn]] inline void fail(const std::string &msg) { throw Failure{msg}; }

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PBT_CHECK(cond, ...)                                                             \
    do {                                                                                 \
        if (!(cond)) {                                                                   \
            std::ostringstream os_;                                                      \
            os_.precision(20);                                                           \
            os_ << "check failed: " #cond << " " << __VA_ARGS__;                         \
            pbt::fail(os_.str());                                                        \
        }                                                                                \
    } while (false)

// ---------------------------------------------------------------- running one case
enum Outcome { Pass, Fail, Discarded };
static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_inCase = 0;
static volatile sig_atomic_t g_sig = 0;
static int g_caseCpuLimit = 20;  // seconds of CPU time for a single case

inline void onSignal(int sig)
{
    if (g_inCase && sig != SIGABRT) {
        g_sig = sig;
        siglongjmp(g_jmp, 1);
    }
    _exit(77);
}
inline void armTimer(int sec)
{
    itimerval it;
    std::memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline void installHandlers()
{
#ifndef PBT_NO_SIGNALS
    static char altstack[1 << 16];
    stack_t ss;
    std::memset(&ss, 0, sizeof(ss));
    ss.ss_sp = altstack;
    ss.ss_size = sizeof(altstack);
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM}) {
        struct sigaction sa;
        std::memset(&sa, 0, sizeof(sa));
        sa.sa_handler = onSignal;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
#endif
}

__attribute__((noinline)) inline Outcome runCase(void (*fn)(Src &), Src &s, std::string &msg)
{
    g_inCase = 1;
    if (sigsetjmp(g_jmp, 1) == 0) {
        try {
            fn(s);
        } catch (const Failure &f) {
            g_inCase = 0;
            msg = f.msg;
            return Fail;
        } catch (const Discard &) {
            g_inCase = 0;
            return Discarded;
        } catch (const std::exception &e) {
            g_inCase = 0;
            msg = std::string("unexpected exception: ") + e.what();
            return Fail;
        }
        g_inCase = 0;
        return Pass;
    }
    g_inCase = 0;
    switch (g_sig) {
    case SIGSEGV: msg = "crash: SIGSEGV (access outside the permitted memory)"; break;
    case SIGBUS: msg = "crash: SIGBUS"; break;
    case SIGFPE: msg = "crash: SIGFPE"; break;
    case SIGILL: msg = "crash: SIGILL"; break;
    case SIGVTALRM: msg = "hang: case exceeded its CPU limit"; armTimer(g_caseCpuLimit); break;
    default: msg = "crash: signal " + std::to_string(int(g_sig));
    }
    return Fail;
}

// fork-based evaluation for failures that kill the process
inline bool failsForked(void (*fn)(Src &), const std::vector<uint64_t> &c)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        armTimer(g_caseCpuLimit);
        Src s;
        Src::crash = nullptr;
        s.startReplay(c);
        std::string m;
        _exit(runCase(fn, s, m) == Fail ? 1 : 0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

struct Shrinker {
    std::function<bool(const std::vector<uint64_t> &, std::vector<uint64_t> &)> failsWith;
    int budget = 4000;
    std::vector<uint64_t> best;
    bool attempt(const std::vector<uint64_t> &c)
    {
        if (budget-- <= 0) return false;
        std::vector<uint64_t> used;
        if (failsWith(c, used)) {
            // the run may have used fewer choices than supplied
            if (used.size() < best.size() ||
                (used.size() == best.size() && used < best)) {
                best = used;
                return true;
            }
        }
        return false;
    }
    void run()
    {
        bool progress = true;
        while (progress && budget > 0) {
            progress = false;
            for (size_t k : {32u, 8u, 4u, 3u, 2u, 1u}) {
                for (size_t i = best.size(); i-- > 0 && budget > 0;) {
                    if (i + k > best.size()) continue;
                    std::vector<uint64_t> c = best;
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (attempt(c)) progress = true;
                }
            }
            for (size_t k : {16u, 4u, 2u}) {
                for (size_t i = 0; i + k <= best.size() && budget > 0; i += k) {
                    std::vector<uint64_t> c = best;
                    bool any = false;
                    for (size_t j = i; j < i + k; ++j) {
                        any = any || c[j];
                        c[j] = 0;
                    }
                    if (any && attempt(c)) progress = true;
                }
            }
            for (size_t i = 0; i < best.size() && budget > 0; ++i) {
                if (best[i] == 0) continue;
                std::vector<uint64_t> c = best;
                c[i] = 0;
                if (attempt(c)) {
                    progress = true;
                    continue;
                }
                // binary search towards the smallest failing value
                uint64_t lo = 0, hi = best[i];
                while (hi - lo > 1 && budget > 0 && i < best.size()) {
                    const uint64_t mid = lo + (hi - lo) / 2;
                    c = best;
                    c[i] = mid;
                    if (attempt(c)) {
                        progress = true;
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                    if (i >= best.size()) break;
                }
            }
        }
    }
};

inline std::string jsonEsc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += char(c);
    }
    return o;
}

struct Options {
    uint64_t seed = 1;
    long cases = 1000;
    std::string config = "default";
    std::string out;
    std::string state;
    std::string replayFile;
    std::string only;
    bool shrinkFork = false;
    bool list = false;
    int maxFailures = 8;
};

inline std::vector<uint64_t> readChoices(const std::string &file, std::string &subprop)
{
    // very small format: first line: subprop, second line: choices separated by blanks
    std::ifstream f(file);
    std::string line;
    std::getline(f, subprop);
    std::vector<uint64_t> c;
    uint64_t v;
    while (f >> v) c.push_back(v);
    return c;
}

inline int pbtMain(int argc, char **argv)
{
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = strtol(val().c_str(), nullptr, 10);
        else if (a == "--config") o.config = val();
        else if (a == "--out") o.out = val();
        else if (a == "--state") o.state = val();
        else if (a == "--replay") o.replayFile = val();
        else if (a == "--only") o.only = val();
        else if (a == "--shrink-fork") o.shrinkFork = true;
        else if (a == "--list") o.list = true;
        else if (a == "--max-failures") o.maxFailures = atoi(val().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (o.list) {
        for (auto &s : registry()) printf("%s\n", s.name.c_str());
        return 0;
    }
    installHandlers();
    if (!o.state.empty()) {
        int fd = open(o.state.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(CrashState)) == 0) {
            void *p = mmap(nullptr, sizeof(CrashState), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) Src::crash = static_cast<CrashState *>(p);
        }
    }
    if (!o.replayFile.empty()) {
        std::string name;
        auto c = readChoices(o.replayFile, name);
        for (auto &sp : registry()) {
            if (sp.name != name) continue;
            if (o.shrinkFork) {
                Shrinker sh;
                sh.budget = 600;
                sh.best = c;
                sh.failsWith = [&](const std::vector<uint64_t> &x, std::vector<uint64_t> &used) {
                    used = x;
                    return failsForked(sp.fn, x);
                };
                sh.run();
                std::ofstream f(o.replayFile);
                f << name << "\n";
                for (auto v : sh.best) f << v << " ";
                f << "\n";
                return 0;
            }
            if (Src::crash) snprintf(Src::crash->subprop, sizeof Src::crash->subprop, "%s", sp.name.c_str());
            armTimer(g_caseCpuLimit);
            Src s;
            s.verbose = true;
            s.startReplay(c);
            std::string msg;
            Outcome r = runCase(sp.fn, s, msg);
            printf("%s: %s\n  case: %s\n", name.c_str(), r == Fail ? msg.c_str() : "PASS", s.notes.c_str());
            return r == Fail ? 1 : 0;
        }
        fprintf(stderr, "no sub-property %s in this binary\n", name.c_str());
        return 3;
    }

    std::ostringstream js;
    js << "{\"config\":\"" << jsonEsc(o.config) << "\",\"subs\":[";
    bool first = true;
    int failures = 0;
    for (auto &sp : registry()) {
        if (!o.only.empty() && sp.name.find(o.only) == std::string::npos) continue;
        if (Src::crash) snprintf(Src::crash->subprop, sizeof Src::crash->subprop, "%s", sp.name.c_str());
        const long n = std::max(1l, static_cast<long>(o.cases * sp.weight));
        std::unordered_set<uint64_t> seen;
        long evals = 0, discards = 0;
        std::vector<std::string> samples;
        std::string failMsg, failNotes;
        std::vector<uint64_t> failChoices;
        const uint64_t base = mix64(o.seed * 0x9e3779b97f4a7c15ull ^ hashStr(sp.name) ^ mix64(hashStr(o.config)));
        for (long i = 0; i < n; ++i) {
            if ((i & 63) == 0) armTimer(g_caseCpuLimit);
            Src s;
            s.verbose = i == 0 || i == n / 2 || i == n - 1;
            s.startRandom(mix64(base + static_cast<uint64_t>(i)));
            std::string msg;
            Outcome r = runCase(sp.fn, s, msg);
            ++evals;
            if (r == Discarded) {
                ++discards;
                continue;
            }
            if (s.nontrivial_) {
                uint64_t h = 0x1234567;
                for (uint64_t c : s.choices) h = mix64(h ^ c) + h * 31;
                if (seen.size() < 3000000) seen.insert(h);
            }
            if (s.verbose && samples.size() < 2 && !s.notes.empty()) samples.push_back(s.notes.substr(0, 400));
            if (r == Fail) {
                Shrinker sh;
                sh.best = s.choices;
                sh.failsWith = [&](const std::vector<uint64_t> &x, std::vector<uint64_t> &used) {
                    Src t;
                    t.startReplay(x);
                    std::string m;
                    if (runCase(sp.fn, t, m) != Fail) return false;
                    used = t.choices;
                    return true;
                };
                armTimer(g_caseCpuLimit);
                if (msg.compare(0, 5, "hang:") != 0) sh.run();
                Src t;
                t.verbose = true;
                t.startReplay(sh.best);
                armTimer(g_caseCpuLimit);
                failMsg = msg;
                std::string m2;
                if (runCase(sp.fn, t, m2) == Fail) failMsg = m2;
                failNotes = t.notes;
                failChoices = sh.best;
                if (sp.name.compare(0, 3, "kf_") != 0) ++failures;
                break;
            }
        }
        if (!first) js << ",";
        first = false;
        js << "\n{\"name\":\"" << jsonEsc(sp.name) << "\",\"evals\":" << evals << ",\"discards\":" << discards
           << ",\"nontrivial\":" << seen.size() << ",\"samples\":[";
        for (size_t k = 0; k < samples.size(); ++k) js << (k ? "," : "") << "\"" << jsonEsc(samples[k]) << "\"";
        js << "]";
        if (!failMsg.empty()) {
            js << ",\"fail\":{\"msg\":\"" << jsonEsc(failMsg.substr(0, 2000)) << "\",\"case\":\"" << jsonEsc(failNotes.substr(0, 2000))
               << "\",\"choices\":[";
            for (size_t k = 0; k < failChoices.size(); ++k) js << (k ? "," : "") << failChoices[k];
            js << "]}";
        }
        js << "}";
        if (failures >= o.maxFailures) break;
    }
    js << "]}\n";
    if (!o.out.empty()) {
        std::ofstream f(o.out);
        f << js.str();
    } else
        std::cout << js.str();
    return failures ? 1 : 0;
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
// coverage-guided mode: bytes -> (sub-property index, choices)
static std::vector<uint64_t> g_fuzzChoices;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (size < 2) return 0;
    auto &r = pbt::registry();
    const size_t idx = (data[0] | (data[1] << 8)) % r.size();
    g_fuzzChoices.clear();
    for (size_t i = 2; i < size;) {
        // variable width: tag byte gives 1, 2, 4 or 8 payload bytes
        const unsigned w = 1u << (data[i] & 3);
        ++i;
        uint64_t v = 0;
        for (unsigned k = 0; k < w && i < size; ++k, ++i) v |= uint64_t(data[i]) << (8 * k);
        g_fuzzChoices.push_back(v);
    }
    if (r[idx].name.compare(0, 3, "kf_") == 0) return 0;
    if (pbt::Src::crash) snprintf(pbt::Src::crash->subprop, sizeof pbt::Src::crash->subprop, "%s", r[idx].name.c_str());
    pbt::Src s;
    s.startReplay(g_fuzzChoices);
    try {
        r[idx].fn(s);
    } catch (const pbt::Discard &) {
    } catch (const pbt::Failure &f) {
        fprintf(stderr, "PBT-FAIL %s: %s\n", r[idx].name.c_str(), f.msg.c_str());
        abort();
    }
    return 0;
}
// the current case lies in the file named by PBT_FUZZ_STATE (as with --state), from where check.py replays it
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    pbt::Src::modulo = true;
    if (const char *p = getenv("PBT_FUZZ_STATE")) {
        int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(pbt::CrashState)) == 0) {
            void *m = mmap(nullptr, sizeof(pbt::CrashState), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) pbt::Src::crash = static_cast<pbt::CrashState *>(m);
        }
    }
    return 0;
}
#define PBT_MAIN
#else
#define PBT_MAIN                                                                         \
    int main(int argc, char **argv) { return pbt::pbtMain(argc, argv); }
#endif
