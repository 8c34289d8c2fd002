#!/usr/bin/env python3
"""Property checks for Vc: builds the harness of one property against /repo's working tree for
several instruction-set configurations, searches generated inputs, shrinks and replays failures.

usage: check.py <ID> [--tier quick|thorough] [--seed N] [--configs a,b] [--only SUB] [--cases-mult X]
       check.py <ID> --replay FILE
       check.py --setup
"""
import argparse, glob, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS, CONFIGS, QUICK, THOROUGH  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 1)
KNOWN = os.path.join(VERIF, "known_findings.txt")

LIB_SETS = {  # mirrors CMakeLists.txt
    "base": [("const.cpp", None), ("cpuid.cpp", None), ("support_x86.cpp", None)],
    "sort": [("sse_sorthelper.cpp", i) for i in ("SSE2", "SSE4_1", "AVX", "AVX2+FMA+BMI2")]
            + [("avx_sorthelper.cpp", i) for i in ("AVX", "AVX2+FMA+BMI2")],
    "trig": [("trigonometric.cpp", i) for i in
             # AVX+FMA defines the same symbols as AVX, which comes first in the archive
             ("SSE2", "SSE3", "SSSE3", "SSE4_1", "AVX", "AVX2+FMA+BMI2")],
}
IMPL_FLAGS = {
    "SSE2": ["-msse2"], "SSE3": ["-msse3"], "SSSE3": ["-mssse3"], "SSE4_1": ["-msse4.1"],
    "AVX": ["-mavx"], "AVX+FMA": ["-mavx", "-mfma"], "AVX2+FMA+BMI2": ["-march=core-avx2"],
}


class CheckError(Exception):
    pass


class BuildFailure(Exception):
    """the compiler or linker rejected code: an operation of the property cannot even be used"""
    def __init__(self, what, err):
        Exception.__init__(self, what)
        self.what, self.err = what, err


def reject(what, err):
    low = err.lower()
    if ("error:" in low or "undefined reference" in low) and not any(
            t in low for t in ("killed", "out of memory", "no space left", "cannot allocate", "internal compiler error")):
        raise BuildFailure(what, err)
    raise CheckError("%s: %s" % (what, err[-4000:]))


def run(cmd, timeout=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def compile_cmd(cfg, src, out, extra):
    c = CONFIGS[cfg]
    cxx = c.get("cxx", "g++")
    return [cxx, "-std=c++14", c.get("opt", "-O1"), "-ffp-contract=off", "-w", "-fmax-errors=3" if cxx == "g++" else "-ferror-limit=3",
            "-I" + REPO, "-I" + HARNESS, '-DPBT_CONFIG="%s"' % cfg] + c["flags"] + extra + ["-c", src, "-o", out]


def tagname(src):
    return re.sub(r"[^A-Za-z0-9]+", "_", src.replace(".cpp", ""))


def known_subs(prop):
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) sub=(\S+) msg=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = (m.group(3), m.group(4))
    return res


def compile_emulated(cmd, out):
    """compiles with every cpuid and xgetbv instruction replaced by an illegal instruction followed by a
    marker byte, so that the harness can emulate them in its SIGILL handler (see harness/p01.cpp)"""
    asm = out[:-2] + ".s"
    c = list(cmd)
    c[c.index("-c")] = "-S"
    c[c.index("-o") + 1] = asm
    rc, o, err = run(c)
    if rc:
        return rc, o, err
    text = open(asm).read()
    for ins, mark in (("cpuid", 0x43), ("xgetbv", 0x58)):
        text = re.sub(r"(?m)(^|;)([ \t]*)%s[ \t]*(?=$|;|#)" % ins, r"\1\2ud2; .byte %d" % mark, text)
    open(asm, "w").write(text)
    return run([cmd[0], "-c", asm, "-o", out])


class Builder:
    def __init__(self, bdir, emulate=False):
        self.dir = bdir
        self.compile = (lambda cmd, out: compile_emulated(cmd, out)) if emulate else (lambda cmd, out: run(cmd))

    def lib_obj(self, src, impl, kind):
        """compile one libVc object the way the project's build does"""
        name = "%s_%s_%s.o" % (kind, tagname(src), impl or "base")
        out = os.path.join(self.dir, name)
        cxx = "clang++" if kind == "clang" else "g++"
        cmd = [cxx, "-std=c++14", "-O2", "-DNDEBUG", "-w", "-fPIC", "-DVc_COMPILE_LIB", "-I" + REPO]
        if cxx == "g++":
            cmd += ["-fabi-version=0", "-ffp-contract=fast"]
        if impl:
            cmd += ["-DVc_IMPL=" + impl] + IMPL_FLAGS[impl]
        cmd += ["-c", os.path.join(REPO, "src", src), "-o", out]
        rc, _, err = self.compile(cmd, out)
        if rc:
            reject("cannot compile %s" % src, err)
        return out

    def harness_obj(self, src, cfg, extra):
        out = os.path.join(self.dir, "%s_%s.o" % (tagname(src), cfg))
        f, *defs = src.split(":")  # "file.cpp:NAME=VALUE:..." compiles file.cpp with these defines
        rc, _, err = self.compile(compile_cmd(cfg, os.path.join(HARNESS, f), out, extra + ["-D" + d for d in defs]), out)
        if rc:
            reject("cannot compile %s for %s" % (src, cfg), err)
        return out

    def plugin(self, src, cfg, libs):
        """a shared object next to the harness binary, which loads it at run time"""
        flags = ["-fPIC", "-fvisibility=hidden"] + ([] if CONFIGS[cfg].get("cxx") == "clang++" else ["-fno-gnu-unique"])
        obj = self.harness_obj(src, cfg, flags)
        return self.link(cfg, [obj] + libs, "%s_%s.so" % (tagname(src), cfg), ["-shared", "-Wl,-Bsymbolic"])

    def link(self, cfg, objs, name, flags=[]):
        c = CONFIGS[cfg]
        out = os.path.join(self.dir, name)
        rc, _, err = run([c.get("cxx", "g++")] + c.get("ldflags", []) + flags + objs + ["-o", out])
        if rc:
            reject("cannot link %s" % name, err)
        return out


def kind_of(cfg):
    return "clang" if CONFIGS[cfg].get("cxx") == "clang++" else "gcc"


def build_all(prop, jobs, bdir, thorough=False):
    """jobs: list of (source, cfg, extra flags).  Returns {(source, cfg): binary}"""
    spec = PROPS[prop]
    b = Builder(bdir, spec.get("emulate_cpuid", False))
    plugins = [(p, c) for s in spec["sources"] if any(j[0] == s["src"] for j in jobs) for p in s.get("plugins", [])
               for c in s["thorough_plugin_configs" if thorough else "plugin_configs"]]
    kinds = sorted({kind_of(c) for c in [j[1] for j in jobs] + [p[1] for p in plugins]})
    with cf.ThreadPoolExecutor(NPROC) as ex:
        order = sorted(jobs, key=lambda j: -CONFIGS[j[1]].get("cost", 1))
        hf = {(s, c): ex.submit(b.harness_obj, s, c, x) for s, c, x in order}
        lf = {k: [ex.submit(b.lib_obj, s, i, k) for ls in ["base"] + spec.get("lib", []) for s, i in LIB_SETS[ls]]
              for k in kinds}
        bins, rejected = {}, []
        libs = {}
        for k, v in lf.items():
            libs[k] = []
            for f in v:
                try:
                    libs[k].append(f.result())
                except BuildFailure as e:
                    rejected.append(("lib", k, e))
        pf = {(p, c): ex.submit(b.plugin, p, c, libs[kind_of(c)])
              for p, c in sorted(plugins, key=lambda j: -CONFIGS[j[1]].get("cost", 1)) if not any(r[0] == "lib" for r in rejected)}
        for (p, c), f in pf.items():
            try:
                f.result()
            except BuildFailure as e:
                rejected.append((p, c, e))
        for (s, c), f in hf.items():
            k = kind_of(c)
            try:
                obj = f.result()
                if not any(r[0] == "lib" for r in rejected):
                    bins[(s, c)] = b.link(c, [obj] + libs[k], "%s_%s" % (tagname(s), c))
            except BuildFailure as e:
                rejected.append((s, c, e))
    return bins, rejected


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:handle_abort=0:use_sigaltstack=0", LC_ALL="C")


def run_bin(binary, args, timeout):
    try:
        p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


def read_state(path):
    import struct
    try:
        d = open(path, "rb").read()
    except OSError:
        return None
    if len(d) < 264:
        return None
    sub = d[:256].split(b"\0")[0].decode()
    n = struct.unpack_from("<Q", d, 256)[0]
    n = min(n, (len(d) - 264) // 8)
    return sub, list(struct.unpack_from("<%dQ" % n, d, 264))


def write_choices(path, sub, choices):
    with open(path, "w") as f:
        f.write(sub + "\n" + " ".join(map(str, choices)) + "\n")


def confirm(binary, sub, choices, bdir, tag):
    """replays the case three times; returns (confirmed, output of last run)"""
    f = os.path.join(bdir, tag + ".choices")
    write_choices(f, sub, choices)
    last = ""
    for _ in range(3):
        rc, out, err = run_bin(binary, ["--replay", f], 300)
        if rc == 0 or rc is None or rc in (2, 3):
            return False, out + err
        last = out + err[-1500:]
    return True, last


def rerun_fails(binary, run_, cfg, sub, bdir):
    """repeats the whole run of one sub-property (failures that need the history of earlier cases)"""
    out = os.path.join(bdir, "rerun.json")
    if os.path.exists(out):
        os.unlink(out)
    rc, _, _ = run_bin(binary, ["--seed", str(run_[0]), "--cases", str(run_[1]), "--config", cfg, "--only", sub, "--out", out], 600)
    if rc == 77 or (rc is not None and rc < 0):
        return True
    try:
        return any(x["name"] == sub and "fail" in x for x in json.load(open(out))["subs"])
    except (OSError, ValueError):
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--configs")
    ap.add_argument("--only", default="")
    ap.add_argument("--cases-mult", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        print("setup ok: checks compile their harness from", REPO, "on every run")
        return 0
    if a.prop not in PROPS:
        print("unknown property", a.prop)
        return 2
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vcchk_%s_" % a.prop)
    try:
        if a.replay:
            return replay(a, bdir)
        return check(a, bdir, t0)
    except CheckError as e:
        print("ERROR", e)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print("build dir", bdir)


def replay(a, bdir):
    d = json.load(open(a.replay))
    bins, rejected = build_all(a.prop, [(d["source"], d["config"], d.get("flags", []))], bdir, d.get("tier") == "thorough")
    if rejected:
        print(rejected[0][2].what, rejected[0][2].err[-3000:])
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    if "run" in d:
        binary = bins[(d["source"], d["config"])]
        ok = all(rerun_fails(binary, d["run"], d["config"], d["sub"], bdir) for _ in range(2))
        if ok:
            print(d["message"])
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1 if ok else 0
    ok, out = confirm(bins[(d["source"], d["config"])], d["sub"], d["choices"], bdir, "replay")
    print(out)
    if ok:
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    return 0


def plain_only(spec):
    return spec.get("emulate_cpuid") or any(s.get("plugins") for s in spec["sources"])


FUZZ_CFGS = ["clang_sse2", "clang_avx2"]


def fuzz_stage(a, bdir, bins, failures, errors):
    """coverage-guided search (libFuzzer drives the choice sequences of the same generators and oracles); a failing case is
    replayed by the ordinary binary of the same configuration like any other one.  Returns the number of evaluations."""
    jobs = [(s, c) for s, c in bins if c in FUZZ_CFGS]
    secs = max(10, int(float(os.environ.get("VERIF_FUZZ_SECONDS", "600")) / max(1, len(jobs))))

    def one(j):
        src, cfg = j
        tag = "fuzz_%s_%s" % (tagname(src), cfg)
        f, *defs = src.split(":")
        obj, exe, state = (os.path.join(bdir, tag + x) for x in (".o", "", ".state"))
        rc, _, err = run(compile_cmd(cfg, os.path.join(HARNESS, f), obj, ["-DPBT_LIBFUZZER", "-fsanitize=fuzzer-no-link"] + ["-D" + d for d in defs]))
        if rc:
            return j, tag, None, state, err
        # the library objects are those of the ordinary build
        libs = sorted(glob.glob(os.path.join(bdir, "clang_*.o")))
        rc, _, err = run(["clang++", "-fsanitize=fuzzer", obj] + libs + ["-o", exe])
        if rc:
            return j, tag, None, state, err
        corpus = os.path.join(bdir, tag + ".corpus")
        os.makedirs(corpus, exist_ok=True)
        p = subprocess.run([exe, "-seed=%d" % a.seed, "-max_total_time=%d" % secs, "-max_len=2000", "-len_control=20", "-timeout=60", "-rss_limit_mb=3000",
                            "-print_final_stats=1", "-use_value_profile=1", corpus], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=corpus,
                           env=dict(os.environ, PBT_FUZZ_STATE=state, LC_ALL="C"))
        return j, tag, p.returncode, state, p.stdout.decode("utf-8", "replace")

    total = 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (src, cfg), tag, rc, state, log in ex.map(one, jobs):
            if rc is None:
                errors.append("%s: %s" % (tag, log[-800:]))
                continue
            m = re.findall(r"stat::number_of_executed_units: *(\d+)", log) or re.findall(r"#(\d+)", log)[-1:]
            total += int(m[0]) if m else 0
            if rc:
                st = read_state(state)
                if not st:
                    errors.append("%s: exit %s %s" % (tag, rc, log[-800:]))
                    continue
                cfile = os.path.join(bdir, tag + ".crash")
                write_choices(cfile, st[0], st[1])
                run_bin(bins[(src, cfg)], ["--replay", cfile, "--shrink-fork"], 600)
                lines = open(cfile).read().split("\n")
                failures.append((src, cfg, bins[(src, cfg)], lines[0], [int(x) for x in lines[1].split()],
                                 "found by libFuzzer: " + "".join(re.findall(r"PBT-FAIL.*", log))[:1500], "", tag, (a.seed, 1)))
    return total


def check(a, bdir, t0):
    spec = PROPS[a.prop]
    thorough = a.tier == "thorough"
    known = known_subs(a.prop)
    jobs = []
    for s in spec["sources"]:
        cfgs = s.get("thorough_configs" if thorough else "configs") or (THOROUGH if thorough else QUICK)
        if a.configs:
            cfgs = a.configs.split(",")
        for c in cfgs:
            jobs.append((s["src"], c, s.get("flags", [])))
    bins, rejected = build_all(a.prop, jobs, bdir, thorough)
    tbuild = time.time() - t0
    nseeds = spec.get("thorough_seeds", 3) if thorough else spec.get("seeds", 1)
    seeds = [a.seed] if nseeds == 1 else [a.seed * 1000 + k for k in range(nseeds)]
    runs = []
    for (src, cfg), binary in bins.items():
        s = [x for x in spec["sources"] if x["src"] == src][0]
        cases = s["cases"] * (max(3, spec.get("thorough_mult", 10)) if thorough else spec.get("quick_mult", 3)) * a.cases_mult / CONFIGS[cfg].get("slow", 1)
        for sd in seeds:
            runs.append((src, cfg, binary, sd, max(1, int(cases))))

    def one(r):
        src, cfg, binary, sd, cases = r
        tag = "%s_%s_%d" % (tagname(src), cfg, sd)
        out, state = os.path.join(bdir, tag + ".json"), os.path.join(bdir, tag + ".state")
        args = ["--seed", str(sd), "--cases", str(cases), "--config", cfg, "--out", out, "--state", state]
        only = a.only or [x for x in spec["sources"] if x["src"] == src][0].get("only")
        if only:
            args += ["--only", only]
        rc, so, se = run_bin(binary, args, 800 if not thorough else 20000)
        return r, tag, rc, out, state, so, se

    subs_total, evals, nontriv, discards = 0, 0, 0, 0
    samples, failures, per_config = [], [], {}
    errors = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, tag, rc, out, state, so, se in ex.map(one, runs):
            src, cfg, binary, sd, cases = r
            if rc in (0, 1) and os.path.exists(out):
                d = json.load(open(out))
                for sub in d["subs"]:
                    subs_total += 1
                    evals += sub["evals"]
                    nontriv += sub["nontrivial"]
                    discards += sub["discards"]
                    pc = per_config.setdefault(cfg, [0, 0])
                    pc[0] += sub["evals"]
                    pc[1] += sub["nontrivial"]
                    if sub["samples"]:
                        samples.append("%s %s: %s" % (cfg, sub["name"], sub["samples"][-1]))
                    if "fail" in sub:
                        f = sub["fail"]
                        failures.append((src, cfg, binary, sub["name"], f["choices"], f["msg"], f["case"], tag, (sd, cases)))
            elif rc == 77 or (rc is not None and rc < 0):
                st = read_state(state)
                if not st:
                    errors.append("%s died (%s) without a recorded case: %s" % (tag, rc, se[-500:]))
                    continue
                cfile = os.path.join(bdir, tag + ".crash")
                write_choices(cfile, st[0], st[1])
                run_bin(binary, ["--replay", cfile, "--shrink-fork"], 600)
                lines = open(cfile).read().split("\n")
                failures.append((src, cfg, binary, lines[0], [int(x) for x in lines[1].split()],
                                 "process died: " + se[-1500:], "", tag, (sd, cases)))
            else:
                errors.append("%s: exit %s %s" % (tag, rc, (so + se)[-800:]))
    fuzzed = 0
    if thorough and not plain_only(spec):
        fuzzed = fuzz_stage(a, bdir, bins, failures, errors)
        evals += fuzzed
    violations, known_hit = [], []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for src, cfg, e in rejected:
        path = os.path.join(VERIF, "replays", "%s-build-%s-%s.json" % (a.prop, tagname(src), cfg))
        s = [x for x in spec["sources"] if x["src"] == src] or spec["sources"]
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, tier=a.tier, source=s[0]["src"], config=cfg if cfg in CONFIGS else "sse2", flags=s[0].get("flags", []),
                           sub="build", choices=[], message=e.what, case=e.err[-4000:],
                           how="python3 check.py %s --replay %s" % (a.prop, path)), f, indent=1)
        violations.append((path, cfg, "build", "an operation of the property is rejected by the compiler: " + e.what, e.err[:1500]))
    for k, (src, cfg, binary, sub, choices, msg, case, tag, run_) in enumerate(failures):
        ok, out = confirm(binary, sub, choices, bdir, "%s_c%d" % (tag, k))
        extra = {}
        if not ok and rerun_fails(binary, run_, cfg, sub, bdir) and rerun_fails(binary, run_, cfg, sub, bdir):
            ok, extra = True, dict(run=list(run_))
        if not ok:
            errors.append("failure of %s/%s does not replay: %s" % (cfg, sub, msg))
            continue
        base = sub.split("<")[0]
        if base in known and base.startswith("kf_") and known[base][0] in msg:
            known_hit.append((base, sub, cfg))
            continue
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%d.json" % (a.prop, tagname(src), cfg, k))
        s = [x for x in spec["sources"] if x["src"] == src][0]
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, tier=a.tier, source=src, config=cfg, flags=s.get("flags", []), sub=sub,
                           choices=choices, message=msg, case=case, **extra, how="python3 check.py %s --replay %s" % (a.prop, path)), f, indent=1)
        violations.append((path, cfg, sub, msg, case))
    for base in sorted({b for b, _, _ in known_hit}):
        where = sorted({c for b, _, c in known_hit if b == base})
        print("KNOWN-FINDING: property=%s %s [%s]" % (a.prop, known[base][1], ",".join(where)))
    for path, cfg, sub, msg, case in violations[:12]:
        print("-- %s %s\n   %s\n   case: %s" % (cfg, sub, msg[:700], case[:500]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    step = max(1, len(samples) // 12)
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv,
                            rule=spec["rule"], samples=samples[::step][:14], discarded=discards,
                            sub_properties_run=subs_total,
                            per_config={c: dict(evaluations=v[0], distinct_nontrivial=v[1]) for c, v in sorted(per_config.items())},
                            coverage_guided_evaluations=fuzzed,
                            known_findings_seen=sorted({b for b, _, _ in known_hit})),
              assumptions=spec.get("assumptions", []), violations=len(violations),
              wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d sub-properties, build %.1fs, total %.1fs" %
          (a.prop, evals, nontriv, subs_total, tbuild, time.time() - t0))
    if violations:
        return 1
    if errors:
        print("ERROR", "\n".join(errors[:5]))
        return 2
    if evals == 0:
        print("ERROR no cases were run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
