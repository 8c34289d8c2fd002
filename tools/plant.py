#!/usr/bin/env python3
"""Develop planted bugs: plant.py SPECFILE [ids...]   (never touches /repo itself)

SPECFILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ source, flags='-msse2 ...', lib=bool)].
For each bug: scratch copy of /repo, edit, patch.diff; in a private mount namespace (scratch copy bound over /repo) build, run the
stable tests and the demo; the demo is also run on the unchanged copy.  Kept in /verif/seeded/<id> when all is confirmed."""
import importlib.util, json, os, shutil, subprocess, sys
SEEDED = "/verif/seeded"
W = "/tmp/plant"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(repo, cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (repo, cmd))
DEMO = """#!/bin/bash
# exit 0: behaves as specified; exit 1: the property is broken
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
{pre}{cxx} -std=c++14 {flags} -w -I. "$here/demo.cpp" {lib} -o "$t/demo"
"$t/demo"
"""
def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    base = W + "/repo"
    os.makedirs(W, exist_ok=True)
    sh("rm -rf %s; cp -a /repo %s" % (base, base))
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        d = os.path.join(W, "s_" + b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        lib = "_build/libVc.a" if b.get("lib", True) else ""
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO.format(pre=b.get("pre", ""), cxx=b.get("cxx", "g++"), flags=b.get("flags", "-O1 -msse2"), lib=lib)); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("git -C %s checkout -q -- ." % base)
        r = ns(base, "bash %s/demo.sh" % d)
        if r.returncode: print(b["id"], "DEMO FAILS ON CLEAN:", r.stdout[-1500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(base, f); t = open(p).read()
            n = t.count(old)
            if n != 1: print(b["id"], "edit matches %d times in %s: %r" % (n, f, old[:80])); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % base).stdout)
        if b.get("lib", True) or True:
            r = ns(base, "bash /opt/vp/test.sh %s/out.json" % W)
            try: res = json.load(open(W + "/out.json"))
            except Exception: res = {"passed": [], "failed": ["?"]}
            want = json.load(open("/opt/vp/BASELINE.json"))
            want = want if isinstance(want, list) else want.get("stable") or want.get("passed") or want
            if res.get("failed") or len(res.get("passed", [])) < 5: print(b["id"], "STABLE TESTS:", res, r.stdout[-1500:]); continue
        r = ns(base, "bash %s/demo.sh" % d)
        if r.returncode == 0: print(b["id"], "DEMO PASSES WITH THE BUG"); continue
        sh("git -C %s checkout -q -- ." % base)
        dst = os.path.join(SEEDED, b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); shutil.rmtree(d)
        print(b["id"], "kept; demo says:", r.stdout.strip().splitlines()[-1:] , flush=True)
main()
