#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (claimed) and properties.jsonl (all)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
NA = {}
allp = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in allp:
    i = p["id"]
    if i not in PROPS:
        continue
    s = PROPS[i]
    checks.append(dict(
        property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="property-based testing: seeded generated inputs against a scalar reference model, with shrinking and replay"
                  + (s.get("technique_extra", "")),
        level="exploration",
        level_note=s.get("note", "Searches generated inputs; a pass means no counterexample among the cases counted in the evidence, "
                   "for the instruction sets scalar, SSE2, SSE3, SSSE3, SSE4.1, SSE4.2, AVX and AVX2 compiled with GCC "
                   "(thorough adds FMA, -O2/-O3, clang and ASan builds). Trusts the scalar reference written in the harness and the compiler; "
                   "XOP/FMA4/SSE4a, MIC and NEON code cannot run here.")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in allp if p["id"] not in PROPS],
         notes="All checks are generated-input searches (see DESIGN.md). No hooks in /repo are needed: the harnesses compile the headers and src/ of /repo's working tree directly.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(m["not_applicable"]), "not")
