#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the harness directories."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
nap = V + "/tools/not_applicable.json"
if os.path.exists(nap): NA = json.load(open(nap))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    hs = sorted(glob.glob("%s/harness/%s/*.cc" % (V, p)))
    if hs and p not in NA:
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": "bounded symbolic execution of the compiled code (LLVM IR) with z3", "level": "model_checking",
            "level_note": "Every path of the real code within the bounds listed in the evidence is explored and each assertion decided by z3 for all symbolic values; counterexamples are replayed against a native ASan build. Trusts clang's IR, the engine, and the stand-ins in shim/ for absl, re2, iostreams and system calls; nothing beyond the bounds is covered."})
    else: na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "make -j8 -C engine", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
