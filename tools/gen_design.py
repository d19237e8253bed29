#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re, glob, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, V)
import importlib.util
from run import meta
notes = {}
cur = None
for l in open(T + "/design_notes.md"):
    g = re.match(r"## (C\d+)\s*$", l)
    if g: cur = g.group(1); notes[cur] = ""
    elif cur: notes[cur] += l
    else: pass
out = [open(T + "/design_intro.md").read().rstrip() + "\n\n## The properties\n"]
seeds = {}
res = V + "/seed-results.txt"
if os.path.exists(res):
    for l in open(res):
        f = l.rstrip("\n").split("\t")
        if len(f) >= 4: seeds.setdefault(f[1], []).append((f[0], f[2], f[3]))
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    out.append("### %s %s\n\n%s\n" % (i, d["title"], d["statement"]))
    out.append("*Why not tests:* %s\n" % d["why_tests_cant"])
    if i in notes: out.append(notes[i].strip() + "\n")
    for h in sorted(glob.glob("%s/harness/%s/*.cc" % (V, i))):
        m = meta(h)
        t = "- `%s/%s`: %s.\n  Bounds: %s." % (i, os.path.basename(h)[:-3], " ".join(m["TITLE"]), "; ".join(m["BOUND"]))
        if m["BOUND-THOROUGH"]: t += "\n  Thorough: %s." % "; ".join(m["BOUND-THOROUGH"])
        if m["ASSUME"]: t += "\n  Assumes: %s." % "; ".join(m["ASSUME"])
        if m["TIERS"]: t += "\n  Only in: %s." % " ".join(m["TIERS"])
        out.append(t)
    out.append("")
    if i in seeds: out.append("Planted changes: " + "; ".join("%s %s (%s)" % s for s in seeds[i]) + ".\n")
out.append(open(T + "/design_end.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
