#!/usr/bin/env python3
"""coverage.py DIR [FILE]: what of the code under test no harness executes (development aid).

First: for every property ID, BANT_COV=DIR BANT_EVIDENCE=/tmp/x python3 run.py ID quick
"""
import sys, glob, collections, re
lines, br = collections.defaultdict(int), collections.defaultdict(int)
for f in glob.glob(sys.argv[1] + "/*.cov"):
    for l in open(f, errors="replace"):
        k, at, v = l.rsplit(" ", 2) if l.count(" ") > 2 else l.split()
        at = re.sub(r"^.*?/(bant|scripts)/", r"\1/", at)
        d = lines if k == "L" else br; d[at] |= int(v)
want = sys.argv[2] if len(sys.argv) > 2 else ""
miss = collections.defaultdict(list)
for at, v in lines.items():
    f, n = at.rsplit(":", 1)
    if not v: miss[f].append(int(n))
one = collections.defaultdict(set)
for at, v in br.items():
    if not v: f, n = at.split(":", 1); one[f].add(n)
for f in sorted(set(a.rsplit(":", 1)[0] for a in lines)):
    if want and want not in f: continue
    total = sum(1 for a in lines if a.rsplit(":", 1)[0] == f)
    print("%s: %d of %d lines not executed: %s" % (f, len(miss[f]), total, " ".join(map(str, sorted(miss[f])))))
    print("   branches never taken: " + " ".join(sorted(one[f], key=lambda x: [int(y) for y in re.findall(r"\d+", x)])))
