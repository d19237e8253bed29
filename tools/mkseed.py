#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SEEDDIR: turn a scratch description into /verif/seeded/ID and confirm it.

SEEDDIR holds: edit.py (rewrites files below cwd), demo.cc (exit 0 = fine), srcs (repo sources, optional), needs, breaks.
Confirms: patch applies, repo unit tests pass, demo passes on the base and fails with the patch.
"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, src = sys.argv[1:4]; notests = "--notests" in sys.argv
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
dst = "%s/seeded/%s" % (V, sid); w = tempfile.mkdtemp(prefix="seed-"); repo = w + "/repo"
try:
    sh("git clone -q /repo %s" % repo)
    r = sh("python3 %s/edit.py" % os.path.abspath(src), cwd=repo)
    if r.returncode: sys.exit("edit failed: " + r.stdout)
    d = subprocess.run("git diff", shell=True, stdout=subprocess.PIPE, cwd=repo, text=True).stdout
    if not d: sys.exit("empty diff")
    base = sh("git log --format=%H --reverse", cwd=repo).stdout.split()[0]; f = None
    for l in d.splitlines():  # changed lines are those of the original
        if l.startswith("--- a/"): f = sh("git show %s:%s" % (base, l[6:]), cwd=repo).stdout.splitlines()
        elif l.startswith("-") and l[1:] not in f: sys.exit("not an original line: " + l)
    if os.path.exists(dst): shutil.rmtree(dst)
    os.makedirs(dst); open(dst + "/patch.diff", "w").write(d)
    rd = lambda n, dflt="": open(src + "/" + n).read().strip() if os.path.exists(src + "/" + n) else dflt
    json.dump({"property": prop, "needs": rd("needs"), "what_it_breaks": rd("breaks")}, open(dst + "/meta.json", "w"), indent=1)
    shutil.copy(src + "/demo.cc", dst + "/demo.cc")
    for a in ("absl", "re2"): shutil.copytree("%s/shim/%s" % (V, a), dst + "/shim/" + a)
    for f in os.listdir(src):
        if f.startswith("data"): shutil.copy(src + "/" + f, dst)
    srcs = rd("srcs").split()
    open(dst + "/demo.sh", "w").write("""#!/bin/bash
# Builds demo.cc with the repository's sources (cwd) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$T"' EXIT
R=$(pwd)
pids=""
i=0
for s in "$D/demo.cc"%s; do
  i=$((i+1))
  g++ -std=c++23 -O0 -w -I"$D/shim" -I"$R" -c "$s" -o "$T/$i.o" &
  pids="$pids $!"
done
for p in $pids; do wait $p || exit 3; done
g++ "$T"/*.o -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 60 ./demo
""" % "".join(' "$R/%s"' % s for s in srcs))
    os.chmod(dst + "/demo.sh", 0o755)
    b = sh("bash %s/demo.sh" % dst, cwd="/repo"); p = sh("bash %s/demo.sh" % dst, cwd=repo)
    ok = b.returncode == 0 and p.returncode not in (0, 3)
    print(sid, "demo base", b.returncode, "patched", p.returncode, "" if ok else "\nBASE " + b.stdout[-1500:] + "\nPATCHED " + p.stdout[-1500:])
    if not notests:
        t = sh("BANT_REPO=%s bash %s/tools/repo_tests.sh" % (repo, V))
        bad = [l for l in t.stdout.splitlines() if "exit 0" not in l]
        print("tests:", "all pass" if not bad else bad[:5]); ok = ok and not bad
    if not ok: shutil.move(dst, "/tmp/failed-seed-" + sid) if not os.path.exists("/tmp/failed-seed-" + sid) else shutil.rmtree(dst); sys.exit(1)
finally: shutil.rmtree(w, ignore_errors=True)
