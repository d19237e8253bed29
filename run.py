#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

usage: run.py <ID> [quick|thorough] [--keep] [--only HARNESS]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: machinery failure.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("BANT_REPO", "/repo")
BUILD = os.path.join(V, "build")
CLANG = "clang++-18"
BASE = ["-std=c++23", "-fno-exceptions", "-fno-rtti", "-w", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS",
        "-I%s/shim/std" % V, "-I%s/shim" % V, "-I" + REPO]
SYM = ["-O2", "-fno-pic", "-DSYMBOLIC=1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", "-Xclang", "-no-opaque-pointers"][:-2]
COV = os.environ.get("BANT_COV", "")  # directory for coverage of the code under test (development aid)
if COV: SYM.append("-gline-tables-only")
NAT = ["-O1", "-ffunction-sections", "-fdata-sections", "-DNATIVE=1", "-fsanitize=address", "-fno-omit-frame-pointer", "-c"]

class Machinery(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def engine():
    """Build the engine if it is missing or older than its sources."""
    r = sh(["make", "-j8", "-C", os.path.join(V, "engine")])
    if r.returncode != 0 or not os.path.exists(BUILD + "/symex"): raise Machinery("engine build failed:\n" + r.stdout[-3000:])

def meta(path):
    m = {"SRCS": [], "FLAGS": [], "COVER": [], "BOUND": [], "BOUND-THOROUGH": [], "ASSUME": [], "TIME": [], "STEPS": [], "TITLE": [], "WRAP": [], "EXTRA": [], "TIERS": [], "COVER-THOROUGH": [], "KNOWN": []}
    for line in open(path):
        g = re.match(r"//\s*@([A-Z-]+):\s*(.*)$", line)
        if g and g.group(1) in m:
            if g.group(1) in ("SRCS", "FLAGS", "COVER", "COVER-THOROUGH", "WRAP", "EXTRA", "TIERS"): m[g.group(1)] += g.group(2).split()
            else: m[g.group(1)].append(g.group(2).strip())
    return m

def known_findings():
    """Findings on the current tree that are recorded, not repaired: id -> (property, text)."""
    r = {}
    p = V + "/known-findings.txt"
    for l in (open(p) if os.path.exists(p) else []):
        g = re.match(r"known: property=(\S+) id=(\w+) (.*)$", l)
        if g: r[g.group(2)] = (g.group(1), g.group(3))
    return r

def compile_all(h, m, work):
    srcs = []
    for s in m["SRCS"]:
        p = os.path.join(REPO, s)
        if not os.path.exists(p): raise Machinery("source %s does not exist in the repository" % s)
        srcs.append(p)
    mine = [h] + [os.path.join(V, e) for e in m["EXTRA"]]
    jobs = []
    flags = [f.replace("@V", V).replace("@REPO", REPO) for f in m["FLAGS"]] + ["-DKNOWN_" + k for k in known_findings()]
    for i, s in enumerate(srcs + mine):
        jobs.append((s, "%s/s%d.bc" % (work, i), [CLANG] + BASE + SYM + flags + ["-I" + os.path.dirname(h), "-I" + V + "/harness", s, "-o", "%s/s%d.bc" % (work, i)]))
        jobs.append((s, "%s/n%d.o" % (work, i), [CLANG] + BASE + NAT + flags + ["-I" + os.path.dirname(h), "-I" + V + "/harness", s, "-o", "%s/n%d.o" % (work, i)]))
    rt = V + "/runtime/runtime.cc"
    jobs.append((rt, work + "/srt.bc", [CLANG] + BASE + SYM + ["-fno-builtin", rt, "-o", work + "/srt.bc"]))
    rp = V + "/runtime/replay.cc"
    jobs.append((rp, work + "/nrp.o", [CLANG, "-std=c++20", "-w", "-O1", "-fsanitize=address", "-c", rp, "-o", work + "/nrp.o"]))
    with ThreadPoolExecutor(8) as ex:
        for (s, o, c), r in zip(jobs, ex.map(lambda j: sh(j[2]), jobs)):
            if r.returncode != 0: raise Machinery("compiling %s failed: %s\n%s" % (s, " ".join(c), r.stdout[-4000:]))
    wraps = ["-Wl,--wrap=" + w for w in m["WRAP"]]
    names = ["%d" % i for i in range(len(srcs + mine))]
    link = lambda: sh([CLANG, "-fsanitize=address", "-Wl,--gc-sections"] + wraps + ["%s/n%s.o" % (work, i) for i in names] + [work + "/nrp.o", "-o", work + "/native", "-lpthread"])
    r = link()
    if r.returncode != 0 and "undefined reference" in r.stdout:  # code moved elsewhere: find the other files needed
        names += more_sources(srcs, flags, names, work, m["WRAP"]); r = link()
    if r.returncode != 0: raise Machinery("native link failed:\n" + r.stdout[-4000:])
    r = sh(["llvm-link-18", "-o", work + "/all.bc"] + ["%s/s%s.bc" % (work, i) for i in names] + [work + "/srt.bc"])
    if r.returncode != 0: raise Machinery("llvm-link failed:\n" + r.stdout[-4000:])

def more_sources(srcs, flags, names, work, wrapped):
    """Repository sources, beyond those listed, that define symbols the listed ones need (transitively)."""
    cand = [p for p in sorted(glob.glob(REPO + "/bant/*.cc") + glob.glob(REPO + "/bant/*/*.cc")) if p not in srcs and not p.endswith(("_test.cc", "/bant.cc"))]
    jobs = []
    for i, s in enumerate(cand):
        jobs.append(["sh", "-c", " ".join([CLANG] + BASE + NAT + flags + [s, "-o", "%s/nx%d.o" % (work, i)])])
        jobs.append(["sh", "-c", " ".join([CLANG] + BASE + SYM + flags + [s, "-o", "%s/sx%d.bc" % (work, i)])])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    def syms(o):
        d, u = set(), set()
        for l in sh(["nm", o]).stdout.splitlines():
            f = l.split()
            if len(f) >= 2: (u if f[-2] == "U" else d if f[-2] in "TDBRVW" else set()).add(f[-1])
        return d, u
    have, need = set(), set()
    for n in names: d, u = syms("%s/n%s.o" % (work, n)); have |= d; need |= u
    tab = {i: syms("%s/nx%d.o" % (work, i)) for i in range(len(cand)) if os.path.exists("%s/nx%d.o" % (work, i)) and os.path.exists("%s/sx%d.bc" % (work, i))}
    add = []
    while True:
        miss = need - have; pick = [i for i in tab if i not in add and any(x in tab[i][0] and "bant" in x for x in miss)]
        if not pick: return ["x%d" % i for i in add]
        for i in pick: add.append(i); have |= tab[i][0]; need |= tab[i][1]

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
def native(work, f, fill=0xbe, timeout=60, verbose=False):
    env = dict(os.environ, ASAN_OPTIONS=ASAN + ":malloc_fill_byte=%d:max_malloc_fill_size=4096" % fill)
    if verbose: env["SYM_VERBOSE"] = "1"
    try: r = subprocess.run([work + "/native", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return None, "timeout"
    return r.returncode, r.stdout

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]; pid = args[0]; tier = (args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick"))
    keep = "--keep" in sys.argv; only = [a.split("=")[1] for a in sys.argv if a.startswith("--only=")]
    t0 = time.time(); ev = os.environ.get("BANT_EVIDENCE", os.path.join(V, "evidence")); os.makedirs(ev, exist_ok=True)
    harnesses = sorted(glob.glob("%s/harness/%s/*.cc" % (V, pid)))
    if only: harnesses = [h for h in harnesses if os.path.basename(h)[:-3] in only]
    if not harnesses: print("no harness for", pid); return 2
    status = 0; results = []; viols = []
    try:
        engine()
        for h in harnesses:
            m = meta(h); name = os.path.basename(h)[:-3]
            if m["TIERS"] and tier not in m["TIERS"]: continue
            work = tempfile.mkdtemp(prefix="bantsym-%s-%s-" % (pid, name))
            try:
                th = time.time(); compile_all(h, m, work); tc = time.time() - th
                limit = m["TIME"][0].split() if m["TIME"] else ["300", "780"]
                lim = float(limit[0] if tier == "quick" else limit[-1])
                out = work + "/out"; os.makedirs(out)
                cmd = [BUILD + "/symex", "--out", out, "--time", str(lim), "--procs", os.environ.get("SYM_PROCS", "8"), "--tier", "1" if tier == "thorough" else "0"]
                if m["STEPS"]: cmd += ["--max-steps", m["STEPS"][0]]
                if COV: cmd += ["--cov", "%s/%s.%s.cov" % (COV, pid, name)]
                r = sh(cmd + [work + "/all.bc"])
                log = r.stdout
                if not os.path.exists(out + "/result.json") or r.returncode not in (0, 1, 3):
                    raise Machinery("%s/%s: engine failed (exit %s):\n%s" % (pid, name, r.returncode, log[-3000:]))
                res = json.load(open(out + "/result.json"), strict=False)
                if res["failed"]: raise Machinery("%s/%s: engine failed:\n%s" % (pid, name, log[-3000:]))
                real = 0
                for vf in sorted(glob.glob(out + "/viol-*.txt")):
                    head = dict(l.rstrip("\n").split(" ", 1) for l in open(vf, errors="replace") if l.split(" ", 1)[0] in ("kind", "msg", "at") and " " in l)
                    ok = False; txt = ""
                    for fill in (0xbe, 0x00, 0xff):
                        rc, txt = native(work, vf, fill, verbose=True)
                        if rc is None and head.get("kind") in ("steplimit",): ok = True; break
                        if rc is not None and rc not in (0, 77, 78): ok = True; break
                    dst = "%s/%s.%s.%s" % (ev, pid, name, os.path.basename(vf))
                    with open(dst, "w") as f:
                        f.write(open(vf, errors="replace").read()); f.write("\n# native replay (reproduced=%s)\n" % ok + "".join("# " + l + "\n" for l in txt.splitlines()[:60]))
                    viols.append(dict(harness=name, ok=ok, path=dst, **head)); real += ok
                    print("%s/%s: %s: %s\n   at %s\n   native replay %s" % (pid, name, head.get("kind"), head.get("msg"), head.get("at"), "reproduces it" if ok else "DOES NOT reproduce it"))
                    for l in txt.splitlines()[:25]: print("   | " + l)
                nbad = sum(1 for v in viols if v["harness"] == name and not v["ok"])
                # validate sampled paths against the native build
                samples = sorted(glob.glob(out + "/sample-*.txt")); bad = []
                with ThreadPoolExecutor(8) as ex:
                    for sf, (rc, txt) in zip(samples, ex.map(lambda s: native(work, s), samples)):
                        if rc != 0: bad.append((sf, rc, txt))
                res["native_validated"] = len(samples) - len(bad)
                if not real:
                    if nbad: raise Machinery("%s/%s: engine reports a violation that the native build does not reproduce" % (pid, name))
                    if bad:
                        shutil.copy(bad[0][0], "%s/%s.%s.badsample.txt" % (ev, pid, name))
                        raise Machinery("%s/%s: %d of %d sampled paths differ natively (exit %s):\n%s" % (pid, name, len(bad), len(samples), bad[0][1], bad[0][2][-1500:]))
                    if res["incomplete"]: raise Machinery("%s/%s: exploration incomplete within %.0f s (%d paths)\n%s" % (pid, name, lim, res["paths"], log[-1500:]))
                    need = m["COVER"] + (m["COVER-THOROUGH"] if tier == "thorough" else [])
                    miss = [c for c in need if c not in res["cover"]]
                    if miss: raise Machinery("%s/%s: vacuous, never reached: %s" % (pid, name, miss))
                    if not res["paths"]: raise Machinery("%s/%s: no path finished" % (pid, name))
                res.update(harness=name, compile_s=round(tc, 1), srcs=m["SRCS"], bound=(m["BOUND-THOROUGH"] if tier == "thorough" and m["BOUND-THOROUGH"] else m["BOUND"]), assume=m["ASSUME"], title=m["TITLE"])
                results.append(res)
                print("%s/%s: %d paths, %d asserts, %d z3 queries (%.1fs), %.1fs explore, %.1fs compile, %d samples validated, max path %d, cover %s%s" % (pid, name, res["paths"], res["assertions"], res["z3_queries"], res["z3_seconds"], res["wall_s"], tc, res["native_validated"], res["max_path_instructions"], json.dumps(res["cover"]), " INCOMPLETE" if res["incomplete"] else ""))
                for k, (kp, kt) in known_findings().items():
                    if "known:" + k in res["cover"]: print("KNOWN-FINDING: property=%s %s" % (kp, kt))
                sys.stdout.flush()
                if os.environ.get("SYM_VERBOSE_LOG"): print(log)
            finally:
                if keep: print("work dir:", work)
                else: shutil.rmtree(work, ignore_errors=True)
    except Machinery as e:
        if not any(v["ok"] for v in viols):
            print("MACHINERY-FAILURE:", e); return 2
        print("note:", e)
    for v in viols:
        if v["ok"]: print("VIOLATION property=%s replay=%s" % (pid, v["path"])); status = 1
    import evidence
    if results or viols: evidence.write(ev, pid, tier, results, viols, time.time() - t0, status)
    print("%s %s: %s in %.0f s" % (pid, tier, "held" if status == 0 else "violated", time.time() - t0))
    return status

if __name__ == "__main__":
    sys.path.insert(0, os.path.join(V, "tools"))
    sys.exit(main())
