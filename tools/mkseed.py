"""Turns a spec directory DIR (edits.py: EDITS=[(file, old, new)...]; demo.cpp or demo.sh; meta.json) into seeded/<id>.
Confirms in the scratch copy /tmp/seed that the patched code builds, passes the stable tests, and the demo fails only with it.
usage: mkseed.py DIR...   (SKIP_TESTS=1 to leave the suite out while drafting)"""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"
DEMO = """#!/bin/bash
# Run with cwd = the repository, after the build. Exit 0: behaves as stated.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); B=$R/_build
T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
g++ -O1 -g -std=c++17 -I"$R/src" "$D/demo.cpp" -L"$B" -lska_sdp_func -Wl,-rpath,"$B" -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    r = sh("ninja -C %s/_build" % S)
    if r.returncode: print(r.stdout[-2000:]); return False
    return True
def tests():
    b = json.load(open("/opt/vp/BASELINE.json"))
    r1 = sh("ctest --test-dir %s/_build -j8 --timeout 300" % S)
    bad = [l for l in r1.stdout.splitlines() if "Failed" in l or "***" in l]
    env = dict(os.environ, PYTHONPATH=S + "/src", PYTHONDONTWRITEBYTECODE="1", SKA_SDP_FUNC_LIB_DIR=S + "/_build")
    r2 = sh("cd %s && /opt/vp/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 6 --dist worksteal --timeout 600 --continue-on-collection-errors --benchmark-disable --ignore tests/visibility/test_opt_weighting.py --ignore tests/visibility/test_tiled_functions.py -rf" % S, env=env)
    stable = json.dumps(b)
    for l in r2.stdout.splitlines():
        if l.startswith("FAILED") or l.startswith("ERROR"):
            name = l.split()[1].split("::")[-1]
            if name in stable or l.startswith("ERROR"): bad.append(l)
    return bad, r2.stdout.splitlines()[-1:]
def demo(d):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=S, capture_output=True, text=True, timeout=300)
def main():
    for d in sys.argv[1:]:
        d = os.path.abspath(d); i = os.path.basename(d)
        sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD" % (S, S, S))
        if not os.path.exists(d + "/demo.sh"):
            open(d + "/demo.sh", "w").write(DEMO)
        g = {}; exec(open(d + "/edits.py").read(), g)
        if not build(): print(i, "CLEAN BUILD FAILS"); continue
        r = demo(d)
        if r.returncode: print(i, "DEMO FAILS ON CLEAN", r.returncode, (r.stdout + r.stderr)[-600:]); continue
        ok = True
        for f, o, n in g["EDITS"]:
            p = os.path.join(S, "src/ska-sdp-func", f); t = open(p).read()
            if t.count(o) < 1: print(i, "EDIT NOT FOUND", f, o[:60]); ok = False; break
            if t.count(o) > 1 and not g.get("ALL"): print(i, "EDIT AMBIGUOUS", f, t.count(o), o[:60]); ok = False; break
            open(p, "w").write(t.replace(o, n))
        if not ok: continue
        diff = sh("git -C %s diff" % S).stdout
        # lines removed must be of the original repository
        if not build(): print(i, "PATCHED BUILD FAILS"); continue
        r = demo(d)
        if r.returncode == 0: print(i, "DEMO PASSES WITH PATCH"); continue
        why = (r.stdout + r.stderr)[-300:]
        if not os.environ.get("SKIP_TESTS"):
            bad, last = tests()
            if bad: print(i, "TESTS CATCH IT", bad[:4], last); continue
        out = os.path.join(V, "seeded", i); os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for f in os.listdir(d):
            if f != "edits.py": shutil.copy(os.path.join(d, f), out)
        m = json.load(open(d + "/meta.json"))
        env = dict(os.environ, SYM_REPO=S)
        r = subprocess.run(["python3", V + "/tools/check.py", m["property"]], capture_output=True, text=True, env=env, cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, "KEPT; check %s: %s | demo: %s" % (m["property"], "CAUGHT" if v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]), why.strip()[-150:]))
        sys.stdout.flush()
    sh("git -C %s checkout -q -- ." % S); build()
main()
