#!/usr/bin/env python3
"""Runs the solver-based check of the Python bindings (C36).  See DESIGN.md.

usage: check_py.py C36 [--quick|--thorough] [--only TEXT] [-v] [--keep]
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
PY = os.path.join(VERIF, "py")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
BOUNDS = ("every function row with 2-d arrays (1-d where the function asks for it; 1 to 4 dimensions and three types in the thorough tier), the wrapper Mem with 0 to 6 dimensions and every array type, "
          "0 <= extent <= 2^40, |stride| <= 2^45, integers over the range of the C parameter, floating-point values as exact reals, error codes and null handles returned by the library free")
ASSUME = [
    "ctypes, numpy arrays, cupy and astropy are stand-ins while Python is executed symbolically: ctypes follows its documented conversion rules, arrays are numpy.ndarray objects whose pointer, shape, strides and writable flag are solver variables",
    "the compiled library is a recording stand-in whose prototypes come from the real headers; what the C functions do with their arguments belongs to the other properties",
    "floating-point values are exact reals (no NaN, no infinity)",
    "the bindings of the example functions are outside the check",
]


def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    tier = "thorough" if "--thorough" in sys.argv else "quick" if "--quick" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="sympy-%s-" % pid)
    repdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(repdir, f))
    env = dict(os.environ, SKA_SDP_FUNC_LIB_DIR=work, PYTHONDONTWRITEBYTECODE="1")
    out = os.path.join(work, "out.json")
    cmd = [VT, os.path.join(PY, "symrun.py"), REPO, work, out, "--witness", "1" if tier == "quick" else "4"]
    cmd += (["--thorough"] if tier == "thorough" else []) + (["--only", only] if only else [])
    notes, res, n_ok, n_replay, violations = [], None, 0, 0, []
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=840)
    if p.returncode:
        # The symbolic run gave nothing: no verdict, no alarm.
        notes.append("symbolic run failed: " + p.stderr.decode(errors="replace")[-1500:])
        res = {"jobs": [], "totals": {}}
    else:
        res = json.load(open(out))
    batch = [dict(name=j["name"], spec=j["spec"], label=f["label"], values=f["values"]) for j in res["jobs"] for f in j["fails"] if f["values"] is not None]
    notes += ["solver gave up on: %s %s" % (j["name"], f["label"]) for j in res["jobs"] for f in j["fails"] if f["values"] is None]
    notes += ["not all paths explored: " + j["name"] for j in res["jobs"] if not j["complete"]]
    batch += [dict(name=j["name"], spec=j["spec"], label=None, values=w) for j in res["jobs"] for w in j["witness"]]
    if batch:
        p = subprocess.run([VT, os.path.join(PY, "recorder.py"), work], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        n = 8
        ps = []
        for i in range(n):
            json.dump(batch[i::n], open(os.path.join(work, "b%d" % i), "w"))
            ps.append(subprocess.Popen([VT, os.path.join(PY, "replay.py"), REPO, work, os.path.join(work, "b%d" % i), os.path.join(work, "r%d" % i)],
                                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        for i, q in enumerate(ps):
            e = q.communicate(timeout=300)[1]
            try:
                rs = json.load(open(os.path.join(work, "r%d" % i)))
            except (OSError, ValueError):
                notes.append("replay failed: " + e.decode(errors="replace")[-800:])
                continue
            for c, r in zip(batch[i::n], rs):
                if c["label"] is None:
                    if not r.get("fails", ["error"]):
                        n_ok += 1
                    else:
                        notes.append("concrete run disagrees: %s %s" % (c["name"], str(r)[-300:]))
                elif r.get("fails"):
                    n_replay += 1
                    violations.append((c, r))
                else:
                    notes.append("unconfirmed counterexample: %s %s: %s" % (c["name"], c["label"], r.get("error", "")[-300:]))
    known = [k for k in json.load(open(os.path.join(VERIF, "KNOWN_FINDINGS.json")))["findings"] if k["property"] == pid and not k.get("fixed")]
    import re
    hit, rest = {}, []
    for c, r in violations:
        k = next((k for k in known if re.search(k["config"], c["name"]) and re.search(k["match"], c["label"] + " " + str(r["fails"]))), None)
        if k:
            hit.setdefault(k["what"], []).append(c["name"])
        else:
            rest.append((c, r))
    for w in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    dt = time.time() - t0
    T = res["totals"]
    jobs = res["jobs"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(dt, 2), "violations": len(rest), "assumptions": ASSUME,
          "coverage": {
              "states": T.get("paths", 0), "transitions": T.get("decisions", 0), "traces_validated_against_impl": n_ok + n_replay,
              "samples": [{"case": j["name"], "paths": j["paths"], "assertions": j["checks"], "queries": j["queries"], "wall_s": j["wall_s"]} for j in jobs[:: max(1, len(jobs) // 12)]],
              "configurations": len(jobs), "functions_encoded": sorted({"ska_sdp_func." + j["spec"]["row"].replace(":", ".") for j in jobs if "row" in j["spec"]} | {"ska_sdp_func.utility.mem.Mem", "ska_sdp_func.utility.sky_coord.SkyCoord"}),
              "bounds": BOUNDS, "assertions": T.get("checks", 0), "assertions_discharged": T.get("checks", 0) - sum(len(j["fails"]) for j in jobs),
              "solver_queries": T.get("queries", 0), "solver_seconds": round(T.get("solver", 0.0), 2), "inconclusive": {n: 1 for n in notes},
              "explanation": "states = paths of the Python code explored, transitions = branch decisions asked of Z3; the real modules of ska_sdp_func are executed on symbolic values and every assertion on the recorded C calls is decided by Z3; one solver-chosen value per case is re-run with the real ctypes and numpy against a recording library, as is every counterexample before it is reported"}}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d cases, %d paths, %d assertions, %d queries (%.1f s solver), %d concrete runs agree, %d notes, %.1f s" % (
        pid, len(jobs), T.get("paths", 0), T.get("checks", 0), T.get("queries", 0), T.get("solver", 0.0), n_ok, len(notes), dt))
    if verbose or os.environ.get("SYM_NOTES"):
        for n in notes:
            print("  note:", n[-600:])
    if "--keep" in sys.argv:
        print("work", work)
    else:
        shutil.rmtree(work, ignore_errors=True)
    if rest:
        for i, (c, r) in enumerate(rest[:5]):
            f = os.path.join(repdir, "%s-v%d.json" % (pid, i))
            json.dump(dict(c, fails=r["fails"], calls=r.get("events"), replay="tools/replay_py.py REPO THIS_FILE"), open(f, "w"), indent=1)
            print("  %s: %s | %s" % (c["name"], r["fails"][0][:250], json.dumps(c["values"])[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
