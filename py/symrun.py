"""Symbolic run of the bindings: python3-vt symrun.py REPO TMP OUT.json [--thorough] [--only TEXT]"""
import os
import sys
sys.dont_write_bytecode = True
import argparse
import builtins
import importlib
import json
import time

import numpy
import z3
import ctypes as real_ctypes

import cases
import core
import mctypes
import model
import protos
import symval
import symworld


def import_package(repo):
    ap, apc = model.make_astropy()
    cupy = model.make_cupy()
    keep = {n: sys.modules.get(n) for n in ("ctypes", "cupy", "astropy", "astropy.coordinates")}
    sys.modules["ctypes"] = mctypes
    sys.modules["cupy"], sys.modules["astropy"], sys.modules["astropy.coordinates"] = cupy, ap, apc
    sys.path.insert(0, os.path.join(repo, "src"))
    try:
        mods = sorted({r["py"].partition(":")[0] for r in cases.F} | {"utility"})
        for m in mods:
            importlib.import_module("ska_sdp_func." + m)
    finally:
        sys.modules["ctypes"] = keep["ctypes"] or real_ctypes
    n = 0
    for name, m in list(sys.modules.items()):
        if name == "ska_sdp_func" or name.startswith("ska_sdp_func."):
            for k, v in symval.BUILTINS.items():
                if k not in m.__dict__:
                    m.__dict__[k] = v
            n += 1
    return cupy, apc, n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("repo"), ap.add_argument("tmp"), ap.add_argument("out")
    ap.add_argument("--thorough", action="store_true"), ap.add_argument("--only", default=""), ap.add_argument("--witness", type=int, default=1), ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    pr = protos.load(a.repo, a.tmp)
    enums = protos.enums(a.repo, a.tmp, sorted(set(cases.TYPES.values()) | {"SDP_MEM_VOID", "SDP_MEM_CPU", "SDP_MEM_GPU"}))
    lib = model.ModelLib(pr)
    mctypes.LIB = lib
    cupy, apc, nmod = import_package(a.repo)
    json.dump({"protos": pr, "enums": enums}, open(os.path.join(a.tmp, "protos.json"), "w"))

    jobs = []
    for ri, row in enumerate(cases.F):
        for vn, opts in cases.variants(row):
            jobs.append((row["py"] + "/" + vn, {"row": row["py"], "index": ri, "opts": opts}, lambda W, row=row, opts=opts: core.run(W, row, opts)))
        if a.thorough:
            for n, k, _ in row["params"]:
                if k[0] == "A" and n not in row.get("elements", {}):
                    for nd in (1, 2, 3, 4):
                        for dt in ("complex128", "float32"):
                            if nd == 1 and ("%s.shape[1]" % n) in str(row.get("raises", "")):
                                continue
                            o = {"vary": n, "ndim": nd, "dtype": dt}
                            jobs.append(("%s/%s-%d-%s" % (row["py"], n, nd, dt), {"row": row["py"], "index": ri, "opts": o},
                                         lambda W, row=row, o=o: core.run(W, row, o)))
    for dt in list(cases.TYPES) + cases.BAD_TYPES:
        for nd in range(0, 7 if dt in cases.TYPES else 2):
            for gpu in (False, True):
                if gpu and dt not in cases.TYPES and dt in ("S1", "U1", "O", "m8[s]", "V8", "longdouble", "clongdouble"):
                    continue
                jobs.append(("Mem/%s-%d-%s" % (dt, nd, "gpu" if gpu else "cpu"), {"mem": [dt, nd, gpu]},
                             lambda W, dt=dt, nd=nd, gpu=gpu: core.run_mem(W, dt, nd, gpu)))
    for w in ("list", "float", "str", "tuple"):
        jobs.append(("Mem/" + w, {"other": w}, lambda W, w=w: core.run_other(W, w)))
    for k in ("plain", "astropy"):
        jobs.append(("SkyCoord/copy-" + k, {"copy": k}, lambda W, k=k: core.run_copy(W, k)))
    jobs = [j for j in jobs if a.only in j[0]]
    nw = max(1, min(a.jobs, len(jobs)))
    pids = []
    for w in range(nw):
        part = "%s.%d" % (a.out, w)
        if nw == 1:
            work(jobs, part, lib, enums, cupy, apc, a.witness)
            break
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                work(jobs[w::nw], part, lib, enums, cupy, apc, a.witness)
                rc = 0
            finally:
                if rc:
                    import traceback
                    traceback.print_exc()
                    sys.stderr.flush()
                os._exit(rc)
        pids.append(pid)
    if any(os.waitpid(p, 0)[1] for p in pids):
        sys.exit(3)
    res, tot = [], {}
    for w in range(nw):
        d = json.load(open("%s.%d" % (a.out, w)))
        os.remove("%s.%d" % (a.out, w))
        res += d["jobs"]
        for k, v in d["totals"].items():
            tot[k] = tot.get(k, 0) + v
    order = {j[0]: i for i, j in enumerate(jobs)}
    res.sort(key=lambda r: order[r["name"]])
    json.dump({"jobs": res, "totals": tot, "modules": nmod, "wall_s": time.time() - t0}, open(a.out, "w"), indent=1)


def work(jobs, out, lib, enums, cupy, apc, nwit):
    res, tot = [], dict(paths=0, checks=0, queries=0, solver=0.0, decisions=0)
    for name, spec, fn in jobs:
        e = symval.Explorer(limit=400)
        W = symworld.SymWorld(lib, enums, cupy, apc)

        wit = []

        def one():
            W.begin(False)
            nf = len(W.fail)
            try:
                fn(W)
                if len(W.fail) == nf and len(wit) < nwit:
                    v = W.values(z3.BoolVal(True))
                    if v is not None:
                        wit.append(v)
            except symval.Stop:
                raise
            except Exception as x:      # noqa
                W.note_exception(x)
                W.check("the check itself runs (%s: %s)" % (type(x).__name__, x), False)
        t = time.time()
        for _ in e.run(one):
            pass
        fails, seen = [], set()
        for label, vals, tr in W.fail:
            if label in seen:
                continue
            seen.add(label)
            fails.append({"label": label, "values": vals, "trace": tr})
        if os.environ.get("PYV"): print(name, e.paths, W.checks, e.queries, e.complete, round(time.time()-t,2), [f["label"] for f in fails], flush=True)
        res.append({"name": name, "spec": spec, "paths": e.paths, "checks": W.checks, "queries": e.queries, "complete": e.complete,
                    "fails": fails, "witness": wit, "wall_s": round(time.time() - t, 3)})
        for k, v in (("paths", e.paths), ("checks", W.checks), ("queries", e.queries), ("solver", e.solver_time), ("decisions", e.decisions)):
            tot[k] += v
    json.dump({"jobs": res, "totals": tot}, open(out, "w"))


main()
