#!/usr/bin/env python3
"""Runs the solver-based check of one property.  See DESIGN.md.

usage: check.py ID [--only SUBSTR] [-v] [--keep]
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
SYMSE = os.path.join(VERIF, "build", "symse")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402

CXX = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
GXX = "/usr/bin/g++"
SRC = os.path.join(REPO, "src", "ska-sdp-func")
BASE = ["-std=c++11", "-DNDEBUG", "-DSDP_USE_POCKETFFT", "-DSOURCE_PATH_SIZE=%d" % (len(REPO) + 1),
        "-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I" + ENG, "-I" + os.path.join(VERIF, "harness")]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
           "-gline-tables-only", "-fno-threadsafe-statics", "-fno-discard-value-names", "-w", "-emit-llvm", "-c"]
OMP = ["-fopenmp", "-isystem", os.path.join(ENG, "omp")]
SAN = ["-g", "-O0", "-w", "-fsanitize=address,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,shift,bounds",
       "-fno-sanitize-recover=signed-integer-overflow,float-cast-overflow,integer-divide-by-zero", "-ffp-contract=off"]
NPROC = int(os.environ.get("SYM_PROCS", "8"))


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace"), "timeout"


def ensure_engine():
    srcs = [os.path.join(ENG, f) for f in ("symse.cpp", "exec.h", "calls.h", "poly.h")]
    if not os.path.exists(SYMSE) or any(os.path.getmtime(s) > os.path.getmtime(SYMSE) for s in srcs):
        rc, o, e = run(["make", "-C", ENG], timeout=1500)
        if rc:
            print(o, e)
            sys.exit(0 if False else 2)


class Builder:
    def __init__(self, work):
        self.work, self.lock, self.futs = work, threading.Lock(), {}
        self.pool = cf.ThreadPoolExecutor(NPROC)

    def submit(self, key, fn):
        with self.lock:
            if key not in self.futs:
                self.futs[key] = self.pool.submit(fn)
            return self.futs[key]

    def obj(self, src, flags, kind):
        key = hashlib.md5((src + " ".join(flags) + kind).encode()).hexdigest()[:16]
        out = os.path.join(self.work, key + (".bc" if kind == "bc" else ".o"))

        def go():
            if src.endswith(".cu"):
                text = open(src).read()
                team = "__shared__" in text
                text = re.sub(r"extern __shared__ (?:__align__\([0-9]+\) )?([A-Za-z_][A-Za-z_ ]*) ([A-Za-z_0-9]+)\[\];", r"\1* const \2 = (\1*) emu_smem;", text)
                if src.endswith("sdp_gridder_utils.cu"):
                    text = re.sub(r"volatile (\w+)\* ", r"EmuWarp<\1> ", text)
                k = [0]
                def shared(m):
                    k[0] += 1
                    t, n, d = m.group(1), m.group(2), m.group(3) or ""
                    return "%s (&%s)%s = *(%s (*)%s) emu_shared(%d, sizeof(%s%s));" % (t, n, d, t, d, k[0] - 1, t, d) if d else "%s& %s = *(%s*) emu_shared(%d, sizeof(%s));" % (t, n, t, k[0] - 1, t)
                text = re.sub(r"(?<!extern )__shared__ ([A-Za-z_][A-Za-z_0-9 ]*?) ([A-Za-z_]\w*)((?:\[[^\]]+\])*);", shared, text)
                cpp = out + ".cpp"
                with open(cpp, "w") as f:
                    f.write('#line 1 "%s"\n' % src + text)
                inc = os.path.join(VERIF, "cuda", "emu.h")
                rc, o, e = run([CXX if kind == "bc" or "-fopenmp" in flags else GXX] + flags + ["-std=c++17", "-DEMU_TEAM=%d" % team, "-include", inc, cpp, "-o", out], timeout=600)
                if rc:
                    raise RuntimeError("compile %s: %s" % (src, e[-2000:]))
                return out
            comp = CXX if kind in ("bc", "tsan") or "-fopenmp" in flags else GXX
            fl = flags
            if src.endswith(".c"):
                comp = "/usr/bin/clang-18" if kind in ("bc", "tsan") or "-fopenmp" in flags else "/usr/bin/gcc"
                fl = [f for f in flags if f != "-std=c++11" and f != "-fno-threadsafe-statics"]
                if "-include" in fl:
                    k = fl.index("-include")
                    fl = fl[:k] + fl[k + 2:]
            rc, o, e = run([comp] + fl + [src, "-o", out], timeout=600)
            if rc:
                raise RuntimeError("compile %s: %s" % (src, e[-2000:]))
            return out
        return self.submit(key, go)


def sources(h):
    out = [s for s in map(repo_src, list(h["repo"]) + extra_sources()) if os.path.exists(s)]
    if h.get("cuda"):
        out = [s for s in out if not s.endswith("sdp_device_wrapper.cpp")] + [os.path.join(VERIF, "cuda", "emu.cpp")]
        out += sorted(os.path.join(d, f) for d, _, fs in os.walk(SRC) for f in fs if f.endswith(".cu"))
    return out


def repo_src(s):
    return s if s.startswith("/") else os.path.join(SRC, s)


KNOWN = set(open(os.path.join(VERIF, "tools", "known_sources.txt")).read().split())


def extra_sources():
    """Source files the pinned tree does not have (a refactoring may add some)."""
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith((".c", ".cpp")) and r not in KNOWN:
                out.append(r)
    return sorted(out)


def bitcode(b, h):
    flags = BASE + IRFLAGS + (OMP if h.get("openmp") else [])
    if h.get("fft_stub", True):
        flags = flags + ["-include", os.path.join(ENG, "pocketfft_stub.h")]
    flags += h.get("flags", [])
    srcs = [os.path.join(VERIF, "harness", h["src"]), os.path.join(ENG, "irlib.cpp")] + sources(h)
    futs = [b.obj(s, flags, "bc") for s in srcs]
    objs = [f.result() for f in futs]
    out = os.path.join(b.work, "h_%s.bc" % hashlib.md5(json.dumps(h, sort_keys=True, default=str).encode()).hexdigest()[:12])
    rc, o, e = run([LINK] + objs + ["-o", out], timeout=300)
    if rc:
        raise RuntimeError("link: " + e[-2000:])
    return out


def native(b, h, kind):
    # kind: asan, plain (for valgrind)
    fl = BASE + ["-DPOCKETFFT_NO_VECTORS", "-DPOCKETFFT_NO_MULTITHREADING"] + (SAN if kind == "asan" else ["-g", "-O1", "-w", "-ffp-contract=off"]) + h.get("flags", []) + h.get("nflags", [])
    if h.get("openmp"):
        fl = fl + OMP + ["-DSYM_SHIM"]
    wrap = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc"]
    fl = fl + ["-DSYM_WRAP"]
    srcs = [os.path.join(VERIF, "harness", h["src"]), os.path.join(ENG, "symrt_native.cpp"), os.path.join(ENG, "native_log.cpp")] + ([os.path.join(ENG, "kmpc_shim.cpp")] if h.get("openmp") else []) + sources(h)
    futs = [b.obj(s, fl + ["-c"], kind) for s in srcs]
    objs = [f.result() for f in futs]
    out = os.path.join(b.work, "n_%s_%s" % (kind, hashlib.md5((json.dumps(h, sort_keys=True, default=str)).encode()).hexdigest()[:12]))
    rc, o, e = run([CXX if h.get("openmp") else GXX] + (SAN if kind == "asan" else []) + objs + wrap + ["-o", out, "-lpthread"], timeout=300)
    if rc:
        raise RuntimeError("native link: " + e[-2000:])
    return out


ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=165", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")


def cfgstr(c):
    return ",".join("%s=%d" % kv for kv in c.items())


def write_inputs(path, cfg, inputs, seed=None):
    with open(path, "w") as f:
        for k, v in cfg.items():
            f.write("config %s %d\n" % (k, v))
        if seed is not None:
            f.write("random %d\n" % seed)
        for k, v in inputs.items():
            f.write("%s %s\n" % (k, v))


def replay(b, h, cfg, cand, path):
    """Returns (confirmed, text)."""
    write_inputs(path, cfg, cand["inputs"])
    if cand["id"] == "race":
        return race_replay(b, h, path)
    exe = native_cached(b, h, "asan")
    rc, o, e = run([exe, path], timeout=100, env=ASAN_ENV)
    if rc == 77 or "REPLAY-ASSUME" in o:
        return False, "assumption not met natively"
    if "REPLAY-FAIL" in o:
        return True, [l for l in o.splitlines() if "REPLAY-FAIL" in l][0]
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)", e)
    if m and "AddressSanitizer failed to" not in m.group(1):
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", e)
        return True, m.group(1) + " " + " < ".join(fr[:3])
    if rc not in (0,) and rc != -999:
        return True, "native run ends with status %d: %s" % (rc, e[-300:])
    if rc == -999:
        if cand["id"] == "hang":
            return True, "native run does not finish"
        return False, "native run timed out"
    if cand["id"] in ("uninit", "mem"):
        exe = native_cached(b, h, "plain")
        rc, o, e = run(["/usr/bin/valgrind", "-q", "--error-exitcode=96", "--track-origins=no", exe, path], timeout=200)
        if rc == 96 or "REPLAY-FAIL" in o:
            m = re.search(r"==\d+== ([^\n]*)\n", e)
            return True, "valgrind: " + (m.group(1) if m else "error")
    return False, "passes natively"


def quietly(f):
    try:
        f()
    except Exception:
        pass


_nat = {}
_natlock = threading.Lock()


def native_cached(b, h, kind):
    key = kind + json.dumps(h, sort_keys=True, default=str)
    with _natlock:
        if key not in _nat:
            _nat[key] = native(b, h, kind)
        return _nat[key]


def race_replay(b, h, path):
    """ThreadSanitizer with the pthread-based OpenMP shim."""
    key = "tsan" + json.dumps(h, sort_keys=True, default=str)
    with _natlock:
        if key not in _nat:
            fl = BASE + ["-g", "-O1", "-w", "-ffp-contract=off", "-fsanitize=thread", "-DSYM_SHIM", "-DSYM_SHIM_FREE"] + OMP + h.get("flags", [])
            srcs = [os.path.join(VERIF, "harness", h["src"]), os.path.join(ENG, "symrt_native.cpp"), os.path.join(ENG, "native_log.cpp"), os.path.join(ENG, "kmpc_shim.cpp")] + sources(h)
            objs = [f.result() for f in [b.obj(s, fl + ["-c"], "tsan") for s in srcs]]
            out = os.path.join(b.work, "n_tsan_%s" % hashlib.md5(key.encode()).hexdigest()[:12])
            rc, o, e = run([CXX, "-fsanitize=thread"] + objs + ["-o", out, "-lpthread"], timeout=300)
            if rc:
                raise RuntimeError("tsan link: " + e[-2000:])
            _nat[key] = out
        exe = _nat[key]
    for k in range(6):
        rc, o, e = run(["/usr/bin/setarch", "-R", exe, path], timeout=100, env=dict(os.environ, TSAN_OPTIONS="exitcode=95:report_signal_unsafe=0"))
        if rc == 95 or "WARNING: ThreadSanitizer: data race" in e:
            fr = re.findall(r"#0 ([^\n]*)", e)
            return True, "ThreadSanitizer: data race " + " / ".join(fr[:2])
        if "REPLAY-FAIL" in o:
            return True, o.strip().splitlines()[0]
    return False, "no race observed natively"


def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    tier = "thorough" if "--thorough" in sys.argv else "quick" if "--quick" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = specs.SPECS[pid]
    ensure_engine()
    budget = spec.get("budget", {}).get(tier, 150 if tier == "quick" else 800)
    work = tempfile.mkdtemp(prefix="symse-%s-" % pid)
    b = Builder(work)
    repdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(os.path.join(repdir, pid + "-*")):
        os.remove(f)
    jobs = []
    for hi, h in enumerate(spec["harnesses"]):
        cfgs = list(h["configs"]) + (list(h.get("thorough", [])) if tier == "thorough" else [])
        for c in cfgs:
            if only and only not in (h["src"] + " " + cfgstr(c)):
                continue
            jobs.append((hi, h, c))
    tot = dict(paths=0, paths_completed=0, queries=0, sat=0, unsat=0, unknown=0, forks=0, checks=0, discharged=0, insts=0, solver_s=0.0)
    functions, incon, ids, samples, cands, errors = set(), {}, {}, [], [], []
    lock = threading.Lock()

    def job(j):
        hi, h, c = j
        hh = {k: v for k, v in h.items() if k not in ("configs", "thorough")}
        try:
            bc = b.submit("link%d" % hi, lambda: None) and bc_for(hi, hh)
        except RuntimeError as ex:
            with lock:
                errors.append(str(ex))
            return
        left = budget - (time.time() - t0)
        tl = min(h.get("time", 40 if tier == "quick" else 200), max(left, 3))
        cmd = [SYMSE, bc, "--config", cfgstr(c), "--time", "%.0f" % tl, "--seed", str(seed)] + h.get("args", [])
        rc, o, e = run(cmd, timeout=tl * 1.6 + 30)
        got = False
        cl = []
        for line in o.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["event"] == "candidate":
                cl.append(d)
            elif d["event"] == "summary":
                got = True
                with lock:
                    for k in tot:
                        tot[k] += d.get(k, 0)
                    functions.update(d["functions"])
                    for k, v in d["inconclusive"].items():
                        incon[k] = incon.get(k, 0) + v
                    for k, v in d["check_ids"].items():
                        ids[k] = ids.get(k, 0) + v
                    samples.append({"harness": h["src"], "config": cfgstr(c), "paths": d["paths"], "checks": d["checks"], "queries": d["queries"], "wall_s": round(d["wall_s"], 2)})
                    if d["paths_completed"] == 0 and not cl:
                        incon["no path completed: %s %s" % (h["src"], cfgstr(c))] = 1
                    if verbose:
                        print("  %s %s: paths %d/%d checks %d/%d queries %d (solver %.1fs) wall %.1fs cands %d %s" % (h["src"], cfgstr(c), d["paths_completed"], d["paths"], d["discharged"], d["checks"], d["queries"], d["solver_s"], d["wall_s"], len(cl), d["inconclusive"] or ""))
                        sys.stdout.flush()
        if not got:
            with lock:
                incon["engine gave no summary (rc %s) for %s %s %s" % (rc, h["src"], cfgstr(c), e[-200:])] = 1
        with lock:
            for d in cl:
                cands.append((hh, c, d))

    bcs, bclocks = {}, {}

    def bc_for(hi, hh):
        with lock:
            lk = bclocks.setdefault(hi, threading.Lock())
        with lk:
            if hi not in bcs:
                bcs[hi] = bitcode(b, hh)
            return bcs[hi]

    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(job, j) for j in jobs]
        # Native builds for replays and witness runs, meanwhile.
        for hi in sorted(set(j[0] for j in jobs)):
            h0 = spec["harnesses"][hi]
            threading.Thread(target=quietly, args=(lambda h0=h0: native_cached(b, {k: v for k, v in h0.items() if k not in ("configs", "thorough")}, "asan"),), daemon=True).start()
        for f in futs:
            f.result()

    # Replay of candidates.
    known = [k for k in json.load(open(os.path.join(VERIF, "KNOWN_FINDINGS.json")))["findings"] if k["property"] == pid]
    violations, unconf, knownhit = [], [], {}
    seen = {}
    cands.sort(key=lambda x: (x[0]["src"], cfgstr(x[1]), x[2]["id"]))
    if verbose:
        for line in sorted({"%s %s [%s]" % (hh["src"], cfgstr(c), d["id"]) for hh, c, d in cands}):
            print("  fails: " + line)
    tr = time.time()
    for hh, c, d in cands:
        key = (hh["src"], cfgstr(c), d["id"], d["msg"])
        if seen.get(key) == "confirmed" or seen.get((hh["src"], d["id"], "n"), 0) >= 3:
            continue
        if time.time() - tr > 240 and violations:
            continue
        n = len(violations) + len(unconf) + len(knownhit)
        path = os.path.join(repdir, "%s-%d.txt" % (pid, n))
        try:
            ok, text = replay(b, hh, c, d, path)
        except RuntimeError as exn:
            ok, text = False, str(exn)[-500:]
        if verbose:
            print("  candidate %s %s [%s] %s -> %s: %s" % (hh["src"], cfgstr(c), d["id"], d["msg"][:250], "CONFIRMED" if ok else "not confirmed", text[:250]))
        if ok:
            seen[key] = "confirmed"
            kf = None
            for k in known:
                if k.get("fixed"):
                    continue
                if k["harness"] == hh["src"] and re.search(k["config"], cfgstr(c)) and re.search(k["match"], d["id"] + " " + d["msg"] + " " + text):
                    kf = k
            if kf:
                knownhit.setdefault(kf["what"], []).append(cfgstr(c))
                os.remove(path)
                continue
            seen[(hh["src"], d["id"], "n")] = seen.get((hh["src"], d["id"], "n"), 0) + 1
            final = os.path.join(repdir, "%s-v%d.txt" % (pid, len(violations)))
            os.replace(path, final)
            with open(final, "a") as f:
                f.write("# harness %s\n# id %s\n# %s\n# native: %s\n" % (hh["src"], d["id"], d["msg"], text))
            violations.append((final, d, text, hh["src"], cfgstr(c)))
        else:
            unconf.append("%s %s [%s] %s (%s)" % (hh["src"], cfgstr(c), d["id"], d["msg"][:200], text[:200]))
    if unconf:
        still = [u for u in unconf]
        for u in still:
            incon["unconfirmed candidate: " + u] = 1
    # Witness runs: the same harness natively on random inputs (validation of the encoding).
    wit, witok = 0, 0
    if not only and not violations and time.time() - t0 < budget:
        todo = {}
        for hi, h, c in jobs:
            todo.setdefault(hi, []).append((h, c))
        for hi, lst in todo.items():
            h0 = lst[0][0]
            if h0.get("no_witness"):
                continue
            hh = {k: v for k, v in h0.items() if k not in ("configs", "thorough")}
            step = max(1, len(lst) // (6 if tier == "quick" else 40))
            try:
                exe = native_cached(b, hh, "asan")
            except RuntimeError as exn:
                incon["native build failed: " + str(exn)[-300:]] = 1
                continue
            for k, (h, c) in enumerate(lst[::step]):
                if any(f["property"] == pid and f["harness"] == h["src"] and f["config"] != ".*" and re.search(f["config"], cfgstr(c)) for f in known):
                    continue
                p = os.path.join(work, "w%d_%d" % (hi, k))
                write_inputs(p, c, {}, seed * 1000 + k)
                rc, o, e = run([exe, p], timeout=60, env=ASAN_ENV)
                if "REPLAY-ASSUME" in o:
                    continue
                wit += 1
                if "REPLAY-PASS" in o:
                    witok += 1
                else:
                    incon["random native run disagrees: %s %s: %s" % (h["src"], cfgstr(c), (o + e)[-200:])] = 1
    dt = time.time() - t0
    level = spec.get("level", "model_checking")
    cov = {
        "states": tot["paths"], "transitions": tot["insts"], "traces_validated_against_impl": witok,
        "samples": samples[:12],
        "configurations": len(jobs), "paths_completed": tot["paths_completed"],
        "functions_encoded": sorted(functions), "bounds": spec["bounds"],
        "assertions": tot["checks"], "assertions_discharged": tot["discharged"], "assertion_ids": ids,
        "solver_queries": tot["queries"], "solver_unsat": tot["unsat"], "solver_sat": tot["sat"], "solver_unknown": tot["unknown"],
        "solver_seconds": round(tot["solver_s"], 2), "inconclusive": incon,
        "explanation": "states = symbolic execution paths explored, transitions = LLVM instructions executed symbolically; every assertion is decided by Z3 over all values within the bounds; candidates are replayed natively (ASan/UBSan/valgrind/TSan) before being reported",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS, "wall_s": round(dt, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for what, cs in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for e in errors[:3]:
        print("BUILD-ERROR", e)
    print("%s: %d configurations, %d paths, %d/%d assertions discharged, %d queries (%.1f s solver), %d witness runs, %d inconclusive notes, %.1f s" % (
        pid, len(jobs), tot["paths"], tot["discharged"], tot["checks"], tot["queries"], tot["solver_s"], witok, len(incon), dt))
    if verbose or os.environ.get("SYM_NOTES"):
        for k in incon:
            print("  note:", k[:400])
    if "--keep" in sys.argv:
        print("work", work)
    else:
        shutil.rmtree(work, ignore_errors=True)
    if violations:
        for v in violations[:10]:
            print("  %s %s [%s] %s | %s" % (v[3], v[4], v[1]["id"], v[1]["msg"][:300], v[2][:300]))
        for v in violations[:5]:
            print("VIOLATION property=%s replay=%s" % (pid, v[0]))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
