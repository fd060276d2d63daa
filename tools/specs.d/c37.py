CU = ["-DSDP_HAVE_CUDA", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cuda")]

import copy


def _gpu():
    """Reference harnesses of other properties, run on arrays in (emulated) GPU memory, so that their oracles judge the kernels."""
    pick = {
        "c07.cpp": (lambda c: True, 6), "c08.cpp": (lambda c: c["mode"] != 6, 6), "c09.cpp": (lambda c: True, 5),
        "c10.cpp": (lambda c: c.get("nb", 1) * c.get("nt", 1) * c.get("nc", 1) < 3, 2), "c12.cpp": (lambda c: c.get("full") == 0 and c["n"] != 8 and c["tv"] != 8, 3),
        "c13.cpp": (lambda c: True, 6), "c14.cpp": (lambda c: c["op"] != 1, 4), "c15.cpp": (lambda c: True, 5),
        "c16.cpp": (lambda c: c["op"] in (2,), 2), "c16d.cpp": (lambda c: c["op"] in (2, 3), 4),
        "c17.cpp": (lambda c: c["op"] in (0, 5, 6), 5), "c18.cpp": (lambda c: True, 5),
        "c24.cpp": (lambda c: c.get("op", 0) != 9, 5), "c28.cpp": (lambda c: c.get("op", 0) != 9, 3),
        "c31.cpp": (lambda c: c.get("op", 0) != 9, 5), "c32.cpp": (lambda c: c.get("op", 0) == 0 and "harp" not in c, 3),
        "c29.cpp": (lambda c: c.get("op", 0) == 0 and c.get("cycles", 1) < 2 and c.get("n", 2) < 3, 3),
        "c25.cpp": (lambda c: c.get("op", 0) == 0 and not c.get("leak"), 2),
    }
    out = []
    for key in sorted(SPECS):
        for har in SPECS[key]["harnesses"]:
            if har["src"] not in pick or key >= "C33":
                continue
            ok, num = pick[har["src"]]
            every = [c for c in har["configs"] if ok(c)]
            new = copy.deepcopy(har)
            new["configs"] = copy.deepcopy(every[::max(1, -(-len(every) // num))])
            new["thorough"] = copy.deepcopy(every[1::max(1, len(every) // (4 * num))])
            new.update(repo=ALL, cuda=True, openmp=True, budget=15, flags=har.get("flags", []) + ["-DARR_GPU"] + CU)
            out.append(new)
    return out


_KERNEL_ROWS = [0, 4, 5, 6, 22, 25, 26, 29, 30, 31, 32, 33, 36, 43, 44, 45, 46, 47, 48, 50, 51, 52, 53, 54, 55, 57, 58, 59, 61, 62, 63, 66, 67, 68]
_SWEEP = {"src": "c37.cpp", "repo": ALL, "cuda": True, "openmp": True, "flags": ["-DSYM_STRINGS"] + CU}
_ARGS = dict(_SWEEP, src="c06.cpp", budget=20)
_SLOW = (22, 26, 48, 50, 51, 63, 66, 68)
_MANY = (45, 46, 47, 57, 63)
SPECS["C37"] = {
    "harnesses": [dict(_SWEEP, configs=[c for c in grid(fn=list(range(70))) if c["fn"] not in (23, 24, 64, 65)] + grid(fn=[r for r in _KERNEL_ROWS if r != 4], flt=1)
                                     + grid(fn=[r for r in _KERNEL_ROWS if r not in _SLOW], sym=[1, 2, 3, 4], n=4) + grid(fn=[26, 51, 48], sym=1, n=1) + grid(fn=[22, 66], sym=1, n=2) + grid(fn=50, sym=2, n=1),
                       thorough=grid(fn=[r for r in _SLOW if r != 68], sym=[1, 2], n=3) + grid(fn=[r for r in _KERNEL_ROWS if r not in _SLOW], sym=[1, 2], n=9)),
                  dict(_ARGS, configs=grid(fn=[r for r in _KERNEL_ROWS + [2, 3, 42] if r not in _MANY], gpu=1), thorough=grid(fn=[45, 46, 47, 63], gpu=1))] + _gpu(),
    "bounds": "every function of the argument sweep (C33) with a kernel: arrays of 1-9 elements a side, one array of each call symbolic (the others concrete), and both precisions, compared with the CPU; 17 reference harnesses of C07-C32 (3-6 configurations each, at most 15 s) run on GPU arrays; the argument checks of C06 for GPU arrays; kernels run in an emulation of CUDA (one OpenMP thread per GPU thread, blocks and threads in the given order between barriers, with every conflicting pair of accesses reported as a race; cuFFT replaced by the DFT; atomics exact); the w-stacking driver (only its parts), the ES gridder and device-side overflow of launch limits not covered",
}
