"""Replays one counterexample against the real bindings with the real ctypes and
numpy: python3-vt replay.py REPO TMP CASE.json (exit 1: the failure happens).
The compiled library is a stand-in that records the arguments it receives."""
import sys
sys.dont_write_bytecode = True
import importlib
import json
import os

REPO, TMP, CASE = sys.argv[1:4]
cases_ = json.load(open(CASE))
meta = json.load(open(os.path.join(TMP, "protos.json")))
os.environ["SKA_SDP_FUNC_LIB_DIR"] = TMP
log = os.path.join(TMP, "record-%d.log" % os.getpid())
os.environ["RECORD_LOG"] = log
import ctypes
import numpy
import cases
import core
import model   # stand-ins for cupy and astropy only

ap, apc = model.make_astropy()
cupy = model.make_cupy()
sys.modules["cupy"], sys.modules["astropy"], sys.modules["astropy.coordinates"] = cupy, ap, apc
sys.path.insert(0, os.path.join(REPO, "src"))
REC = ctypes.CDLL(os.path.join(TMP, "libska_sdp_func.so"))
REC.rec_set.argtypes = [ctypes.c_char_p, ctypes.c_double]


class P:
    def __init__(self, a): self.addr = a
    def __repr__(self): return "0x%x" % self.addr


class Ev:
    def __repr__(self): return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))


class World:
    def __init__(self, values):
        self.v, self.fails, self.k = values, [], 0
        self.enums = meta["enums"]
        self.keep = []

    def _get(self, name, default):
        x = self.v.get(name)
        return default if x is None else x

    def int(self, name, lo=-(1 << 31), hi=(1 << 31) - 1):
        self.k += 1
        return int(min(max(self._get(name, 3 + self.k), lo), hi))

    def float(self, name):
        self.k += 1
        return float(self._get(name, 0.5 + self.k))

    def bool(self, name):
        return bool(self._get(name, False))

    def _layout(self, name, dtype, ndim):
        item = numpy.dtype(dtype).itemsize
        dims = [(3, 2, 4, 2, 3, 2)[i % 6] for i in range(ndim)]
        shape = [int(self._get("%s.shape%d" % (name, i), dims[i])) for i in range(ndim)]
        st, dst = item, []
        for d in shape[::-1]:
            dst.insert(0, st)
            st *= max(d, 1)
        strides = [int(self._get("%s.stride%d" % (name, i), dst[i])) for i in range(ndim)]
        return shape, strides

    def array(self, name, dtype="float64", ndim=2, writeable=None):
        shape, strides = self._layout(name, dtype, ndim)
        dt = numpy.dtype(dtype)
        if dt.hasobject:
            a = numpy.zeros(shape, dtype=dt)
        else:
            base = numpy.zeros(8192, dtype="int8")
            a = numpy.lib.stride_tricks.as_strided(base[4096:4096 + dt.itemsize].view(dt), shape, strides)
        w = bool(self._get(name + ".writeable", True)) if writeable is None else writeable
        if not w:
            a.flags.writeable = False
        self.keep.append(a)
        return a

    def gpu_array(self, name, dtype, ndim):
        shape, strides = self._layout(name, dtype, ndim)
        return model.make_cupy_array(cupy, dtype, shape, strides, int(self._get(name + ".ptr", 123456)))

    def element_array(self, name, dims):
        a = numpy.zeros(dims)
        for ix in numpy.ndindex(*dims):
            a[ix] = self.float("%s.e%s" % (name, "_".join(map(str, ix))))
        return a

    def w_range(self, args):
        w = numpy.abs(args["uvw"][:, 2])
        f = args["freq_hz"]
        return w.min() * f[0] / core.SPEED, w.max() * f[1] / core.SPEED

    def ref_int(self, name): return ctypes.c_int(5)

    def sky(self, name, astropy):
        if astropy:
            ra, dec = self.float(name + ".ra"), self.float(name + ".dec")
            return model.make_astropy_coord(apc, "icrs", ra, dec), dict(kind=b"icrs", c=[ra, dec, 0.0], epoch=2000.0)
        from ska_sdp_func.utility import SkyCoord
        c = [self.float("%s.c%d" % (name, i)) for i in range(3)]
        ep = self.float(name + ".epoch")
        s = SkyCoord("icrs", *c)
        s.set_epoch(ep)
        return s, dict(kind=b"icrs", c=c, epoch=ep)

    def sky_value(self, dim):
        return float(self.v.get("o_%d" % dim, self.sky_c[dim])) if 0 <= dim <= 2 else 0.0

    def param_range(self, row, name):
        p = meta["protos"][row["c"]]["params"]
        if name in row["expect"] and row["expect"].index(name) < len(p):
            k = p[row["expect"].index(name)][1]
            if k[0] == "i":
                return (-(1 << (k[1] - 1)), (1 << (k[1] - 1)) - 1) if k[2] else (0, (1 << k[1]) - 1)
        return core.LIMIT["i"] if name != "ch_count" else (0, 1 << 31)

    def _set(self, name, v):
        REC.rec_set(name.encode(), float(v))
        return v

    def set_ret(self, fn, kind=None):
        kind = kind or meta["protos"][fn]["ret"][0]
        return self._set("ret." + fn, self.float("ret." + fn) if kind == "d" else self.int("ret." + fn))

    def set_err(self, fn):
        if not any(k[0] == "e" for _, k in meta["protos"][fn]["params"]):
            return None
        return self._set("err." + fn, int(self._get("err." + fn, 0)))

    def set_null(self, fn): return bool(self._set("null." + fn, bool(self._get("null." + fn, False))))

    def events(self):
        out = []
        if not os.path.exists(log):
            return out
        for line in open(log):
            w = line.rstrip("\n").split("|")
            e = Ev()
            e.name, e.args, e.ret, e.extra = w[0], [], None, {}
            e.params = [x[0] for x in meta["protos"][e.name]["params"]]
            lists = []
            for t in w[1:]:
                ret = t.startswith("=")
                t = t[1:] if ret else t
                k, t = t[0], t[1:]
                v = {"i": int, "d": float.fromhex, "p": lambda x: P(int(x)), "s": lambda x: x.encode(), "[": lambda x: [int(y) for y in x.split(",") if y]}[k](t)
                if ret:
                    e.ret = v.addr if isinstance(v, P) else v
                elif k == "[":
                    lists.append(v)
                else:
                    e.args.append(v)
            if lists:
                e.extra = {"shape": lists[0], "stride": lists[1]}
            if e.name == "sdp_gridder_uvw_bounds_all":
                e.extra = {"uvw_min": [0, 0, 0], "uvw_max": [0, 0, 0]}
            if e.name == "sdp_sky_coord_create":
                self.sky_c = e.args[1:4]
            out.append(e)
        return out

    def note_exception(self, e):
        e.__traceback__ = None

    def handle_addr(self, p): return ctypes.cast(p, ctypes.c_void_p).value

    def describe(self, a):
        if isinstance(a, numpy.ndarray):
            return dict(ptr=a.__array_interface__["data"][0], shape=a.shape, strides=a.strides, type=cases.TYPES[a.dtype.name], gpu=False,
                        writeable=bool(a.flags.writeable))
        return dict(ptr=a.data.ptr, shape=a.shape, strides=a.strides, type=cases.TYPES[a.dtype.name], gpu=True, writeable=True)

    def is_array(self, v): return isinstance(v, (numpy.ndarray, cupy.ndarray))
    def is_ref(self, v): return isinstance(v, ctypes.c_int)
    def same_ref(self, a, v): return isinstance(a, P) and a.addr == ctypes.addressof(v)
    def same_ptr(self, a, v): return isinstance(a, P) and a.addr == v

    def eq(self, a, b):
        if isinstance(a, P) or isinstance(b, P) or a is None or b is None:
            return False
        if isinstance(a, float) or isinstance(b, float):
            return abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(b)))
        return a == b

    def ne(self, a, b): return not self.eq(a, b)
    def NOT(self, c): return not c
    def ITE(self, c, a, b): return a if c else b
    def all(self, c): return all(bool(x) for x in c)
    def iff(self, a, b): return bool(a) == bool(b)
    def decide(self, c): return bool(c)
    def limit(self, c): pass

    def check(self, label, cond):
        if not bool(cond):
            self.fails.append(label)


def main(case):
    W = World(case.get("values") or {})
    s = case["spec"]
    opts = {}
    if "row" in s:
        row = cases.F[s["index"]]
        core.run(W, row, s["opts"])
    elif "mem" in s:
        core.run_mem(W, *s["mem"])
    elif "other" in s:
        core.run_other(W, s["other"])
    else:
        core.run_copy(W, s["copy"])
    ev = W.events()
    if os.path.exists(log):
        os.remove(log)
    return W.fails, ["%s -> %s" % (e, e.ret) for e in ev[-6:]]


def forked(case):
    """Runs a case in a process of its own: a crash of the code is a failure of the case."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        global log
        log = os.path.join(TMP, "record-%d.log" % os.getpid())
        os.environ["RECORD_LOG"] = log
        try:
            fails, ev = main(case)
            d = {"fails": fails, "events": ev}
        except BaseException:
            import traceback
            d = {"error": traceback.format_exc()[-1500:]}
        with os.fdopen(w, "w") as f:
            json.dump(d, f)
        os._exit(0)
    os.close(w)
    text = os.fdopen(r).read()
    st = os.waitpid(pid, 0)[1]
    return json.loads(text) if text else {"error": "ended with status %d" % st}


if isinstance(cases_, list):
    json.dump([forked(c) for c in cases_], open(sys.argv[4], "w"))
else:
    d = forked(cases_)
    for e in d.get("events", []):
        print("  C call:", e)
    for f in d.get("fails", []):
        print("FAILED:", f)
    print(d.get("error", ""))
    sys.exit(3 if "error" in d else 1 if d["fails"] else 0)
