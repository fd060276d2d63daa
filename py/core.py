"""Runs one row of the table in a world (symbolic or concrete) and states what
must hold of the recorded C calls."""
import gc
import importlib

import cases

LIMIT = {"i": (-(1 << 31), (1 << 31) - 1), "l": (-(1 << 63), (1 << 63) - 1)}
SPEED = 299792458.0


def AND(W, conds):
    return W.all(conds)


class Handles:
    """Lifetimes of the wrapped C structures, from the recorded calls."""

    def __init__(self, events):
        self.rec = {}
        for n, e in enumerate(events):
            if e.name == "sdp_mem_create_wrapper" or e.name.endswith(("_create", "_create_plan")):
                if e.ret:
                    self.rec[e.ret] = dict(create=e, at=n, ro=[], free=[], epoch=[])
            if e.args and hasattr(e.args[0], "addr") and isinstance(e.args[0].addr, int) and e.args[0].addr in self.rec:
                r = self.rec[e.args[0].addr]
                if e.name == "sdp_mem_set_read_only":
                    r["ro"].append((n, e.args[1]))
                if e.name.endswith(("_free", "_free_plan")):
                    r["free"].append(n)
                if e.name == "sdp_sky_coord_set_epoch":
                    r["epoch"].append((n, e.args[1]))


def match_mem(W, H, events, at, arg, want):
    """Condition: the handle passed describes the wanted array (or None)."""
    if not (hasattr(arg, "addr") and isinstance(arg.addr, int) and arg.addr in H.rec):
        return False
    r = H.rec[arg.addr]
    if r["create"].name != "sdp_mem_create_wrapper" or any(n < at for n in r["free"]):
        return False
    c = r["create"].args
    if want is None:
        return W.all([W.eq(c[1], W.enums["SDP_MEM_VOID"]), W.eq(c[3], 0)])
    d = W.describe(want)
    sh, st = r["create"].extra.get("shape"), r["create"].extra.get("stride")
    n = len(d["shape"])
    if sh is None or st is None or len(sh) < n or len(st) < n:
        return n == 0 and W.eq(c[3], 0)
    ro = [v for k, v in r["ro"] if k < at]
    ro = ro[-1] if ro else 0
    conds = [W.same_ptr(c[0], d["ptr"]), W.eq(c[1], W.enums[d["type"]]), W.eq(c[2], W.enums["SDP_MEM_GPU" if d["gpu"] else "SDP_MEM_CPU"]),
             W.eq(c[3], n)]
    conds += [W.eq(a, b) for a, b in zip(sh, d["shape"])]
    conds += [W.eq(a, b) for a, b in zip(st, d["strides"])]
    conds.append(W.iff(W.ne(ro, 0), W.NOT(d["writeable"])))
    return W.all(conds)


def match_sky(W, H, at, arg, want):
    if not (hasattr(arg, "addr") and isinstance(arg.addr, int) and arg.addr in H.rec):
        return False
    r = H.rec[arg.addr]
    if r["create"].name != "sdp_sky_coord_create" or any(n < at for n in r["free"]):
        return False
    c = r["create"].args
    ep = [v for k, v in r["epoch"] if k < at]
    return W.all([c[0] == want["kind"]] + [W.eq(a, b) for a, b in zip(c[1:4], want["c"])] + [W.eq(ep[-1] if ep else 2000.0, want["epoch"])])


def build_args(W, row, opts):
    """Arguments of the Python call and their values for the expectations."""
    args, vals = {}, {}
    dts = ["float64", "complex128", "float32", "int32", "complex64"]
    k = 0
    for n, kind, dflt in row["params"]:
        if opts.get("default") and dflt is not None:
            vals[n] = cases.default_value(dflt)
            continue
        if kind[0] == "A":
            if kind.endswith("?") and opts.get("none"):
                args[n] = None
            elif n in row.get("elements", {}):
                args[n] = W.element_array(n, row["elements"][n])
            else:
                nd = int(kind[1]) if len(kind) > 1 and kind[1].isdigit() else 2
                if opts.get("vary") == n:
                    nd, dt = opts["ndim"] if len(kind) == 1 or not kind[1].isdigit() else nd, opts["dtype"]
                else:
                    dt = dts[k % len(dts)]
                a = args[n] = W.array(n, dtype=dt, ndim=nd, writeable=None if opts.get("vary") == n else k % 3 != 1)
                if n + ".size" in row["expect"]:
                    W.limit(a.shape[0] < 1 << 31)   # the C parameter is an int
            k += 1
        elif kind == "d":
            args[n] = W.float(n)
        elif kind == "i":
            args[n] = W.int(n, *([-row["within"][n], row["within"][n]] if n in row.get("within", {}) else W.param_range(row, n)))
        elif kind == "b":
            args[n] = W.bool(n)
        elif kind == "t":
            args[n] = tuple(W.int("%s_%d" % (n, j), *LIMIT["i"]) for j in range(3))
        elif kind == "R":
            args[n] = W.ref_int(n)
        elif kind == "s":
            args[n] = "icrs"
        elif kind == "K":
            args[n], vals[n] = W.sky(n, opts.get("astropy"))
        elif kind == "G":
            k2 = getattr(importlib.import_module("ska_sdp_func.grid_data.gridder_wtower_uvw"), "GridderWtowerUVW")
            args[n] = cases.CTOR["GridderWtowerUVW"](W, k2)
        vals.setdefault(n, args.get(n))
    return args, vals


def run(W, row, opts):
    mod, _, qual = row["py"].partition(":")
    m = importlib.import_module("ska_sdp_func." + mod)
    cls, _, meth = qual.partition(".")
    target = row["c"]
    obj = None
    if meth:
        obj = cases.CTOR[cls](W, getattr(m, cls))
        self_addr = [e for e in W.events() if e.ret and e.name.endswith(("_create", "_create_plan"))][-1].ret
    args, vals = build_args(W, row, opts)
    extra = {}
    if "G" in [p[1] for p in row["params"]]:
        gaddr = [e for e in W.events() if e.ret and e.name == "sdp_gridder_wtower_uvw_create"][-1].ret
        for g in "image_size subgrid_size theta w_step shear_u shear_v support oversampling w_support w_oversampling".split():
            extra[g] = W.set_ret("sdp_gridder_wtower_uvw_" + g)
    if row.get("ret") and target not in ("sdp_sky_coord_epoch", "sdp_sky_coord_value", "sdp_sky_coord_type"):
        extra["ret"] = W.set_ret(target)
    if row.get("bounds"):
        for j in range(3):
            extra["min%d" % j] = W.set_ret("uvw_min_%d" % j, "d")
            extra["max%d" % j] = W.set_ret("uvw_max_%d" % j, "d")
    code = W.set_err(target)
    null = W.set_null(target) if row.get("free") and cls != "Swiftly" else False
    start = len(W.events())
    before = set(Handles(W.events()).rec)

    # The call.
    exc = res = None
    try:
        if row.get("prop"):
            res = getattr(obj, meth)
        else:
            fn = getattr(obj, meth) if meth else getattr(m, cls)
            if opts.get("kw"):
                res = fn(**args)
            else:
                res = fn(*[args[p[0]] for p in row["params"] if p[0] in args])
    except Exception as e:      # noqa
        exc = (type(e).__name__, str(e))
        W.note_exception(e)
    fn = None
    gc.collect(0)
    ev = W.events()
    H = Handles(ev)

    def value(text):
        if text == "self":
            return ("self",)
        if text.startswith("G."):
            return extra[text[2:]]
        env = {n: (0 if v is None and k[0] != "A" else v) for (n, k, _), v in zip(row["params"], [vals[p[0]] for p in row["params"]])}
        env["ITE"] = W.ITE
        if "WMIN" in text or "WMAX" in text:
            env["WMIN"], env["WMAX"] = W.w_range(args)
        return eval(text, {}, env)

    # Expected refusal.
    if "raises" in row:
        cond = W.decide(eval(row["raises"][1].replace(" and ", " & ").replace("ch_count != 0", "(ch_count != 0)").replace(
            "vis.shape[1] != ch_count", "(vis.shape[1] != ch_count)"), {}, dict(args)))
        if cond:
            W.check("refuses inconsistent arguments", exc is not None and exc[0] == row["raises"][1 - 1])
            return
    calls = [(n, e) for n, e in enumerate(ev) if n >= start and e.name == target]
    if row.get("ret") and target == "sdp_gridder_determine_max_w_tower_height":
        calls = calls[-1:]
    W.check("calls %s exactly once%s" % (target, "" if calls or exc is None else " (raised %s)" % (exc,)), len(calls) == 1)
    if len(calls) != 1:
        return
    at, e = calls[0]
    for i, want in enumerate(row["expect"]):
        if i >= len(e.args) or e.params[i] == "status":
            W.check("argument %d exists" % i, False)
            continue
        a, pn = e.args[i], e.params[i]
        label = "%s receives %s" % (pn, want)
        if want.startswith("*"):
            W.check(label, hasattr(a, "addr") and len(e.extra.get(pn, ())) >= int(want[1:]))
            continue
        v = value(want)
        if isinstance(v, tuple) and v == ("self",):
            W.check(label, hasattr(a, "addr") and W.eq(a.addr, self_addr))
        elif isinstance(v, dict) and "kind" in v:
            W.check(label, match_sky(W, H, at, a, v))
        elif v is None or W.is_array(v):
            W.check(label, match_mem(W, H, ev, at, a, v))
        elif isinstance(v, (str, bytes)):
            W.check(label, a == (v.encode() if isinstance(v, str) else v))
        elif W.is_ref(v):
            W.check(label, W.same_ref(a, v))
        else:
            W.check(label, W.eq(a, v))
    # Error codes become exceptions; a null handle is refused.
    if code is not None:
        if W.decide(W.ne(code, 0)):
            W.check("error code becomes an exception", exc is not None and (exc[0] == "CError" or null is not False))
        elif null is not False and W.decide(null):
            W.check("null handle refused", exc is not None)
        else:
            W.check("completes%s" % (" (raised %s)" % (exc,) if exc else ""), exc is None)
    elif null is not False and W.decide(null):
        W.check("null handle refused", exc is not None)
    else:
        W.check("completes%s" % (" (raised %s)" % (exc,) if exc else ""), exc is None)
    if exc is not None:
        return
    if row.get("ret"):
        want = {"sdp_sky_coord_epoch": lambda: 2000.0, "sdp_sky_coord_type": lambda: "icrs",
                "sdp_sky_coord_value": lambda: W.sky_value(args["dim"])}.get(target, lambda: extra["ret"])()
        W.check("returns the result", res == want if isinstance(want, str) else W.eq(res, want))
    if row.get("returns"):
        W.check("returns its array", res is args[row["returns"]])
    if row.get("bounds"):
        lo, hi = res
        W.check("returns the bounds", W.all([W.eq(lo[j], extra["min%d" % j]) for j in range(3)] + [W.eq(hi[j], extra["max%d" % j]) for j in range(3)]))
    # Wrappers made by the call are released, once, after the call.
    tmp = [r for a, r in H.rec.items() if a not in before and r["create"].name == "sdp_mem_create_wrapper"]
    if not row.get("free"):
        W.check("wrappers released exactly once", all(len(r["free"]) == 1 for r in tmp))
    else:
        res = None
        gc.collect(0)
        H = Handles(W.events())
        r = [r for a, r in H.rec.items() if a not in before and r["create"].name == target]
        W.check("object released exactly once", len(r) == 1 and len(r[0]["free"]) == 1 and W.events()[r[0]["free"][0]].name == row["free"])


def run_mem(W, dtype, ndim, gpu):
    """The array wrapper itself."""
    Mem = importlib.import_module("ska_sdp_func.utility").Mem
    a = W.gpu_array("a", dtype, ndim) if gpu else W.array("a", dtype=dtype, ndim=ndim)
    good = dtype in cases.TYPES
    code = W.set_err("sdp_mem_create_wrapper") if good else None
    start = len(W.events())
    exc = res = None
    try:
        res = Mem(a)
    except Exception as e:      # noqa
        exc = (type(e).__name__, str(e))
        W.note_exception(e)
    if not good:
        W.check("unsupported element type is refused", exc is not None and exc[0] == "TypeError")
        return
    if W.decide(W.ne(code, 0)):
        W.check("error code becomes an exception", exc is not None and exc[0] == "CError")
    else:
        W.check("completes%s" % (" (raised %s)" % (exc,) if exc else ""), exc is None)
    if exc is not None:
        return
    ev = W.events()
    H = Handles(ev)
    new = [x for x in ev[start:] if x.name == "sdp_mem_create_wrapper"]
    W.check("creates one wrapper", len(new) == 1)
    if len(new) != 1:
        return

    class A:
        addr = new[0].ret
    W.check("wrapper describes the array", match_mem(W, H, ev, len(ev), A, a))
    p = res._as_parameter_
    W.check("object passes its handle", W.handle_addr(p) == new[0].ret)
    res = p = None
    gc.collect(0)
    H = Handles(W.events())
    W.check("released exactly once", len(H.rec[new[0].ret]["free"]) == 1)


def run_other(W, what):
    """Things that are no arrays."""
    Mem = importlib.import_module("ska_sdp_func.utility").Mem
    obj = {"list": [1.0, 2.0], "float": 1.5, "str": "x", "tuple": (1, 2)}[what]
    exc = None
    try:
        Mem(obj)
    except Exception as e:      # noqa
        exc = type(e).__name__
    W.check("an object that is no array is refused", exc == "TypeError")
    W.check("nothing is wrapped", not [e for e in W.events() if e.name == "sdp_mem_create_wrapper"])


def run_copy(W, kind):
    """Copies of sky coordinates keep all values."""
    SkyCoord = importlib.import_module("ska_sdp_func.utility").SkyCoord
    c, want = W.sky("c", kind == "astropy")
    d = SkyCoord(c)
    H = Handles(W.events())
    a = W.handle_addr(d._as_parameter_)

    class A:
        addr = a
    W.check("copy keeps the coordinate", match_sky(W, H, len(W.events()), A, want))
    if kind != "astropy":
        W.check("copy is separate", a != W.handle_addr(c._as_parameter_))
