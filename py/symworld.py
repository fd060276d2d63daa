"""Symbolic world: arguments are free, conditions are decided by Z3."""
import sys
import traceback
import z3
import core
import mctypes
import model
import symval
from symval import SymInt, SymFloat, SymBool, ITE, NOT, wrap, term, ex, _num
import cases


class SymWorld:
    def __init__(self, lib, enums, cupy, apc):
        self.lib, self.enums, self.cupy, self.apc = lib, enums, cupy, apc
        self.fail = []
        self.checks = 0

    def begin(self, small):
        self.lib.reset()
        self.small = small
        self.vars = {}
        self.trace = ""

    # -- inputs
    def int(self, name, lo=-(1 << 31), hi=(1 << 31) - 1):
        t = z3.Int(name)
        self.vars[name] = t
        ex().solver.add(t >= lo, t <= hi)
        return SymInt(t)

    def float(self, name):
        t = z3.Real(name)
        self.vars[name] = t
        return SymFloat(t)

    def bool(self, name):
        t = z3.Bool(name)
        self.vars[name] = t
        return SymBool(t)

    def _layout(self, name, ndim):
        ptr = self.int(name + ".ptr", 4096, 1 << 47)
        shape = [self.int("%s.shape%d" % (name, i), 0, 1 << 40) for i in range(ndim)]
        strides = [self.int("%s.stride%d" % (name, i), -(1 << 45), 1 << 45) for i in range(ndim)]
        return ptr, shape, strides

    def array(self, name, dtype="float64", ndim=2, writeable=None):
        ptr, shape, strides = self._layout(name, ndim)
        return model.make_array(name, dtype, shape, strides, ptr, self.bool(name + ".writeable") if writeable is None else writeable)

    def gpu_array(self, name, dtype, ndim):
        ptr, shape, strides = self._layout(name, ndim)
        return model.make_cupy_array(self.cupy, dtype, shape, strides, ptr)

    def element_array(self, name, dims):
        import numpy
        el = numpy.empty(dims, dtype=object)
        for ix in numpy.ndindex(*dims):
            el[ix] = self.float("%s.e%s" % (name, "_".join(map(str, ix))))
        ptr = self.int(name + ".ptr", 4096, 1 << 47)
        return model.make_array(name, "float64", None, None, ptr, True, elements=el)

    def w_range(self, args):
        u, f = args["uvw"], args["freq_hz"]
        ws = [abs(u[i, 2]) for i in range(2)]
        c = core.SPEED
        lo = ITE(ws[0] < ws[1], ws[0], ws[1]) * f[0]
        hi = ITE(ws[0] > ws[1], ws[0], ws[1]) * f[1]
        return lo * (1.0 / 1.0) / c, hi / c

    def ref_int(self, name):
        return mctypes.c_int(5)

    def sky(self, name, astropy):
        if astropy:
            ra, dec = self.float(name + ".ra"), self.float(name + ".dec")
            return model.make_astropy_coord(self.apc, "icrs", ra, dec), dict(kind=b"icrs", c=[ra, dec, 0.0], epoch=2000.0)
        from ska_sdp_func.utility import SkyCoord
        c = [self.float("%s.c%d" % (name, i)) for i in range(3)]
        ep = self.float(name + ".epoch")
        s = SkyCoord("icrs", *c)
        s.set_epoch(ep)
        return s, dict(kind=b"icrs", c=c, epoch=ep)

    def sky_value(self, dim):
        c = [SymFloat(self.vars["o_%d" % i]) for i in range(3)]
        return ITE(dim == 0, c[0], ITE(dim == 1, c[1], ITE(dim == 2, c[2], 0.0)))

    def param_range(self, row, name):
        p = self.lib.protos[row["c"]]["params"]
        if name in row["expect"] and row["expect"].index(name) < len(p):
            k = p[row["expect"].index(name)][1]
            if k[0] == "i":
                b = k[1]
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k[2] else (0, (1 << b) - 1)
        if name == "ch_count":
            return (0, 1 << 31)
        return core.LIMIT["i"]

    def set_ret(self, fn, kind=None):
        kind = kind or self.lib.protos[fn]["ret"][0]
        v = self.float("ret." + fn) if kind == "d" else self.int("ret." + fn)
        self.lib.rets[fn] = v
        return v

    def set_err(self, fn):
        if not any(k[0] == "e" for _, k in self.lib.protos[fn]["params"]):
            return None
        self.lib.err[fn] = self.int("err." + fn)
        return self.lib.err[fn]

    def set_null(self, fn):
        self.lib.null[fn] = self.bool("null." + fn)
        return self.lib.null[fn]

    def events(self): return self.lib.events

    def note_exception(self, e):
        self.trace = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
        e.__traceback__ = None

    def handle_addr(self, p):
        return p.addr if hasattr(p, "addr") else p.value

    # -- conditions
    def limit(self, cond): ex().assume(self._b(cond))

    def describe(self, a):
        gpu = not isinstance(a, model.numpy.ndarray)
        if gpu:
            return dict(ptr=a.data.ptr, shape=a.shape, strides=a.strides, type=cases.TYPES[a.dtype.name], gpu=True, writeable=True)
        if a._s is None:
            return dict(ptr=a.__array_interface__["data"][0], shape=a.shape, strides=a.strides, type=cases.TYPES[a.dtype.name], gpu=False,
                        writeable=bool(a.flags.writeable))
        return dict(ptr=a._s["ptr"], shape=a.shape, strides=a.strides, type=cases.TYPES[a.dtype.name], gpu=False, writeable=a._s["writeable"])

    def is_array(self, v):
        return isinstance(v, model.numpy.ndarray) or isinstance(v, self.cupy.ndarray)

    def is_ref(self, v): return isinstance(v, mctypes._CData)
    def same_ref(self, a, v): return isinstance(a, model.Ptr) and a.obj is v
    def same_ptr(self, a, v): return self.eq(a.addr, v) if isinstance(a, model.Ptr) else False

    def eq(self, a, b):
        if isinstance(a, model.Garbage) or isinstance(b, model.Garbage) or a is None or b is None:
            return False
        try:
            x, y = symval._pair(a, b)
        except TypeError:
            return False
        return wrap(x == y)

    def ne(self, a, b): return NOT(self.eq(a, b))
    NOT = staticmethod(NOT)
    ITE = staticmethod(ITE)

    def all(self, conds):
        return wrap(z3.And([self._b(c) for c in conds] or [z3.BoolVal(True)]))

    @staticmethod
    def _b(c):
        if isinstance(c, symval._Sym):
            return c.t if z3.is_bool(c.t) else c.t != 0
        return z3.BoolVal(bool(c))

    def iff(self, a, b): return wrap(self._b(a) == self._b(b))
    def decide(self, c): return ex().decide(self._b(c))

    def check(self, label, cond):
        """The assertion must hold for every value on this path."""
        self.checks += 1
        c = z3.simplify(self._b(cond))
        if z3.is_true(c):
            # decided by rewriting alone
            return
        e = ex()
        r = e.check(z3.Not(c))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.fail.append((label, None, self.trace))
            return
        vals = self.values(z3.Not(c))
        self.fail.append((label, vals, self.trace))

    def values(self, cond):
        """Values of the inputs on this path which satisfy a condition."""
        # prefer a small counterexample that a real array can have
        soft = []
        for n, t in self.vars.items():
            if ".shape" in n:
                soft.append(z3.And(t >= 1, t <= 5))
            elif ".stride" in n:
                soft.append(z3.And(t >= -64, t <= 64, t % 16 == 0))
            elif z3.is_int(t) and not n.endswith(".ptr"):
                soft.append(z3.And(t >= -100, t <= 100))
            elif z3.is_real(t):
                soft.append(z3.And(t >= -100, t <= 100))
        e = ex()
        e.solver.push()
        e.solver.add(cond)
        for s in soft:
            e.solver.push()
            e.solver.add(s)
            if e.check() != z3.sat:
                e.solver.pop()
        if e.check() != z3.sat:
            while e.solver.num_scopes():
                e.solver.pop()
            return None
        m = e.solver.model()
        vals = {}
        for n, t in self.vars.items():
            v = m.eval(t, model_completion=False)
            if z3.is_int_value(v):
                vals[n] = v.as_long()
            elif z3.is_rational_value(v):
                vals[n] = v.numerator_as_long() / v.denominator_as_long()
            elif z3.is_true(v) or z3.is_false(v):
                vals[n] = z3.is_true(v)
            elif z3.is_algebraic_value(v):
                vals[n] = float(v.approx(10).as_fraction())
        while e.solver.num_scopes():
            e.solver.pop()
        return vals
