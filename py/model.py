"""The model of the C library and of arrays used in symbolic runs."""
import numpy
import z3
import mctypes
import symval
from symval import SymInt, SymFloat, SymBool, wrap, term, ex, _num


class Garbage:
    """A value the C function reads that Python never passed."""
    def __repr__(self): return "<indeterminate>"


GARBAGE = Garbage()


class Ptr:
    def __init__(self, addr, obj=None):
        self.addr, self.obj = addr, obj

    def __repr__(self): return "<pointer %s>" % (self.addr,)


class Ev:
    def __init__(self, name, args, params):
        self.name, self.args, self.params = name, args, params
        self.ret = None
        self.code = 0
        self.extra = {}

    def __repr__(self): return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))


class ModelLib:
    """Records every call; behaves like the library's interface: creation
    functions return handles, the error code is whatever the solver picks."""

    def __init__(self, protos):
        self.protos = protos
        self.reset()

    def reset(self):
        self.events = []
        self.err = {}       # function name -> symbolic error code
        self.null = {}      # function name -> symbolic "returns NULL"
        self.rets = {}      # function name -> symbolic return value
        self.sky = {}       # address -> coordinate
        self.next = 0x700000000000
        self.n = 0

    def coerce(self, kind, ctype, v):
        """The value a C parameter of this kind reads."""
        k = kind[0]
        if k == "i":
            if isinstance(v, mctypes._Int) or (isinstance(v, mctypes._Simple) and v._kind == "i"):
                x = v.value
                if isinstance(x, bytes):
                    return GARBAGE
                if v.bits < kind[1] and not getattr(v, "signed", False) and ctype is None:
                    return GARBAGE
                return mctypes.wrap_int(x, kind[1], kind[2])
            if isinstance(v, (mctypes.c_void_p,)) and kind[1] == 64 and mctypes.is_int(v.value):
                return mctypes.wrap_int(v.value, kind[1], kind[2])
            return GARBAGE
        if k == "d":
            return v.value if isinstance(v, mctypes.c_double) else GARBAGE
        if k == "f":
            return v.value if isinstance(v, mctypes.c_float) else GARBAGE
        if k == "s":
            if isinstance(v, mctypes.c_char_p):
                return v.value
            if isinstance(v, bytes):
                return v
            return GARBAGE
        # pointers
        if v is None:
            return Ptr(0)
        if isinstance(v, (mctypes._Ref, mctypes._Pointer, mctypes.Array, mctypes.c_void_p)):
            obj = v.obj if isinstance(v, (mctypes._Ref, mctypes._Pointer)) else v
            return Ptr(mctypes.address_of(v), obj)
        if isinstance(v, mctypes._Int) and v.bits == 64:
            return Ptr(v.value)
        return GARBAGE

    def call(self, func, conv):
        name = func.__name__
        p = self.protos[name]
        args = []
        for i, (pn, kind) in enumerate(p["params"]):
            args.append(self.coerce(kind, *conv[i]) if i < len(conv) else GARBAGE)
        ev = Ev(name, args, [x[0] for x in p["params"]])
        self.events.append(ev)
        for (pn, kind), a in zip(p["params"], args):
            if kind[0] == "p" and isinstance(a, Ptr) and isinstance(a.obj, mctypes.Array):
                ev.extra[pn] = list(a.obj)
            if kind[0] == "e" and isinstance(a, Ptr):
                ev.code = self.err.get(name, 0)
                if isinstance(a.obj, mctypes.c_int32):
                    a.obj._v = ev.code
                ev.has_code = True
        if name.startswith("sdp_sky_coord_"):
            raw = self.sky_call(name, args)
        elif name == "sdp_gridder_uvw_bounds_all":
            raw = None
            for k, pn in ((5, "uvw_min"), (6, "uvw_max")):
                if isinstance(args[k], Ptr) and isinstance(args[k].obj, mctypes.Array):
                    for j in range(min(3, len(args[k].obj))):
                        args[k].obj[j] = self.rets.get("%s_%d" % (pn, j), 0.0)
        else:
            raw = self.rets.get(name)
        rk = p["ret"][0]
        if rk == "h":
            if name in self.null and bool(self.null[name]):
                raw = 0
            elif not isinstance(raw, int):
                self.next += 0x100000
                raw = self.next
        elif raw is None and rk in "id":
            raw = 7 if rk == "i" else 7.5
        ev.ret = raw
        return self.give_back(func.restype, rk, raw)

    def sky_call(self, name, args):
        op = name[len("sdp_sky_coord_"):]
        if op == "create":
            self.next += 0x100000
            t = args[0] if args[0] is not GARBAGE else b"?"
            self.sky[self.next] = [t, args[1], args[2], args[3], 2000.0]
            return self.next
        a = args[0].addr if isinstance(args[0], Ptr) else 0
        c = self.sky.get(a)
        if c is None:
            return None if op in ("free", "set_epoch") else (b"" if op == "type" else 0.0)
        if op == "epoch":
            return c[4]
        if op == "type":
            return c[0]
        if op == "set_epoch":
            c[4] = args[1]
        if op == "value":
            d = args[1]
            if d is GARBAGE:
                return 0.0
            r = 0.0
            for k in (0, 1, 2):
                r = symval.ITE(d == k, c[1 + k], r)
            return r
        return None

    def give_back(self, restype, rk, raw):
        if restype is None:
            return None
        if issubclass(restype, mctypes._Pointer):
            r = restype()
            r.addr = raw if rk in ("h", "p") else SymInt(z3.Int("indeterminate_ret"))
            return r
        if issubclass(restype, mctypes.c_void_p):
            return raw or None if rk in ("h", "p") else wrap(z3.Int("indeterminate_ret"))
        if issubclass(restype, mctypes.c_char_p):
            return raw if rk == "s" else None
        if issubclass(restype, mctypes._Int):
            if rk in ("i", "h", "p") and symval.sym_isinstance(raw, int):
                return mctypes.wrap_int(raw, restype.bits, restype.signed)
            return wrap(z3.Int("indeterminate_ret"))
        if issubclass(restype, mctypes.c_double):
            return raw if rk == "d" else wrap(z3.Real("indeterminate_ret"))
        if issubclass(restype, mctypes.c_float):
            return raw if rk == "f" else wrap(z3.Real("indeterminate_ret"))
        return restype()


class Flags:
    def __init__(self, a): self._a = a

    @property
    def writeable(self): return self._a._s["writeable"]

    def _contig(self, order):
        s = self._a._s
        e = self._a.itemsize
        c = z3.BoolVal(True)
        for sh, st in order(list(zip(s["shape"], s["strides"]))):
            c = z3.And(c, z3.Or(term(sh) == 1, term(st) == term(e)))
            e = sh * e
        return wrap(c)

    @property
    def c_contiguous(self): return self._contig(lambda l: l[::-1])

    @property
    def f_contiguous(self): return self._contig(lambda l: l)
    contiguous = c_contiguous
    forc = property(lambda s: s.c_contiguous | s.f_contiguous)
    fnc = property(lambda s: s.f_contiguous & symval.NOT(s.c_contiguous))
    aligned = True
    owndata = True
    behaved = property(lambda s: s.writeable)
    carray = property(lambda s: s.c_contiguous & s.writeable)

    def __getitem__(self, k):
        return getattr(self, {"C_CONTIGUOUS": "c_contiguous", "C": "c_contiguous", "F": "f_contiguous", "W": "writeable",
                              "CONTIGUOUS": "c_contiguous", "F_CONTIGUOUS": "f_contiguous", "WRITEABLE": "writeable", "A": "aligned",
                              "ALIGNED": "aligned", "OWNDATA": "owndata", "O": "owndata"}[k])


class CtypesView:
    def __init__(self, a): self._a = a

    @property
    def data(self): return self._a._s["ptr"]

    def data_as(self, t):
        r = mctypes.cast(mctypes.c_void_p(self._a._s["ptr"]), t)
        r._keep = self._a
        return r

    @property
    def _as_parameter_(self): return mctypes.c_void_p(self._a._s["ptr"])

    def shape_as(self, t): return (t * self._a.ndim)(*self._a.shape)
    def strides_as(self, t): return (t * self._a.ndim)(*self._a.strides)
    shape = property(lambda s: s.shape_as(mctypes.c_int64))
    strides = property(lambda s: s.strides_as(mctypes.c_int64))


class SymArray(numpy.ndarray):
    """An array whose address, shape, strides and flags are symbolic."""

    def __array_finalize__(self, obj): self._s = None

    def _get(self, k, real):
        return self._s[k] if getattr(self, "_s", None) is not None else real

    shape = property(lambda s: s._get("shape", numpy.ndarray.shape.__get__(s)))
    strides = property(lambda s: s._get("strides", numpy.ndarray.strides.__get__(s)))
    ndim = property(lambda s: len(s.shape))
    flags = property(lambda s: Flags(s) if s._s is not None else numpy.ndarray.flags.__get__(s))
    ctypes = property(lambda s: CtypesView(s) if s._s is not None else numpy.ndarray.ctypes.__get__(s))

    @property
    def size(self):
        if self._s is None:
            return numpy.ndarray.size.__get__(self)
        r = 1
        for d in self.shape:
            r = d * r
        return r

    @property
    def nbytes(self): return self.size * self.itemsize

    @property
    def dtype(self):
        if getattr(self, "_s", None) is not None and "dtype" in self._s:
            return self._s["dtype"]
        return numpy.ndarray.dtype.__get__(self)

    def __len__(self):
        return self.shape[0].__index__() if self._s is not None else numpy.ndarray.__len__(self)

    @property
    def __array_interface__(self):
        if self._s is None:
            return numpy.ndarray.__array_interface__.__get__(self)
        return {"data": (self._s["ptr"], symval.NOT(self._s["writeable"])), "shape": self.shape, "strides": self.strides,
                "typestr": self.dtype.str, "version": 3}

    def __bool__(self): return True
    def __hash__(self): return id(self)


def make_array(name, dtype, shape, strides, ptr, writeable, elements=None):
    dt = numpy.dtype(dtype)
    if elements is not None:
        base = numpy.empty(numpy.shape(elements), dtype=object)
        base[...] = elements
        a = base.view(SymArray)
        shape, st = base.shape, []
        e = dt.itemsize
        for d in base.shape[::-1]:
            st.insert(0, e)
            e *= d
        strides = tuple(st)
    else:
        a = numpy.zeros((1,) * len(shape), dtype=dt).view(SymArray)
    a._s = {"ptr": ptr, "shape": tuple(shape), "strides": tuple(strides), "writeable": writeable, "dtype": dt, "name": name}
    return a


def make_cupy():
    """A stand-in for the cupy module: its arrays live on the GPU."""
    import types
    m = types.ModuleType("cupy")

    class ndarray:
        pass
    ndarray.__module__ = "cupy"
    m.ndarray = ndarray
    for n in ("int8", "byte", "int16", "int32", "int64", "uint8", "float16", "float32", "float64", "complex64", "complex128", "dtype",
              "bool_", "double", "single", "intc"):
        setattr(m, n, getattr(numpy, n))
    m.abs, m.amin, m.amax = numpy.abs, numpy.amin, numpy.amax
    return m


class CupyMem:
    def __init__(self, ptr): self.ptr = ptr


def make_cupy_array(cupy, dtype, shape, strides, ptr):
    a = cupy.ndarray()
    a.dtype = numpy.dtype(dtype)
    a.shape, a.strides, a.ndim = tuple(shape), tuple(strides), len(shape)
    a.data = CupyMem(ptr)
    a.itemsize = a.dtype.itemsize
    n = 1
    for d in shape:
        n = d * n
    a.size = n
    return a


def make_astropy():
    import types
    m = types.ModuleType("astropy")
    c = types.ModuleType("astropy.coordinates")

    class SkyCoord:
        pass
    c.SkyCoord = SkyCoord
    m.coordinates = c
    m.__path__ = []
    return m, c


def make_astropy_coord(c, frame, ra, dec):
    import types
    s = c.SkyCoord()
    s.frame = types.SimpleNamespace(name=frame)
    s.ra, s.dec = types.SimpleNamespace(rad=ra), types.SimpleNamespace(rad=dec)
    return s
