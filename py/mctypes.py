"""Model of the ctypes module for symbolic execution of the bindings.

Follows the documented conversion rules of ctypes: what an argument of each
declared type accepts, what it raises on, and which value reaches the C
function (integers wrap without overflow checks, c_float rounds)."""
import builtins
import sys
import z3
import symval
from symval import SymInt, SymFloat, SymBool, term, wrap, _num

MODEL = sys.modules[__name__]
LIB = None          # the model library, set by the runner
ALLOC = []          # keeps addresses apart


class ArgumentError(Exception):
    pass


def _addr():
    ALLOC.append(0)
    return 0x10000000 + 0x1000 * len(ALLOC)


class _Meta(type):
    def __mul__(cls, n):
        n = n.__index__()
        if n < 0:
            raise ValueError("Array length must be >= 0, not %d" % n)
        key = (cls, n)
        if key not in _ARRAYS:
            _ARRAYS[key] = _Meta("%s_Array_%d" % (cls.__name__, n), (Array,), {"_type_": cls, "_length_": n})
        return _ARRAYS[key]
    __rmul__ = __mul__


_ARRAYS = {}


class _CData(metaclass=_Meta):
    def address(self):
        if "_a" not in self.__dict__:
            self.__dict__["_a"] = _addr()
        return self.__dict__["_a"]


def is_int(v):
    return isinstance(v, (SymInt, SymBool, int))


def is_float(v):
    return isinstance(v, (SymFloat, float))


def wrap_int(v, bits, signed):
    """The value of an integer after conversion to a C integer type."""
    if isinstance(v, (bool, int)):
        v = int(v) & ((1 << bits) - 1)
        return v - (1 << bits) if signed and v >> (bits - 1) else v
    t = _num(v.t)
    m = 1 << bits
    lo, hi = (-(m // 2), m // 2 - 1) if signed else (0, m - 1)
    r = t % m
    if signed:
        r = z3.If(r > hi, r - m, r)
    return wrap(z3.If(z3.And(t >= lo, t <= hi), t, r))


ROUND32 = z3.Function("round_to_float", z3.RealSort(), z3.RealSort())


class _Simple(_CData):
    _kind = None

    def __init__(self, value=None):
        self._v = self.convert(value) if value is not None else self.zero

    @property
    def value(self): return self._v

    @value.setter
    def value(self, v): self._v = self.convert(v)

    def __bool__(self): return bool(self._v)

    @classmethod
    def from_param(cls, v):
        if isinstance(v, cls):
            return v
        try:
            return cls(v)
        except TypeError:
            if hasattr(v, "_as_parameter_"):
                return cls.from_param(v._as_parameter_)
            raise


class _Int(_Simple):
    _kind = "i"
    zero = 0

    @classmethod
    def convert(cls, v):
        if not isinstance(v, (_Simple, symval._Sym, float)) and hasattr(v, "__index__"):
            v = v.__index__()
        if isinstance(v, _Simple) or not is_int(v):
            raise TypeError("an integer is required (got type %s)" % builtins.type(v).__name__)
        return wrap_int(v, cls.bits, cls.signed)


class _Flt(_Simple):
    _kind = "d"
    zero = 0.0

    @classmethod
    def convert(cls, v):
        if getattr(v, "ndim", 1) == 0 and hasattr(v, "item"):
            v = v.item()
        if isinstance(v, _Simple) or not (is_int(v) or is_float(v)):
            if hasattr(v, "__float__") and not isinstance(v, (str, bytes, _CData)):
                v = float(v)
            else:
                raise TypeError("must be real number, not %s" % builtins.type(v).__name__)
        return symval.sym_float(v) if isinstance(v, symval._Sym) else float(v)


def _int(name, bits, signed):
    return _Meta(name, (_Int,), {"bits": bits, "signed": signed})


c_int8 = c_byte = _int("c_byte", 8, True)
c_uint8 = c_ubyte = _int("c_ubyte", 8, False)
c_int16 = c_short = _int("c_short", 16, True)
c_uint16 = c_ushort = _int("c_ushort", 16, False)
c_int32 = c_int = _int("c_int", 32, True)
c_uint32 = c_uint = _int("c_uint", 32, False)
c_int64 = c_long = c_longlong = c_ssize_t = _int("c_long", 64, True)
c_uint64 = c_ulong = c_ulonglong = c_size_t = _int("c_ulong", 64, False)


class c_double(_Flt):
    pass


class c_float(_Flt):
    _kind = "f"

    @classmethod
    def convert(cls, v):
        v = _Flt.convert.__func__(cls, v)
        if isinstance(v, float):
            import struct
            return struct.unpack("f", struct.pack("f", v))[0]
        return wrap(ROUND32(v.t))


class c_bool(_Simple):
    _kind = "i"
    bits, signed, zero = 8, False, False

    @classmethod
    def convert(cls, v): return symval.sym_bool(v)


class c_char(_Simple):
    _kind = "i"
    bits, signed, zero = 8, True, b"\0"

    @classmethod
    def convert(cls, v): return v


class _PtrBase:
    pass


class c_char_p(_Simple, _PtrBase):
    _kind = "s"
    zero = None

    @classmethod
    def convert(cls, v):
        if v is None or isinstance(v, (bytes, int)):
            return v
        raise TypeError("bytes or integer address expected instead of %s instance" % builtins.type(v).__name__)


class c_void_p(_Simple, _PtrBase):
    _kind = "p"
    zero = None

    @classmethod
    def convert(cls, v):
        if v is None or is_int(v):
            return v
        raise TypeError("cannot be converted to pointer")

    @classmethod
    def from_param(cls, v):
        if v is None or isinstance(v, cls):
            return v
        if is_int(v):
            return cls(v)
        if isinstance(v, (_Pointer, _Ref, Array, c_char_p, bytes)):
            return v
        if hasattr(v, "_as_parameter_"):
            return cls.from_param(v._as_parameter_)
        raise TypeError("wrong type")


class py_object:
    pass


class Structure(_CData):
    _fields_ = ()

    def __init__(self, *a, **k):
        pass


class Union(Structure):
    pass


class Array(_CData):
    def __init__(self, *vals):
        if len(vals) > self._length_:
            raise IndexError("invalid index")
        self._d = [self._type_.convert(v) for v in vals]
        self._d += [self._type_.zero] * (self._length_ - len(self._d))

    def __len__(self): return self._length_
    def __getitem__(self, i): return self._d[i]

    def __setitem__(self, i, v): self._d[i] = self._type_.convert(v)
    def __iter__(self): return iter(self._d)

    @classmethod
    def from_param(cls, v):
        if isinstance(v, cls):
            return v
        if isinstance(v, tuple):
            return cls(*v)
        raise TypeError("expected %s instance instead of %s" % (cls.__name__, builtins.type(v).__name__))


class _Ref:
    """Result of byref()."""
    def __init__(self, obj): self.obj = obj


def byref(obj, offset=0):
    if not isinstance(obj, _CData):
        raise TypeError("byref() argument must be a ctypes instance, not '%s'" % builtins.type(obj).__name__)
    return _Ref(obj)


def pointer(obj):
    p = POINTER(builtins.type(obj))()
    p.obj = obj
    p.addr = obj.address()
    return p


class _Pointer(_CData, _PtrBase):
    _type_ = None
    zero = None

    def __init__(self, obj=None):
        self.obj = obj
        self.addr = obj.address() if obj is not None else 0
        self.handle = None

    def __bool__(self):
        if isinstance(self.addr, symval._Sym):
            return bool(self.addr != 0)
        return self.addr != 0

    @property
    def contents(self): return self.obj

    def __getitem__(self, i):
        o = self.obj
        return o[i] if isinstance(o, Array) else o.value

    def __setitem__(self, i, v):
        o = self.obj
        if isinstance(o, Array):
            o[i] = v
        else:
            o.value = v

    @classmethod
    def from_param(cls, v):
        if v is None or isinstance(v, cls):
            return v
        if isinstance(v, _Ref) and isinstance(v.obj, cls._type_):
            return v
        if isinstance(v, Array) and v._type_ is cls._type_:
            return v
        if isinstance(v, cls._type_):
            return _Ref(v)
        if isinstance(v, _Pointer) and issubclass(v._type_, cls._type_):
            return v
        if hasattr(v, "_as_parameter_"):
            return cls.from_param(v._as_parameter_)
        raise TypeError("expected %s instance instead of %s" % (cls.__name__, builtins.type(v).__name__))


_POINTERS = {}


def POINTER(t):
    if t not in _POINTERS:
        _POINTERS[t] = _Meta("LP_" + getattr(t, "__name__", str(t)), (_Pointer,), {"_type_": t})
    return _POINTERS[t]


def address_of(v):
    """Address passed for a pointer-like value."""
    if v is None:
        return 0
    if isinstance(v, _Ref):
        return v.obj.address()
    if isinstance(v, _Pointer):
        return v.addr
    if isinstance(v, c_void_p):
        return v.value if v.value is not None else 0
    if isinstance(v, Array):
        return v.address()
    if is_int(v):
        return v
    raise TypeError("no address for %r" % builtins.type(v))


def cast(obj, t):
    r = t() if issubclass(t, (_Pointer, c_void_p)) else None
    if r is None:
        raise TypeError("cast() to %s" % t)
    src = obj.obj if isinstance(obj, (_Ref, _Pointer)) else obj
    if isinstance(r, _Pointer):
        r.addr = address_of(obj)
        r.obj = src if isinstance(src, _CData) else None
    else:
        r._v = address_of(obj)
    return r


def addressof(obj): return obj.address()


def sizeof(t):
    t = t if isinstance(t, builtins.type) else builtins.type(t)
    if issubclass(t, _Int):
        return t.bits // 8
    if issubclass(t, c_float):
        return 4
    if issubclass(t, (c_double, _PtrBase)):
        return 8
    if issubclass(t, Array):
        return t._length_ * sizeof(t._type_)
    raise TypeError("sizeof")


class CDLL:
    def __init__(self, name=None, *a, **k):
        self._name = name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = self[name]
        self.__dict__[name] = f
        return f

    def __getitem__(self, name):
        if name not in LIB.protos:
            raise AttributeError("undefined symbol: %s" % name)
        return _Func(name)


class _Func:
    def __init__(self, name):
        self.__name__ = name
        self.argtypes = None
        self.restype = c_int
        self.errcheck = None

    def __call__(self, *args):
        conv = []
        if self.argtypes is not None:
            if len(args) < len(self.argtypes):
                raise TypeError("this function takes at least %d arguments (%d given)" % (len(self.argtypes), len(args)))
        for i, a in enumerate(args):
            if self.argtypes is not None and i < len(self.argtypes):
                try:
                    conv.append((self.argtypes[i], self.argtypes[i].from_param(a)))
                except TypeError as e:
                    raise ArgumentError("argument %d: TypeError: %s" % (i + 1, e))
            else:
                conv.append((None, self.default(a, i)))
        r = LIB.call(self, conv)
        return self.errcheck(r, self, args) if self.errcheck else r

    @staticmethod
    def default(a, i):
        if isinstance(a, (_CData, _Ref)) or a is None:
            return a
        if isinstance(a, bytes):
            return c_char_p(a)
        if is_int(a):
            return c_int(a)
        if hasattr(a, "_as_parameter_"):
            return _Func.default(a._as_parameter_, i)
        raise ArgumentError("argument %d: TypeError: Don't know how to convert parameter %d" % (i + 1, i + 1))


class _Loader:
    def LoadLibrary(self, name): return CDLL(name)


cdll = _Loader()
PyDLL = CDLL
