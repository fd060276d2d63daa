"""Symbolic values for executing Python code: path exploration with Z3 as the
deciding engine. Integers are unbounded (Z3 Int), floats are exact reals."""
import builtins, time
import z3


class Stop(BaseException):
    """The current path is infeasible or out of bounds."""


class Explorer:
    """Depth-first exploration by re-execution."""
    cur = None

    def __init__(self, limit=4000):
        self.limit = limit
        self.queries = 0
        self.solver_time = 0.0
        self.decisions = 0

    def run(self, fn):
        """Calls fn once per path; yields (result of fn, path) pairs."""
        work = [[]]
        self.paths = 0
        self.complete = True
        while work:
            if self.paths >= self.limit:
                self.complete = False
                break
            self.prefix = work.pop()
            self.pos = 0
            self.pc = []
            self.taken = []
            self.work = work
            self.solver = z3.Solver()
            self.solver.set("timeout", 20000)
            Explorer.cur = self
            try:
                r = fn()
            except Stop:
                r = None
            finally:
                Explorer.cur = None
            self.paths += 1
            yield r

    def check(self, *cond):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*cond)
        self.solver_time += time.time() - t
        return r

    def assume(self, cond):
        self.solver.add(cond)
        if self.check() != z3.sat:
            raise Stop()

    def decide(self, cond):
        """Returns the truth of cond on this path; forks if both are possible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.decisions += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(v)
            self.solver.add(cond if v else z3.Not(cond))
            return v
        self.pos += 1
        t = self.check(cond) != z3.unsat
        f = self.check(z3.Not(cond)) != z3.unsat
        if t and f:
            self.work.append(self.taken + [False])
            v = True
        elif t:
            v = True
        elif f:
            v = False
        else:
            raise Stop()
        self.taken.append(v)
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def concretise(self, term, tries=12):
        """Picks a value of an integer term on this path (forking on others)."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        for _ in builtins.range(tries):
            if self.check() != z3.sat:
                raise Stop()
            m = self.solver.model().eval(term, model_completion=True).as_long()
            # deterministic under re-execution: search the smallest magnitude
            for k in (0, 1, 2, 3, 4, 5, 6, -1):
                if self.check(term == k) == z3.sat:
                    m = k
                    break
            if self.decide(term == m):
                return m
        self.complete = False
        raise Stop()


def ex():
    return Explorer.cur


def term(v):
    """Z3 term of a Python or symbolic number."""
    if isinstance(v, (SymInt, SymFloat, SymBool)):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        n, d = v.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    if hasattr(v, "item"):
        return term(v.item())
    raise TypeError("no term for %r" % type(v))


def _num(t):
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def wrap(t):
    t = z3.simplify(t)
    if z3.is_bool(t):
        return SymBool(t)
    if z3.is_int(t):
        return SymInt(t)
    return SymFloat(t)


def _isnum(o):
    return isinstance(o, (SymInt, SymFloat, SymBool, bool, int, float)) or (
        hasattr(o, "item") and hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0)


def _pair(a, b):
    a, b = _num(term(a)), _num(term(b))
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    if z3.is_int(b) and z3.is_real(a):
        b = z3.ToReal(b)
    return a, b


class _Sym:

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, swap=False):
        if not _isnum(o):
            return NotImplemented
        a, b = _pair(self, o)
        return wrap(f(b, a) if swap else f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _real(t):
        return z3.ToReal(t) if z3.is_int(t) else t

    def _div(self, a, b):
        if ex().decide(_num(term(b)) == 0):
            raise ZeroDivisionError("division by zero")
        a, b = _pair(a, b)
        return wrap(self._real(a) / self._real(b))

    def __truediv__(self, o): return self._div(self, o) if _isnum(o) else NotImplemented
    def __rtruediv__(self, o): return self._div(o, self) if _isnum(o) else NotImplemented

    def _fdiv(self, a, b, want_mod):
        a, b = _pair(a, b)
        if ex().decide(b == 0):
            raise ZeroDivisionError("division by zero")
        if z3.is_real(a):
            q = z3.ToReal(z3.ToInt(a / b))
        else:
            # Python floors; Z3's div rounds so that the remainder is >= 0
            q = z3.If(b > 0, a / b, (-a) / (-b))
        return wrap(a - q * b if want_mod else q)

    def __floordiv__(self, o): return self._fdiv(self, o, False)
    def __rfloordiv__(self, o): return self._fdiv(o, self, False)
    def __mod__(self, o): return self._fdiv(self, o, True)
    def __rmod__(self, o): return self._fdiv(o, self, True)
    def __neg__(self): return wrap(-_num(self.t))
    def __pos__(self): return wrap(_num(self.t))

    def __abs__(self):
        t = _num(self.t)
        return wrap(z3.If(t < 0, -t, t))

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 4:
            r = 1
            for _ in builtins.range(n):
                r = self * r
            return r
        return NotImplemented

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)

    def __hash__(self):
        t = _num(self.t)
        if z3.is_int(t):
            for k in builtins.range(0, 10):
                if ex().decide(t == k):
                    return hash(k)
        return 0x5eed5eed

    def __bool__(self):
        t = self.t
        if z3.is_bool(t):
            return ex().decide(t)
        return ex().decide(t != 0)

    def __repr__(self): return "<%s>" % self.t
    def __str__(self): return "<%s>" % self.t
    def __format__(self, s): return "<%s>" % self.t
    def item(self): return self


class SymInt(_Sym):
    def __index__(self): return ex().concretise(self.t)
    def __int__(self): return ex().concretise(self.t)

    def __float__(self): return float(ex().concretise(self.t))

    def _bits(self, o, f, swap=False):
        if not isinstance(o, (SymInt, SymBool, int)):
            return NotImplemented
        a, b = z3.Int2BV(_num(self.t), 64), z3.Int2BV(_num(term(o)), 64)
        if swap:
            a, b = b, a
        return wrap(z3.BV2Int(f(a, b), True))

    def __and__(self, o): return self._bits(o, lambda a, b: a & b)
    def __or__(self, o): return self._bits(o, lambda a, b: a | b)
    def __xor__(self, o): return self._bits(o, lambda a, b: a ^ b)
    def __rand__(self, o): return self._bits(o, lambda a, b: a & b, True)
    def __ror__(self, o): return self._bits(o, lambda a, b: a | b, True)

    def __rshift__(self, n): return self // (1 << n)
    def __lshift__(self, n): return self * (1 << n)
    def bit_length(self): return int(self).bit_length()
    real = property(lambda s: s)
    imag = 0


class SymFloat(_Sym):
    def is_integer(self): return wrap(z3.IsInt(self.t))

    def __int__(self):
        raise Stop()   # conversion of a free real: not modelled

    def __float__(self):
        v = z3.simplify(self.t)
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        raise TypeError("symbolic real has no concrete value")


class SymBool(_Sym):
    def __index__(self): return 1 if bool(self) else 0
    def __int__(self): return 1 if bool(self) else 0
    def __and__(self, o): return wrap(z3.And(self.t, term(o)))
    def __or__(self, o): return wrap(z3.Or(self.t, term(o)))
    __rand__ = __and__
    __ror__ = __or__
    def __xor__(self, o): return wrap(z3.Xor(self.t, term(o)))


# Builtins as the code under test sees them.
def sym_isinstance(o, c):
    if isinstance(o, _Sym):
        cs = c if isinstance(c, tuple) else (c,)
        import numbers
        m = {SymInt: (int, numbers.Integral, numbers.Real, numbers.Number),
             SymFloat: (float, numbers.Real, numbers.Number),
             SymBool: (bool, int, numbers.Integral)}[type(o)]
        return any(k in m or (isinstance(k, type) and isinstance(o, k)) or
                   getattr(k, "_sym_kind", None) in m for k in cs)
    return isinstance(o, tuple(getattr(k, "_real", k) for k in (c if isinstance(c, tuple) else (c,))))


class _Conv(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], _Sym):
            return cls.conv(a[0])
        return cls._real(*a, **k)

    def __instancecheck__(cls, o):
        return sym_isinstance(o, cls._real)

    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)
    def __getattr__(cls, n): return getattr(cls._real, n)


def _mk(real, conv):
    return _Conv("sym_" + real.__name__, (), {"_real": real, "_sym_kind": real, "conv": staticmethod(conv)})


def _to_int(v):
    if isinstance(v, SymFloat):
        t = v.t
        return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return wrap(_num(v.t))


def _to_float(v):
    t = _num(v.t)
    return wrap(z3.ToReal(t) if z3.is_int(t) else t)


sym_int = _mk(int, _to_int)
sym_float = _mk(float, _to_float)
sym_bool = _mk(bool, lambda v: wrap(v.t if z3.is_bool(v.t) else v.t != 0))


def sym_type(*a):
    if len(a) == 1 and isinstance(a[0], _Sym):
        return {SymInt: int, SymFloat: float, SymBool: bool}[type(a[0])]
    return type(*a)


def sym_range(*a):
    return builtins.range(*[v.__index__() for v in a])


def _minmax(pick):
    def f(*a, **k):
        if k or (len(a) == 1 and not any(isinstance(x, _Sym) for x in a[0])) or not any(
                isinstance(x, _Sym) for x in (a if len(a) > 1 else a[0])):
            return (builtins.min if pick else builtins.max)(*a, **k)
        xs = list(a if len(a) > 1 else a[0])
        r = xs[0]
        for x in xs[1:]:
            p, q = _pair(r, x)
            r = wrap(z3.If(q < p if pick else q > p, q, p))
        return r
    return f


BUILTINS = {"isinstance": sym_isinstance, "int": sym_int, "float": sym_float, "bool": sym_bool,
            "range": sym_range, "min": _minmax(True), "max": _minmax(False)}


def ITE(c, a, b):
    """If-then-else over symbolic or concrete values."""
    if isinstance(c, _Sym):
        c = c.t if z3.is_bool(c.t) else c.t != 0
        if not (isinstance(a, (_Sym, int, float)) and isinstance(b, (_Sym, int, float))):
            return a if ex().decide(c) else b
        p, q = _pair(a, b)
        return wrap(z3.If(c, p, q))
    return a if c else b


def NOT(c):
    if isinstance(c, _Sym):
        return wrap(z3.Not(c.t if z3.is_bool(c.t) else c.t != 0))
    return not c
