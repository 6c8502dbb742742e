"""Symbolic execution of the real code by proxy values.

A harness is a function h(ctx).  In symbolic mode (Sym) the numbers it obtains
from ctx are proxies; every branch the *real* code takes on a proxy forks the
path (by re-execution), every ctx.check becomes an obligation
``path condition |= goal`` handed to the solver portfolio.  In concrete mode
(Conc) the same harness runs the same code on ordinary floats: used to replay
counterexamples, to cross-check the engine against CPython, and as the
contract-directed search / bounded stand-in.
"""
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import solve


class Unsupported(BaseException):
    """Outside the engine's reach (never swallowed by 'except Exception')."""


class Infeasible(BaseException):
    pass


class Reject(BaseException):
    """Concrete input violates an assumption."""


class PathLimit(BaseException):
    pass


CUR = None  # current context


def cur():
    if CUR is None:
        raise Unsupported("no context")
    return CUR


# ---------------------------------------------------------------- numerals

def frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = repr(x)
    digits = r.replace("-", "").replace(".", "").split("e")[0].strip("0")
    if len(digits) <= 15:
        return Fraction(r)
    return Fraction(x)


_RV = {}


def rv(x):
    key = (type(x), x)
    v = _RV.get(key)
    if v is None:
        f = frac(x)
        v = z3.RealVal(f"{f.numerator}/{f.denominator}")
        _RV[key] = v
    return v


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) and not isinstance(x, Proxy)


def finite(x):
    return math.isfinite(x)


# ---------------------------------------------------------------- proxies

class Proxy:
    __slots__ = ()


class SBool(Proxy):
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return sb_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def logical_not(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.e == o.e)
        if isinstance(o, (bool, np.bool_)):
            return self if o else SBool(z3.Not(self.e))
        if isinstance(o, (int, float)):
            return self.asint() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sb_not(r)
    __hash__ = object.__hash__

    def asint(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.asint() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.asint() * o
    __rmul__ = __mul__

    def __repr__(self):
        return f"SBool({self.e})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def be(x):
    """-> z3 bool"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SReal, SInt)):
        return (x != 0).e
    return z3.BoolVal(bool(x))


def neg(e):
    return e.arg(0) if z3.is_not(e) else z3.Not(e)


def sb_and(*xs):
    es = [be(x) for x in xs]
    if any(z3.is_false(e) for e in es):
        return False
    es = [e for e in es if not z3.is_true(e)]
    if not es:
        return True
    return SBool(z3.And(*es) if len(es) > 1 else es[0])


def sb_or(*xs):
    es = [be(x) for x in xs]
    if any(z3.is_true(e) for e in es):
        return True
    es = [e for e in es if not z3.is_false(e)]
    if not es:
        return False
    return SBool(z3.Or(*es) if len(es) > 1 else es[0])


def sb_not(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.e))
    return not x


def _cmp(op, a, b):
    e = op(a, b)
    return e


class SNum(Proxy):
    __slots__ = ("e", "npf")
    __array_priority__ = 1000

    # numpy scalar like attributes
    size = 1
    shape = ()
    ndim = 0

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the shim")

    def __int__(self):
        raise Unsupported("int() of a symbolic value outside the shim")

    def __format__(self, spec):
        return f"<{self.e}>"

    def __str__(self):
        return f"<{self.e}>"

    def __repr__(self):
        return f"<{self.e}>"

    def tolist(self):
        return self.py()

    def item(self):
        return self.py()

    def copy(self):
        return self

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __pos__(self):
        return self

    # comparisons -------------------------------------------------
    def _c(self, o, name):
        if isinstance(o, np.ndarray):
            from . import shim
            return shim.zipmap(lambda x, y: x._c(y, name) if isinstance(x, SNum) else getattr(x, f"__{name}__")(y), self, o)
        if isinstance(o, SBool):
            o = o.asint()
        if isinstance(o, SNum):
            a, b = self.e, o.e
            if a.sort() != b.sort():
                a, b = toreal(a), toreal(b)
            if name not in ("eq", "ne"):
                cur().angle_axiom(a, b)
            else:
                cur().angle_axiom(a, b)
        elif is_num(o):
            if isinstance(o, (float, np.floating)) and not finite(o):
                if math.isnan(o):
                    return name == "ne"
                if o > 0:
                    return name in ("lt", "le", "ne")
                return name in ("gt", "ge", "ne")
            a = self.e
            if a.sort() == z3.IntSort():
                f = frac(o)
                if f.denominator == 1:
                    b = z3.IntVal(f.numerator)
                else:
                    a, b = toreal(a), rv(o)
            else:
                b = rv(o)
        elif o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            if name == "eq":
                return False
            if name == "ne":
                return True
            return NotImplemented
        else:
            return NotImplemented
        if name == "eq":
            e = a == b
        elif name == "ne":
            e = a != b
        elif name == "lt":
            e = a < b
        elif name == "le":
            e = a <= b
        elif name == "gt":
            e = a > b
        else:
            e = a >= b
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        return self._c(o, "ne")

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    # numpy ufunc methods on object arrays ------------------------
    def sqrt(self):
        return f_sqrt(self)

    def sin(self):
        return f_trig(self)[0]

    def cos(self):
        return f_trig(self)[1]

    def tan(self):
        s, c = f_trig(self)
        return s / c

    def arccos(self):
        return f_arccos(self)

    def arcsin(self):
        return f_arcsin(self)

    def log(self):
        return f_log(self)

    def exp(self):
        return f_exp(self)

    def floor(self):
        return toR(f_floor(self))

    def square(self):
        return self * self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def isfinite(self):
        return True

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0


def toreal(e):
    if e.sort() == z3.IntSort():
        return z3.ToReal(e)
    return e


def num_e(x):
    """Any number -> z3 real expr"""
    if isinstance(x, SBool):
        x = x.asint()
    if isinstance(x, SNum):
        return toreal(x.e)
    return rv(x)


class SReal(SNum):
    __slots__ = ()

    def __init__(self, e, npf=False):
        self.e = e
        self.npf = npf

    def py(self):
        return SReal(self.e, False) if self.npf else self

    def nps(self):
        return self if self.npf else SReal(self.e, True)

    def _co(self, o):
        """coerce other; returns (kind, z3expr, npf)"""
        if isinstance(o, SBool):
            o = o.asint()
        if isinstance(o, SNum):
            return toreal(o.e), o.npf
        if is_num(o):
            return o, isinstance(o, np.generic)
        return None, None

    def _bin(self, o, op, swap=False):
        if isinstance(o, np.ndarray):
            return arr_op(self, o, op, swap)
        b, bn = self._co(o)
        if b is None:
            return NotImplemented
        npf = self.npf or bn
        a = self.e
        if is_num(b):
            if isinstance(b, (float, np.floating)) and not finite(b):
                return inf_arith(self, o, op, swap)
            if op == "add" and b == 0:
                return self if self.npf or not npf else self.nps()
            if op == "mul":
                if b == 0:
                    return np.float64(0.0) if npf else 0.0
                if b == 1:
                    return self.nps() if npf else self
            if op == "sub" and not swap and b == 0:
                return self.nps() if npf else self
            b = rv(b)
        if swap:
            a, b = b, a
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        return mk(r, npf)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        return self._bin(o, "mul")

    def __rmul__(self, o):
        return self._bin(o, "mul", True)

    def __neg__(self):
        return mk(-self.e, self.npf)

    def __abs__(self):
        return f_abs(self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, k, m=None):
        return f_pow(self, k)

    def __rpow__(self, k):
        if is_num(k) and k > 0:
            return f_exp(self * math.log(k))
        raise Unsupported("pow with symbolic exponent")

    def __floordiv__(self, o):
        return toR(f_floor(div(self, o)))

    def __mod__(self, o):
        return self - (self // o) * o

    def __round__(self, n=None):
        k = f_floor(self + 0.5)
        if n is None:
            return k
        if not isinstance(n, int) or abs(n) > 12:
            raise Unsupported("round to digits")
        return f_floor(self * 10.0 ** n + 0.5) / 10.0 ** n  # ties apart (upwards, not to even)

    def __floor__(self):
        return f_floor(self)

    def __ceil__(self):
        return -f_floor(-self)

    def __trunc__(self):
        return f_trunc(self)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def is_integer(self):
        return f_floor(self) == self


INT_FORMAT = None  # a harness may say how symbolic ints are written
LIST_REPEAT = None  # a harness may say what [x] * n is for a symbolic n


class SInt(SNum):
    __slots__ = ()

    def __init__(self, e, npf=False):
        self.e = e
        self.npf = npf

    def py(self):
        return SInt(self.e, False) if self.npf else self

    def nps(self):
        return self if self.npf else SInt(self.e, True)

    def _bin(self, o, op, swap=False):
        if isinstance(o, np.ndarray):
            return arr_op(self, o, op, swap)
        if isinstance(o, SBool):
            o = o.asint()
        if isinstance(o, list) and op == "mul" and LIST_REPEAT is not None:
            return LIST_REPEAT(o, self)
        if isinstance(o, SReal) or isinstance(o, (float, np.floating)):
            s = SReal(z3.ToReal(self.e), self.npf)
            if isinstance(o, SReal) and swap:
                return o._bin(s, op)
            return s._bin(o, op, swap)
        if isinstance(o, SInt):
            b = o.e
            npf = self.npf or o.npf
        elif is_num(o):
            if op == "add" and o == 0:
                return self
            if op == "mul" and o == 0:
                return 0
            if op == "mul" and o == 1:
                return self
            b = z3.IntVal(int(o))
            npf = self.npf
        else:
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[op]()
        return mki(r, npf)

    __add__ = lambda s, o: s._bin(o, "add")
    __radd__ = lambda s, o: s._bin(o, "add", True)
    __sub__ = lambda s, o: s._bin(o, "sub")
    __rsub__ = lambda s, o: s._bin(o, "sub", True)
    __mul__ = lambda s, o: s._bin(o, "mul")
    __rmul__ = lambda s, o: s._bin(o, "mul", True)

    def __neg__(self):
        return mki(-self.e, self.npf)

    def __abs__(self):
        return mki(z3.If(self.e >= 0, self.e, -self.e), self.npf)

    def __truediv__(self, o):
        return div(SReal(z3.ToReal(self.e), self.npf), o)

    def __rtruediv__(self, o):
        return div(o, SReal(z3.ToReal(self.e), self.npf))

    def _dm(self, o, which, swap):
        if isinstance(o, (SReal, float)):
            s = SReal(z3.ToReal(self.e), self.npf)
            if swap:
                return (o // s) if which == "div" else (o % s)
            return (s // o) if which == "div" else (s % o)
        a = self
        if swap:
            a, o = o, self
        if not isinstance(a, SInt):
            a = SInt(z3.IntVal(int(a)))
        b = o if isinstance(o, SInt) else SInt(z3.IntVal(int(o)))
        if bool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(b > 0):
            return mki(a.e / b.e if which == "div" else a.e % b.e)
        # floor semantics for negative divisors
        q = (-a.e) / (-b.e)
        return mki(q if which == "div" else a.e - q * b.e)

    def __floordiv__(self, o):
        return self._dm(o, "div", False)

    def __rfloordiv__(self, o):
        return self._dm(o, "div", True)

    def __mod__(self, o):
        return self._dm(o, "mod", False)

    def __rmod__(self, o):
        return self._dm(o, "mod", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k, m=None):
        if isinstance(k, int) and 0 <= k <= 8:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        return SReal(z3.ToReal(self.e)) ** k

    def __rshift__(self, k):
        return self // (2 ** int(k))

    def __lshift__(self, k):
        return self * (2 ** int(k))

    def __index__(self):
        return cur().concretise(self)

    def __format__(self, spec):
        if INT_FORMAT is None:
            raise Unsupported("formatting a symbolic int")
        return INT_FORMAT(self, spec)

    def __round__(self, n=None):
        return self

    __floor__ = __round__
    __ceil__ = __round__
    __trunc__ = __round__

    def __int__(self):
        raise Unsupported("int() of symbolic int outside the shim")


def mk(e, npf=False):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        v = float(f)
        if frac(v) == f:
            return np.float64(v) if npf else v
    return SReal(e, npf)


def mki(e, npf=False):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e, npf)


def toR(x):
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.e), x.npf)
    if isinstance(x, SBool):
        return toR(x.asint())
    if isinstance(x, SNum):
        return x
    return float(x)


def isnp(x):
    if isinstance(x, SNum):
        return x.npf
    return isinstance(x, np.generic)


def as_np(x):
    """mark as numpy scalar"""
    if isinstance(x, SNum):
        return x.nps()
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, float):
        return np.float64(x)
    return x


def arr_op(a, b, op, swap):
    from . import shim
    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
    return shim.zipmap(f, b, a) if swap else shim.zipmap(f, a, b)


def inf_arith(a, b, op, swap):
    """a symbolic finite, b concrete inf/nan"""
    t = np.float64 if isnp(a) or isnp(b) else float
    b = float(b)
    if math.isnan(b):
        return t("nan")
    if op == "add":
        return t(b)
    if op == "sub":
        return t(b if swap else -b)
    if op == "mul":
        if bool(a > 0):
            return t(b)
        if bool(a < 0):
            return t(-b)
        return t("nan")
    raise Unsupported("inf " + op)


def div(a, b):
    """a / b, at least one symbolic"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import shim
        return shim.zipmap(shim._div, a, b)
    if isinstance(b, SBool):
        b = b.asint()
    if isinstance(a, SBool):
        a = a.asint()
    if not (isinstance(a, SNum) or is_num(a)) or not (isinstance(b, SNum) or is_num(b)):
        return NotImplemented
    npf = isnp(a) or isnp(b)
    t = np.float64 if npf else float
    if is_num(b):
        if isinstance(b, (float, np.floating)) and not finite(b):
            return t("nan") if math.isnan(b) else t(0.0)
        if b == 0:
            if not npf:
                raise ZeroDivisionError("float division by zero")
            return _byzero(a, t)
        if b == 1:
            return as_np(toR(a)) if npf else toR(a)
        return mk(num_e(a) / rv(b) if frac(b).denominator != 1 else num_e(a) / rv(b), npf)
    # b symbolic
    if bool(b == 0):
        if not npf:
            raise ZeroDivisionError("float division by zero")
        return _byzero(a, t)
    if is_num(a):
        if isinstance(a, (float, np.floating)) and not finite(a):
            if math.isnan(a):
                return t("nan")
            return t(a) if bool(b > 0) else t(-a)
        if a == 0:
            return t(0.0)
    return cur().quotient(num_e(a), num_e(b), npf)


def _byzero(a, t):
    if is_num(a):
        if a != a or a == 0:
            return t("nan")
        return t("inf") if a > 0 else t("-inf")
    if bool(a > 0):
        return t("inf")
    if bool(a < 0):
        return t("-inf")
    return t("nan")


def f_abs(x):
    if isinstance(x, SInt):
        return abs(x)
    if isinstance(x, SReal):
        # split on the sign when it is already decided, otherwise an if-term
        return mk(z3.If(x.e >= 0, x.e, -x.e), x.npf)
    return abs(x)


def f_sqrt(x, strict=False):
    if not isinstance(x, SNum):
        if strict:
            return math.sqrt(x)
        return np.sqrt(x) if x >= 0 or x != x else np.float64("nan")
    x = toR(x)
    if bool(x < 0):
        if strict:
            raise ValueError("math domain error")
        return np.float64("nan")
    return cur().sqrt_of(x, not strict)


def f_pow(x, k):
    if isinstance(k, SNum):
        raise Unsupported("pow with symbolic exponent")
    if isinstance(k, (float, np.floating)) and float(k).is_integer():
        k = int(k)
    if isinstance(k, (int, np.integer)):
        k = int(k)
        if k < 0:
            return div(1.0, f_pow(x, -k))
        if k > 12:
            raise Unsupported("large power")
        r = 1.0
        for _ in range(k):
            r = x * r
        return r
    if k == 0.5:
        return f_sqrt(x, strict=not isnp(x))
    if k == 1.5:
        return x * f_sqrt(x, strict=not isnp(x))
    raise Unsupported(f"power {k}")


def f_trig(x):
    if not isinstance(x, SNum):
        return np.sin(x), np.cos(x)
    return cur().trig(toR(x))


def f_arccos(x, strict=False):
    if not isinstance(x, SNum):
        if abs(x) > 1:
            if strict:
                raise ValueError("math domain error")
            return np.float64("nan")
        return np.arccos(x)
    x = toR(x)
    if bool(sb_or(x > 1, x < -1)):
        if strict:
            raise ValueError("math domain error")
        return np.float64("nan")
    return cur().arccos(x, not strict)


def f_arcsin(x, strict=False):
    if not isinstance(x, SNum):
        if abs(x) > 1:
            if strict:
                raise ValueError("math domain error")
            return np.float64("nan")
        return np.arcsin(x)
    x = toR(x)
    if bool(sb_or(x > 1, x < -1)):
        if strict:
            raise ValueError("math domain error")
        return np.float64("nan")
    return cur().arcsin(x, not strict)


def f_atan2(y, x, strict=False):
    if not isinstance(x, SNum) and not isinstance(y, SNum):
        return math.atan2(y, x) if strict else np.arctan2(y, x)
    if bool(sb_and(x == 0, y == 0)):
        return 0.0 if strict else np.float64(0.0)
    return cur().atan2(y, x, not strict)


def f_log(x, strict=False):
    if not isinstance(x, SNum):
        if strict:
            return math.log(x)
        with np.errstate(all="ignore"):
            return np.log(x)
    x = toR(x)
    if bool(x <= 0):
        if strict:
            raise ValueError("math domain error")
        if bool(x == 0):
            return np.float64("-inf")
        return np.float64("nan")
    return cur().log_of(x, not strict)


def f_exp(x):
    if not isinstance(x, SNum):
        return np.exp(x)
    return cur().exp_of(toR(x))


def f_floor(x):
    """floor -> integer proxy"""
    if isinstance(x, SInt):
        return x
    if not isinstance(x, SNum):
        return math.floor(x)
    return cur().floor_of(x)


def f_trunc(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x.asint()
    if not isinstance(x, SNum):
        return int(x)
    if bool(x >= 0):
        return f_floor(x)
    return -f_floor(-x)


# ---------------------------------------------------------------- obligations

class Obligation:
    __slots__ = ("name", "status", "backend", "seconds", "model", "path", "detail", "goal", "pc")

    def __init__(self, name, status, backend, seconds, model, path, detail="", goal=None, pc=None):
        self.name, self.status, self.backend, self.seconds = name, status, backend, seconds
        self.model, self.path, self.detail = model, path, detail
        self.goal, self.pc = goal, pc


class Base:
    def hint(self, *xs):
        pass

    def away(self, *a, **k):
        pass

    def define(self, x):
        return x

    def square(self, x):
        return x * x

    def dot(self, a, b):
        r = 0.0
        for x, y in zip(a, b):
            r = r + x * y
        return self.define(r)


class Sym(Base):
    """One symbolic execution of one path."""
    mode = "sym"
    sym = True
    conc = False

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.names = {}
        self.vars = {}
        self.counter = {}
        self.draws = []
        self.sq = {}
        self.defs = {}
        self.ring = None
        self.quot = {}
        self.trigs = {}
        self.angles = {}
        self.logs = []
        self.floors = {}
        self.model = None
        self.obls = []
        self.memo = {}
        self.notes = {}
        self.hints = []

    # -- fresh values
    def uname(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def add(self, *es):
        for e in es:
            if isinstance(e, SBool):
                e = e.e
            if e is True or z3.is_true(e):
                continue
            self.pc.append(e)
            self.model = None if self.model is None else self._still(e)

    def _still(self, e):
        try:
            v = self.model.eval(e, model_completion=True)
            return self.model if z3.is_true(v) else None
        except z3.Z3Exception:
            return None

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, log=False, special=(), npf=False):
        name = self.uname(name)
        v = z3.Real(name)
        self.vars[name] = v
        if lo is not None:
            l = num_e(lo)
            self.add(v > l if lo_open else v >= l)
        if hi is not None:
            h = num_e(hi)
            self.add(v < h if hi_open else v <= h)
        return SReal(v, npf)

    def pos(self, name, **k):
        return self.real(name, 0, None, lo_open=True)

    def int(self, name, lo=None, hi=None, small=None):
        name = self.uname(name)
        v = z3.Int(name)
        self.vars[name] = v
        if lo is not None:
            self.add(v >= (lo.e if isinstance(lo, SInt) else int(lo)))
        if hi is not None:
            self.add(v <= (hi.e if isinstance(hi, SInt) else int(hi)))
        return SInt(v)

    def flag(self, name):
        return self.choose(name, [False, True])

    def sbool(self, name):
        name = self.uname(name)
        v = z3.Bool(name)
        self.vars[name] = v
        return SBool(v)

    def choose(self, name, options):
        name = self.uname("?" + name)
        n = len(options)
        k = self.decide(n)
        self.names[name] = k
        return options[k]

    def unit(self, name):
        xs = tuple(self.real(f"{name}{c}") for c in "xyz")
        x, y, z = [a.e for a in xs]
        self.add(x * x + y * y + z * z == 1)
        self.add(x >= -1, x <= 1, y >= -1, y <= 1, z >= -1, z <= 1)
        return xs

    def vec(self, name, n=3, **k):
        return tuple(self.real(f"{name}{c}", **k) for c in "xyzw"[:n])

    def quat(self, name):
        """unit quaternion"""
        xs = tuple(self.real(f"{name}q{i}") for i in range(4))
        self.add(z3.Sum([a.e * a.e for a in xs]) == 1)
        return xs

    def angle(self, name, lo=None, hi=None):
        """An angle with known sine and cosine (lo/hi within [0, pi])."""
        base = self.uname(name)
        t, s, c = z3.Real(base), z3.Real(base + "_sin"), z3.Real(base + "_cos")
        self.vars[base] = t
        self.add(s * s + c * c == 1)
        self.register_angle(t, s, c)
        if lo is not None:
            self.add(t >= num_e(lo))
        if hi is not None:
            self.add(t <= num_e(hi))
        return SReal(t)

    def uniform(self, lo=0.0, hi=1.0):
        """One draw of the random source: a value in [lo, hi)."""
        name = self.uname("rnd")
        u = z3.Real(name)
        self.vars[name] = u
        self.add(u >= 0, u < 1)
        u = SReal(u, True)
        self.draws.append(u)
        if is_num(lo) and is_num(hi) and lo == 0 and hi == 1:
            return u
        return lo + (hi - lo) * u

    # -- decisions
    def decide(self, n):
        pos = len(self.decisions)
        if pos < len(self.prefix):
            k = self.prefix[pos]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.ex.push(self.decisions + [j])
        self.decisions.append(k)
        if len(self.decisions) > self.ex.max_depth:
            raise PathLimit("path too long")
        return k

    def branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        pos = len(self.decisions)
        if len(self.decisions) > self.ex.max_depth:
            raise PathLimit("path too long")
        if pos < len(self.prefix):
            k = self.prefix[pos]
            self.decisions.append(k)
            self.pc.append(e if k else neg(e))
            self.model = None
            return bool(k)
        ne = neg(e)
        known = None
        if self.model is not None:
            try:
                v = self.model.eval(e, model_completion=False)
                if z3.is_true(v):
                    known = True
                elif z3.is_false(v):
                    known = False
            except z3.Z3Exception:
                pass
        mt = mf = None
        if known is True:
            t = True
        else:
            t, mt = self.ex.feasible(self.pc, e)
        if t is False:
            self.decisions.append(0)
            self.pc.append(ne)
            return False
        if known is False:
            f = True
        else:
            f, mf = self.ex.feasible(self.pc, ne)
        if f is False:
            self.decisions.append(1)
            self.pc.append(e)
            return True
        self.ex.push(self.decisions + [0])
        self.decisions.append(1)
        self.pc.append(e)
        if known is not True:
            self.model = None
        return True

    def concretise(self, x, limit=64):
        """Enumerate the feasible values of a symbolic int."""
        e = x.e
        for _ in range(limit):
            r, m = self.ex.feasible(self.pc, z3.BoolVal(True) if False else (e == e))
            # find a candidate
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*solve.cone(self.pc, solve.vars_of(e)))
            if s.check() != z3.sat:
                raise Unsupported("cannot enumerate index")
            v = s.model().eval(e, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported("cannot enumerate index")
            k = v.as_long()
            # canonical order for re-execution: try smallest first
            while True:
                s.push()
                s.add(e < k)
                if s.check() == z3.sat:
                    k = s.model().eval(e, model_completion=True).as_long()
                    s.pop()
                    if k < -10**6:
                        raise Unsupported("unbounded index")
                else:
                    s.pop()
                    break
            if self.branch(e == k):
                return k
        raise Unsupported("index range too large")

    # -- definitions
    def hint(self, *xs):
        """terms to try as values of later quotients and square roots (each use is proved)"""
        for x in xs:
            if isinstance(x, SNum):
                self.hints.append(toreal(x.e))

    def _full_ring(self):
        from . import ring
        R, n = self.memo.get("ring", (None, 0))
        if R is None:
            R = ring.Ring()
        while n < len(self.pc):
            h = self.pc[n]
            n += 1
            for c in (h.children() if z3.is_and(h) else [h]):
                if ring._is_real_eq(c):
                    try:
                        R.add_eq(c.arg(0), c.arg(1))
                    except ring.Give:
                        pass
        self.memo["ring"] = (R, n)
        return R

    def _hinted(self, test):
        from . import ring
        if not self.hints:
            return None
        try:
            R = self._full_ring()
            for x in self.hints:
                v = test(R, x)
                if v is not None:
                    return v
        except (ring.Give, RecursionError):
            pass
        return None

    def quotient(self, a, b, npf):
        a, b = z3.simplify(a), z3.simplify(b)
        if a.eq(b):
            return np.float64(1.0) if npf else 1.0
        key = (a.get_id(), b.get_id())
        hit = self.quot.get(key)
        if hit is None:
            v = self._hinted(lambda R, x: x if R.zero(a, x * b) else None)
            if v is not None:
                self.quot[key] = (v, a, b)
                return mk(v, npf)
            q = z3.Real(self.uname("q!"))
            self.add(q * b == a)
            hit = (q, a, b)
            self.quot[key] = hit
        return SReal(hit[0], npf)

    def normal(self, e):
        """smaller equivalent of e modulo the equations known so far, or None"""
        from . import ring
        best = None
        for fold in (True, False):
            q = self._normal(e, fold)
            if q is not None and (best is None or q[0] < best[0]):
                best = q
        return best[1] if best else None

    def _normal(self, e, fold):
        from . import ring
        try:
            if self.ring is None:
                self.ring = {True: [ring.Ring(), 0], False: [ring.Ring(), 0]}
            slot = self.ring[fold]
            R, n0 = slot
            while slot[1] < len(self.pc):
                h = self.pc[slot[1]]
                slot[1] += 1
                for c in (h.children() if z3.is_and(h) else [h]):
                    if ring._is_real_eq(c):
                        try:
                            R.add_eq(c.arg(0), c.arg(1), defs=not fold)
                        except ring.Give:
                            pass
            p = R.poly(e)
            if len(p) > 400:
                return None
            q = R.reduce(p, frac=False)
            if len(q) < len(p) and len(q) <= 12:
                if all(not R.names[v].startswith("@") for m in q for v, _ in m):
                    return len(q), R.back(q, z3.Real)
        except (ring.Give, RecursionError):
            return None
        return None

    def define(self, x):
        """name a non-linear term (keeps later terms small)"""
        if not isinstance(x, SReal):
            return x
        e = z3.simplify(x.e, som=True)
        if z3.is_rational_value(e) or z3.is_const(e):
            return mk(e, x.npf)
        if not solve.is_nonlinear([e]):
            return x
        nf = self.normal(e)
        if nf is not None:
            e = z3.simplify(nf, som=True)
            if z3.is_rational_value(e) or z3.is_const(e) or not solve.is_nonlinear([e]):
                return mk(e, x.npf)
        hit = self.defs.get(e.get_id())
        if hit is None:
            n = z3.simplify(-e, som=True)
            neg = self.defs.get(n.get_id())
            if neg is not None:
                return SReal(-neg[0], x.npf)
            v = z3.Real(self.uname("t!"))
            self.add(v == e)
            hit = (v, e, n)
            self.defs[e.get_id()] = hit
        return SReal(hit[0], x.npf)

    def square(self, x):
        """a named square: v == x*x and v >= 0 (no normalisation)"""
        if not isinstance(x, SNum):
            return x * x
        v = z3.Real(self.uname("sq!"))
        e = toreal(x.e)
        self.add(v == e * e, v >= 0)
        return SReal(v, False)

    def roots2(self, a, b, c):
        """the two real zeros of a x^2 + b x + c (a != 0, real roots), in either order: Vieta"""
        A, B, C = num_e(a), num_e(b), num_e(c)
        def known(R, x):
            if R.zero(A * x * x + B * x + C, z3.RealVal(0)):
                return x
            return None
        r = self._hinted(known)
        s = z3.Real(self.uname("root!"))
        if r is None:
            r = z3.Real(self.uname("root!"))
        self.add(A * (r + s) == -B, A * (r * s) == C, A * r * r + B * r + C == 0, A * s * s + B * s + C == 0)
        return SReal(r, True), SReal(s, True)

    def sqrt_of(self, x, npf):
        e = z3.simplify(x.e)
        hit = self.sq.get(e.get_id())
        if hit is None:
            p = z3.simplify(e, som=True)
            if z3.is_mul(p) and p.num_args() == 2 and p.arg(0).eq(p.arg(1)) and z3.is_const(p.arg(0)):
                v = SReal(p.arg(0), npf)
                return v if bool(v >= 0) else -v
            def root(R, x):
                for k in (1, 2):
                    if R.zero(e, k * k * x * x):
                        if self.ex.feasible(self.pc, x < 0)[0] is False:
                            return k * x
                        if self.ex.feasible(self.pc, x > 0)[0] is False:
                            return -k * x
                return None
            rel = self._hinted(root)
            if rel is None:
                rel = self._related_root(e)
            elif not z3.is_const(rel):
                self.sq[e.get_id()] = (rel, e)
            if rel is not None:
                return SReal(rel, npf)
            r = z3.Real(self.uname("sqrt!"))
            self.add(r >= 0, r * r == e)
            hit = (r, e)
            self.sq[e.get_id()] = hit
        return SReal(hit[0], npf)

    def _related_root(self, e):
        """sqrt(v^2 e') = v sqrt(e') for a positive variable v and a known sqrt(e')"""
        from . import ring
        if not self.sq and not self.trigs:
            return None
        try:
            R = ring.Ring()
            for h in self.pc:
                for c in (h.children() if z3.is_and(h) else [h]):
                    if ring._is_real_eq(c):
                        R.add_eq(c.arg(0), c.arg(1))
            for (sn, cs, _t) in list(self.trigs.values()):
                for x in (sn, cs):
                    if R.zero(e, x * x):
                        ok, _ = self.ex.feasible(self.pc, x < 0)
                        if ok is False:
                            return x
            for (r1, e1) in list(self.sq.values()):
                if R.zero(e, e1):
                    return r1
                for v in sorted(solve.vars_of(e) | solve.vars_of(e1)):
                    x = z3.Real(v)
                    if v not in self.vars or self.vars[v].sort() != z3.RealSort():
                        continue
                    for (a, b, out) in ((e, x * x * e1, lambda: x * r1), (e1, x * x * e, lambda: None)):
                        if R.zero(a, b):
                            ok, _ = self.ex.feasible(self.pc, x <= 0)
                            if ok is False:
                                if a is e:
                                    return z3.simplify(x * r1)
                                q = z3.Real(self.uname("q!"))
                                self.add(q * x == r1)
                                return q
        except (ring.Give, RecursionError, z3.Z3Exception):
            return None
        return None

    def register_angle(self, t, s, c):
        """t is an angle in [0, pi] with sine s and cosine c."""
        PI = rv(math.pi)
        H = rv(math.pi / 2)
        self.angles[t.get_id()] = (t, s, c)
        self.trigs[t.get_id()] = (s, c, t)
        self.add(t >= 0, t <= PI, s >= 0, c <= 1, c >= -1, s <= 1,
                 (t == 0) == (c == 1), (t == PI) == (c == -1),
                 (t < H) == (c > 0), (t > H) == (c < 0))

    def trig(self, x):
        e = z3.simplify(x.e)
        hit = self.trigs.get(e.get_id())
        if hit is None:
            n = self.uname("trig!")
            s, c = z3.Real(n + "_sin"), z3.Real(n + "_cos")
            self.add(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1)
            H, PI = rv(math.pi / 2), rv(math.pi)
            self.add(z3.Implies(z3.And(e >= 0, e <= PI), s >= 0),
                     z3.Implies(z3.And(e > 0, e < PI), s > 0),
                     z3.Implies(z3.And(e >= -H, e <= H), c >= 0),
                     z3.Implies(z3.And(e > H, e <= PI), c < 0),
                     z3.Implies(e == 0, z3.And(s == 0, c == 1)),
                     z3.Implies(z3.And(e > 0, e < PI), z3.And(c < 1, c > -1)))
            for (s2, c2, e2) in list(self.trigs.values()):
                self.add(z3.Implies(e == e2, z3.And(s == s2, c == c2)),
                         z3.Implies(e == -e2, z3.And(s == -s2, c == c2)))
            hit = (s, c, e)
            self.trigs[e.get_id()] = hit
            self.angles[e.get_id()] = (e, s, c)
        return SReal(hit[0], True), SReal(hit[1], True)

    def arccos(self, x, npf):
        e = z3.simplify(x.e)
        key = ("acos", e.get_id())
        hit = self.memo.get(key)
        if hit is None:
            n = self.uname("acos!")
            t, s = z3.Real(n), z3.Real(n + "_sin")
            self.add(s * s + e * e == 1)
            self.register_angle(t, s, e)
            hit = (t, e)
            self.memo[key] = hit
        return SReal(hit[0], npf)

    def atan2(self, y, x, npf):
        """angle of (x, y) != (0, 0): its cosine and sine are x/h and y/h"""
        h = self.sqrt_of(as_np(toR(self.define(x * x + y * y))), True)
        if not bool(h > 0):
            raise Infeasible()
        s, c = div(toR(y), h), div(toR(x), h)
        se, ce = num_e(s), num_e(c)
        key = ("atan2", se.get_id(), ce.get_id())
        hit = self.memo.get(key)
        if hit is None:
            t = z3.Real(self.uname("atan2!"))
            PI, H = rv(math.pi), rv(math.pi / 2)
            ye, xe = num_e(y), num_e(x)
            self.add(se * se + ce * ce == 1, t > -PI, t <= PI,
                     (ye > 0) == z3.And(t > 0, t < PI), (ye < 0) == (t < 0),
                     (xe > 0) == z3.And(t > -H, t < H), z3.Implies(z3.And(ye == 0, xe < 0), t == PI))
            self.trigs[t.get_id()] = (se, ce, t)
            self.angles[t.get_id()] = (t, se, ce)
            hit = (t, se, ce)
            self.memo[key] = hit
        return SReal(hit[0], npf)

    def arcsin(self, x, npf):
        e = z3.simplify(x.e)
        key = ("asin", e.get_id())
        hit = self.memo.get(key)
        if hit is None:
            n = self.uname("asin!")
            t, c = z3.Real(n), z3.Real(n + "_cos")
            H = rv(math.pi / 2)
            self.add(c >= 0, c <= 1, c * c + e * e == 1, t >= -H, t <= H,
                     (t >= 0) == (e >= 0), (t == 0) == (e == 0), (t == H) == (c == 0) if False else z3.BoolVal(True),
                     z3.Implies(e == 1, t == H), z3.Implies(t == H, e == 1))
            self.angles[t.get_id()] = (t, e, c)
            self.trigs[t.get_id()] = (e, c, t)
            hit = (t, e)
            self.memo[key] = hit
        return SReal(hit[0], npf)

    def angle_axiom(self, a, b):
        """Monotonicity of cos on [0, pi] / sin on [-pi/2, pi/2] for this pair."""
        if not self.angles:
            return
        A = self.angles.get(a.get_id())
        B = self.angles.get(b.get_id())
        if A is None or B is None or A is B:
            return
        key = ("mono", a.get_id(), b.get_id())
        if key in self.memo:
            return
        self.memo[key] = (a, b)
        PI, H = rv(math.pi), rv(math.pi / 2)
        (t1, s1, c1), (t2, s2, c2) = A, B
        r1 = z3.And(t1 >= 0, t1 <= PI, t2 >= 0, t2 <= PI)
        r2 = z3.And(t1 >= -H, t1 <= H, t2 >= -H, t2 <= H)
        self.add(z3.Implies(r1, z3.And((t1 < t2) == (c1 > c2), (t1 == t2) == (c1 == c2))),
                 z3.Implies(r2, z3.And((t1 < t2) == (s1 < s2), (t1 == t2) == (s1 == s2))))

    def _expo(self, l, a):
        """record a = exp(l)"""
        self.add(a > 0, (l == 0) == (a == 1), (l < 0) == (a < 1), a >= 1 + l)
        for (l2, a2) in self.logs:
            self.add((l < l2) == (a < a2), (l == l2) == (a == a2))
        self.logs.append((l, a))

    def log_of(self, x, npf):
        e = z3.simplify(x.e)
        for (l, a) in self.logs:
            if a.eq(e):
                return SReal(l, npf)
        l = z3.Real(self.uname("log!"))
        self._expo(l, e)
        return SReal(l, npf)

    def exp_of(self, x):
        e = z3.simplify(x.e)
        for (l, a) in self.logs:
            if l.eq(e):
                return SReal(a, True)
        a = z3.Real(self.uname("exp!"))
        self._expo(e, a)
        return SReal(a, True)

    def floor_of(self, x):
        e = z3.simplify(x.e)
        hit = self.floors.get(e.get_id())
        if hit is None:
            k = z3.Int(self.uname("floor!"))
            self.add(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1)
            hit = (k, e)
            self.floors[e.get_id()] = hit
        return SInt(hit[0])

    # -- spec vocabulary
    def assume(self, c):
        e = z3.simplify(be(c))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.model = None

    def check(self, name, goal, budget=None, using=None):
        """An obligation.  Once discharged it is available as a fact."""
        st = self.ex.oblige(self, name, goal, budget, using)
        if st == "proved":
            e = z3.simplify(be(goal))
            if not z3.is_true(e):
                self.pc.append(e)
        return st

    lemma = check

    def check_any(self, name, goals, budget=None):
        """an obligation met by one of several alternatives (each tried alone first)"""
        goals = list(goals)
        for g in goals:
            e = z3.simplify(be(g))
            hy = solve.cone(self.pc, solve.vars_of(e))
            if z3.is_true(e) or (not z3.is_false(e) and solve.prove(hy, e, 1.0, None)[0] == "proved"):
                return self.check(name, g, budget)
        return self.check(name, sb_or(*goals), budget)

    def cover(self, name):
        """Must be reachable on some path (vacuity guard)."""
        self.ex.covers.setdefault(name, False)
        if self.ex.covers[name]:
            return
        n = self.ex.cover_tries[name] = self.ex.cover_tries.get(name, 0) + 1
        if n > 4 and n & (n - 1):
            return
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*self.pc)
        r = s.check()
        if r == z3.unknown and n < 3 and solve.pure_real(self.pc):
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 3000)
            s.add(*self.pc)
            r = s.check()
        if r == z3.sat:
            self.ex.covers[name] = True
            m = solve.model_dict(s.model())
            m.update(self.names)
            self.ex.samples.append((name, m))

    def eq(self, a, b, tol=None):
        if isinstance(a, (tuple, list, np.ndarray)):
            if len(a) != len(b):
                return False
            return sb_and(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
            r = (a == b) if isinstance(a, Proxy) else (b == a)
            return r
        if is_num(a) and is_num(b) and isinstance(a, (float, np.floating)) and isinstance(b, (float, int, np.floating)):
            return bool(a == b) or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))
        return a == b

    def le(self, a, b, tol=None):
        return a <= b

    def lt(self, a, b, tol=None):
        return a < b

    def ge(self, a, b, tol=None):
        return a >= b

    def gt(self, a, b, tol=None):
        return a > b

    def and_(self, *xs):
        return sb_and(*xs)

    def or_(self, *xs):
        return sb_or(*xs)

    def not_(self, x):
        return sb_not(x)

    def implies(self, a, b):
        return sb_or(sb_not(a), b)

    def iff(self, a, b):
        ea, eb = be(a), be(b)
        e = z3.simplify(ea == eb)
        return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)

    def ite(self, c, a, b):
        c = be(c)
        if z3.is_true(z3.simplify(c)):
            return a
        if z3.is_false(z3.simplify(c)):
            return b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return SBool(z3.If(c, be(a), be(b)))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool):
            ea = a.e if isinstance(a, SInt) else z3.IntVal(a)
            eb = b.e if isinstance(b, SInt) else z3.IntVal(b)
            return mki(z3.If(c, ea, eb))
        return mk(z3.If(c, num_e(a), num_e(b)))

    def sqrt(self, x):
        return f_sqrt(x)

    def log(self, x):
        return f_log(x)

    def sin(self, x):
        return f_trig(x)[0]

    def cos(self, x):
        return f_trig(x)[1]

    def asin(self, x):
        return f_arcsin(x)

    def acos(self, x):
        return f_arccos(x)


class Failure(Exception):
    pass


class Conc(Base):
    """The same harness on ordinary floats."""
    mode = "conc"
    sym = False
    conc = True

    def __init__(self, values=None, rng=None, jitter=0.0):
        self.values = values or {}
        self.rng = rng or random.Random(0)
        self.counter = {}
        self.draws = []
        self.used = {}
        self.failures = []
        self.checks = 0
        self.notes = {}
        self.jitter = jitter
        self.memo = {}
        self.names = {}

    uname = Sym.uname

    def _get(self, name, gen):
        name = self.uname(name)
        if name in self.values:
            v = self.values[name]
            if self.jitter and isinstance(v, float) and self.rng.random() < 0.5:
                v = v + self.rng.gauss(0, self.jitter) * max(1e-3, abs(v))
        else:
            v = gen()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, log=False, special=(), npf=False):
        def gen():
            r = self.rng
            if special and r.random() < 0.3:
                return float(r.choice(special))
            if lo is not None and hi is not None:
                if r.random() < 0.1:
                    return float(lo) if not lo_open else float(lo) + (float(hi) - float(lo)) * 1e-6
                if log and lo > 0:
                    return math.exp(r.uniform(math.log(lo), math.log(hi)))
                return r.uniform(float(lo), float(hi))
            if lo is not None:
                return float(lo) + (math.exp(r.uniform(-5, 5)))
            if hi is not None:
                return float(hi) - (math.exp(r.uniform(-5, 5)))
            k = r.random()
            if k < 0.1:
                return float(r.randint(-3, 3))
            return r.choice([-1, 1]) * math.exp(r.uniform(-4, 3))
        v = float(self._get(name, gen))
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise Reject()
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise Reject()
        return np.float64(v) if npf else v

    def pos(self, name, lo=1e-2, hi=1e2, **k):
        v = float(self._get(name, lambda: math.exp(self.rng.uniform(math.log(lo), math.log(hi)))))
        if not v > 0:
            raise Reject()
        return v

    def int(self, name, lo=None, hi=None, small=6):
        def gen():
            a = lo if lo is not None else -small
            b = hi if hi is not None else a + small
            b = min(b, a + max(small or 6, 1))
            return self.rng.randint(a, max(a, b))
        v = int(self._get(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def flag(self, name):
        return self.choose(name, [False, True])

    def sbool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choose(self, name, options):
        k = int(self._get("?" + name, lambda: self.rng.randrange(len(options))))
        if k >= len(options):
            raise Reject()
        return options[k]

    def unit(self, name):
        names = [name + c for c in "xyz"]
        def gen3():
            r = self.rng
            k = r.random()
            if k < 0.12:
                v = [0.0, 0.0, 0.0]
                v[r.randrange(3)] = r.choice([-1.0, 1.0])
                return v
            v = [r.gauss(0, 1) for _ in range(3)]
            if k < 0.3:
                v[r.randrange(3)] = 0.0
            n = math.sqrt(sum(a * a for a in v)) or 1.0
            return [a / n for a in v]
        g = gen3()
        v = [float(self._get(n, lambda i=i: g[i])) for i, n in enumerate(names)]
        n = math.sqrt(sum(a * a for a in v))
        if not n > 1e-9:
            raise Reject()
        return tuple(a / n for a in v)

    def quat(self, name):
        r = self.rng
        g = [r.gauss(0, 1) for _ in range(4)]
        if r.random() < 0.2:
            g = [0.0] * 4
            g[r.randrange(4)] = 1.0
        v = [float(self._get(f"{name}q{i}", lambda i=i: g[i])) for i in range(4)]
        n = math.sqrt(sum(a * a for a in v))
        if not n > 1e-9:
            raise Reject()
        return tuple(a / n for a in v)

    def vec(self, name, n=3, **k):
        return tuple(self.real(f"{name}{c}", **k) for c in "xyzw"[:n])

    def angle(self, name, lo=None, hi=None):
        a = 0.0 if lo is None else float(lo)
        b = math.pi if hi is None else float(hi)
        base = name
        nm = base if self.counter.get(base, 0) == 0 else f"{base}#{self.counter[base]}"
        if nm + "_cos" in self.values:
            self.uname(name)
            c = max(-1.0, min(1.0, float(self.values[nm + "_cos"])))
            v = math.acos(c)
            self.used[nm] = v
            return v
        v = float(self._get(name, lambda: self.rng.uniform(a, b) if self.rng.random() > 0.1 else self.rng.choice([a, b])))
        if v < a - 1e-12 or v > b + 1e-12:
            raise Reject()
        return v

    def uniform(self, lo=0.0, hi=1.0):
        def gen():
            k = self.rng.random()
            if k < 0.05:
                return 0.0
            if k < 0.08:
                return 1.0 - 2.0 ** -53
            return self.rng.random()
        u = float(self._get("rnd", gen))
        if not (0 <= u < 1):
            raise Reject()
        u = np.float64(u)
        self.draws.append(u)
        return lo + (hi - lo) * u if not (lo == 0 and hi == 1) else u

    def assume(self, c):
        if not c:
            raise Reject()

    def away(self, a, b=0.0, tol=1e-6):
        """Stay away from an exact tie that floats cannot decide."""
        if abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            raise Reject()

    def check(self, name, goal, budget=None, using=None):
        self.checks += 1
        if not bool(goal):
            self.failures.append(name)
        return "ok"

    lemma = check

    def check_any(self, name, goals, budget=None):
        return self.check(name, any(bool(g) for g in goals))

    def cover(self, name):
        self.notes.setdefault("covers", set()).add(name)

    def eq(self, a, b, tol=1e-7):
        if tol is None:
            tol = 1e-7
        if isinstance(a, (tuple, list, np.ndarray)):
            if len(a) != len(b):
                return False
            s = max([abs(float(x)) for x in list(a) + list(b)] + [0.0])
            return all(self._close(x, y, tol, s) for x, y in zip(a, b))
        if is_num(a) and is_num(b) and not isinstance(a, bool):
            return self._close(a, b, tol, 0.0)
        return a == b

    def _close(self, a, b, tol, scale):
        a, b = float(a), float(b)
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * max(1.0 if scale == 0 else scale, abs(a), abs(b), 1e-3)

    def _sl(self, a, b, tol):
        return (tol or 1e-9) * max(1.0, abs(a) if math.isfinite(a) else 1, abs(b) if math.isfinite(b) else 1)

    def le(self, a, b, tol=None):
        return bool(a <= b + self._sl(a, b, tol))

    def lt(self, a, b, tol=None):
        return bool(a < b + self._sl(a, b, tol))

    def ge(self, a, b, tol=None):
        return bool(a >= b - self._sl(a, b, tol))

    def gt(self, a, b, tol=None):
        return bool(a > b - self._sl(a, b, tol))

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return np.sqrt(x)

    def log(self, x):
        with np.errstate(all="ignore"):
            return np.log(x)

    def sin(self, x):
        return np.sin(x)

    def cos(self, x):
        return np.cos(x)

    def asin(self, x):
        return np.arcsin(x)

    def acos(self, x):
        return np.arccos(x)


# ---------------------------------------------------------------- explorer

class Explorer:
    def __init__(self, harness, budget=20.0, max_paths=4000, max_depth=400, deadline=None, feas=1.0):
        self.h = harness
        self.work = [[]]
        self.paths = 0
        self.infeasible = 0
        self.budget = budget
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.deadline = deadline
        self.feas = feas
        self.obls = []
        self.covers = {}
        self.cover_tries = {}
        self.samples = []
        self.unsupported = []
        self.errors = []
        self.cache = {}
        self.pcache = {}
        self.completed = 0
        self.solver_s = 0.0
        self.trace = 0

    def push(self, prefix):
        self.work.append(prefix)

    def feasible(self, pc, e):
        hy = solve.cone(pc, solve.vars_of(e))
        key = (tuple(sorted(h.get_id() for h in hy)), e.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0], None
        t = time.time()
        r, m = solve.feasible(hy, e, self.feas)
        self.solver_s += time.time() - t
        self.cache[key] = (r, hy, e)
        return r, None

    def oblige(self, ctx, name, goal, budget, using):
        path = list(ctx.decisions)
        if isinstance(goal, (bool, np.bool_)):
            if goal:
                self.obls.append(Obligation(name, "proved", "evaluation", 0.0, None, path))
                return "proved"
        e = z3.simplify(be(goal))
        if z3.is_true(e):
            self.obls.append(Obligation(name, "proved", "simplifier", 0.0, None, path))
            return "proved"
        key = None
        # a goal that is plainly false holds only on a path that cannot be taken:
        # the whole path condition decides (and identifies) it
        hy = list(ctx.pc) if z3.is_false(e) else solve.cone(ctx.pc, solve.vars_of(e))
        key = (tuple(sorted(h.get_id() for h in hy)), e.get_id())
        hit = self.pcache.get(key)
        if hit is not None:
            self.obls.append(Obligation(name, "proved", "cached", 0.0, None, path))
            return "proved"
        slim = None
        if using is not None:
            slim = [be(u) for u in using]
        b = budget or self.budget
        if self.deadline is not None:
            b = max(1.0, min(b, self.deadline - time.time()))
        if z3.is_false(e):
            # not even the path condition is used by cone(): decide reachability
            st, be_, dt, m = solve.prove(list(ctx.pc), e, b)
            if st != "proved":
                r = "unknown"
                m = None
                s = z3.Solver()
                s.set("timeout", 5000)
                s.add(*ctx.pc)
                rr = s.check()
                if rr == z3.unknown and solve.pure_real(ctx.pc):
                    s = z3.Tactic("qfnra-nlsat").solver()
                    s.set("timeout", 8000)
                    s.add(*ctx.pc)
                    rr = s.check()
                if rr == z3.unsat:
                    st = "proved"
                elif rr == z3.sat:
                    st, m = "failed", s.model()
                else:
                    st = "unknown"
        else:
            st, be_, dt, m = solve.prove(hy, e, b, slim)
        self.solver_s += dt
        md = None
        if st == "failed":
            # complete the model over the whole path condition when possible
            full = None
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*ctx.pc)
            s.add(z3.Not(e))
            rr = s.check()
            if rr == z3.sat:
                full = s.model()
            elif rr == z3.unsat:
                st = "proved"
                hy = list(ctx.pc)      # by the whole path condition, not by the cone
                key = (tuple(sorted(h.get_id() for h in hy)), e.get_id())
            md = solve.model_dict(full) if full is not None else (solve.model_dict(m) if m is not None else {})
            md.update(ctx.names)
        if st == "proved":
            self.pcache[key] = (hy, e)
        if st != "proved":
            md = md or dict(ctx.names)
        self.obls.append(Obligation(name, st, be_, dt, md, path, detail=str(e)[:600]))
        return st

    def run(self, patcher):
        global CUR
        while self.work:
            if self.deadline is not None and time.time() > self.deadline:
                self.unsupported.append("time budget exhausted during path exploration")
                break
            if self.paths >= self.max_paths:
                self.unsupported.append("path budget exhausted")
                break
            prefix = self.work.pop()
            ctx = Sym(self, prefix)
            CUR = ctx
            self.paths += 1
            try:
                with patcher(ctx):
                    self.h(ctx)
                self.completed += 1
            except Infeasible:
                self.infeasible += 1
            except PathLimit as e:
                self.unsupported.append(str(e))
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb) if "/vf/" not in f.filename), "")
                self.unsupported.append(f"{e} at {where}")
                if len(self.unsupported) > 20:
                    break
            except RecursionError:
                self.unsupported.append("recursion limit")
            except Exception as e:
                # the real code raised on this path: is the path reachable?
                if self._reachable(ctx):
                    tb = traceback.extract_tb(e.__traceback__)
                    where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)), "")
                    md = dict(self._last)
                    md.update(ctx.names)
                    self.errors.append((f"{type(e).__name__}: {e}"[:300], where, md,
                                        traceback.format_exc(limit=-6)))
                    if len(self.errors) > 10:
                        break
                else:
                    self.infeasible += 1
            finally:
                CUR = None

    def _reachable(self, ctx):
        self._last = {}
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*ctx.pc)
        r = s.check()
        if r == z3.unknown and solve.pure_real(ctx.pc):
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 8000)
            s.add(*ctx.pc)
            r = s.check()
        if r == z3.sat:
            self._last = solve.model_dict(s.model())
        return r != z3.unsat
