"""Vectors of any (symbolic) length, with numpy's operations on them by contract.

A medium's components are a sequence of symbolic length n; coef(i) is any
non-negative function, S(i) the sum of the first i coefficients (ghost).  Code
that treats the vectors in another way than the operations below is outside
this contract's reach (Unsupported), and the bounded contracts decide."""
import builtins

from vf import core, shim
from vf.core import Unsupported


def _no(*a, **k):
    raise Unsupported("a vector of any length used in another way")


class Opaque:
    pass


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow neg abs lt le gt ge eq ne bool float int len iter getitem contains array index floordiv mod "
           "iadd imul").split():
    setattr(Opaque, f"__{_n}__", _no)
Opaque.__hash__ = object.__hash__


class Components:
    def __init__(self, ctx):
        self.ctx, self.asked = ctx, []
        self.n = ctx.int("components", lo=1, hi=10 ** 6)
        self.total = ctx.real("total", lo=0)
        self.cells = []
        self.components = Sequence(self)

    def cell(self, i):
        from props.kern import same_index
        for j, c in self.cells:
            if same_index(i, j):
                return c
        ctx = self.ctx
        c = (ctx.real("coef", lo=0), ctx.real("before", lo=0))
        ctx.assume(ctx.and_(ctx.implies(ctx.eq(i, 0), ctx.eq(c[1], 0)), c[0] + c[1] <= self.total, ctx.implies(ctx.eq(i + 1, self.n), ctx.eq(c[0] + c[1], self.total))))
        self.cells.append((i, c))
        return c

    def coef(self, i):
        return self.cell(i)[0]

    def prefix(self, i):
        return self.cell(i)[1]


class Sequence(Opaque):
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        yield Member(self.v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            _no()
        ctx, v = self.v.ctx, self.v
        ctx.check("index of a component", ctx.and_(i >= 0 - v.n, i < v.n))
        ctx.assume(ctx.and_(i >= 0 - v.n, i < v.n))
        return Chosen(v, i if bool(i >= 0) else i + v.n)

    def __bool__(self):
        return True


class Member(Opaque):
    """every component at once"""

    def __init__(self, v):
        self.v = v

    def coefficient(self, w):
        self.v.asked.append(w)
        return Each(self.v)


class Each(Opaque):
    """the coefficient of every component"""

    def __init__(self, v):
        self.v = v


class Chosen:
    def __init__(self, v, i):
        self.v, self.i = v, i


class Vector(Opaque):
    """coefficients, or (cum) their running sums, over `by`"""

    def __init__(self, v, cum=False, by=1.0):
        self.v, self.cum, self.by = v, cum, by

    def __lt__(self, x):
        if self.cum or not (isinstance(x, (int, float)) and x == 0):
            _no()
        return Below(self.v)

    def __truediv__(self, x):
        self.v.ctx.assume(self.v.ctx.not_(self.v.ctx.eq(x, 0)))
        return Vector(self.v, self.cum, self.by * x)

    def __getitem__(self, i):
        if self.cum and isinstance(i, int) and i == -1:
            return self.v.total / self.by
        _no()

    def cumsum(self):
        return Vector(self.v, True, self.by) if not self.cum else _no()

    def sum(self):
        return self.v.total / self.by if not self.cum else _no()

    def max(self):
        return self[-1]


class Below(Opaque):
    """coef(i) < 0: nowhere"""

    def __init__(self, v):
        pass

    def any(self):
        return False


def vector(x):
    if isinstance(x, Vector):
        return x
    if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], Each):
        return Vector(x[0].v)
    _no()


class Numpy:
    def __init__(self, ctx):
        self.ctx, self.random = ctx, shim.NPRAND

    def __getattr__(self, n):
        raise Unsupported(f"numpy.{n} of a vector of any length")

    def array(self, x, dtype=None):
        return vector(x)

    asarray = array

    def any(self, x):
        return x.any() if isinstance(x, Below) else _no()

    def cumsum(self, x):
        return vector(x).cumsum()

    def sum(self, x):
        return vector(x).sum()

    def max(self, x):
        return vector(x).max()

    def isclose(self, a, b):
        return shim.NP.isclose(a, b)

    def searchsorted(self, x, u, side="left"):
        x = vector(x)
        if not x.cum:
            _no()
        ctx, v = self.ctx, x.v
        i = ctx.int("found")
        ctx.assume(ctx.and_(i >= 0, i <= v.n))
        q = u * x.by                         # the cells are S(i + 1) / by, and by > 0
        ctx.assume(x.by > 0)
        if bool(ctx.eq(i, v.n)):
            ctx.assume(q >= v.total if side == "right" else q > v.total)
            return i
        c, lo = v.cell(i)
        ctx.assume(q < lo + c if side == "right" else q <= lo + c)
        ctx.assume(ctx.or_(ctx.eq(i, 0), q >= lo if side == "right" else q > lo))
        return i


def b_max(*a, **k):
    return a[0].max() if len(a) == 1 and isinstance(a[0], Vector) else builtins.max(*a, **k)


def b_sum(x, start=0):
    if isinstance(x, (list, tuple, Vector)) and (isinstance(x, Vector) or (len(x) == 1 and isinstance(x[0], Each))):
        return start + vector(x).sum()
    x = list(x)
    return start + vector(x).sum() if len(x) == 1 and isinstance(x[0], Each) else builtins.sum(x, start)


def b_int(x=0, *a):
    return x if isinstance(x, core.SNum) else builtins.int(x, *a)


def b_float(x=0.0):
    return x if isinstance(x, core.SNum) else builtins.float(x)


def b_len(x):
    return x.v.n if isinstance(x, (Sequence, Vector)) else builtins.len(x)
