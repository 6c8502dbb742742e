"""Shared pieces for the contracts on the compiled kernel."""
import sys

from vf import core, kernel
from vf.core import Unsupported

P = "pvtrace.engine._kernel."
K = kernel.load()
try:
    kernel.compiled()
    NOTE = ""
except Exception as e:      # concrete executions then use the translation only
    NOTE = f"{type(e).__name__}: {e}"
    print("note: kernel not compiled in scratch:", NOTE, file=sys.stderr)


def need(*names):
    for n in names:
        if not (n in K.sigs or n in K.source) or n in K.errors:
            raise Unsupported(f"kernel function {n}: {K.errors.get(n, 'not found')}")


def call(ctx, name, *args):
    need(name)
    return kernel.call(ctx, name, *args)


def dbl(xs, name="v"):
    return kernel.arr("double", list(xs), name)


def out(n=3, name="out", ctype="double"):
    return kernel.alloc(ctype, n, name)


def run(ctx, fn, *args):
    """call the translation; C undefined behaviour and bad accesses become failures"""
    try:
        return fn(*args)
    except (kernel.Uninit, kernel.OutOfBounds, kernel.NullDeref, kernel.Undefined) as e:
        ctx.check(f"{type(e).__name__}", False)
        raise


class SymArr:
    """A table of any (symbolic) length: elements are unknowns, equal where the
    indices are equal, and ordered as the table is declared to be."""

    def __init__(self, ctx, name, n, order=None, lo=None, hi=None, _o=None, _off=0):
        self.ctx, self.name, self.n, self.order, self.lo, self.hi = ctx, name, n, order, lo, hi
        self.seen = _o if _o is not None else []
        self.off = _off
        self.arr = self

    def __add__(self, k):
        return SymArr(self.ctx, self.name, self.n, self.order, self.lo, self.hi, self.seen, self.off + k)

    def __getitem__(self, i):
        ctx, i = self.ctx, self.off + i
        ok = ctx.and_(i >= 0, i < self.n)
        ctx.check(f"read within {self.name}", ok)
        ctx.assume(ok)
        for j, v in self.seen:
            if (j.e.eq(i.e) if hasattr(i, "e") and hasattr(j, "e") else (type(i) is type(j) and i == j)):
                return v
        v = ctx.real(f"{self.name}[]", lo=self.lo, hi=self.hi)
        for j, w in self.seen:
            ctx.assume(ctx.implies(ctx.eq(i, j), ctx.eq(v, w)))
            if self.order == "<":
                ctx.assume(ctx.implies(i < j, v < w))
                ctx.assume(ctx.implies(i > j, v > w))
            elif self.order == "<=":
                ctx.assume(ctx.implies(i < j, v <= w))
                ctx.assume(ctx.implies(i > j, v >= w))
        self.seen.append((i, v))
        return v

    def __setitem__(self, i, v):
        self.ctx.check(f"table {self.name} is never written", False)


def same_index(a, b):
    """are two index terms equal by arithmetic alone?"""
    import z3
    e = [x.e if hasattr(x, "e") else int(x) for x in (a, b)]
    if not any(hasattr(x, "sort") for x in e):
        return e[0] == e[1]
    d = z3.simplify(e[0] - e[1], som=True)
    return z3.is_int_value(d) and d.as_long() == 0


class Cells:
    """A writable table of any (symbolic) length.  Cells not yet touched hold
    unknown values; two touched cells must be the same index term or provably
    different ones."""

    def __init__(self, ctx, name, n, value, _o=None, _off=0):
        self.ctx, self.name, self.n, self.value, self.off = ctx, name, n, value, _off
        self.cells = _o if _o is not None else []     # [index, initial, current]
        self.arr = self

    def __add__(self, k):
        c = Cells(self.ctx, self.name, self.n, self.value, self.cells, self.off + k)
        if hasattr(self, "nd"):
            c.nd = self.nd
        return c

    def _cell(self, i, what):
        ctx, i = self.ctx, self.off + i
        for c in self.cells:
            if (c[0].e.eq(i.e) if hasattr(i, "e") and hasattr(c[0], "e") else (type(i) is type(c[0]) and i == c[0])):
                return c
        for c in self.cells:
            if same_index(c[0], i):
                return c
        ok = ctx.and_(i >= 0, i < self.n)
        ctx.check(f"{what} within {self.name}", ok)
        ctx.assume(ok)
        for c in self.cells:
            ctx.check(f"cells of {self.name} are kept apart", ctx.not_(ctx.eq(i, c[0])))
        c = [i, self.value(), None]
        c[2] = c[1]
        self.cells.append(c)
        return c

    def __getitem__(self, i):
        return self._cell(i, "read")[2]

    def __setitem__(self, i, v):
        self._cell(i, "write")[2] = v

    def changed(self):
        return [c for c in self.cells if c[2] is not c[1]]


class Loops:
    """for-loops over a symbolic range: one arbitrary iteration stands for all.
    Sound when an iteration touches only cells of its own (checked by the
    contracts using this) and runs to its end (checked here)."""

    def __init__(self, ctx, empty=()):
        self.ctx, self.index, self.entered, self.ended, self.empty = ctx, [], [], [], empty

    def __call__(self, *a):
        if not any(isinstance(x, core.SNum) for x in a):
            return None
        if len(a) > 2:
            raise Unsupported("loop with a step over a symbolic range")
        lo, hi = (0, a[0]) if len(a) == 1 else a
        return self.one(lo, hi)

    def one(self, lo, hi):
        ctx = self.ctx
        k = len(self.entered)
        if not (ctx.flag(f"loop{k} has iterations") if k in self.empty else True):
            self.entered.append((lo, hi, None))
            ctx.assume(hi <= lo)
            return
        i = ctx.int(f"i{k}")
        ctx.assume(ctx.and_(i >= lo, i < hi))
        self.entered.append((lo, hi, i))
        self.index.append(i)
        yield i
        self.ended.append(k)


def refract_any_side():
    """does fresnel_refract itself take normals of either orientation? (today it requires one along the ray)"""
    try:
        need("fresnel_refract")
        res = []
        for sg in (1.0, -1.0):
            o = out()
            K.fresnel_refract(dbl([0.6, 0.0, 0.8]), dbl([0.0, 0.0, sg]), 1.0, 1.5, o)
            res.append(o.list())
        return all(abs(a - b) < 1e-9 for a, b in zip(*res))
    except Exception:
        return False


def interp(ctx, x, xs, ys, n):
    """interp_clamped on tables of any length n: its loop by the invariant
    0 <= lo < hi <= n-1, xs[lo] <= x < xs[hi] and the variant hi - lo.
    Returns (value, bracket): bracket is "first", "last" or the index pair."""
    need("interp_clamped")
    st = {"k": 0, "F": None}

    def inv(F):
        return ctx.and_(F.lo >= 0, F.lo < F.hi, F.hi <= n - 1, xs[F.lo] <= x, x < xs[F.hi])

    def head(F, key):
        if key != ("interp_clamped", 1):
            return True
        if not {"lo", "hi"} <= set(F.__dict__):
            raise Unsupported("loop variables of interp_clamped renamed")
        st["k"] += 1
        st["F"] = F
        if st["k"] == 1:
            ctx.check("search invariant holds at the start", inv(F))
            for k in list(F.__dict__):
                if k not in ("lo", "hi", "x", "xs", "ys", "n") and not k.startswith("_"):
                    del F.__dict__[k]
            F.lo, F.hi = ctx.int("lo"), ctx.int("hi")
            ctx.assume(ctx.and_(F.lo >= 0, F.lo < F.hi, F.hi <= n - 1))
            ctx.assume(ctx.and_(xs[F.lo] <= x, x < xs[F.hi]))
            st["gap"] = F.hi - F.lo
            return True
        ctx.check("search invariant is kept", inv(F))
        ctx.check("search interval shrinks", ctx.and_(F.hi - F.lo < st["gap"], F.hi - F.lo >= 1))
        raise core.Infeasible()
    old = dict(kernel.LOG)
    kernel.LOG["head"] = head
    try:
        r = run(ctx, K.interp_clamped, x, xs, ys, n)
    except kernel.Uninit as e:
        raise Unsupported(f"interp_clamped: {e}")
    finally:
        kernel.LOG.clear()
        kernel.LOG.update(old)
    F = st["F"]
    if F is None:
        return r, "edge"
    ctx.check("search ends with neighbours", ctx.eq(F.hi - F.lo, 1))
    return r, (F.lo, F.hi)
