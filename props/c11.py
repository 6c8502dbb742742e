"""C11 distributions interpolate, sample and look up consistently.

Tables are arbitrary: every position and value is a symbolic real.  The length
of the table is the case split (the code has no loop over the table of its
own: it hands whole arrays to cumsum / diff / interp, whose contracts are
applied entry by entry)."""
import math

import numpy as np
from vf.api import harness, meta
from props.common import *
from pvtrace.material.distribution import Distribution

D = "pvtrace.material.distribution.Distribution."
U = "pvtrace.geometry.utils.allinrange"


def interp(xs, ys, x):
    """specification: linear interpolation (branches on the bin)"""
    for i in range(len(xs) - 1):
        if bool(x <= xs[i + 1]):
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def areas(xs, ys):
    return [(ys[i] + ys[i + 1]) * (xs[i + 1] - xs[i]) / 2 for i in range(len(xs) - 1)]


def make(ctx, n, positive=True):
    xs, ys = table(ctx, n)
    if positive:
        ctx.assume(sum(ys, 0.0) > 0)
    return xs, ys, Distribution(array(ctx, xs), array(ctx, ys))


def inside(ctx, xs, name="x"):
    """a position inside the table, as a fraction so that both ends are hit"""
    f = ctx.real(name + "f", lo=0, hi=1, special=(0, 1))
    return xs[0] + f * (xs[-1] - xs[0])


@harness("C11", [D + "__init__", D + "__call__", U], params=[2, 3, 4, 5])
def call(ctx, n):
    xs, ys, d = make(ctx, n)
    x = inside(ctx, xs)
    for v in xs:
        ctx.away(x, v)
    ctx.check("linear interpolation", ctx.eq(d(x), interp(xs, ys, x), 1e-6))
    ctx.cover("inside")


@harness("C11", [D + "__call__"], params=[2, 3, 4])
def call_knots(ctx, n):
    xs, ys, d = make(ctx, n)
    for i in range(n):
        ctx.check(f"value at position {i}", ctx.eq(d(xs[i]), ys[i]))
    ctx.cover("knots")


@harness("C11", [D + "__call__", D + "lookup", U], params=["call below", "call above", "lookup below", "lookup above", "array call", "array lookup"])
def outside(ctx, what):
    xs, ys, d = make(ctx, 3)
    e = ctx.pos("e", lo=1e-3, hi=100)
    below = "below" in what
    if "array" in what:
        below = ctx.flag("below")
    x = xs[0] - e if below else xs[-1] + e
    f = d if "call" in what else d.lookup
    if "array" in what:
        k = ctx.choose("k", [0, 1, 2])
        v = [xs[0], xs[1], xs[2]]
        v[k] = x
        x = array(ctx, v)
    try:
        f(x)
    except ValueError:
        ctx.check("rejected", True)
        ctx.cover("rejected")
        return
    ctx.check("a position outside the table is rejected", False)


@harness("C11", [D + "__init__", D + "__call__"])
def constant(ctx):
    c = ctx.real("c", lo=0, hi=10)
    d = Distribution(None, c)
    x = ctx.real("x", lo=-1e4, hi=1e4)
    ctx.check("constant", ctx.eq(d(x), c))
    for v in d(array(ctx, [x, x + 1.0, 7.0])):
        ctx.check("constant for arrays", ctx.eq(v, c))
    ctx.cover("done")


@harness("C11", [D + "__init__"], params=["equal x", "descending x", "negative y", "inf y", "-inf y", "nan y"])
def rejects(ctx, what):
    n = ctx.choose("n", [2, 3, 4])
    k = ctx.choose("k", list(range(n)))
    xs, ys = table(ctx, n)
    if "x" in what:
        k = max(k, 1)
        xs[k] = xs[k - 1] if "equal" in what else xs[k - 1] - ctx.pos("back", lo=1e-3, hi=10)
    elif what == "negative y":
        ys[k] = -ctx.pos("neg", lo=1e-9, hi=10)
    else:
        ys[k] = float(what.split()[0])
    hist = ctx.flag("hist")
    try:
        Distribution(array(ctx, xs), array(ctx, ys), hist=hist)
    except ValueError:
        ctx.check("rejected", True)
        ctx.cover("rejected")
        return
    ctx.check("the table is rejected", False)


@harness("C11", [D + "__init__", D + "lookup"], params=[2, 3, 4, 5])
def cumulative(ctx, n):
    xs, ys, d = make(ctx, n)
    a = areas(xs, ys)
    tot = sum(a)
    ctx.check("zero at the first position", ctx.eq(d.lookup(xs[0]), 0.0))
    ctx.check("one at the last position", ctx.eq(d.lookup(xs[-1]), 1.0))
    run = 0.0
    prev = 0.0
    for i in range(1, n):
        run = run + a[i - 1]
        v = d.lookup(xs[i])
        ctx.check(f"share of the area up to position {i}", ctx.eq(v * tot, run, 1e-6))
        ctx.check(f"rises to position {i}", ctx.ge(v, prev))
        prev = v
    ctx.cover("done")


@harness("C11", [D + "lookup"], params=[2, 3, 4])
def monotone(ctx, n):
    xs, ys, d = make(ctx, n)
    x1 = inside(ctx, xs, "a")
    x2 = inside(ctx, xs, "b")
    ctx.assume(x1 <= x2)
    p1, p2 = d.lookup(x1), d.lookup(x2)
    ctx.check("within 0 and 1", ctx.and_(ctx.ge(p1, 0.0), ctx.le(p2, 1.0)))
    ctx.check("does not fall", ctx.le(p1, p2, 1e-9))
    ctx.cover("done")


@harness("C11", [D + "sample", U], params=[2, 3, 4])
def inverse(ctx, n):
    xs, ys, d = make(ctx, n)
    p = ctx.uniform()
    x = d.sample(p)
    ctx.check("inside the table", ctx.and_(ctx.ge(x, xs[0]), ctx.le(x, xs[-1])))
    ctx.check("lookup inverts sample", ctx.eq(d.lookup(x), p, 1e-6))
    ctx.cover("done")


@harness("C11", [D + "sample"], params=[2, 3, 4])
def sample_rises(ctx, n):
    xs, ys, d = make(ctx, n)
    p1, p2 = ctx.real("p1", lo=0, hi=1, special=(0, 1)), ctx.real("p2", lo=0, hi=1, special=(0, 1))
    ctx.assume(p1 <= p2)
    ctx.check("rises with the probability", ctx.le(d.sample(p1), d.sample(p2)))
    ctx.check("starts inside", ctx.ge(d.sample(0.0), xs[0]))
    ctx.check("ends inside", ctx.le(d.sample(1.0), xs[-1]))
    ctx.cover("done")


@harness("C11", [D + "sample"], params=[2, 3])
def sample_lookup(ctx, n):
    """where the spectrum does not vanish sampling undoes the lookup"""
    xs, ys, d = make(ctx, n)
    for y in ys:
        ctx.assume(y > 1e-3)
    x = inside(ctx, xs)
    ctx.check("sample inverts lookup", ctx.eq(d.sample(d.lookup(x)), x, 1e-5))
    ctx.cover("done")


@harness("C11", [D + "sample", U], params=["below", "above", "array", "hist"])
def bad_probability(ctx, what):
    xs, ys, _ = make(ctx, 3)
    d = Distribution(array(ctx, xs), array(ctx, ys), hist=what == "hist")
    e = ctx.pos("e", lo=1e-6, hi=10)
    below = what == "below" or (what in ("array", "hist") and ctx.flag("below"))
    p = -e if below else 1.0 + e
    if what == "array":
        v = [0.0, 0.5, 1.0]
        v[ctx.choose("k", [0, 1, 2])] = p
        p = array(ctx, v)
    try:
        d.sample(p)
    except ValueError:
        ctx.check("rejected", True)
        ctx.cover("rejected")
        return
    ctx.check("a probability outside [0, 1] is rejected", False)


@harness("C11", [D + "__call__", D + "lookup", D + "sample"], params=["call", "lookup", "sample", "hist call", "hist lookup", "hist sample"])
def arrays(ctx, what):
    """an array is treated entry by entry"""
    xs, ys, d = make(ctx, 3)
    if "hist" in what:
        d = Distribution(array(ctx, xs), array(ctx, ys), hist=True)
    what = what.split()[-1]
    if what == "sample":
        v = [ctx.real(f"p{i}", lo=0, hi=1, special=(0, 1)) for i in range(2)]
        f = d.sample
    else:
        v = [inside(ctx, xs, "a"), inside(ctx, xs, "b")]
        f = d if what == "call" else d.lookup
    got = f(array(ctx, v))
    ctx.check("as many values", len(got) == 2)
    for i in range(2):
        ctx.check("same as one at a time", ctx.eq(got[i], f(v[i])))
    ctx.cover("done")


@harness("C11", [D + "__init__", D + "sample", D + "lookup", D + "__call__"], params=[2, 3, 4])
def histogram(ctx, n):
    """hist=True: no interpolation; samples are table positions that rise with p"""
    xs, ys = table(ctx, n)
    ctx.assume(sum(ys, 0.0) > 0)
    d = Distribution(array(ctx, xs), array(ctx, ys), hist=True)
    tot = sum(ys)
    p1, p2 = ctx.real("p1", lo=0, hi=1, special=(0, 1)), ctx.real("p2", lo=0, hi=1, special=(0, 1))
    ctx.assume(p1 <= p2)
    s1, s2 = d.sample(p1), d.sample(p2)
    ctx.check("a position of the table", ctx.or_(*[ctx.eq(s1, x, 1e-12) for x in xs]))
    ctx.check("rises with the probability", ctx.le(s1, s2))
    k = next(i for i, x in enumerate(xs) if bool(ctx.eq(s1, x, 1e-12)))
    run = sum(ys[:k], 0.0)
    ctx.check("not past its share", ctx.le(p1 * tot, run + ys[k], 1e-6))
    ctx.check("not before its share", ctx.ge(p1 * tot, run, 1e-6))
    acc = 0.0
    for i in range(n):
        acc = acc + ys[i]
        ctx.check("cumulative share", ctx.eq(d.lookup(xs[i]) * tot, acc, 1e-6))
        ctx.check("table value", ctx.eq(d(xs[i]), ys[i]))
    ctx.cover("done")


@harness("C11", [D + "from_functions"], params=[1, 2])
def from_functions(ctx, k):
    """the values are the sum of the functions; non-finite ones count as zero"""
    xs, _ = table(ctx, 3)
    vals = [[ctx.real(f"f{j}{i}", lo=0, hi=10) for i in range(3)] for j in range(k)]
    bad = ctx.choose("bad", [None, float("inf"), float("nan")])
    where = ctx.choose("where", [0, 2])
    fs = []
    for j in range(k):
        v = list(vals[j])
        if bad is not None and j == 0:
            v[where] = bad
        fs.append(lambda x, v=v: array(ctx, v))
    want = [sum((vals[j][i] for j in range(k) if not (bad is not None and j == 0 and i == where)), 0.0) for i in range(3)]
    ctx.assume(sum(want, 0.0) > 0)
    d = Distribution.from_functions(xs, fs)
    for i in range(3):
        ctx.check("position kept", ctx.eq(d._x[i], xs[i]))
        ctx.check("sum of the functions", ctx.eq(d(xs[i]), want[i]))
    ctx.cover("done")


meta("C11", assumptions=["table lengths 2 to 5 are the case split; the code treats entries uniformly through numpy's cumsum, diff and interp"],
     trusted=["numpy.interp / cumsum / diff / hstack / searchsorted / insert: contracts in vf/shim.py"])

import props.whole  # noqa: E402 executed contracts over whole histories
