"""C05 ray-shape intersections are exactly the forward surface crossings (Python tracer;
the compiled engine is in kernel.py)."""
import math

import numpy as np

from vf.api import harness, meta
from .common import dot, sub, unit_dot

from pvtrace.geometry.sphere import Sphere
from pvtrace.geometry.cylinder import Cylinder

G = "pvtrace.geometry."
SPH = [G + "sphere.Sphere.intersections", G + "sphere.Sphere.__init__"]
CYL = [G + "cylinder.Cylinder.intersections", G + "utils.ray_z_cylinder"]


def along(o, d, p):
    return dot(sub(p, o), d)


def permuted(ctx):
    """sorted() by its contract that the result is a permutation (its order is the
    subject of cylinder_order)"""
    if ctx.sym:
        import pvtrace.geometry.utils as u
        ctx.stub(u, "sorted", lambda xs, key=None, reverse=False: list(xs))


def report(ctx, hits, o, d, surf, order=True):
    """every hit is ahead, on the line, on the surface; ordered by distance"""
    ts = []
    for i, p in enumerate(hits):
        t = along(o, d, p)
        ts.append(t)
        ctx.check("ahead", ctx.ge(t, 0.0))
        ctx.check("on the line", ctx.eq(tuple(a + t * b for a, b in zip(o, d)), tuple(p)))
        ctx.check("on the surface", surf(p))
    for a, b in (zip(ts, ts[1:]) if order or ctx.conc else ()):
        ctx.check("ordered by distance", ctx.le(a, b))
    return ts


@harness("C05", functions=SPH)
def sphere_sound(ctx):
    R = ctx.pos("R")
    s = Sphere(radius=R)
    o, d = ctx.vec("o"), ctx.unit("d")
    if ctx.conc and ctx.flag("aim"):
        u = ctx.unit("u")
        t0 = ctx.pos("t0")
        o = tuple(R * a - t0 * b for a, b in zip(u, d))
    hits = s.intersections(o, d)
    report(ctx, hits, o, d, lambda p: ctx.eq(dot(p, p), R * R, 1e-6))
    ctx.cover(f"{len(hits)} hits")


def once(ctx, hits, h, d, o, t):
    """exactly one hit is the point h at distance t"""
    same = []
    for p in hits:
        q = along(o, d, p)
        same.append(ctx.eq(q, t, 1e-6))
    ctx.check("crossing reported", ctx.or_(*same) if same else False)
    for i in range(len(same)):
        for j in range(i):
            ctx.check("reported once", ctx.not_(ctx.and_(same[i], same[j])))


@harness("C05", functions=SPH)
def sphere_complete(ctx):
    """o = h - t d for a surface point h crossed transversally at t > 0"""
    R = ctx.pos("R")
    u, d = ctx.unit("u"), ctx.unit("d")
    t = ctx.pos("t")
    ud = dot(u, d)
    ctx.assume(ctx.or_(ud > 1e-3, ud < -1e-3) if ctx.conc else ud != 0)
    h = tuple(R * a for a in u)
    o = tuple(a - t * b for a, b in zip(h, d))
    bool(ud > 0)
    ctx.hint(R * ud, t)
    hits = Sphere(radius=R).intersections(o, d)
    # a single (grazing) root is excluded by transversality
    once(ctx, hits, h, d, o, t)
    ctx.cover("crossed")


@harness("C05", functions=SPH)
def sphere_inside(ctx):
    R = ctx.pos("R")
    d = ctx.unit("d")
    if ctx.sym:
        o = ctx.vec("o")
    else:
        f = ctx.real("f", 0.0, 0.999)
        u = ctx.unit("u")
        o = tuple(f * R * a for a in u)
    ctx.assume(dot(o, o) < R * R)
    hits = Sphere(radius=R).intersections(o, d)
    ctx.check("exactly one surface point from inside", len(hits) == 1)
    ctx.cover("inside")


# ------------------------------------------------------------------ cylinder

def cyl(ctx):
    return ctx.pos("L"), ctx.pos("R")


@harness("C05", functions=CYL, assumes=["numpy.roots returns the exact real zeros of a quadratic"],
         params=["up-in", "up-out", "down-in", "down-out", "level", "axial"], feas=0.08)
def cylinder_sound(ctx, way):
    L, R = cyl(ctx)
    o, d = ctx.vec("o"), ctx.unit("d")
    if way == "axial":
        d = (0.0, 0.0, 1.0) if ctx.flag("plus") else (0.0, 0.0, -1.0)
    elif way == "level":
        if ctx.conc:
            n = math.hypot(d[0], d[1])
            ctx.assume(n > 1e-3)
            d = (d[0] / n, d[1] / n, 0.0)
        ctx.assume(d[2] == 0)
    else:
        ctx.assume(d[2] > 0 if "up" in way else d[2] < 0)
        if ctx.sym:
            r2 = o[0] * o[0] + o[1] * o[1]
            ctx.assume(r2 < R * R if "in" in way else r2 >= R * R)
    if ctx.conc and ctx.flag("aim"):
        t0 = ctx.pos("t0")
        u = ctx.vec("u", lo=-1.0, hi=1.0)
        o = tuple(k * a - t0 * b for k, a, b in zip((R, R, L / 2), u, d))
    permuted(ctx)
    hits = Cylinder(length=L, radius=R).intersections(o, d)

    def surf(p):
        r2 = p[0] * p[0] + p[1] * p[1]
        side = ctx.and_(ctx.eq(r2, R * R, 1e-6), ctx.le(p[2], L / 2, 1e-6), ctx.ge(p[2], -L / 2, 1e-6))
        cap = ctx.and_(ctx.or_(ctx.eq(p[2], L / 2, 1e-6), ctx.eq(p[2], -L / 2, 1e-6)), ctx.le(r2, R * R, 1e-6))
        return ctx.or_(side, cap)
    report(ctx, hits, o, d, surf, order=False)
    ctx.cover("hit" if len(hits) else "miss")


@harness("C05", functions=CYL, params=["side-in", "side-out", "top-in", "top-out", "bottom-in", "bottom-out"], feas=0.08,
         assumes=["numpy.roots returns the exact real zeros of a quadratic"])
def cylinder_complete(ctx, where):
    L, R = cyl(ctx)
    d = ctx.unit("d")
    t = ctx.pos("t")
    if "side" in where:
        phi = ctx.real("phi") if ctx.sym else ctx.real("phi", -3.0, 3.0)
        c, s = ctx.cos(phi), ctx.sin(phi)
        z = ctx.real("z")
        if ctx.conc:
            z = L * ctx.real("zf", -0.499, 0.499)
        ctx.assume(ctx.and_(z > -L / 2, z < L / 2))
        h = (R * c, R * s, z)
        k = c * d[0] + s * d[1]
    else:
        phi = ctx.real("phi") if ctx.sym else ctx.real("phi", -3.0, 3.0)
        c, s = ctx.cos(phi), ctx.sin(phi)
        f = ctx.real("f", 0.0, 0.999 if ctx.conc else 1.0, hi_open=True)
        h = (f * R * c, f * R * s, L / 2 if "top" in where else -L / 2)
        ctx.hint(f * R)
        k = d[2]
    ctx.assume(ctx.or_(k > 1e-2, k < -1e-2) if ctx.conc else k != 0)
    o = tuple(a - t * b for a, b in zip(h, d))
    # the ray leaves ("out") or enters through the crossing
    leaving = (k > 0) if "bottom" not in where else (k < 0)
    ctx.assume(leaving if "out" in where else ctx.not_(leaving))
    ctx.hint(t, R * k)
    permuted(ctx)
    hits = Cylinder(length=L, radius=R).intersections(o, d)
    once(ctx, hits, h, d, o, t)
    ctx.cover("crossed")


@harness("C05", functions=CYL, assumes=["sorted() orders by its key"], note="numpy.roots unconstrained: the order does not depend on it")
def cylinder_order(ctx):
    """hits are reported in order of distance whatever the candidate distances are"""
    L, R = cyl(ctx)
    o, d = ctx.vec("o"), ctx.unit("d")
    if ctx.sym:
        import numpy
        from vf import shim
        ctx.stub(shim, "SHIM", shim.SHIM)
        tab = dict(shim.SHIM)
        tab["roots"] = lambda p: shim.n_array([ctx.real("r"), ctx.real("r")])
        import pvtrace.geometry.utils as u
        ctx.stub(u, "np", shim.Mod(np, tab, "np", {"random": shim.NPRAND, "linalg": shim.NPLIN}))
    hits = Cylinder(length=L, radius=R).intersections(o, d)
    for a, b in zip(hits, hits[1:]):
        ctx.check("ordered by distance", ctx.le(along(o, d, a), along(o, d, b)))
    ctx.cover("two hits" if len(hits) > 1 else "fewer")


@harness("C05", functions=CYL, assumes=["numpy.roots returns the exact real zeros of a quadratic"])
def cylinder_inside(ctx):
    """strictly inside: one surface point (its hit is not on a rim)"""
    L, R = cyl(ctx)
    d = ctx.unit("d")
    if ctx.sym:
        o = ctx.vec("o")
    else:
        f, g = ctx.real("f", 0.0, 0.99), ctx.real("g", -0.49, 0.49)
        phi = ctx.real("phi", -3, 3)
        o = (f * R * math.cos(phi), f * R * math.sin(phi), g * L)
    ctx.assume(ctx.and_(o[0] * o[0] + o[1] * o[1] < R * R, o[2] < L / 2, o[2] > -L / 2))
    hits = Cylinder(length=L, radius=R).intersections(o, d)
    ctx.check("at most one surface point from inside", len(hits) <= 1)
    # exact exit point through the top/bottom plane (if any), away from the rim
    if bool(d[2] != 0):
        tz = (L / 2 - o[2]) / d[2] if bool(d[2] > 0) else (-L / 2 - o[2]) / d[2]
        rim = sum(ctx.square(o[i] + tz * d[i]) for i in (0, 1))
        ctx.assume(ctx.or_(rim < R * R * (1 - 1e-6), rim > R * R * (1 + 1e-6)) if ctx.conc else ctx.or_(rim < R * R, rim > R * R))
    ctx.check("a surface point is met", len(hits) == 1)
    ctx.cover("inside")


meta("C05", assumptions=["away from exact tangency and cylinder rims, as the property says",
                         "exact arithmetic: rounding at the surface is not modelled"])


# ------------------------------------------------------------------ kernel
from props import kern
from props.kern import P

NEAR = 1e-12     # the kernel's forward tolerance is 2.2e-13
TINY = 1e-15     # smaller direction components count as zero (the kernel: 1e-300)


def khits(ctx, name, params, o, d):
    """[(t, point)] reported by the kernel"""
    ts = kern.out(8, "ts")
    ps = list(params) + [0.0] * (4 - len(params))
    n = kern.call(ctx, name, kern.dbl(ps, "geom_params"), kern.dbl(o), kern.dbl(d), ts)
    n = int(n)
    return [(t, tuple(a + t * b for a, b in zip(o, d))) for t in ts.list(n)]


def kreport(ctx, hits, surf):
    for t, p in hits:
        ctx.check("ahead", t > 0)
        ctx.check("on the surface", surf(p))


def konce(ctx, hits, t):
    same = [ctx.eq(q, t, 1e-6) for q, _ in hits]
    ctx.check("crossing reported", ctx.or_(*same) if same else False)
    if ctx.conc:
        same = [ctx.eq(q, t, 1e-11) for q, _ in hits]
    for i in range(len(same)):
        for j in range(i):
            ctx.check("reported once", ctx.not_(ctx.and_(same[i], same[j])))


def aim(ctx, o, d, scale):
    """concrete runs: mostly rays that hit"""
    if ctx.conc and ctx.flag("aim"):
        t0 = ctx.real("t0", -3.0, 5.0)
        u = ctx.vec("u", lo=-1.0, hi=1.0)
        o = tuple(k * a - t0 * b for k, a, b in zip(scale, u, d))
    return o


@harness("C05", functions=[P + "intersect_sphere"])
def kernel_sphere_sound(ctx):
    R = ctx.pos("R")
    o, d = ctx.vec("o"), ctx.unit("d")
    o = aim(ctx, o, d, (R, R, R))
    hits = khits(ctx, "intersect_sphere", [R], o, d)
    kreport(ctx, hits, lambda p: ctx.eq(dot(p, p), R * R, 1e-6))
    ctx.cover(f"{len(hits)} hits")


@harness("C05", functions=[P + "intersect_sphere"])
def kernel_sphere_complete(ctx):
    R = ctx.pos("R")
    u, d = ctx.unit("u"), ctx.unit("d")
    t = ctx.pos("t")
    ctx.assume(t > NEAR)
    ud = dot(u, d)
    ctx.assume(ctx.or_(ud > 1e-3, ud < -1e-3) if ctx.conc else ud != 0)
    o = tuple(R * a - t * b for a, b in zip(u, d))
    bool(ud > 0)
    ctx.hint(R * ud, t)
    hits = khits(ctx, "intersect_sphere", [R], o, d)
    konce(ctx, hits, t)
    ctx.cover("crossed")


@harness("C05", functions=[P + "intersect_sphere"])
def kernel_sphere_inside(ctx):
    R = ctx.pos("R")
    d, u = ctx.unit("d"), ctx.unit("u")
    r = ctx.real("r", 0.0, None) if ctx.sym else ctx.real("f", 0.0, 0.999) * R
    ctx.assume(r < R - NEAR)
    o = tuple(r * a for a in u)
    ctx.hint(r * dot(u, d))
    ud = unit_dot(ctx, u, d)
    q = ctx.sqrt(4 * (r * ud) * (r * ud) - 4 * (r * r - R * R))
    ctx.lemma("margin", (R - r) * (1 - ud) >= 0)
    m = R - r + r * ud
    ctx.lemma("exit time squared", ctx.ge(q * q, 4 * m * m, 1e-9))
    ctx.lemma("exit time", ctx.or_(ctx.ge(q, 2 * m, 1e-9), m < 0))
    if not ctx.conc:
        ctx.lemma("beyond the middle", q * q > 4 * (r * ud) * (r * ud))
        ctx.lemma("one root on either side", ctx.and_(q > 2 * r * ud, q > -2 * r * ud))
        ctx.lemma("exit ahead", q - 2 * r * ud >= 2 * (R - r))
    hits = khits(ctx, "intersect_sphere", [R], o, d)
    ctx.check("exactly one surface point from inside", len(hits) == 1)
    ctx.cover("inside")


@harness("C05", functions=[P + "intersect_cylinder"], params=["up-in", "up-out", "down-in", "down-out", "level", "axial"], feas=0.08)
def kernel_cylinder_sound(ctx, way):
    L, R = cyl(ctx)
    o, d = ctx.vec("o"), ctx.unit("d")
    if way == "axial":
        d = (0.0, 0.0, 1.0) if ctx.flag("plus") else (0.0, 0.0, -1.0)
    elif way == "level":
        if ctx.conc:
            n = math.hypot(d[0], d[1])
            ctx.assume(n > 1e-3)
            d = (d[0] / n, d[1] / n, 0.0)
        ctx.assume(d[2] == 0)
    else:
        ctx.assume(d[2] > 0 if "up" in way else d[2] < 0)
        if ctx.sym:
            r2 = o[0] * o[0] + o[1] * o[1]
            ctx.assume(r2 < R * R if "in" in way else r2 >= R * R)
    o = aim(ctx, o, d, (R, R, L / 2))
    hits = khits(ctx, "intersect_cylinder", [L, R], o, d)

    def surf(p):
        r2 = p[0] * p[0] + p[1] * p[1]
        side = ctx.and_(ctx.eq(r2, R * R, 1e-6), ctx.le(p[2], L / 2, 1e-6), ctx.ge(p[2], -L / 2, 1e-6))
        cap = ctx.and_(ctx.or_(ctx.eq(p[2], L / 2, 1e-6), ctx.eq(p[2], -L / 2, 1e-6)), ctx.le(r2, R * R, 1e-6))
        return ctx.or_(side, cap)
    kreport(ctx, hits, surf)
    ctx.cover("hit" if hits else "miss")


@harness("C05", functions=[P + "intersect_cylinder"], params=["side-in", "side-out", "top-in", "top-out", "bottom-in", "bottom-out"], feas=0.08)
def kernel_cylinder_complete(ctx, where):
    L, R = cyl(ctx)
    d = ctx.unit("d")
    t = ctx.pos("t")
    ctx.assume(t > NEAR)
    phi = ctx.real("phi") if ctx.sym else ctx.real("phi", -3.0, 3.0)
    c, s = ctx.cos(phi), ctx.sin(phi)
    if "side" in where:
        z = ctx.real("z")
        if ctx.conc:
            z = L * ctx.real("zf", -0.499, 0.499)
        ctx.assume(ctx.and_(z > -L / 2, z < L / 2))
        h = (R * c, R * s, z)
        k = c * d[0] + s * d[1]
        if ctx.sym:
            ctx.assume(d[0] * d[0] + d[1] * d[1] > TINY)
    else:
        f = ctx.real("f", 0.0, 0.999 if ctx.conc else 1.0, hi_open=True)
        h = (f * R * c, f * R * s, L / 2 if "top" in where else -L / 2)
        ctx.hint(f * R)
        k = d[2]
        ctx.assume(ctx.or_(k > TINY, k < -TINY))
    ctx.assume(ctx.or_(k > 1e-2, k < -1e-2) if ctx.conc else k != 0)
    o = tuple(a - t * b for a, b in zip(h, d))
    leaving = (k > 0) if "bottom" not in where else (k < 0)
    ctx.assume(leaving if "out" in where else ctx.not_(leaving))
    ctx.hint(t, R * k)
    hits = khits(ctx, "intersect_cylinder", [L, R], o, d)
    konce(ctx, hits, t)
    ctx.cover("crossed")


@harness("C05", functions=[P + "intersect_cylinder"])
def kernel_cylinder_inside(ctx):
    L, R = cyl(ctx)
    d = ctx.unit("d")
    if ctx.sym:
        o = ctx.vec("o")
    else:
        f, g = ctx.real("f", 0.0, 0.99), ctx.real("g", -0.49, 0.49)
        phi = ctx.real("phi", -3, 3)
        o = (f * R * math.cos(phi), f * R * math.sin(phi), g * L)
    ctx.assume(ctx.and_(o[0] * o[0] + o[1] * o[1] < R * R, o[2] < L / 2, o[2] > -L / 2))
    hits = khits(ctx, "intersect_cylinder", [L, R], o, d)
    ctx.check("at most one surface point from inside", len(hits) <= 1)
    ctx.cover("inside")


def axis_signs(ctx, d, signs):
    for a, s in zip(d, signs):
        ctx.assume(a > TINY if s == "+" else a < -TINY if s == "-" else a == 0)


def box_dir(ctx, signs):
    """a unit direction with the given signs of its components"""
    if ctx.conc:
        u = [0.0 if s == "0" else (1 if s == "+" else -1) * (1e-3 + abs(x)) for s, x in zip(signs, ctx.unit("d"))]
        n = math.sqrt(sum(x * x for x in u))
        return tuple(x / n for x in u)
    d = ctx.unit("d")
    axis_signs(ctx, d, signs)
    return d


SIGNS = ["+++", "++-", "+-+", "+--", "-++", "-+-", "--+", "---", "0++", "+0-", "-+0", "00+", "0-0", "-00"]


def slab(ctx, i, sign, tin, w):
    """an axis met between the times tin and tin + w: (position, size, direction) of that axis"""
    d = DIR[0][i]
    s = w * d if sign == "+" else w * -d
    return ((-s / 2 if sign == "+" else s / 2) - tin * d), s


DIR = [None]


@harness("C05", functions=[P + "intersect_box"], params=SIGNS, feas=0.08,
         note="case split on the signs of the direction (representatives with zeros); the box is parametrised by the times at which the ray meets its planes")
def kernel_box_sound(ctx, signs):
    d = box_dir(ctx, signs)
    DIR[0] = d
    o, S, T = [], [], []
    for i, sg in enumerate(signs):
        if sg == "0":
            S.append(ctx.pos("s%d" % i))
            o.append(ctx.real("o%d" % i) if ctx.sym else S[-1] * ctx.real("f%d" % i, -0.7, 0.7))
            T.append(None)
        else:
            tin, w = ctx.real("tin%d" % i, *((-3, 3) if ctx.conc else ())), ctx.pos("w%d" % i)
            p, s = slab(ctx, i, sg, tin, w)
            o.append(p), S.append(s), T.append((tin, w))
    hits = khits(ctx, "intersect_box", S, o, d)
    for t, p in hits:
        ctx.check("ahead", t > 0)
        for i, sg in enumerate(signs):
            if T[i]:
                ctx.lemma("between its planes", ctx.and_(ctx.ge(t, T[i][0], 1e-9), ctx.le(t, T[i][0] + T[i][1], 1e-9)))
        for a, s in zip(p, S):
            ctx.check("not outside any face", ctx.and_(ctx.le(a, s / 2, 1e-9), ctx.ge(a, -s / 2, 1e-9)))
        ctx.lemma("at one of the planes", ctx.or_(*[ctx.or_(ctx.eq(t, x[0], 1e-9), ctx.eq(t, x[0] + x[1], 1e-9)) for x in T if x]))
        ctx.check("on a face", ctx.or_(*[ctx.or_(ctx.eq(a, s / 2, 1e-9), ctx.eq(a, -s / 2, 1e-9)) for a, s in zip(p, S)]))
    ctx.cover("hit" if hits else "miss")


@harness("C05", functions=[P + "intersect_box"], params=[f + s for f in ("x", "y", "z") for s in SIGNS if s["xyz".index(f)] != "0"], feas=0.08)
def kernel_box_complete(ctx, case):
    """the ray meets the face across axis `face` at time t, entering or leaving, strictly inside its edges"""
    ax, signs = "xyz".index(case[0]), case[1:]
    d = box_dir(ctx, signs)
    DIR[0] = d
    t = ctx.pos("t")
    ctx.assume(t > NEAR)
    entering = ctx.flag("entering")
    o, S = [], []
    for i, sg in enumerate(signs):
        if sg == "0":
            S.append(ctx.pos("s%d" % i))
            p = ctx.real("o%d" % i) if ctx.sym else S[-1] * ctx.real("f%d" % i, -0.499, 0.499)
            ctx.assume(ctx.and_(p < S[-1] / 2, p > -S[-1] / 2))
            o.append(p)
        else:
            a, b = ctx.pos("a%d" % i), ctx.pos("b%d" % i)
            p, s = slab(ctx, i, sg, *((t, a) if i == ax and entering else (t - a, a) if i == ax else (t - a, a + b)))
            o.append(p), S.append(s)
    hits = khits(ctx, "intersect_box", S, o, d)
    konce(ctx, hits, t)
    ctx.cover("crossed")


@harness("C05", functions=[P + "intersect_box"], params=SIGNS, feas=0.08)
def kernel_box_inside(ctx, signs):
    d = box_dir(ctx, signs)
    DIR[0] = d
    o, S = [], []
    for i, sg in enumerate(signs):
        if sg == "0":
            S.append(ctx.pos("s%d" % i))
            p = ctx.real("o%d" % i) if ctx.sym else S[-1] * ctx.real("f%d" % i, -0.49, 0.49)
            ctx.assume(ctx.and_(p < S[-1] / 2 - NEAR, p > -S[-1] / 2 + NEAR))
            o.append(p)
        else:
            # at least NEAR away from both planes, so at least NEAR in time
            a, b = ctx.pos("a%d" % i), ctx.pos("b%d" % i)
            ctx.assume(ctx.and_(a > NEAR, b > NEAR))
            p, s = slab(ctx, i, sg, -a, a + b)
            o.append(p), S.append(s)
    hits = khits(ctx, "intersect_box", S, o, d)
    ctx.check("exactly one surface point from inside", len(hits) == 1)
    ctx.cover("inside")


@harness("C05", functions=[P + "intersect_node"])
def kernel_dispatch(ctx):
    """each node is intersected as the shape, and with the dimensions, of its own table row"""
    from vf import kernel
    kern.need("intersect_node")
    seen = []
    for i, f in enumerate(("intersect_box", "intersect_sphere", "intersect_cylinder")):
        kern.need(f)
        ctx.stub(kern.K, f, (lambda f, i: lambda p, o, d, ts: (seen.append((f, p, o, d, ts)), i + 1)[1])(f, i))
    kinds = [ctx.choose(f"kind{i}", [0, 1, 2]) for i in range(2)]
    S = kernel.Struct("SceneT", geom_type=kernel.arr("int", kinds, "geom_type"), geom_params=kern.dbl([float(i) for i in range(8)], "geom_params"))
    node = ctx.choose("node", [0, 1])
    o, d, ts = kern.dbl([0.0] * 3), kern.dbl([0.0] * 3), kern.out(8)
    n = kern.K.intersect_node(S, node, o, d, ts)
    ctx.cover("dispatched")
    ctx.check("one shape", len(seen) == 1)
    f, p, a, b, c = seen[0]
    ctx.check("its own shape", f == ("intersect_box", "intersect_sphere", "intersect_cylinder")[kinds[node]])
    ctx.check("its own dimensions", p[0] == 4.0 * node)
    ctx.check("the given ray", a.arr is o.arr and b.arr is d.arr and c.arr is ts.arr)
    ctx.check("its count of hits", n == kinds[node] + 1)

import props.whole  # noqa: E402 executed contracts over whole histories
