"""C12 random directions and positions stay within their stated support."""
import math
import numpy as np
from vf.api import harness, meta
from props.common import *
import pvtrace.material.utils as mu
import pvtrace.light.light as li
import pvtrace.engine.emit as em
from pvtrace.scene.node import Node
from pvtrace.scene.scene import Scene
from pvtrace.light.light import Light

U = "pvtrace.material.utils."
L = "pvtrace.light.light."
E = "pvtrace.engine.emit."
meta("C12", assumptions=["numpy.random.uniform(a, b) returns a + (b-a) u with u in [0,1)"])


def on_sphere(ctx, d):
    ctx.check("unit length", ctx.eq(dot(d, d), 1.0))


def azimuth(ctx, d, u, s):
    """d = (s cos 2 pi u, s sin 2 pi u, .)"""
    a = 2 * math.pi * u
    return ctx.and_(ctx.eq(d[0], s * ctx.cos(a)), ctx.eq(d[1], s * ctx.sin(a)))


def polar_ok(ctx, d, draws, zgoal):
    """one draw fixes the polar angle, the other the azimuth"""
    k = len(draws)
    ctx.check("two independent draws", k == 2)
    pairs = [(0, 1), (1, 0)]
    ctx.check_any("polar angle from one draw", [zgoal(draws[i]) for i, _ in pairs])
    # azimuth: the horizontal part points along 2 pi u
    goals = []
    for i, j in pairs:
        c, s = ctx.cos(2 * math.pi * draws[j]), ctx.sin(2 * math.pi * draws[j])
        goals.append(ctx.and_(zgoal(draws[i]), ctx.eq(d[0] * s, d[1] * c), ctx.ge(d[0] * c + d[1] * s, 0.0)))
    ctx.check_any("azimuth from the other draw", goals)


def check_iso(ctx, d, draws):
    on_sphere(ctx, d)
    polar_ok(ctx, d, draws, lambda u: ctx.eq(d[2], 2 * u - 1))


def check_lambertian(ctx, d, draws):
    on_sphere(ctx, d)
    ctx.check("forward hemisphere", ctx.ge(d[2], 0.0))
    polar_ok(ctx, d, draws, lambda u: ctx.eq(d[2] * d[2], 1 - u))


def check_cone(ctx, d, t, draws):
    on_sphere(ctx, d)
    ctx.check("within the half angle", ctx.ge(d[2], ctx.cos(t)))
    st = ctx.sin(t)
    polar_ok(ctx, d, draws, lambda u: ctx.eq(1 - d[2] * d[2], u * st * st))


def check_hg(ctx, d, g, draws):
    on_sphere(ctx, d)
    if ctx.conc:
        tol = 1e-6 / min(1, abs(g))
        if tol > 1e-3:
            return
    else:
        tol = None
    # CDF(mu) = (1-g^2)/(2g) (1/sqrt(1+g^2-2 g mu) - 1/(1+g)) = u, squared
    polar_ok(ctx, d, draws, lambda u: ctx.eq((1 + g * g - 2 * g * d[2]) * (2 * g * u + 1 - g) ** 2, (1 - g * g) ** 2, tol))


@harness("C12", [U + "isotropic", U + "spherical_to_cart"])
def isotropic(ctx):
    d = mu.isotropic()
    ctx.cover("drawn")
    check_iso(ctx, tuple(d), ctx.draws)


@harness("C12", [U + "lambertian", U + "spherical_to_cart"])
def lambertian(ctx):
    d = mu.lambertian()
    ctx.cover("drawn")
    check_lambertian(ctx, tuple(d), ctx.draws)


def half_angle(ctx):
    t = ctx.angle("theta", lo=0, hi=math.pi / 2)
    ctx.assume(t > 1e-6)
    ctx.assume(t <= math.pi / 2)
    return t


@harness("C12", [U + "cone", U + "spherical_to_cart"])
def cone(ctx):
    t = half_angle(ctx)
    d = mu.cone(t)
    ctx.cover("drawn")
    check_cone(ctx, tuple(d), t, ctx.draws)


@harness("C12", [U + "Cone.__call__", U + "cone"])
def cone_object(ctx):
    t = half_angle(ctx)
    d = mu.Cone(t)()
    ctx.cover("drawn")
    check_cone(ctx, tuple(d), t, ctx.draws)


def asym(ctx, sign):
    g = ctx.real("g", lo=0, hi=1, lo_open=True, hi_open=True)
    ctx.assume(g > 1e-9)
    return g if sign == "forward" else -g


@harness("C12", [U + "henyey_greenstein", U + "HenyeyGreenstein.__call__"], params=["forward", "backward"])
def henyey_greenstein(ctx, sign):
    g = asym(ctx, sign)
    d = mu.HenyeyGreenstein(g)()
    ctx.cover("drawn")
    check_hg(ctx, tuple(d), g, ctx.draws)


@harness("C12", [U + "henyey_greenstein"])
def henyey_greenstein_zero(ctx):
    d = mu.henyey_greenstein(0.0)
    ctx.cover("drawn")
    check_iso(ctx, tuple(d), ctx.draws)


# ---------------------------------------------------------------- masks

def check_rect(ctx, p, X, Y):
    ctx.check("inside the rectangle", ctx.and_(ctx.ge(p[0], -X), ctx.le(p[0], X), ctx.ge(p[1], -Y), ctx.le(p[1], Y)))
    ctx.check("in the plane", ctx.eq(p[2], 0.0))
    ctx.check("two draws", len(ctx.draws) == 2)
    ctx.check_any("covers the rectangle uniformly", [ctx.and_(ctx.eq(p[0], (2 * u - 1) * X), ctx.eq(p[1], (2 * v - 1) * Y))
                                                   for u, v in (ctx.draws, ctx.draws[::-1])])


def check_circle(ctx, p, r):
    ctx.check("inside the circle", ctx.le(p[0] * p[0] + p[1] * p[1], r * r))
    ctx.check("in the plane", ctx.eq(p[2], 0.0))
    ctx.check("two draws", len(ctx.draws) == 2)
    ctx.check_any("area element", [ctx.eq(p[0] * p[0] + p[1] * p[1], u * r * r) for u in ctx.draws])
    goals = []
    for u, v in (ctx.draws, ctx.draws[::-1]):
        c, s = ctx.cos(2 * math.pi * v), ctx.sin(2 * math.pi * v)
        goals.append(ctx.and_(ctx.eq(p[0] * p[0] + p[1] * p[1], u * r * r), ctx.eq(p[0] * s, p[1] * c), ctx.ge(p[0] * c + p[1] * s, 0.0)))
    ctx.check_any("azimuth from the other draw", goals)


def check_cube(ctx, p, x, y, z):
    for a, b in zip(p, (x, y, z)):
        ctx.check("inside the box", ctx.and_(ctx.ge(a, -b), ctx.le(a, b)))
    ctx.check("three draws", len(ctx.draws) == 3)
    for a, b in zip(p, (x, y, z)):
        ctx.check_any("covers the box uniformly", [ctx.eq(a, (2 * u - 1) * b) for u in ctx.draws])
    import itertools
    ctx.check_any("independent coordinates", [ctx.and_(*[ctx.eq(a, (2 * u - 1) * b) for a, b, u in zip(p, (x, y, z), us)])
                                              for us in itertools.permutations(ctx.draws)])


@harness("C12", [L + "rectangular_mask", L + "RectangularMask.__call__"], params=["function", "object"])
def rectangle(ctx, how):
    X, Y = ctx.pos("X"), ctx.pos("Y")
    p = li.rectangular_mask(X, Y) if how == "function" else li.RectangularMask(X, Y)()
    ctx.cover("drawn")
    check_rect(ctx, p, X, Y)


@harness("C12", [L + "circular_mask", L + "CircularMask.__call__"], params=["function", "object"])
def circle(ctx, how):
    r = ctx.pos("r")
    p = li.circular_mask(r) if how == "function" else li.CircularMask(r)()
    ctx.cover("drawn")
    check_circle(ctx, p, r)


@harness("C12", [L + "cube_mask", L + "CubeMask.__call__"], params=["function", "object"])
def cube(ctx, how):
    x, y, z = ctx.pos("x"), ctx.pos("y"), ctx.pos("z")
    p = li.cube_mask(x, y, z) if how == "function" else li.CubeMask(x, y, z)()
    ctx.cover("drawn")
    check_cube(ctx, p, x, y, z)


@harness("C12", [L + "default_position", L + "default_direction", L + "DefaultPosition.__call__", L + "DefaultDirection.__call__"])
def defaults(ctx):
    for f, want in ((li.default_position, (0, 0, 0)), (li.DefaultPosition(), (0, 0, 0)), (li.default_direction, (0, 0, 1)), (li.DefaultDirection(), (0, 0, 1))):
        ctx.check("constant", ctx.eq(tuple(f()), tuple(float(v) for v in want)))


# ---------------------------------------------------------------- bundle emitter

def bundle(ctx, position=None, direction=None):
    W = Node(name="world")
    Node(name="L", parent=W, light=Light(position=position, direction=direction, name="lamp"))
    p, d, w, s = em.emit_bundle(Scene(W), 1)
    return tuple(p[0]), tuple(d[0])


@harness("C12", [E + "emit_bundle", E + "_sample_directions", E + "_sample_positions", E + "_sphere_directions"],
         params=["isotropic", "lambertian", "cone", "hg forward", "hg backward", "hg zero", "default"], note="one row; rows are sampled elementwise by the same numpy expressions")
def bundle_directions(ctx, kind):
    if kind == "isotropic":
        p, d = bundle(ctx, direction=mu.isotropic)
        check_iso(ctx, d, ctx.draws)
    elif kind == "lambertian":
        p, d = bundle(ctx, direction=mu.lambertian)
        check_lambertian(ctx, d, ctx.draws)
    elif kind == "cone":
        t = half_angle(ctx)
        p, d = bundle(ctx, direction=mu.Cone(t))
        check_cone(ctx, d, t, ctx.draws)
    elif kind == "hg zero":
        p, d = bundle(ctx, direction=mu.HenyeyGreenstein(0.0))
        check_iso(ctx, d, ctx.draws)
    elif kind == "default":
        p, d = bundle(ctx)
        ctx.check("along +z", ctx.eq(d, (0.0, 0.0, 1.0)))
    else:
        g = asym(ctx, kind[3:])
        p, d = bundle(ctx, direction=mu.HenyeyGreenstein(g))
        check_hg(ctx, d, g, ctx.draws)
    ctx.cover("drawn")
    ctx.check("from the origin", ctx.eq(p, (0.0, 0.0, 0.0)))


@harness("C12", [E + "emit_bundle", E + "_sample_positions"], params=["rectangle", "circle", "cube"],
         note="one row; rows are sampled elementwise by the same numpy expressions")
def bundle_positions(ctx, kind):
    if kind == "rectangle":
        X, Y = ctx.pos("X"), ctx.pos("Y")
        p, d = bundle(ctx, position=li.RectangularMask(X, Y))
        check_rect(ctx, p, X, Y)
    elif kind == "circle":
        r = ctx.pos("r")
        p, d = bundle(ctx, position=li.CircularMask(r))
        check_circle(ctx, p, r)
    else:
        x, y, z = ctx.pos("x"), ctx.pos("y"), ctx.pos("z")
        p, d = bundle(ctx, position=li.CubeMask(x, y, z))
        check_cube(ctx, p, x, y, z)
    ctx.cover("drawn")
    ctx.check("along +z", ctx.eq(d, (0.0, 0.0, 1.0)))


# ---------------------------------------------------------------- the compiled engine

from props import kern
from props.kern import P

KE = kern.K


def phase(ctx, kind, param):
    kern.need("sample_phase", "rng_uniform")
    ctx.stub(KE, "rng_uniform", lambda rng: ctx.uniform())
    o = kern.out()
    kern.run(ctx, KE.sample_phase, kind, param, kern.kernel.Struct("RNG"), o)
    return tuple(o.list())


@harness("C12", [P + "sample_phase", P + "sample_sphere_direction"], params=["isotropic", "hg forward", "hg backward", "hg zero", "cone"])
def kernel_phase(ctx, kind):
    if kind == "isotropic":
        d = phase(ctx, KE.PHASE_ISOTROPIC, ctx.real("unused"))
    elif kind == "hg zero":
        d = phase(ctx, KE.PHASE_HENYEY_GREENSTEIN, 0.0)
    elif kind == "cone":
        t = half_angle(ctx)
        d = phase(ctx, KE.PHASE_CONE, t)
        ctx.cover("drawn")
        return check_cone(ctx, d, t, ctx.draws)
    else:
        g = asym(ctx, kind[3:])
        d = phase(ctx, KE.PHASE_HENYEY_GREENSTEIN, g)
        ctx.cover("drawn")
        return check_hg(ctx, d, g, ctx.draws)
    ctx.cover("drawn")
    # the kernel may draw azimuth and polar angle in either order
    check_iso(ctx, d, ctx.draws)
