"""C09 absorption follows Beer-Lambert and picks components by weight."""
from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
from props.tracer import *
from pvtrace.material.distribution import Distribution

M = "pvtrace.material.material.Material."
K = "pvtrace.material.component."
KINDS = [Absorber, Scatterer, Reactor, Absorber]


def comps(ctx, n, some=True):
    """n components with constant coefficients; zero is a real possibility"""
    cs = []
    for i in range(n):
        zero = ctx.flag(f"zero{i}")
        cs.append(0.0 if zero else ctx.pos(f"c{i}", lo=1e-2, hi=1e2))
    comps = [KINDS[i](c, name=f"k{i}") for i, c in enumerate(cs)]
    return cs, comps


@harness("C09", [M + "total_attenutation_coefficient", K + "Scatterer.coefficient", K + "Scatterer.__init__", "pvtrace.material.distribution.Distribution.__call__"],
         params=[0, 1, 2, 3])
def total(ctx, n):
    cs, ks = comps(ctx, n)
    m = Material(ctx.pos("n", lo=1, hi=3), components=ks)
    w = ctx.pos("w", lo=300, hi=1000)
    for c, k in zip(cs, ks):
        ctx.check("constant coefficient", ctx.eq(k.coefficient(w), c))
    a = m.total_attenutation_coefficient(w)
    ctx.check("sum of the coefficients", ctx.eq(a, sum(cs, 0.0)))
    ctx.cover("done")


@harness("C09", [M + "total_attenutation_coefficient", K + "Scatterer.coefficient"])
def total_spectral(ctx):
    """coefficients at the ray's own wavelength: a tabulated spectrum plus a constant plus an integer constant"""
    y = [ctx.real(f"y{i}", lo=0, hi=9) for i in range(3)]
    tab = np.column_stack(([400.0, 500.0, 700.0], [0.0, 0.0, 0.0]))
    import vf.shim as shim
    arr = shim.n_column_stack(([400.0, 500.0, 700.0], y)) if ctx.sym else np.column_stack(([400.0, 500.0, 700.0], y))
    if ctx.sym:
        ctx.stub(np, "_vf", None)
    c = ctx.pos("c", lo=1e-2, hi=1e2)
    ks = [Absorber(1, name="int"), Scatterer(c, name="const")]
    sp = Absorber(1.0, name="spec")
    sp._abs_dist = Distribution(x=arr[:, 0], y=arr[:, 1])
    ks.append(sp)
    m = Material(1.5, components=ks)
    w = ctx.real("w", lo=400, hi=700)
    t = (w - 400.0) / 100.0 if bool(w < 500) else (w - 500.0) / 200.0
    want = (y[0] + t * (y[1] - y[0])) if bool(w < 500) else (y[1] + t * (y[2] - y[1]))
    ctx.check("interpolated coefficient", ctx.eq(sp.coefficient(w), want, 1e-6))
    ctx.check("sum at the wavelength", ctx.eq(m.total_attenutation_coefficient(w), want + c + 1.0, 1e-6))
    ctx.cover("done")


@harness("C09", [M + "penetration_depth", M + "is_absorbed"], params=[1, 2],
         note="a total coefficient between 0 and 1e-8 counts as zero in the code (numpy.isclose)")
def depth(ctx, n):
    cs, ks = comps(ctx, n)
    m = Material(1.5, components=ks)
    w = ctx.pos("w", lo=300, hi=1000)
    a = sum(cs, 0.0)
    dist = ctx.real("dist", lo=0, special=(0,))
    ctx.assume(ctx.or_(a == 0, a > 1e-6))
    r = Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=w)
    absorbed, d = m.is_absorbed(r, dist)
    if not bool(a > 0):
        ctx.check("infinite depth", bool(d == float("inf")))
        ctx.check("never absorbed", not bool(absorbed))
        ctx.cover("clear")
        return
    u = ctx.draws[0]
    ctx.check("one draw", len(ctx.draws) == 1)
    ctx.check("exponential of rate alpha", ctx.eq(d * a, -ctx.log(1.0 - u)))
    ctx.check("not negative", ctx.ge(d, 0.0))
    ctx.away(d, dist)
    ctx.check("absorbed exactly when shorter than the distance", ctx.iff(absorbed, d < dist))
    ctx.cover("absorbing")


@harness("C09", [M + "component"], params=[1, 2, 3, 4])
def choice(ctx, n):
    cs, ks = comps(ctx, n)
    a = sum(cs, 0.0)
    ctx.assume(a > 0)
    m = Material(1.5, components=ks)
    got = m.component(ctx.pos("w", lo=300, hi=1000))
    ctx.check("one draw", len(ctx.draws) == 1)
    u = ctx.draws[0]
    i = next((i for i, k in enumerate(ks) if k is got), None)
    ctx.check("one of the components", i is not None)
    ctx.check("never one with zero coefficient", cs[i] > 0)
    lo = sum(cs[:i], 0.0)
    ctx.check("lower end of its share", ctx.ge(u * a, lo))
    ctx.check("upper end of its share", ctx.le(u * a, lo + cs[i]))
    ctx.cover(f"component {i}")


@harness("C09", ["pvtrace.algorithm.photon_tracer.step_forward", M + "is_absorbed"], params=["A", "A>B"],
         assumes=["the shapes' intersections and normals (C05, C06)"])
def flight(ctx, where):
    """in the tracing loop: absorbed exactly when the sampled depth is shorter than the distance"""
    scene, log, info = build(ctx, "absorber", [where], lifetimes=False)
    alpha = info.comp["A"].coefficient(500.0)
    ray = ray0(ctx)
    ev = trace(ctx, scene, ray, 1, maxsteps=5)
    u = ctx.draws[0]
    dist = log[0][2][0].distance
    d = -ctx.log(1.0 - u) / alpha
    ctx.away(d, dist)
    hit = ev[1][1] is Event.ABSORB
    ctx.check("absorbed exactly when shorter", ctx.iff(hit, d < dist))
    if hit:
        ctx.check("absorbed at the sampled depth", ctx.eq(ev[1][0].travelled - ray.travelled, d, 1e-6))
        ctx.check("component named", ev[1][2]["component"] == "comp A")
    else:
        ctx.check("reaches the surface", ctx.eq(ev[1][0].travelled - ray.travelled, dist, 1e-6))
    ctx.cover("absorbed" if hit else "passes")


@harness("C09", ["pvtrace.algorithm.photon_tracer.step_forward"])
def clear(ctx):
    """a medium without components never absorbs"""
    scene, log, info = build(ctx, None, ["A", "world"])
    ev = trace(ctx, scene, ray0(ctx), 1, maxsteps=5)
    ctx.check("no absorption", all(e is not Event.ABSORB for _, e, _m in ev))
    ctx.cover("done")


meta("C09", assumptions=["a total coefficient in (0, 1e-8] is treated as zero by both tracers (documented tolerance)"])


# ------------------------------------------------------------- media of any number of components

import props.many as many
import pvtrace.material.material as MM


@harness("C09", [M + "component", M + "total_attenutation_coefficient"], conc=0, note="any number of components: numpy's cumsum, max, searchsorted and sum by contract over vectors of any length",
         assumes=["coefficients are never negative (C11, C19)"])
def choice_any(ctx):
    """of any number of components, the one whose share contains the draw; the total is the sum over all of them"""
    if not ctx.sym:
        return
    v = many.Components(ctx)
    m = Material(1.5)
    m.components = v.components
    ctx.stub(MM, "np", many.Numpy(ctx))
    for n in ("max", "sum", "int", "float", "len"):
        ctx.stub(MM, n, getattr(many, "b_" + n))
    w = ctx.pos("w", lo=300, hi=1000)
    a = m.total_attenutation_coefficient(w)
    ctx.check("sum of all coefficients", a is v.total or (isinstance(a, core.SNum) and bool(ctx.eq(a, v.total))))
    ctx.check("at the ray's wavelength", all(x is w for x in v.asked))
    ctx.assume(v.total > 0)
    got = m.component(w)
    ctx.check("at the ray's own wavelength", all(x is w for x in v.asked))
    if not isinstance(got, many.Chosen):
        raise Unsupported("chosen in another way")
    ctx.check("one draw", len(ctx.draws) == 1)
    u, i = ctx.draws[0], got.i
    ctx.check("one of the components", ctx.and_(i >= 0, i < v.n))
    lo, c = v.prefix(i), v.coef(i)
    ctx.check("never one with zero coefficient", c > 0)
    ctx.check("lower end of its share", u * v.total >= lo)
    ctx.check("upper end of its share", u * v.total <= lo + c)
    ctx.cover("chosen")


# ------------------------------------------------------------- the compiled engine

from props import ktrace, anysim


@harness("C09", ktrace.FNS, params=[(n, w) for n in (0, 1, 2, 3) for w in ("A", "A|B") if n < 3 or w == "A"] + [(n, "world>A") for n in (0, 1, 2)], conc=60,
         bound="scenes of three nodes, up to three components in a medium", assumes=["the contracts of the kernel functions called by trace_one"])
def kernel_depth(ctx, param):
    """depth, absorption and choice of component in the compiled loop"""
    n, where = param
    sim = ktrace.scene(ctx, comps=["absorber", "reactor", "absorber"][:n], places=[where], ids=((1, 2, 0),), taus=False, maxsteps=9, logged=False)
    sim.run_any()
    med = ktrace.MEDIUM[where]
    mine = sim.of[med]
    a = sim.total(med)
    es = [sim.kind(e) for e in sim.ev]
    if es == ["KILL"]:
        return
    draws = [c[1] for c in sim.calls if c[0] == "uniform"]
    asked = [c[1] for c in sim.calls if c[0] == "coef"]
    ctx.check("only components of the medium asked", all(i in mine for i in asked))
    hit = "ABSORB" in es
    if not bool(a > 0):
        ctx.check("never absorbed in a clear medium", not hit)
        ctx.cover("clear")
        return
    ctx.check("a draw", len(draws) >= 1)
    d = -ctx.log(1.0 - draws[0]) / a
    dist = sim.plans[-1].dist
    ctx.away(d, dist)
    ctx.check("absorbed exactly when the depth is shorter than the distance", ctx.iff(hit, d < dist))
    if not hit:
        ctx.cover("passes")
        return
    e = sim.ev[0]
    ctx.check("absorbed at the sampled depth", ctx.eq(e.travelled - sim.pre.travelled, d, 1e-6))
    c = e.component
    ctx.check("one of the medium's components", c in mine)
    ctx.check("never one with zero coefficient", sim.coef[c] > 0)
    lo = sim.below(c)
    ctx.check_any("chosen in proportion to its share", [ctx.and_(ctx.ge(u * a, lo), ctx.le(u * a, lo + sim.coef[c])) for u in draws[1:]])
    ctx.cover(f"component {mine.index(c)}")


@harness("C09", ktrace.FNS, params=[(1, "A"), (2, "A"), (1, "A|B"), (1, "world>A"), (0, "A")], conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def kernel_depth_any(ctx, param):
    """depth, absorption and choice of component in the compiled loop, for any number of components and nodes"""
    ktrace.any_scene(kernel_depth)(ctx, param)


@harness("C09", ktrace.FNS, params=[(p, w) for p in ("total", "choice", "end") for w in ("A", "A|B", "world>A")], conc=0, assumes=["the contracts of the kernel functions called by trace_one"],
         note="any number of components: both loops over a medium's components by their invariants, with the sum of the first k coefficients as ghost state")
def kernel_any_components(ctx, param):
    """the loops over components: the total is the sum of all coefficients; the selection always stops, at the component whose share contains the target"""
    phase, where = param
    if not ctx.sym:
        return
    try:
        sim = anysim.Components(ctx, phase, comps=("absorber",), places=[where], ids=((1, 2, 0),), taus=False, maxsteps=9, logged=False).run_any()
    except anysim.Over:
        return
    hit = [e for e in sim.ev if sim.kind(e) == "ABSORB"]
    if hit and phase == "choice":
        c = hit[0].component
        ctx.check("the component of the pass that stopped", c == sim.of[ktrace.MEDIUM[where]][0])
        ctx.check("the target lies in its share", ctx.and_(sim.target >= sim.below(c), sim.target < sim.below(c) + sim.coef[c]))
        ctx.cover("stopped")
    ctx.cover("done")


import props.whole  # noqa: E402 executed contracts over whole histories
