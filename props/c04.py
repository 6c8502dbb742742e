"""C04 Fresnel reflectivity is a probability and decides reflection."""
import math
from vf.api import harness, meta
from props.common import *
import pvtrace.material.utils as mu
from pvtrace.material.surface import (FresnelSurfaceDelegate, NullSurfaceDelegate, Surface, SurfaceDelegate)
from pvtrace.light.ray import Ray

M = "pvtrace.material.utils."
S = "pvtrace.material.surface."
meta("C04", assumptions=["incidence angles in [0, pi/2)", "refractive indices are positive"])


def spec(ctx, c, s, n1, n2):
    """unpolarised Fresnel reflectivity; c, s cosine and sine of the incidence angle"""
    root = ctx.sqrt(n2 * n2 - n1 * n1 * s * s)      # n2 cos(theta_t)
    cs, cp1, cp2 = n1 * c, n1 * n1 * root, n2 * n2 * (n1 * c)
    return root


def fresnel(ctx, R, c, s, n1, n2, tol=1e-6):
    """R is the unpolarised Fresnel value below the critical angle (polynomial form)"""
    w = ctx.sqrt(n2 * n2 - n1 * n1 * (1 - c * c))     # n2 cos(theta_t)
    # s: (n1 c - w)/(n1 c + w)      p: (n1 w - n2^2 c)/(n1 w + n2^2 c)
    s1, s2 = n1 * c - w, n1 * c + w
    p1, p2 = n1 * w - n2 * n2 * c, n1 * w + n2 * n2 * c
    return s1, s2, p1, p2


@harness("C04", [M + "fresnel_reflectivity"])
def value(ctx):
    t = ctx.angle("theta", 0, math.pi / 2)
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    c, s = ctx.cos(t), ctx.sin(t)
    ctx.assume(c > 0)
    ctx.away(c, 0.0, 1e-4)
    ctx.away(n1 * s, n2, 1e-6)
    R = mu.fresnel_reflectivity(t, n1, n2)
    if n1 * s > n2:
        ctx.cover("total internal reflection")
        ctx.check("exactly 1 beyond the critical angle", ctx.eq(R, 1.0, 1e-12))
    else:
        ctx.cover("partial reflection")
        s1, s2, p1, p2 = fresnel(ctx, R, c, s, n1, n2)
        ctx.lemma("positive denominators", ctx.and_(s2 > 0, p2 > 0))
        ctx.check("unpolarised Fresnel value", ctx.eq(2 * R * (s2 * s2) * (p2 * p2), (s1 * s1) * (p2 * p2) + (p1 * p1) * (s2 * s2), 1e-6))
        a, b = s1 / s2, p1 / p2
        ctx.lemma("amplitudes", ctx.and_(a <= 1, a >= -1, b <= 1, b >= -1))
        ctx.lemma("mean of two", ctx.eq(R, 0.5 * (a * a + b * b)))
        ctx.check("probability", ctx.and_(ctx.ge(R, 0.0), ctx.le(R, 1.0)))


@harness("C04", [M + "fresnel_reflectivity"])
def normal_incidence(ctx):
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    R = mu.fresnel_reflectivity(0.0, n1, n2)
    ctx.cover("evaluated")
    ctx.check("normal incidence value", ctx.eq(R * ((n1 + n2) * (n1 + n2)), (n1 - n2) * (n1 - n2)))


@harness("C04", [M + "fresnel_reflectivity"])
def reciprocity(ctx):
    """the same crossing travelled backwards: refracted angle, indices swapped"""
    t = ctx.angle("theta", 0, math.pi / 2)
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    c, s = ctx.cos(t), ctx.sin(t)
    ctx.assume(c > 0)
    ctx.away(c, 0.0, 1e-4)
    ctx.assume(n1 * s < n2)
    ctx.away(n1 * s, n2, 1e-4)
    t2 = ctx.asin(n1 * s / n2)
    R1 = mu.fresnel_reflectivity(t, n1, n2)
    R2 = mu.fresnel_reflectivity(t2, n2, n1)
    ctx.cover("both evaluated")
    ctx.check("reciprocal", ctx.eq(R1, R2, 1e-6))


class Geo:
    def __init__(self, n):
        self.n = n

    def normal(self, p):
        return self.n


def a_ray(ctx, d):
    return Ray(position=ctx.vec("p"), direction=d, wavelength=ctx.pos("w"), travelled=ctx.real("travelled", lo=0),
               duration=ctx.real("duration", lo=0), source="src")


@harness("C04", [S + "FresnelSurfaceDelegate.reflectivity", "pvtrace.geometry.utils.angle_between", "pvtrace.geometry.utils.flip"],
         assumes=["Geometry.normal returns a unit normal (C06)", "fresnel_reflectivity obeys its contract (harness value)"],
         note="directions within the isclose tolerance (about 1e-5) of the normal count as normal incidence")
def delegate_angle(ctx):
    """the reflectivity asked for is that of the angle to the surface normal,
    whichever way the normal points; the indices are container then adjacent"""
    d, n = ctx.unit("d"), ctx.unit("n")
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    seen = []
    ret = ctx.real("R", lo=0, hi=1)
    from pvtrace.material import surface
    ctx.stub(surface, "fresnel_reflectivity", lambda a, x, y: (seen.append((a, x, y)), ret)[1])
    dn = unit_dot(ctx, d, n)
    r = FresnelSurfaceDelegate().reflectivity(Surface(), a_ray(ctx, d), Geo(n), medium(n1), medium(n2))
    ctx.cover("asked")
    ctx.check("asked once", len(seen) == 1)
    if not seen:
        return
    a, x, y = seen[0]
    ctx.check("indices", ctx.and_(ctx.eq(x, n1), ctx.eq(y, n2)))
    ctx.check("result", ctx.eq(r, ret))
    ca = ctx.cos(a)
    if not ctx.sym or not isinstance(a, float):
        ctx.check("angle to the normal", ctx.eq(ca * ca, dn * dn, 1e-6))
        ctx.check("acute angle", ctx.ge(ca, 0.0))
    else:
        # shortcut of angle_between: direction equal to the normal within 1e-5
        k = math.cos(a)
        ad = dn if dn >= 0 else -dn
        sg = 1 if dn >= 0 else -1
        tot = 0.0
        for i, (x, y) in enumerate(zip(d, n)):
            e = x - k * sg * y
            ctx.lemma(f"close {i}", ctx.and_(e <= 1.002e-5, e >= -1.002e-5))
            ee = ctx.square(e)
            ctx.lemma(f"square {i}", ee <= 1.1e-10)
            tot = tot + ee
        ctx.lemma("distance of unit vectors", ctx.eq(tot, 2 - 2 * k * ad))
        ctx.check("angle to the normal", ctx.and_(k - ad <= 1e-9, ad - k <= 1e-9))


class Fixed(SurfaceDelegate):
    def __init__(self, r):
        self.r = r

    def reflectivity(self, *a):
        return self.r

    def reflected_direction(self, *a):
        return (0.0, 0.0, 1.0)

    def transmitted_direction(self, *a):
        return (0.0, 0.0, 1.0)


@harness("C04", [S + "Surface.is_reflected"])
def decision(ctx):
    r = ctx.real("R", 0, 1, special=(0.0, 1.0))
    d = ctx.unit("d")
    out = Surface(Fixed(r)).is_reflected(a_ray(ctx, d), None, None, None)
    ctx.check("at most one draw", len(ctx.draws) <= 1)
    if out:
        ctx.cover("reflected")
    else:
        ctx.cover("transmitted")
    if ctx.draws:
        ctx.check("reflected exactly when the draw is below", ctx.iff(out, ctx.draws[0] < r))
    else:
        ctx.check("without a draw only for certain outcomes", ctx.or_(ctx.and_(r <= 0, ctx.not_(out)), ctx.and_(r >= 1, out)))
    ctx.check("certain reflection", ctx.implies(r >= 1, out))
    ctx.check("zero reflectivity never reflects", ctx.implies(r <= 0, ctx.not_(out)))


@harness("C04", [S + "NullSurfaceDelegate.reflectivity", S + "Surface.is_reflected"])
def null_never_reflects(ctx):
    d, n = ctx.unit("d"), ctx.unit("n")
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    out = Surface(NullSurfaceDelegate()).is_reflected(a_ray(ctx, d), Geo(n), medium(n1), medium(n2))
    ctx.cover("asked")
    ctx.check("never reflects", ctx.not_(out))


# ------------------------------------------------------------------ kernel
from props import kern
from props.kern import P


@harness("C04", [P + "fresnel_reflectivity"])
def kernel_value(ctx):
    t = ctx.angle("theta", 0, math.pi / 2)
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    c, s = ctx.cos(t), ctx.sin(t)
    ctx.assume(c > 0)
    ctx.away(c, 0.0, 1e-4)
    ctx.away(n1 * s, n2, 1e-6)
    R = kern.call(ctx, "fresnel_reflectivity", t, n1, n2)
    if n1 * s > n2:
        ctx.cover("total internal reflection")
        ctx.check("exactly 1 beyond the critical angle", ctx.eq(R, 1.0, 1e-12))
    else:
        ctx.cover("partial reflection")
        s1, s2, p1, p2 = fresnel(ctx, R, c, s, n1, n2)
        ctx.lemma("positive denominators", ctx.and_(s2 > 0, p2 > 0))
        ctx.check("unpolarised Fresnel value", ctx.eq(2 * R * (s2 * s2) * (p2 * p2), (s1 * s1) * (p2 * p2) + (p1 * p1) * (s2 * s2), 1e-6))
        a, b = s1 / s2, p1 / p2
        ctx.lemma("amplitudes", ctx.and_(a <= 1, a >= -1, b <= 1, b >= -1))
        ctx.lemma("mean of two", ctx.eq(R, 0.5 * (a * a + b * b)))
        ctx.check("probability", ctx.and_(ctx.ge(R, 0.0), ctx.le(R, 1.0)))


@harness("C04", [P + "fresnel_reflectivity"])
def kernel_normal_incidence(ctx):
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    R = kern.call(ctx, "fresnel_reflectivity", 0.0, n1, n2)
    ctx.cover("evaluated")
    ctx.check("normal incidence value", ctx.eq(R * ((n1 + n2) * (n1 + n2)), (n1 - n2) * (n1 - n2)))


@harness("C04", [P + "fresnel_reflectivity"])
def kernel_reciprocity(ctx):
    t = ctx.angle("theta", 0, math.pi / 2)
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    c, s = ctx.cos(t), ctx.sin(t)
    ctx.assume(c > 0)
    ctx.away(c, 0.0, 1e-4)
    ctx.assume(n1 * s < n2)
    ctx.away(n1 * s, n2, 1e-4)
    t2 = ctx.asin(n1 * s / n2)
    R1 = kern.call(ctx, "fresnel_reflectivity", t, n1, n2)
    R2 = kern.call(ctx, "fresnel_reflectivity", t2, n2, n1)
    ctx.cover("both evaluated")
    ctx.check("reciprocal", ctx.eq(R1, R2, 1e-6))


# ------------------------------------------------------------- the compiled loop at a surface

from props import ktrace, anysim

ANY_SIDE = kern.refract_any_side()


def surface_step(ctx, where, fresnel=None):
    sim = ktrace.scene(ctx, comps=(), places=[where], ids=((1, 2, 0),), taus=False)
    sim.clear()
    return sim.run_any()


@harness(["C03", "C04"], ktrace.FNS, params=["world>A", "A", "A>B", "B"], bound=ktrace.BOUND, conc=60,
         assumes=["the contracts of the kernel functions called by trace_one"])
def kernel_surface(ctx, where):
    """the compiled loop reflects exactly when a uniform draw falls below the reflectivity"""
    sim = surface_step(ctx, where)
    hit, med, adj = (X[where] for X in (ktrace.HIT, ktrace.MEDIUM, ktrace.ADJ))
    for e in sim.ev:
        k = sim.kind(e)
        if k not in ("REFLECT", "TRANSMIT"):
            continue
        asked = [c for c in sim.calls if c[0] == "reflectivity"]
        draws = [c[1] for c in sim.calls if c[0] == "uniform"]
        refl = [c for c in sim.calls if c[0] == "reflect"]
        refr = [c for c in sim.calls if c[0] == "refract"]
        n, d = sim.world_normal(hit), sim.pre.direction
        dn = dot(d, n)
        if not sim.fresnel[hit]:
            ctx.check("a null surface never reflects", k == "TRANSMIT")
            ctx.check("a null surface keeps the direction", ctx.eq(e.direction, d))
            ctx.cover("null")
        else:
            ctx.check("reflectivity asked once", len(asked) == 1)
            _, angle, n1, n2, R = asked[0]
            ctx.check("indices of the media on both sides", ctx.and_(ctx.eq(n1, sim.n[med]), ctx.eq(n2, sim.n[adj])))
            if ctx.sym:
                ctx.check("angle between the ray and the normal", ctx.eq(ctx.square(ctx.cos(angle)), ctx.square(dn)))
                ctx.check("angle at most a right angle", ctx.and_(ctx.ge(angle, 0.0), ctx.ge(ctx.cos(angle), 0.0)))
            else:
                ctx.check("angle between the ray and the normal", abs(math.cos(angle) - abs(dn)) < 1e-9 and 0 <= angle <= math.pi / 2 + 1e-9)
            if draws:
                ctx.check("one draw", len(draws) == 1)
                ctx.check("reflected exactly when the draw is below the reflectivity", ctx.iff(k == "REFLECT", draws[0] < R))
            else:
                ctx.check("no draw only without a choice", ctx.or_(ctx.and_(ctx.eq(R, 0.0), k == "TRANSMIT"), ctx.and_(ctx.eq(R, 1.0), k == "REFLECT")))
            for c in refl + refr:
                ctx.check("direction computed from the incident ray", ctx.eq(c[1], d))
                ctx.check("and the surface normal", ctx.or_(ctx.eq(c[2], n), ctx.eq(c[2], tuple(0.0 - x for x in n))))
            for c in refr:
                if not ANY_SIDE:
                    ctx.check("refraction gets the normal along the ray", ctx.ge(dot(c[2], d), 0.0))
            if k == "REFLECT":
                ctx.check("reflected direction", len(refl) == 1 and not refr and ctx.eq(e.direction, refl[0][3]))
            else:
                ctx.check("refracted direction", len(refr) == 1 and not refl and ctx.eq(e.direction, refr[0][5]))
                ctx.check("refraction indices", ctx.and_(ctx.eq(refr[0][3], sim.n[med]), ctx.eq(refr[0][4], sim.n[adj])))
            ctx.cover(k)
        for c in sim.calls:
            if c[0] == "normal":
                q = sub(e.pos, sim.loc[c[1]])
                r = sim.rot[c[1]]
                ctx.check("normal asked where the surface is hit", c[1] == hit and ctx.eq(c[2], tuple(sum((r[j][i] * q[j] for j in range(3)), 0.0) for i in range(3)), 1e-6))
        ctx.check("event carries the outward normal", e.normal is not None and ctx.eq(e.normal, n))


@harness(["C03", "C04"], ktrace.FNS, params=["world>A", "A", "A>B", "B", "A|B"], conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def kernel_surface_any(ctx, param):
    """the compiled loop reflects exactly when a uniform draw falls below the reflectivity, in scenes of any size"""
    ktrace.any_scene(kernel_surface)(ctx, param)


# ------------------------------------------------------------- the Python tracing loop at a surface

from props import tracer as pt
from pvtrace.light.event import Event
TR = "pvtrace.algorithm.photon_tracer."


def to_world(name, v):
    """a direction of node A (rotated by PERM) or B (by PERM twice) in the world"""
    for _ in range({"world": 0, "A": 1, "B": 2}[name]):
        v = (v[2], v[0], v[1])
    return v


@harness(["C03", "C04", "C15"], [TR + "step_forward", "pvtrace.light.ray.Ray.representation", S + "Surface.reflect", S + "Surface.transmit", S + "Surface.is_reflected"],
         params=["world>A", "A", "A>B", "B"], assumes=["the shapes' intersections and normals (C05, C06), the scene's intersection list (C07)"])
def tracer_surface(ctx, where):
    """at a surface the tracer asks the hit node's surface in the hit node's frame and carries its answer back to the world"""
    scene, log, info = pt.build(ctx, None, [where], lifetimes=False)
    ray = pt.ray0(ctx)
    ev = pt.trace(ctx, scene, ray, 2)
    ctx.check("one surface event", len(ev) >= 2 and ev[1][1] in (Event.REFLECT, Event.TRANSMIT))
    after, event, meta_ = ev[1]
    hit, med, adj = pt.HIT[where], pt.MEDIUM[where], pt.ADJ[where]
    asked = [l for l in log if l[0] == "reflectivity"][:1]
    ctx.check("reflectivity asked", len(asked) == 1)
    _, local, geometry, container, adjacent, R = asked[0]
    nodes = {"world": scene.root, "A": scene.a, "B": scene.b}
    ctx.check("of the surface hit", geometry is nodes[hit].geometry)
    ctx.check("with the media on both sides", container is nodes[med] and adjacent is nodes[adj])
    ctx.check("in the frame of the node hit", ctx.eq(to_world(hit, local.direction), ray.direction, 1e-9))
    ctx.check("at the surface point", ctx.eq(nodes[hit].point_to_node(local.position, scene.root), after.position, 1e-6))
    redo = [l for l in log if l[0] in ("reflect", "transmit")][:1]
    ctx.check("the event is what the surface did", len(redo) == 1 and redo[0][0] == ("reflect" if event == Event.REFLECT else "transmit"))
    ctx.check("the new direction is the surface's", ctx.eq(after.direction, to_world(hit, redo[0][5]), 1e-9))
    ctx.check("the event carries the outward normal", ctx.eq(meta_["normal"], to_world(hit, nodes[hit].geometry.n)))
    ctx.check("and names the nodes", meta_["hit"] == hit and meta_["container"] == med and meta_["adjacent"] == adj)
    u = [x for x in ctx.draws] if hasattr(ctx, "draws") else []
    ctx.cover(event.name)

import props.whole  # noqa: E402 executed contracts over whole histories
