"""C03 reflection and refraction obey the law of optics."""
from vf.api import harness, meta
from props.common import *
import pvtrace.material.utils as mu
from pvtrace.material.surface import (FresnelSurfaceDelegate, NullSurfaceDelegate, Surface)
from pvtrace.light.ray import Ray

M = "pvtrace.material.utils."
S = "pvtrace.material.surface."
import props.c04  # noqa: kernel_surface

meta("C03", assumptions=["unit vectors are exactly unit", "refraction is asked for only below the critical angle (the tracer reflects otherwise, C04)"])


def spec_reflect(d, n):
    k = dot(d, n)
    return tuple(x - 2 * k * y for x, y in zip(d, n))


def check_reflection(ctx, r, d, n):
    ctx.check("mirror image", ctx.eq(tuple(r), spec_reflect(d, n)))
    # consequences the property names, from the specification function
    e = spec_reflect(d, n)
    ctx.check("opposite normal part", ctx.eq(dot(r, n), -dot(d, n)))
    ctx.check("unit length", ctx.eq(dot(e, e), 1.0))
    ctx.check("same tangential part", ctx.eq(sub(r, mul(dot(r, n), n)), sub(d, mul(dot(d, n), n)), 1e-6))


@harness("C03", [M + "specular_reflection", "pvtrace.geometry.utils.flip"])
def reflection(ctx):
    d, n = ctx.unit("d"), ctx.unit("n")
    r = mu.specular_reflection(d, n)
    ctx.cover("reflected")
    check_reflection(ctx, r, d, n)


def check_refraction(ctx, t, d, n, n1, n2, dn):
    """t unit, Snell, same side, in the plane; n any orientation"""
    tn = dot(t, n)
    ctx.check("same side as travel", ctx.ge(tn * dn, 0.0, 1e-9))
    # Snell: the tangential parts scale with the indices (also: same plane)
    ctx.check("snell", ctx.eq(mul(n2, sub(t, mul(tn, n))), mul(n1, sub(d, mul(dn, n))), 1e-6))
    ctx.check("unit length", ctx.eq(dot(t, t), 1.0, 1e-6))
    if n1 is n2:
        ctx.lemma("same normal part squared", ctx.eq(tn * tn, dn * dn, 1e-6))
        ctx.lemma("same normal part", ctx.eq(tn, dn, 1e-5))
        ctx.check("undeviated for equal indices", ctx.eq(tuple(t), tuple(d), 1e-6))


def indices(ctx, d, n, orient):
    n1 = ctx.pos("n1", lo=0.5, hi=4)
    n2 = n1 if orient.endswith("equal") else ctx.pos("n2", lo=0.5, hi=4)
    dn = dot(d, n)
    ctx.assume(dn >= 0 if orient.startswith("same") else dn < 0)
    ctx.away(dn, 0.0)
    return n1, n2, dn


def below_critical(ctx, n1, n2, dn):
    ctx.assume(n1 * n1 * (1 - dn * dn) <= n2 * n2)


@harness("C03", [M + "fresnel_refraction"], params=["same", "opposed", "same-equal", "opposed-equal"])
def refraction(ctx, orient):
    d, n = ctx.unit("d"), ctx.unit("n")
    n1, n2, dn = indices(ctx, d, n, orient)
    below_critical(ctx, n1, n2, dn)
    t = mu.fresnel_refraction(d, n, n1, n2)
    ctx.cover("refracted")
    check_refraction(ctx, t, d, n, n1, n2, dn)


class Geo:
    def __init__(self, n):
        self.n = n

    def normal(self, p):
        return self.n


@harness("C03", [S + "FresnelSurfaceDelegate.reflected_direction", S + "Surface.reflect", M + "specular_reflection"],
         assumes=["Geometry.normal returns a unit normal (C06)"])
def surface_reflect(ctx):
    d, n = ctx.unit("d"), ctx.unit("n")
    p = ctx.vec("p")
    w, tr, du = ctx.pos("w"), ctx.real("travelled", lo=0), ctx.real("duration", lo=0)
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    ray = Ray(position=p, direction=d, wavelength=w, travelled=tr, duration=du, source="src")
    out = Surface(FresnelSurfaceDelegate()).reflect(ray, Geo(n), medium(n1), medium(n2))
    ctx.cover("reflected")
    check_reflection(ctx, out.direction, d, n)
    ctx.check("only the direction changes", ctx.and_(ctx.eq(out.position, p), ctx.eq(out.wavelength, w), ctx.eq(out.travelled, tr),
              ctx.eq(out.duration, du), out.source == "src"))


@harness("C03", [S + "FresnelSurfaceDelegate.transmitted_direction", S + "Surface.transmit", M + "fresnel_refraction"],
         params=["same", "opposed", "same-equal", "opposed-equal"], assumes=["Geometry.normal returns a unit normal (C06)"])
def surface_transmit(ctx, orient):
    d, n = ctx.unit("d"), ctx.unit("n")
    p = ctx.vec("p")
    w, tr, du = ctx.pos("w"), ctx.real("travelled", lo=0), ctx.real("duration", lo=0)
    n1, n2, dn = indices(ctx, d, n, orient)
    below_critical(ctx, n1, n2, dn)
    ray = Ray(position=p, direction=d, wavelength=w, travelled=tr, duration=du, source="src")
    out = Surface().transmit(ray, Geo(n), medium(n1), medium(n2))
    ctx.cover("transmitted")
    check_refraction(ctx, out.direction, d, n, n1, n2, dn)
    ctx.check("only the direction changes", ctx.and_(ctx.eq(out.position, p), ctx.eq(out.wavelength, w), ctx.eq(out.travelled, tr),
              ctx.eq(out.duration, du), out.source == "src"))


@harness("C03", [S + "NullSurfaceDelegate.transmitted_direction", S + "Surface.transmit"])
def null_transmit(ctx):
    d, n = ctx.unit("d"), ctx.unit("n")
    p = ctx.vec("p")
    w, tr, du = ctx.pos("w"), ctx.real("travelled", lo=0), ctx.real("duration", lo=0)
    n1, n2 = ctx.pos("n1", lo=0.5, hi=4), ctx.pos("n2", lo=0.5, hi=4)
    ray = Ray(position=p, direction=d, wavelength=w, travelled=tr, duration=du, source="src")
    out = Surface(NullSurfaceDelegate()).transmit(ray, Geo(n), medium(n1), medium(n2))
    ctx.cover("transmitted")
    ctx.check("direction unchanged", ctx.eq(out.direction, d))
    ctx.check("only the direction may change", ctx.and_(ctx.eq(out.position, p), ctx.eq(out.wavelength, w), ctx.eq(out.travelled, tr),
              ctx.eq(out.duration, du), out.source == "src"))


# ------------------------------------------------------------------ kernel
from props import kern
from props.kern import P


@harness("C03", [P + "specular_reflect", P + "dot3"])
def kernel_reflect(ctx):
    d, n = ctx.unit("d"), ctx.unit("n")
    o = kern.out()
    kern.call(ctx, "specular_reflect", kern.dbl(d), kern.dbl(n), o)
    ctx.cover("reflected")
    check_reflection(ctx, tuple(o.list()), d, n)


@harness("C03", [P + "fresnel_refract", P + "dot3"], params=["same", "same-equal"] + (["opposed", "opposed-equal"] if kern.refract_any_side() else []),
         note="called with the normal flipped along the ray (kernel_surface establishes that)")
def kernel_refract(ctx, orient):
    d, n = ctx.unit("d"), ctx.unit("n")
    n1, n2, dn = indices(ctx, d, n, orient)
    below_critical(ctx, n1, n2, dn)
    o = kern.out()
    kern.call(ctx, "fresnel_refract", kern.dbl(d), kern.dbl(n), n1, n2, o)
    ctx.cover("refracted")
    check_refraction(ctx, tuple(o.list()), d, n, n1, n2, dn)

import props.whole  # noqa: E402 executed contracts over whole histories
