"""C06 normals and inside/outside tests agree with the shape (Python tracer; the
compiled engine is in kernel.py)."""
import math

import numpy as np

from vf.api import harness, meta
from .common import dot, sub, Obj

import pvtrace.geometry.box as boxmod
from pvtrace.geometry.box import Box
from pvtrace.geometry.sphere import Sphere
from pvtrace.geometry.cylinder import Cylinder
from pvtrace.geometry.utils import EPS_ZERO

G = "pvtrace.geometry."
TAU = float(np.finfo(float).eps * 1000)
S = G + "sphere.Sphere."
C = G + "cylinder.Cylinder."
B = G + "box.Box."
OFFS = [0.0, 1e-3, -1e-3, 0.2, -0.2, 6e-13, -6e-13, 3e-14, -3e-14]


def offset(ctx, name, lo):
    """signed distance beyond a surface"""
    return ctx.real(name, lo, None, special=OFFS)


def truth(fn):
    try:
        return bool(fn()), None
    except Exception as e:
        return None, e


def classify(ctx, shape, p, sd):
    """sd: signed distance of p from the surface (negative inside)"""
    on = bool(shape.is_on_surface(p))
    if ctx.conc:
        ctx.assume(min(abs(abs(sd) - TAU / 4), abs(abs(sd) - 3 * TAU)) > TAU / 20 + 2e-15 * max(abs(float(x)) for x in p))
        ctx.assume(max(abs(float(x)) for x in p) < 25)
    ctx.check("on the surface within tolerance", ctx.implies(ctx.and_(sd > -TAU / 4, sd < TAU / 4), on))
    ctx.check("off the surface beyond tolerance", ctx.implies(ctx.or_(sd > 3 * TAU, sd < -3 * TAU), not on))
    if isinstance(shape, Box) and ctx.sym:
        return on
    inside = bool(shape.contains(p))
    if not isinstance(shape, Box):
        ctx.check("inside beyond tolerance", ctx.implies(sd < -3 * TAU, inside))
        ctx.check("surface points are not inside", ctx.implies(sd > -TAU / 4, not inside))
        ctx.check("never both", not (on and inside))
    else:
        # Mesh.contains is trimesh's: away from the surface
        ctx.check("inside", ctx.implies(sd < -1e-4, inside))
        ctx.check("not outside", ctx.implies(sd > 1e-4, not inside))
    return on


def normals(ctx, shape, p, n):
    got = shape.normal(p)
    ctx.check("three components", len(got) == 3)
    ctx.check("outward unit normal", ctx.eq(tuple(got), n))
    d = ctx.unit("d")
    nd = dot(n, d)
    ctx.away(nd, 0.0, 1e-9)
    ent = shape.is_entering(p, d)
    ctx.check("entering exactly when opposing the normal", ctx.iff(ent, nd < 0))
    ctx.cover("entering" if bool(ent) else "leaving")


def refuses(ctx, shape, p):
    if ctx.conc:
        ctx.assume(max(abs(float(x)) for x in p) < 50)
    try:
        shape.is_entering(p, ctx.unit("d"))
        ok = False
    except Exception:
        ok = True
    ctx.check("entering is an error off the surface", ok)


# -------------------------------------------------------------------- sphere

@harness("C06", functions=[S + "is_on_surface", S + "contains"])
def sphere_classes(ctx):
    R, u = ctx.pos("R"), ctx.unit("u")
    s = offset(ctx, "s", -R)
    p = tuple((R + s) * a for a in u)
    ctx.hint(R + s)
    on = classify(ctx, Sphere(radius=R), p, s)
    ctx.cover("on" if on else "off")


@harness("C06", functions=[S + "normal", S + "is_entering"])
def sphere_normals(ctx):
    R, u = ctx.pos("R"), ctx.unit("u")
    if ctx.sym:
        s = ctx.real("s", -TAU / 4, TAU / 4)
        ctx.assume(R > 1e-9)
    else:
        s = 0.0
    p = tuple((R + s) * a for a in u)
    ctx.hint(R + s, *u)
    normals(ctx, Sphere(radius=R), p, u)


@harness("C06", functions=[S + "is_entering"])
def sphere_refuses(ctx):
    R, u = ctx.pos("R"), ctx.unit("u")
    s = offset(ctx, "s", -R)
    ctx.assume(ctx.or_(s > 3 * TAU, s < -3 * TAU))
    ctx.hint(R + s)
    refuses(ctx, Sphere(radius=R), tuple((R + s) * a for a in u))


# ------------------------------------------------------------------ cylinder

def ring_(ctx):
    phi = ctx.real("phi") if ctx.sym else ctx.real("phi", -3.14, 3.14)
    return ctx.cos(phi), ctx.sin(phi)


def cyl_point(ctx, L, R):
    """a point by its radial and axial distances beyond side and cap"""
    c, s = ring_(ctx)
    a = offset(ctx, "a", -R)
    b = offset(ctx, "b", -L / 2)
    up = 1.0 if ctx.flag("up") else -1.0
    ctx.hint(R + a)
    return ((R + a) * c, (R + a) * s, up * (L / 2 + b)), a, b


def cyl_sd(ctx, a, b):
    if bool(a > 0) and bool(b > 0):
        return ctx.sqrt(a * a + b * b)
    return a if bool(a >= b) else b


@harness("C06", functions=[C + "is_on_surface", C + "contains"], params=["core", "beyond"])
def cylinder_classes(ctx, where):
    L, R = ctx.pos("L"), ctx.pos("R")
    p, a, b = cyl_point(ctx, L, R)
    if where == "core":
        ctx.assume(ctx.or_(a <= 0, b <= 0))
    else:
        ctx.assume(ctx.and_(a > 0, b > 0))
    on = classify(ctx, Cylinder(length=L, radius=R), p, cyl_sd(ctx, a, b))
    ctx.cover("on" if on else "off")


@harness("C06", functions=[C + "is_entering"])
def cylinder_refuses(ctx):
    L, R = ctx.pos("L"), ctx.pos("R")
    p, a, b = cyl_point(ctx, L, R)
    sd = cyl_sd(ctx, a, b)
    ctx.assume(ctx.or_(sd > 3 * TAU, sd < -3 * TAU))
    refuses(ctx, Cylinder(length=L, radius=R), p)


@harness("C06", functions=[C + "normal", C + "is_entering", G + "utils.norm"], params=["side", "top", "bottom"],
         note="side points with |z| < 0.4999 L, cap points with r < 0.9999 R; dimensions of at least 1e-3")
def cylinder_normals(ctx, where):
    L, R = ctx.real("L", 1e-3, None), ctx.real("R", 1e-3, None)
    if ctx.conc:
        ctx.assume(L < 1e3 and R < 1e3)
    c, s = ring_(ctx)
    e = ctx.real("e", -TAU / 4, TAU / 4) if ctx.sym else 0.0
    if where == "side":
        z = ctx.real("zf", -0.4999, 0.4999, special=(-0.4999, 0.4999, -0.4995, 0.4995)) * L
        p, n = ((R + e) * c, (R + e) * s, z), (c, s, 0.0)
        ctx.hint(R + e, c, s)
    else:
        f = ctx.real("f", 0.0, 0.9999, special=(0.9999, 0.9995))
        k = 1.0 if where == "top" else -1.0
        p, n = (f * R * c, f * R * s, k * (L / 2 + e)), (0.0, 0.0, k)
        ctx.hint(f * R)
    normals(ctx, Cylinder(length=L, radius=R), p, n)


# ----------------------------------------------------------------------- box

def make_box(ctx, size):
    if ctx.sym:
        # trimesh supplies the mesh used by contains/intersections only
        ctx.stub(boxmod, "trimesh", Obj(creation=Obj(box=lambda *a, **k: Obj(vertices=0.0, center_mass=0.0))))
    return Box(size)


def sizes(ctx):
    if ctx.sym:
        return tuple(ctx.real("s" + c, 1e-3, None) for c in "xyz")
    return tuple(ctx.pos("s" + c, lo=1e-1, hi=1e1) for c in "xyz")


def box_point(ctx, size):
    """a point by its distances beyond the faces nearest to it"""
    ex, p = [], []
    for c, s in zip("xyz", size):
        e = offset(ctx, "e" + c, -s / 2)
        k = 1.0 if ctx.flag("side" + c) else -1.0
        ex.append(e)
        p.append(k * (s / 2 + e))
    return tuple(p), ex


@harness("C06", functions=[B + "is_on_surface", G + "utils.on_aabb_surface", G + "utils.distance_between"],
         params=["inner", "outer"], note="Mesh.contains (trimesh) is exercised concretely only")
def box_classes(ctx, where):
    size = sizes(ctx)
    p, ex = box_point(ctx, size)
    m = ex[0]
    for e in ex[1:]:
        m = e if bool(e > m) else m
    if where == "inner":
        ctx.assume(m <= 0)
        sd = m
    else:
        ctx.assume(m > 0)
        # within a factor of two of the distance: the largest excess
        sd = m
        ctx.assume(ctx.or_(m > 3 * TAU, *[ctx.and_(*[e <= 0 for e in ex if e is not m]) for _ in (0,)]))
    on = classify(ctx, make_box(ctx, size), p, sd)
    ctx.cover("on" if on else "off")


@harness("C06", functions=[B + "normal", "pvtrace.geometry.mesh.Mesh.is_entering", G + "utils.on_aabb_surface"],
         params=["-x", "+x", "-y", "+y", "-z", "+z"])
def box_normals(ctx, face):
    size = sizes(ctx)
    ax, k = "xyz".index(face[1]), (1.0 if face[0] == "+" else -1.0)
    e = ctx.real("e", -TAU / 4, TAU / 4) if ctx.sym else 0.0
    p = [ctx.real("f" + c, -0.499, 0.499) * s for c, s in zip("xyz", size)]
    p[ax] = k * (size[ax] / 2 + e)
    n = [0.0, 0.0, 0.0]
    n[ax] = k
    normals(ctx, make_box(ctx, size), tuple(p), tuple(n))


@harness("C06", functions=[B + "is_entering", B + "normal"])
def box_refuses(ctx):
    size = sizes(ctx)
    p, ex = box_point(ctx, size)
    far = [ctx.or_(e > 3 * TAU, e < -3 * TAU) for e in ex]
    ctx.assume(ctx.or_(ctx.and_(*far), *[e > 3 * TAU for e in ex]))
    refuses(ctx, make_box(ctx, size), p)


meta("C06", assumptions=["tolerance: |distance| < tau/4 must count as on the surface and > 3 tau as off it, tau = 1000 machine epsilon",
                         "Mesh.contains and Mesh.intersections (trimesh) outside reach: concrete executions only"])


# ------------------------------------------------------------------ kernel
from props import kern
from props.kern import P
from vf import kernel


def knormal(ctx, kind, params, p, n):
    """local_normal of row 1 of a two-node table"""
    kern.need("local_normal")
    other = (kind + 1) % 3
    rows = [7.0, 7.0, 7.0, 7.0] + list(params) + [0.0] * (4 - len(params))
    S = kernel.Struct("SceneT", n_nodes=2, geom_type=kernel.arr("int", [other, kind], "geom_type"), geom_params=kern.dbl(rows, "geom_params"))
    o = kern.out()
    kern.K.local_normal(S, 1, kern.dbl(p), o)
    ctx.cover("normal")
    ctx.check("outward unit normal", ctx.eq(tuple(o.list()), n))


@harness("C06", functions=[P + "local_normal"])
def kernel_sphere_normal(ctx):
    R, u = ctx.pos("R"), ctx.unit("u")
    s = ctx.real("s", -TAU / 4, TAU / 4) if ctx.sym else 0.0
    if ctx.sym:
        ctx.assume(R > 1e-9)
    ctx.hint(R + s, *u)
    knormal(ctx, 1, [R], tuple((R + s) * a for a in u), u)


@harness("C06", functions=[P + "local_normal"], params=["side", "top", "bottom"],
         note="side points with |z| < 0.4999 L, cap points with r < 0.9999 R; dimensions of at least 1e-3")
def kernel_cylinder_normal(ctx, where):
    L, R = ctx.real("L", 1e-3, None), ctx.real("R", 1e-3, None)
    if ctx.conc:
        ctx.assume(L < 1e3 and R < 1e3)
    c, s = ring_(ctx)
    e = ctx.real("e", -TAU / 4, TAU / 4) if ctx.sym else 0.0
    if where == "side":
        z = ctx.real("zf", -0.4999, 0.4999, special=(-0.4999, 0.4999, -0.4995, 0.4995)) * L
        p, n = ((R + e) * c, (R + e) * s, z), (c, s, 0.0)
        ctx.hint(R + e, c, s)
    else:
        f = ctx.real("f", 0.0, 0.9999, special=(0.9999, 0.9995))
        k = 1.0 if where == "top" else -1.0
        p, n = (f * R * c, f * R * s, k * (L / 2 + e)), (0.0, 0.0, k)
        ctx.hint(f * R)
    knormal(ctx, 2, [L, R], p, n)


@harness("C06", functions=[P + "local_normal"], params=["-x", "+x", "-y", "+y", "-z", "+z"])
def kernel_box_normal(ctx, face):
    size = sizes(ctx)
    ax, k = "xyz".index(face[1]), (1.0 if face[0] == "+" else -1.0)
    e = ctx.real("e", -TAU / 4, TAU / 4) if ctx.sym else 0.0
    p = [ctx.real("f" + c, -0.499, 0.499) * s for c, s in zip("xyz", size)]
    p[ax] = k * (size[ax] / 2 + e)
    n = [0.0, 0.0, 0.0]
    n[ax] = k
    knormal(ctx, 0, size, p, tuple(n))
