"""Whole histories of the real code on scenes drawn at random: the contracts of the
properties checked while it runs (bounded, never counted as proved).

A scene is made from a number, so a failing input is that number."""
import random
import sys

import numpy as np

from vf import core, kernel
from vf.core import Unsupported
from props.common import *
from props import kern

from pvtrace.scene.node import Node
from pvtrace.scene.scene import Scene
from pvtrace.geometry.box import Box
from pvtrace.geometry.sphere import Sphere
from pvtrace.geometry.cylinder import Cylinder
from pvtrace.material.material import Material
from pvtrace.material.surface import Surface, NullSurfaceDelegate, FresnelSurfaceDelegate
from pvtrace.material.component import Absorber, Scatterer, Luminophore, Reactor
from pvtrace.material.utils import isotropic, HenyeyGreenstein, Cone
from pvtrace.light.light import Light
from pvtrace.light.ray import Ray
from pvtrace.light.event import Event
from pvtrace.algorithm import photon_tracer
from pvtrace.engine.recorder import Recorder, Histogram, Heatmap, EVENTS
import pvtrace.engine

C = 2.99792458e10
HOLD = {}


def use_current_kernel():
    """make pvtrace.engine run the kernel compiled from the current source"""
    if "kernel" not in HOLD:
        try:
            m = kernel.compiled()
        except Exception as e:
            raise Unsupported(f"kernel not compiled: {e}")
        sys.modules["pvtrace.engine._kernel"] = m
        pvtrace.engine._kernel = m
        HOLD["kernel"] = m
    return HOLD["kernel"]


def spectrum(r, peak):
    x = np.linspace(300.0, 800.0, r.choice([11, 51]))
    c, w = r.uniform(400, 700), r.uniform(20, 120)
    return np.column_stack((x, peak * np.exp(-(((x - c) / w) ** 2))))


def component(r, i):
    k = r.choice(["absorber", "scatterer", "luminophore", "reactor", "luminophore", "scatterer"])
    coef = r.choice([0.0, 0.05, 0.5, 3.0]) if r.random() < 0.5 else spectrum(r, r.choice([0.5, 5.0]))
    if k == "absorber":
        return Absorber(coef, name=f"abs{i}")
    if k == "reactor":
        return Reactor(coef, name=f"rea{i}")
    ph = r.choice([None, isotropic, HenyeyGreenstein(r.choice([-0.7, 0.0, 0.5])), Cone(r.choice([0.1, 0.8]))])
    kw = dict(quantum_yield=r.choice([0.0, 0.5, 1.0]), phase_function=ph, tau_rad=r.choice([None, 5e-9]), tau_nr=r.choice([None, 3e-9]))
    if k == "scatterer":
        return Scatterer(coef, name=f"sca{i}", **kw)
    return Luminophore(coef, emission=spectrum(r, 1.0), name=f"lum{i}", **kw)


def material(r, tag, most=2, n=None):
    comps = [component(r, f"{tag}{k}") for k in range(min(most, r.choice([0, 0, 1, 1, 2])))]
    return Material(refractive_index=n or r.choice([1.0, 1.0, 1.3, 1.5, 2.4]), components=comps,
                    surface=Surface(delegate=NullSurfaceDelegate() if r.random() < 0.25 else FresnelSurfaceDelegate()))


def shape(r, size, mat):
    """a shape inside a ball of radius `size` around its origin"""
    k = r.randint(0, 2)
    if k == 0:
        a = size * 2 / np.sqrt(3.0)
        return Box((a * r.uniform(0.3, 1), a * r.uniform(0.3, 1), a * r.uniform(0.3, 1)), material=mat)
    if k == 1:
        return Sphere(radius=size * r.uniform(0.5, 1), material=mat)
    a = size / np.sqrt(2.0)
    return Cylinder(length=2 * a * r.uniform(0.3, 1), radius=a * r.uniform(0.4, 1), material=mat)


def inner(geometry):
    """radius of a ball around the origin inside the shape"""
    if isinstance(geometry, Sphere):
        return geometry.radius
    if isinstance(geometry, Box):
        return min(geometry._size) / 2
    return min(geometry.length / 2, geometry.radius)


def place(r, node, x):
    # turn first: rotate() and translate() act on the pose
    if r.random() < 0.7:
        node.rotate(r.uniform(0, 6.28), [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(0.1, 1)])
    node.location = x


HISTS = [Histogram("wavelength", 300, 900, 6), Histogram("x", -8, 8, 5), Heatmap("y", "z", (-8, 8, 4), (-8, 8, 3)), Histogram("angle", 0.0, 1.6, 4), Histogram("duration", 0, 1e-8, 3)]


def recorders(r, node, used):
    out = []
    for _ in range(r.randint(0, 2)):
        ev = r.choice(sorted(EVENTS))
        facet = None
        if ev in ("entering", "escaping", "reflected", "exit") and r.random() < 0.3:
            facet = r.choice([(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (1.0, 0.0, 0.0)])
        out.append(Recorder(f"{node.name}-{ev}-{len(used)}", event=ev, facet=facet, histograms=[r.choice(HISTS) for _ in range(r.randint(0, 2))]))
        used.append(out[-1])
    node.recorders = out


def build(number, with_recorders=True):
    r = random.Random(number)
    used = []
    world = Node(name="world", geometry=r.choice([Sphere(radius=10.0, material=material(r, "w", 1, 1.0)), Box((16.0, 16.0, 16.0), material=material(r, "w", 1, r.choice([1.0, 1.2]))),
                                                  Cylinder(length=14.0, radius=9.0, material=material(r, "w", 1, 1.0))]))
    nodes, k = [world], 0
    for x in (-4.5, 0.0, 4.5):
        if r.random() < 0.25:
            continue
        k += 1
        group = world
        loc = (x + r.uniform(-0.3, 0.3), r.uniform(-1, 1), r.uniform(-1, 1))
        if r.random() < 0.3:      # through a node without geometry
            group = Node(name=f"group{k}", parent=world)
            group.translate((0.0, 0.5, 0.0))
        a = Node(name=f"a{k}", parent=group, geometry=shape(r, 2.0, material(r, f"a{k}")))
        place(r, a, loc)
        nodes.append(a)
        if r.random() < 0.6:
            b = Node(name=f"b{k}", parent=a, geometry=shape(r, 0.8 * inner(a.geometry), material(r, f"b{k}")))
            place(r, b, (0.0, 0.0, 0.05 * inner(a.geometry)))
            nodes.append(b)
    # a lamp inside a node or in the open, shining at a node or anywhere
    solid = [n for n in nodes if n is not world] or [world]
    spot = r.choice(solid)
    o = np.array([r.uniform(-0.6, 0.6) * inner(spot.geometry) for _ in range(3)])
    at = spot.transformation_to(world)[:3, :3] @ o + spot.transformation_to(world)[:3, 3] if r.random() < 0.5 else np.array((r.uniform(-5, 5), r.uniform(-3, 3), r.uniform(-5, 5)))
    at = np.clip(at, -6, 6)
    goal = r.choice(solid)
    to = goal.transformation_to(world)[:3, 3] + np.array([r.uniform(-0.5, 0.5) * inner(goal.geometry) for _ in range(3)]) - at
    to = to / np.linalg.norm(to)
    way = isotropic if r.random() < 0.5 else (lambda: tuple(float(x) for x in to))
    nm = r.uniform(350, 750)
    Node(name="light", parent=world, light=Light(direction=way, wavelength=lambda: nm, name="light")).location = tuple(float(x) for x in at)
    if with_recorders:
        for n in nodes:
            if n is world or r.random() < 0.7:
                recorders(r, n, used)
    return Obj(scene=Scene(world), nodes=nodes, by={n.name: n for n in nodes}, world=world, r=r)


# ------------------------------------------------------------- what a history must satisfy

TERMINAL = ("EXIT", "KILL", "NONRADIATIVE", "REACT")


def component_of(sc, name):
    for n in sc.nodes:
        for c in n.geometry.material.components:
            if c.name == name:
                return c
    return None


def check_grammar(ctx, sc, h, maxsteps, cap=None):
    es = [e.name for _, e, _ in h]
    ctx.check("starts with one generate", es[0] == "GENERATE" and es.count("GENERATE") == 1)
    ctx.check("ends with its only terminal event", es[-1] in TERMINAL and not any(e in TERMINAL for e in es[:-1]))
    for i, e in enumerate(es):
        if e in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            ctx.check("outcomes only after an absorb", es[i - 1] == "ABSORB")
        if e == "ABSORB":
            ctx.check("an absorb is followed by an outcome", i + 1 < len(es) and es[i + 1] in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"))
            c = component_of(sc, h[i][2]["component"])
            ok = {"Scatterer": ("SCATTER", "NONRADIATIVE"), "Absorber": ("NONRADIATIVE",), "Reactor": ("REACT",), "Luminophore": ("EMIT", "NONRADIATIVE")}
            ctx.check("the outcome is one of the capturing component's", c is not None and es[i + 1] in ok[type(c).__name__])
            if c is not None and es[i + 1] in ("EMIT", "SCATTER"):
                ctx.check("no radiation at zero yield", c.quantum_yield > 0)
                ctx.check("emission only from luminophores", (es[i + 1] == "EMIT") == isinstance(c, Luminophore))
            if c is not None and es[i + 1] == "NONRADIATIVE" and not isinstance(c, Absorber):
                ctx.check("no loss at unit yield", c.quantum_yield < 1)
    steps = sum(1 for e in es if e in ("ABSORB", "REFLECT", "TRANSMIT", "EXIT"))
    ctx.check("interactions within the step limit", steps <= maxsteps)
    if es[-1] == "KILL" and (cap is None or len(es) < cap - 1):
        ctx.check("killed only at the limit", steps == maxsteps)


def medium_at(sc, p):
    """innermost node holding the point, or None when it is near a surface"""
    best, depth = None, -1
    for n in sc.nodes:
        q = sc.scene.root.point_to_node(tuple(float(x) for x in p), n)
        g = n.geometry
        if isinstance(g, Sphere):
            d = g.radius - np.linalg.norm(q)
        elif isinstance(g, Box):
            d = min(s / 2 - abs(x) for s, x in zip(g._size, q))
        else:
            d = min(g.length / 2 - abs(q[2]), g.radius - np.hypot(q[0], q[1]))
        if abs(d) < 1e-7:
            return None
        if d > 0 and n.depth > depth:
            best, depth = n, n.depth
    return best


def check_clock(ctx, sc, h):
    ctx.check("clocks start at zero", h[0][0].travelled == 0 and h[0][0].duration == 0)
    for (a, ea, _), (b, eb, m) in zip(h, h[1:]):
        p, q, d = np.array(a.position), np.array(b.position), np.array(a.direction)
        step = float(np.linalg.norm(q - p))
        ctx.check("directions are unit vectors", abs(np.linalg.norm(b.direction) - 1) < 1e-9)
        ctx.check("travels along its direction", step < 1e-9 or np.allclose(q, p + d * step, atol=1e-7))
        ctx.check("the path adds up", abs(b.travelled - a.travelled - step) < 1e-7)
        if eb.name in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT", "KILL"):
            ctx.check("outcomes happen where the ray is", step < 1e-9)
        if eb.name != "EMIT":
            ctx.check("the wavelength changes only by emission", b.wavelength == a.wavelength)
        dt = b.duration - a.duration
        ctx.check("time never runs backwards", dt >= -1e-18)
        if eb.name in ("ABSORB", "TRANSMIT", "REFLECT", "EXIT"):
            mid = medium_at(sc, (p + q) / 2) if step > 1e-4 else None
            if mid is not None:
                ctx.check("time is path times index over c", abs(dt - step * mid.geometry.material.refractive_index / C) < 1e-15 + 1e-9 * dt)
        elif eb.name == "EMIT" or eb.name in ("SCATTER", "NONRADIATIVE"):
            c = component_of(sc, m["component"])
            if c is not None:
                tau = c.tau_nr if eb.name == "NONRADIATIVE" else c.tau_rad
                ctx.check("no delay without a lifetime", bool(tau) or dt == 0.0)
        elif eb.name in ("REACT", "KILL"):
            ctx.check("no delay", dt == 0.0)


def check_places(ctx, sc, h):
    for (a, ea, _), (b, eb, m) in zip(h, h[1:]):
        p, q = np.array(a.position), np.array(b.position)
        if eb.name == "KILL" or np.linalg.norm(q - p) < 1e-4:
            continue
        mid = medium_at(sc, (p + q) / 2)
        if mid is not None and m is not None and m.get("container") is not None:
            ctx.check("the container is the innermost node around the ray", m["container"] == mid.name)
        d = np.array(a.direction)
        ts = [abs(float(np.dot(np.array(n_q) - p, d))) for n_q in ()]
        near = None
        for n in sc.nodes:
            o = sc.scene.root.point_to_node(tuple(p), n)
            v = sc.scene.root.vector_to_node(tuple(d), n)
            for pt in n.geometry.intersections(tuple(o), tuple(v)):
                t = float(np.linalg.norm(np.array(pt) - np.array(o)))
                if t > 1e-6 and (near is None or t < near[0]):
                    near = (t, n)
        if eb.name in ("TRANSMIT", "REFLECT", "EXIT"):
            hit = sc.by.get(m["hit"])
            ctx.check("the surface hit is a node's", hit is not None)
            if hit is None:
                continue
            loc = sc.scene.root.point_to_node(tuple(q), hit)
            g = hit.geometry
            if isinstance(g, Sphere):
                off = abs(np.linalg.norm(loc) - g.radius)
            elif isinstance(g, Box):
                off = abs(max(abs(x) - s / 2 for s, x in zip(g._size, loc)))
            else:
                off = abs(max(abs(loc[2]) - g.length / 2, np.hypot(loc[0], loc[1]) - g.radius))
            ctx.check("the event lies on the surface hit", off < 1e-6)
            if near is not None:
                ctx.check("it is the nearest surface", abs(near[0] - np.linalg.norm(q - p)) < 1e-6)
            if eb.name == "EXIT":
                ctx.check("leaves through the world's surface", hit is sc.world)
            elif mid is not None:
                after = q + 1e-4 * d
                out = medium_at(sc, after)
                if out is not None and out is not mid:
                    ctx.check("the adjacent node is what lies beyond", m["adjacent"] == out.name)
        elif near is not None:
            ctx.check("absorbed before the next surface", np.linalg.norm(q - p) <= near[0] + 1e-6)


def check_surfaces(ctx, sc, h):
    for (a, ea, _), (b, eb, m) in zip(h, h[1:]):
        if eb.name not in ("TRANSMIT", "REFLECT"):
            continue
        d, o, n = np.array(a.direction), np.array(b.direction), np.array(m["normal"])
        hit = sc.by[m["hit"]]
        n1, n2 = sc.by[m["container"]].geometry.material.refractive_index, sc.by[m["adjacent"]].geometry.material.refractive_index
        fres = isinstance(hit.geometry.material.surface.delegate, FresnelSurfaceDelegate)
        ctx.check("the normal is a unit vector", abs(np.linalg.norm(n) - 1) < 1e-9)
        c = abs(float(np.dot(d, n)))
        s = np.sqrt(max(0.0, 1 - c * c))
        if eb.name == "REFLECT":
            ctx.check("reflects as a mirror", np.allclose(o, d - 2 * np.dot(d, n) * n, atol=1e-7))
            ctx.check("no reflection where nothing changes", fres and (n1 != n2 or not sc.engine))   # the executed tracer is also given draws of exactly 0
        elif not fres or n1 == n2:
            ctx.check("goes straight on", np.allclose(o, d, atol=1e-7))
        else:
            ctx.check("not beyond the critical angle", n1 * s <= n2 * (1 + 1e-9))
            so = np.sqrt(max(0.0, 1 - float(np.dot(o, n)) ** 2))
            ctx.check("Snell's law", abs(n1 * s - n2 * so) < 1e-6)
            ctx.check("stays on its side", np.dot(o, n) * np.dot(d, n) >= -1e-9)
            ctx.check("in the plane of incidence", abs(np.dot(np.cross(d, n), o)) < 1e-6)


def check_components(ctx, sc, h, method):
    """absorbed by a component of the medium that absorbs there; emitted within its spectrum"""
    for i, (ray, e, m) in enumerate(h):
        if e.name != "ABSORB":
            continue
        node = sc.by[m["container"]]
        names = [c.name for c in node.geometry.material.components]
        ctx.check("absorbed by a component of the medium", m["component"] in names)
        c = component_of(sc, m["component"])
        if c is not None:
            ctx.check("which absorbs this wavelength", c.coefficient(ray.wavelength) > 0)
        out, e2, _ = h[i + 1] if i + 1 < len(h) else (None, None, None)
        if e2 is not None and e2.name == "EMIT" and c is not None and isinstance(c, Luminophore):
            x = c._ems_dist._x
            ctx.check("emitted within the spectrum", x[0] - 1e-9 <= out.wavelength <= x[-1] + 1e-9)
            if method == "redshift":
                ctx.check("never bluer than absorbed", out.wavelength >= min(ray.wavelength, x[-1]) - 1e-6)
            if isinstance(c.phase_function, Cone):
                pass
            ctx.check("the source is the component", out.source == c.name)


def draw(ctx):
    return ctx.int("scene", lo=0, hi=10 ** 6)


def engine_run(ctx, rays=6, record_every=1):
    use_current_kernel()
    from pvtrace.engine import api
    number = draw(ctx)
    sc = build(number)
    r = sc.r
    np.random.seed(number % (2 ** 32))
    random.seed(number)
    kw = dict(seed=r.randint(0, 2 ** 31), workers=r.choice([1, 2, 3]), maxsteps=r.choice([0, 1, 5, 100, 100, 100]), max_events=r.choice([2, 3, 8, 128, 128, 128, 128, 128]),
              emit_method=r.choice(["kT", "redshift", "full"]), record_every=record_every)
    sc.kw = kw
    sc.engine = True
    sc.result = api.simulate(sc.scene, rays, **kw)
    sc.histories = list(sc.result.histories())
    return sc


def tracer_run(ctx, rays=2):
    number = draw(ctx)
    sc = build(number, with_recorders=False)
    np.random.seed(number % (2 ** 32))
    random.seed(number)
    sc.kw = dict(maxsteps=sc.r.choice([0, 1, 5, 40, 40]), emit_method=sc.r.choice(["kT", "redshift", "full"]))
    sc.engine = False
    sc.histories = [list(photon_tracer.step_forward(sc.scene, ray, **sc.kw)) for ray in sc.scene.emit(rays)]
    return sc
