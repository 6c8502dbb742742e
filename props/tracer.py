"""A specification scene for the tracing loop.

Real Scene/Node/Material/Surface/components/Ray; what is replaced are the
callees with contracts of their own: the shapes (C05, C06) and the scene-level
intersection list (C07).  In every iteration the ray is in an arbitrary medium
with arbitrary surfaces ahead.
"""
import numpy as np
from pvtrace.scene.scene import Scene
from pvtrace.scene.node import Node
from pvtrace.geometry.geometry import Geometry
from pvtrace.geometry.intersection import Intersection
from pvtrace.material.material import Material
from pvtrace.material.surface import Surface, SurfaceDelegate
from pvtrace.material.component import Scatterer, Absorber, Reactor, Luminophore
from pvtrace.light.ray import Ray
from pvtrace.light.event import Event
from pvtrace.algorithm import photon_tracer
from props.common import *

C_CM = 299792458.0 * 100.0
# an exact rotation (cyclic permutation of the axes)
PERM = np.array([[0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]])


class Shape(Geometry):
    def __init__(self, material, normal=(0.0, 0.0, 1.0)):
        self._material = material
        self.n = normal

    @property
    def material(self):
        return self._material

    def is_on_surface(self, p):
        return True

    def contains(self, p):
        return False

    def intersections(self, o, d):
        return ()

    def normal(self, p):
        return self.n

    def is_entering(self, p, d):
        return dot(self.n, d) < 0


class AnySurface(SurfaceDelegate):
    """reflectivity and directions unconstrained except by their contracts"""

    def __init__(self, ctx, log):
        self.ctx, self.log = ctx, log

    def reflectivity(self, surface, ray, geometry, container, adjacent):
        r = self.ctx.real("R", lo=0, hi=1)
        self.log.append(("reflectivity", ray, geometry, container, adjacent, r))
        return r

    def reflected_direction(self, surface, ray, geometry, container, adjacent):
        d = self.ctx.vec("rd")
        self.log.append(("reflect", ray, geometry, container, adjacent, d))
        return d

    def transmitted_direction(self, surface, ray, geometry, container, adjacent):
        d = self.ctx.vec("td")
        self.log.append(("transmit", ray, geometry, container, adjacent, d))
        return d


class SpecScene(Scene):
    """World > A > B with arbitrary (nested) intersections in every iteration"""

    def __init__(self, ctx, root, a, b, places, log):
        super().__init__(root)
        self.ctx, self.a, self.b, self.places, self.log = ctx, a, b, places, log
        self.calls = 0

    def intersections(self, origin, direction):
        ctx = self.ctx
        where = ctx.choose("where", self.places)
        self.calls += 1
        W, A, B = self.root, self.a, self.b
        order = {"nothing": [], "world": [W], "world>A": [A, A, W], "A": [A, W], "A>B": [B, B, A, W], "B": [B, A, W],
                 "surface A": [("on", A), A, W]}[where]
        out, t = [], 0.0
        for k in order:
            if isinstance(k, tuple):
                k, step = k[1], 0.0
            else:
                step = ctx.pos("step", lo=1e-5, hi=10)
                ctx.assume(step > 1e-6)
            t = t + step
            p = tuple(o + t * d for o, d in zip(origin, direction))
            out.append(Intersection(coordsys=W, point=p, hit=k, distance=t))
        self.log.append(("intersections", where, out, origin, direction))
        return tuple(out)


MEDIUM = {"world": "world", "world>A": "world", "A": "A", "A>B": "A", "B": "B", "surface A": "A"}
HIT = {"world": "world", "world>A": "A", "A": "A", "A>B": "B", "B": "B", "surface A": "A"}
ADJ = {"world": None, "world>A": "A", "A": "world", "A>B": "B", "B": "A", "surface A": "world"}


def component(ctx, kind, coefficient, lifetimes=True):
    t1 = ctx.choose("tau_rad", [None, "some"]) if lifetimes else None
    t2 = ctx.choose("tau_nr", [None, "some"]) if lifetimes else None
    t1 = t1 and ctx.pos("tau_rad", lo=1e-10, hi=1e-7)
    t2 = t2 and ctx.pos("tau_nr", lo=1e-10, hi=1e-7)
    qy = ctx.real("qy", lo=0, hi=1)
    if kind == "scatterer":
        c = Scatterer(coefficient, quantum_yield=qy, tau_rad=t1, tau_nr=t2, name="comp", phase_function=lambda: np.array([0.0, 0.6, 0.8]))
    elif kind == "absorber":
        c = Absorber(coefficient, tau_nr=t2, name="comp")
    elif kind == "reactor":
        c = Reactor(coefficient, name="comp")
        t2 = None
    else:
        ems = np.column_stack(([400.0, 500.0, 700.0], [0.0, 1.0, 0.5]))
        c = Luminophore(coefficient, emission=ems, quantum_yield=qy, tau_rad=t1, tau_nr=t2, name="comp", phase_function=lambda: np.array([0.0, 0.6, 0.8]))
    return c, t1, t2


def build(ctx, kind, places, lifetimes=True):
    """-> scene, log, info"""
    log = []
    nm = {}
    n = {k: ctx.pos("n_" + k, lo=1, hi=3) for k in ("world", "A", "B")}
    comp = {}
    taus = {}
    if kind:
        alpha = ctx.pos("alpha", lo=0.1, hi=5)
        ctx.assume(alpha > 1e-6)
        comp["A"], *taus["A"] = component(ctx, kind, alpha, lifetimes)
        comp["A"].name = "comp A"
    dele = AnySurface(ctx, log)

    def mat(k):
        return Material(n[k], surface=Surface(dele), components=[comp[k]] if k in comp else [])
    W = Node(name="world", geometry=Shape(mat("world")))
    A = Node(name="A", parent=W, geometry=Shape(mat("A"), (1.0, 0.0, 0.0)))
    B = Node(name="B", parent=A, geometry=Shape(mat("B"), (0.0, 1.0, 0.0)))
    A.pose = PERM
    A.location = ctx.vec("loc")
    B.pose = PERM
    return SpecScene(ctx, W, A, B, places, log), log, Obj(n=n, comp=comp, taus=taus)


def ray0(ctx):
    return Ray(position=ctx.vec("pos"), direction=ctx.unit("dir"), wavelength=ctx.real("nm", lo=450, hi=650),
               travelled=ctx.real("travelled", lo=0, hi=50), duration=ctx.real("duration", lo=0, hi=1e-7), source="lamp")


def trace(ctx, scene, ray, iterations, **k):
    """events of the first `iterations` iterations"""
    ev = []
    for item in photon_tracer.step_forward(scene, ray, **k):
        ev.append(item)
        if scene.calls >= iterations and ev[-1][1] not in (Event.ABSORB,):
            break
    return ev
