"""C07 the next surface and the media on both sides are identified correctly."""
from vf.api import harness, meta
from props.common import *
from props import ktrace, nodes
from props.kern import P
from props.ktrace import Sim, K as KN
import itertools

PERMS = list(itertools.permutations(range(3)))


@harness("C07", ktrace.FNS, params=[(w, i) for w in ktrace.CASES + ["world>A>B"] for i in PERMS], bound="scenes of three nodes in any order, every nesting of two",
         assumes=["the contracts of the kernel functions called by trace_one"], conc=25)
def kernel_media(ctx, param):
    """hit, container, adjacent and distance in the compiled loop"""
    where, ids = param
    sim = Sim(ctx, comps=("absorber",), places=[where], ids=(ids,), taus=False, rots=ids == (0, 1, 2)).run_any()
    for e in sim.ev:
        k = sim.kind(e)
        nm = lambda i: sim.name.get(i)
        if k in ("REFLECT", "TRANSMIT", "EXIT"):
            ctx.check("hit", nm(e.hit) == ktrace.HIT[where])
            ctx.check("container", nm(e.container) == ktrace.MEDIUM[where])
            ctx.check("adjacent", nm(e.adjacent) == ktrace.ADJ[where])
            ctx.check("distance", ctx.eq(e.travelled - sim.pre.travelled, e.plan.dist, 1e-6))
            ctx.check("exit exactly at the root", (k == "EXIT") == (where == "world"))
        elif k in ("ABSORB", "EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            ctx.check("absorbed in the medium", nm(e.container) == ktrace.MEDIUM[where])
            ctx.check("no surface named in the volume", e.hit == -1 and e.adjacent == -1)
        ctx.cover(k)
    if not sim.ev:
        ctx.check("silent only when nothing lies ahead", where == "nothing" and sim.post is None)
        ctx.cover("silent")
    if where == "nothing":
        ctx.check("nothing reported when nothing lies ahead", all(sim.kind(e) == "KILL" for e in sim.ev))


@harness(["C07", "C14"], [P + "trace_one"], params=nodes.PHASES, assumes=["intersect_node reports up to four crossings per node (C05)", "no more than MAX_HITS crossings in all"], conc=150,
         note="any number of nodes: each loop over nodes or hits by its invariant")
def kernel_any_nodes(ctx, phase):
    """hit, container, adjacent, distance and index in the compiled loop, for any number of nodes"""
    a = nodes.Any(ctx, phase).run()
    if phase == "end" or not ctx.sym:
        a.check_end()


# ------------------------------------------------------------- the Python tracer

import numpy as np
from pvtrace.scene.scene import Scene
from pvtrace.scene.node import Node
from pvtrace.light.ray import Ray
from pvtrace.algorithm import photon_tracer as pt
from pvtrace.geometry.intersection import Intersection
from props.tracer import Shape, PERM, Obj
from pvtrace.material.material import Material

T = "pvtrace.algorithm.photon_tracer."
N = "pvtrace.scene.node.Node."


class Times(Shape):
    """a shape whose surface the ray's line crosses at given (signed) distances"""

    def __init__(self, ctx):
        super().__init__(Material(1.0))
        self.ctx, self.t, self.asked = ctx, [], []

    def intersections(self, o, d):
        self.asked.append((tuple(o), tuple(d)))
        return tuple(tuple(a + t * b for a, b in zip(o, d)) for t in self.t)


# forward crossings in order of distance; second entry: nodes also crossed behind the ray
PY = {"nothing": ([], "WAB"), "world": (["W"], "W"), "world>A": (["A", "A", "W"], "W"), "A": (["A", "W"], "AW"), "A>B": (["B", "B", "A", "W"], "AW"),
      "B": (["B", "A", "W"], "BAW"), "A|B": (["A", "B", "B", "W"], "AW"), "world>A>B": (["A", "B", "B", "A", "W"], "W"), "world past A": (["W"], "WA2")}
PLACE_PARAMS = [(w, on) for w in PY for on in (False, True) if w not in ("nothing",) or not on]


def scene_at(ctx, where, on):
    """World > A > B (or A and B side by side), the ray at `where`; on: standing on the surface it just crossed"""
    fwd, back = PY[where]
    g = {k: Times(ctx) for k in "WAB"}
    W = Node(name="W", geometry=g["W"])
    swap = ctx.flag("B first")
    side = where == "A|B"
    if side and swap:
        B = Node(name="B", parent=W, geometry=g["B"])
        A = Node(name="A", parent=W, geometry=g["A"])
    else:
        A = Node(name="A", parent=W, geometry=g["A"])
        B = Node(name="B", parent=W if side else A, geometry=g["B"])
    A.pose = PERM
    A.location = ctx.vec("loc")
    B.location = ctx.vec("locb") if side else (0.0, 0.0, 0.0)
    node = {"W": W, "A": A, "B": B}
    ts, t = [], 0.0
    for k in fwd:
        s = ctx.pos("step", lo=1e-5, hi=10)
        ctx.assume(s > 1e-6)
        t = t + s
        ts.append((k, t))
        g[k].t.append(t)
    behind = []
    for i, k in enumerate(c for c in back if c in "WAB"):
        s = ctx.pos("back", lo=1e-5, hi=10)
        ctx.assume(s > 1e-6)
        behind.append(0.0 - s)
        if on and i == 0:
            g[k].t.append(0.0)
        else:
            g[k].t.append(0.0 - s)
        if "2" in back and k == "A":
            g[k].t.append(0.0 - 2 * s)
    if ctx.flag("unsorted"):
        for k in g:
            g[k].t.reverse()
    ctx.hint(*[t for k, t in ts])
    ctx.hint(*[0.0 - b for b in behind])
    ctx.hint(*[-2 * b for b in behind])
    ray = Ray(position=ctx.vec("pos"), direction=ctx.unit("dir"), wavelength=500.0)
    return Scene(W), node, ts, ray, g


@harness("C07", [T + "next_hit", T + "find_container", "pvtrace.scene.scene.Scene.intersections", N + "intersections",
                 "pvtrace.geometry.intersection.Intersection.to", "pvtrace.geometry.utils.intersection_point_is_ahead", "pvtrace.geometry.utils.distance_between"],
         params=PLACE_PARAMS, bound="scenes of three nodes, every nesting of two", assumes=["a shape's intersections are the crossings of the ray's line (C05)"], conc=60)
def media(ctx, param):
    where, on = param
    scene, node, ts, ray, g = scene_at(ctx, where, on)
    got = pt.next_hit(scene, ray)
    if not ts:
        ctx.check("nothing reported when nothing lies ahead", got is None)
        ctx.cover("nothing")
        return
    ctx.check("something is reported", got is not None)
    hit, (container, adjacent), point, dist = got
    H, M, A = ktrace.HIT, ktrace.MEDIUM, ktrace.ADJ
    w = "world" if where == "world past A" else where
    ctx.check("hit", hit is node[H[w]])
    ctx.check("container", container is node[M[w]])
    ctx.check("adjacent", adjacent is (node[A[w]] if A[w] else None))
    ctx.check("distance", ctx.eq(dist, ts[0][1], 1e-6))
    for i in range(3):
        ctx.check("point", ctx.eq(point[i], ray.position[i] + ts[0][1] * ray.direction[i], 1e-6))
    ctx.cover("hit")


@harness("C07", ["pvtrace.scene.scene.Scene.intersections", N + "intersections", "pvtrace.geometry.intersection.Intersection.to"],
         params=PLACE_PARAMS, bound="scenes of three nodes, every nesting of two", assumes=["a shape's intersections are the crossings of the ray's line (C05)"], conc=60)
def crossings(ctx, param):
    """the scene reports exactly the forward crossings of its shapes, nearest first"""
    where, on = param
    scene, node, ts, ray, g = scene_at(ctx, where, on)
    got = scene.intersections(ray.position, ray.direction)
    ctx.check("as many as there are", len(got) == len(ts))
    for x, (k, t) in zip(got, ts):
        ctx.check("in order of distance", x.hit is node[k])
        ctx.check("in the root's frame", x.coordsys is node["W"])
        ctx.check("distance along the ray", ctx.eq(x.distance, t, 1e-6))
        for i in range(3):
            ctx.check("on the ray", ctx.eq(x.point[i], ray.position[i] + t * ray.direction[i], 1e-6))
    for k in "WAB":
        ctx.check("every shape asked once", len(g[k].asked) == 1)
    ctx.cover("done")


@harness("C07", ["pvtrace.geometry.utils.intersection_point_is_ahead", "pvtrace.geometry.utils.distance_between", "pvtrace.geometry.intersection.Intersection.to"])
def ahead(ctx):
    """a point of the ray's line is ahead exactly when its distance along the ray is positive (beyond 2.2e-13... the tolerance)"""
    from pvtrace.geometry.utils import intersection_point_is_ahead, distance_between, EPS_ZERO
    o, d = ctx.vec("o"), ctx.unit("d")
    t = ctx.real("t", lo=-20, hi=20, special=(0,))
    ctx.away(t, 0.0)
    ctx.assume(ctx.or_(t <= 0, t > 1e-9))
    p = tuple(a + t * b for a, b in zip(o, d))
    ctx.check("ahead exactly when at a positive distance", ctx.iff(bool(intersection_point_is_ahead(o, d, p)), t > 0))
    ctx.hint(t, 0.0 - t)
    ctx.check("distance", ctx.eq(distance_between(o, p), ctx.ite(t > 0, t, 0.0 - t), 1e-6))
    ctx.cover("done")


def growth(n):
    """every way n crossings can belong to nodes (up to naming)"""
    out = [()]
    for _ in range(n):
        out = [w + (k,) for w in out for k in range(max(w, default=-1) + 2)]
    return out


@harness("C07", [T + "next_hit", T + "find_container"], params=list(range(6)), bound="up to six forward crossings, of any nodes",
         assumes=["Scene.intersections (C07 crossings)"], conc=60)
def any_pattern(ctx, n):
    """next_hit for every pattern of crossings that a root around everything allows"""
    word = ctx.choose("word", growth(n))
    root = Node(name="root", geometry=Times(ctx))
    nodes_ = [Node(name=f"n{i}", parent=root) for i in range(max(word, default=-1) + 1)]
    owners = [nodes_[k] for k in word] + [root]
    o, d = ctx.vec("o"), ctx.unit("d")
    on = ctx.flag("standing on a surface")
    here = ctx.choose("whose", nodes_ + [root]) if on else None
    xs, t = [], 0.0
    at = lambda q, nd: Intersection(coordsys=root, point=tuple(a + q * b for a, b in zip(o, d)), hit=nd, distance=q)
    if on:
        xs.append(at(0.0, here))
    for nd in owners:
        s = ctx.pos("step", lo=1e-4, hi=10)
        ctx.assume(s > 1e-6)
        t = t + s
        xs.append(at(t, nd))
    t0 = xs[1 if on else 0].distance
    ctx.hint(*[x.distance for x in xs])
    scene = Scene(root)
    ctx.stub(scene, "intersections", lambda p, q: list(xs))
    got = pt.next_hit(scene, Ray(position=o, direction=d, wavelength=500.0))
    ctx.check("something is reported", got is not None)
    hit, (container, adjacent), point, dist = got
    ctx.check("hit", hit is owners[0])
    ctx.check("distance", ctx.eq(dist, t0, 1e-6))
    ctx.check("point", ctx.eq(tuple(point), tuple(a + t0 * b for a, b in zip(o, d)), 1e-6))
    once = [x for x in owners if owners.count(x) == 1]
    if n == 0:
        ctx.check("the root alone", container is root and adjacent is None)
    else:
        ctx.check("container", container is once[0])
        ctx.check("adjacent", adjacent is (owners[0] if once[0] is not owners[0] else once[1]))
    ctx.cover("hit")


class Sub(Node):
    """a subtree known only by the contract of Node.intersections"""

    def __init__(self, ctx, **k):
        super().__init__(**k)
        self.ctx, self.asked = ctx, []

    def intersections(self, o, d):
        self.asked.append((tuple(o), tuple(d)))
        self.out = tuple(Intersection(coordsys=self, point=self.ctx.vec("sp"), hit=self, distance=self.ctx.pos("sd")) for _ in range(self.k))
        return self.out


@harness("C07", [N + "intersections"], params=[0, 1, 2], bound=None, note="structural induction over the tree; subtrees report 0 to 2 crossings, nodes have at most two children")
def subtree(ctx, nchild):
    """a node reports its own crossings and those of every subtree, asked in the child's frame"""
    g = Times(ctx)
    own = [ctx.pos("t", lo=0.01, hi=9) for _ in range(ctx.choose("own", [0, 1, 2]))]
    g.t = own
    W = Node(name="W", geometry=g if ctx.flag("has geometry") else None)
    kids = []
    for i in range(nchild):
        c = Sub(ctx, name=f"c{i}", parent=W)
        c.k = ctx.choose("crossings", [0, 1, 2])
        c.pose = PERM
        c.location = ctx.vec("loc")
        kids.append(c)
    o, d = ctx.vec("o"), ctx.unit("d")
    ctx.hint(*own)
    got = W.intersections(o, d)
    n = len(own) if W.geometry is not None else 0
    ctx.check("own crossings and those of the children", len(got) == n + sum(c.k for c in kids))
    mine = [x for x in got if x.hit is W]
    ctx.check("own crossings", len(mine) == n and all(x.coordsys is W for x in mine))
    for x, t in zip(mine, own):
        ctx.check("own distance", ctx.eq(x.distance, t, 1e-6))
        for i in range(3):
            ctx.check("own point", ctx.eq(x.point[i], o[i] + t * d[i], 1e-6))
    for c in kids:
        ctx.check("each child asked once", len(c.asked) == 1)
        ctx.check("the child's crossings unchanged", all(any(x is y for y in got) for x in c.out))
        q = sub(o, c.location)
        co, cd = c.asked[0]
        # PERM maps (x,y,z) to (z,x,y); its inverse to (y,z,x)
        ctx.check("asked in the child's frame", ctx.and_(ctx.eq(tuple(co), (q[1], q[2], q[0]), 1e-6), ctx.eq(tuple(cd), (d[1], d[2], d[0]), 1e-6)))
    ctx.cover("done")

import props.whole  # noqa: E402 executed contracts over whole histories
