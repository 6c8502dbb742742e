"""C08 coordinate frames are rigid, invertible and compose."""
import math

import numpy as np

from vf.api import harness, meta
from .common import dot, sub

from pvtrace.scene.node import Node
from pvtrace.light.ray import Ray
from pvtrace.geometry.intersection import Intersection

F = "pvtrace.scene.node.Node."
T = "pvtrace.geometry.transformable.Transformable."
M = "pvtrace.geometry.transformations."


def rot(q):
    """the rotation matrix of a unit quaternion"""
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def mat(R, t):
    return np.array([list(R[i]) + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])


def apply(R, t, p):
    return tuple(dot(R[i], p) + t[i] for i in range(3))


def applyT(R, t, p):
    d = sub(p, t)
    return tuple(dot([R[k][i] for k in range(3)], d) for i in range(3))


def tree(shape):
    """shape: parent index per node (None for the root)"""
    ns = []
    for i, p in enumerate(shape):
        ns.append(Node(name=f"n{i}", parent=None if p is None else ns[p]))
    return ns


def spec_pose(ctx, i, kind):
    if kind == "t":
        return [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], ctx.vec(f"t{i}_")
    return rot(ctx.quat(f"r{i}_")), ctx.vec(f"t{i}_")


def mk(ctx, R, t):
    import vf.shim as shim
    return shim.n_array(mat(R, t).tolist()) if False else shim_mat(ctx, R, t)


def shim_mat(ctx, R, t):
    rows = [list(R[i]) + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
    if ctx.sym:
        from vf import shim
        return shim.n_array(rows)
    return np.array(rows, dtype=float)


# chains of at most two generic rotations (others translate): composition over
# longer paths is checked structurally in 'paths'
CASES = [("parent", [None, 0], ["r"], 1, 0), ("sibling", [None, 0, 0], ["r", "r"], 1, 2),
         ("grandparent", [None, 0, 1], ["r", "r"], 2, 0),
         ("cousins", [None, 0, 0, 1, 2], ["r", "t", "t", "r"], 3, 4)]


@harness("C08", functions=[F + "point_to_node", F + "vector_to_node", F + "transformation_to", T + "pose"],
         params=[c[0] for c in CASES])
def convert(ctx, case):
    """conversions equal the composition of the poses; round trips; isometry"""
    _, shape, kinds, a, b = next(c for c in CASES if c[0] == case)
    ns = tree(shape)
    P = {}
    for i in range(1, len(shape)):
        P[i] = spec_pose(ctx, i, kinds[i - 1])
        ns[i].pose = shim_mat(ctx, *P[i])
    A, B = ns[a], ns[b]

    def up(i, p, vec=False):
        while shape[i] is not None:
            R, t = P[i]
            p = apply(R, (0.0, 0.0, 0.0) if vec else t, p)
            i = shape[i]
        return p

    def down(i, p, vec=False):
        path = []
        while shape[i] is not None:
            path.append(i)
            i = shape[i]
        for k in reversed(path):
            R, t = P[k]
            p = applyT(R, (0.0, 0.0, 0.0) if vec else t, p)
        return p
    p = ctx.vec("p")
    v = ctx.vec("v")
    got = A.point_to_node(p, B)
    gotv = A.vector_to_node(v, B)
    ctx.check("point up through the poses", ctx.eq(got, down(b, up(a, p))))
    ctx.check("vector up through the rotations only", ctx.eq(gotv, down(b, up(a, v, True), True)))
    ctx.check("length kept", ctx.eq(dot(gotv, gotv), dot(v, v)))
    back = B.point_to_node(got, A)
    backv = B.vector_to_node(gotv, A)
    ctx.check("point round trip", ctx.eq(back, p))
    ctx.check("vector round trip", ctx.eq(backv, v))
    ctx.check("three coordinates", len(got) == 3 and len(gotv) == 3)
    ctx.check("own frame", ctx.and_(ctx.eq(A.point_to_node(p, A), p), ctx.eq(A.vector_to_node(v, A), v)))
    ctx.cover("done")


@harness("C08", functions=[F + "point_to_node", F + "vector_to_node"])
def isometry(ctx):
    ns = tree([None, 0])
    ns[1].pose = shim_mat(ctx, *spec_pose(ctx, 1, "r"))
    for nm, A, B in (("up", ns[1], ns[0]), ("down", ns[0], ns[1])):
        p, q, v, w = (ctx.vec(k + nm) for k in "pqvw")
        P, Q, V, W = A.point_to_node(p, B), A.point_to_node(q, B), A.vector_to_node(v, B), A.vector_to_node(w, B)
        ctx.check(nm + " distance kept", ctx.eq(dot(sub(P, Q), sub(P, Q)), dot(sub(p, q), sub(p, q))))
        ctx.check(nm + " angle kept", ctx.eq(dot(V, W), dot(v, w)))
        ctx.check(nm + " directions are differences of points",
                  ctx.eq(sub(A.point_to_node(tuple(x + y for x, y in zip(p, v)), B), P), V))


# ---- structural composition over arbitrary trees: poses as free group words

class Word:
    """an opaque invertible transform: a reduced word in the free group"""
    shape = (4, 4)
    ndim = 2

    def __init__(self, w):
        self.w = tuple(w)

    def inv(self):
        return Word(tuple((n, -s) for n, s in reversed(self.w)))

    def dot(self, o):
        w = list(self.w)
        for x in o.w:
            if w and w[-1] == (x[0], -x[1]):
                w.pop()
            else:
                w.append(x)
        return Word(w)
    __matmul__ = dot


def shapes(n):
    """all rooted trees given as parent vectors p[i] < i"""
    def rec(p):
        if len(p) == n:
            yield p
            return
        for k in range(len(p)):
            yield from rec(p + [k])
    yield from rec([None])


@harness("C08", functions=[F + "transformation_to"], params=[2, 3, 4, 5], conc=0,
         assumes=["anytree.Walker (executed)"],
         note="poses as opaque invertible transforms: the result is the same word for every pose; every tree of up to 5 nodes")
def paths(ctx, n):
    """for every tree and pair of nodes the transform is pose(b)^-1 .. pose(a) along the path"""
    if not ctx.sym:
        return
    import pvtrace.scene.node as nm

    class Lin:
        inv = staticmethod(lambda m: m.inv())

        @staticmethod
        def multi_dot(ms):
            r = ms[0]
            for m in ms[1:]:
                r = r.dot(m)
            return r

    class NPW:
        linalg = Lin
        array = asarray = staticmethod(lambda m, **k: m)
        dot = matmul = staticmethod(lambda a, b: a.dot(b))
        identity = eye = staticmethod(lambda k: Word(()))
    ctx.stub(nm, "np", NPW)
    ok, tot = True, 0
    for shape in shapes(n):
        ns = tree(shape)
        for i, x in enumerate(ns):
            x._pose = Word(((i, 1),))

        def W(i):
            w = Word(())
            while shape[i] is not None:
                w = Word(((i, 1),)).dot(w)
                i = shape[i]
            return w
        for a in range(n):
            for b in range(n):
                tot += 1
                ok = ok and ns[a].transformation_to(ns[b]).w == W(b).inv().dot(W(a)).w
    ctx.check("composition along the path", ok)
    ctx.cover("trees")


# ---- mutation of poses

@harness("C08", functions=[T + "translate", T + "location", T + "pose"], params=["loc", "pose"])
def translate(ctx, how):
    ns = tree([None, 0])
    N = ns[1]
    t = ctx.vec("t")
    R = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    if how == "pose":
        R = rot(ctx.quat("r"))
        N.pose = shim_mat(ctx, R, t)
    else:
        N.location = t
    v = ctx.vec("v")
    p = ctx.vec("p")
    N.translate(v)
    want = tuple(a + b for a, b in zip(t, v))
    ctx.check("origin moved by the vector", ctx.eq(N.point_to_node((0.0, 0.0, 0.0), ns[0]), want))
    ctx.check("location", ctx.eq(tuple(N.location), want))
    ctx.check("orientation kept", ctx.eq(N.point_to_node(p, ns[0]), apply(R, want, p)))
    w = ctx.vec("w")
    N.location = w
    ctx.check("set location", ctx.eq(N.point_to_node((0.0, 0.0, 0.0), ns[0]), w))
    ctx.check("set location keeps orientation", ctx.eq(N.point_to_node(p, ns[0]), apply(R, w, p)))
    ctx.check("location reads back", ctx.eq(tuple(N.location), w))
    N.translate(v)
    ctx.check("translate after set", ctx.eq(N.point_to_node(p, ns[0]), apply(R, tuple(a + b for a, b in zip(w, v)), p)))
    R2, t2 = rot(ctx.quat("r2")), ctx.vec("t2")
    N.pose = shim_mat(ctx, R2, t2)
    ctx.check("set pose", ctx.eq(N.point_to_node(p, ns[0]), apply(R2, t2, p)))
    ctx.check("location follows pose", ctx.eq(tuple(N.location), t2))
    N.translate(v)
    ctx.check("translate after pose", ctx.eq(tuple(N.location), tuple(a + b for a, b in zip(t2, v))))
    ctx.check("translate after pose moves frame", ctx.eq(N.point_to_node(p, ns[0]), apply(R2, tuple(a + b for a, b in zip(t2, v)), p)))


@harness("C08", functions=[T + "__init__", "pvtrace.scene.node.Node.__init__", T + "from_pose", T + "translate"])
def construct(ctx):
    """a location given at construction, from integers or reals"""
    ns = tree([None])
    t = ctx.vec("t")
    N = Node(name="x", parent=ns[0], location=t)
    p = ctx.vec("p")
    ctx.check("initial frame", ctx.eq(N.point_to_node(p, ns[0]), tuple(a + b for a, b in zip(p, t))))
    ctx.check("initial location", ctx.eq(tuple(N.location), t))
    K = Node(name="k", parent=ns[0], location=(1, -2, 3))
    v = ctx.vec("v")
    K.translate(v)
    ctx.check("integer location moves", ctx.eq(K.point_to_node(p, ns[0]), (p[0] + v[0] + 1.0, p[1] + v[1] - 2.0, p[2] + v[2] + 3.0)))
    K.location = (1, 2, 3)
    K.translate(v)
    ctx.check("integer location set then moved", ctx.eq(K.point_to_node(p, ns[0]), (p[0] + v[0] + 1.0, p[1] + v[1] + 2.0, p[2] + v[2] + 3.0)))
    D = Node(name="d", parent=ns[0])
    ctx.check("default at the origin", ctx.eq(D.point_to_node(p, ns[0]), p))
    # two nodes never share a frame
    D.translate(v)
    E = Node(name="e", parent=ns[0])
    ctx.check("fresh frame per node", ctx.eq(E.point_to_node(p, ns[0]), p))
    loc = [1.0, 2.0, 3.0]
    G = Node(name="g", parent=ns[0], location=np.array(loc))
    H = Node(name="h", parent=ns[0], location=G.location)
    H.translate(v)
    ctx.check("location is copied", ctx.eq(tuple(G.location), tuple(loc)))


def rodrigues(c, s, k, x):
    """rotate x about the unit axis k"""
    kx = dot(k, x)
    cr = (k[1] * x[2] - k[2] * x[1], k[2] * x[0] - k[0] * x[2], k[0] * x[1] - k[1] * x[0])
    return tuple(c * x[i] + s * cr[i] + (1 - c) * kx * k[i] for i in range(3))


@harness("C08", functions=[T + "rotate", M + "rotation_matrix", M + "unit_vector"], params=["loc", "pose"], budget=40.0)
def rotate(ctx, how):
    """a rotation by the angle about the axis of the parent frame through the location"""
    ns = tree([None, 0])
    N = ns[1]
    t = ctx.vec("t")
    R = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    if how == "pose":
        R = [ctx.vec(f"r{i}") for i in range(3)]   # any linear part
        N.pose = shim_mat(ctx, R, t)
    else:
        N.location = t
    k = ctx.unit("k")
    L = ctx.pos("L")
    th = ctx.real("th") if ctx.sym else ctx.real("th", -7.0, 7.0)
    N.rotate(th, tuple(L * x for x in k))
    p = ctx.vec("p")
    c, s = ctx.cos(th), ctx.sin(th)
    q = apply(R, (0.0, 0.0, 0.0), p)
    want = tuple(a + b for a, b in zip(rodrigues(c, s, k, q), t))
    ctx.check("rotated about the axis", ctx.eq(N.point_to_node(p, ns[0]), want))
    ctx.check("location kept", ctx.eq(N.point_to_node((0.0, 0.0, 0.0), ns[0]), t))
    ctx.check("location attribute kept", ctx.eq(tuple(N.location), t))
    v = ctx.vec("v")
    N.translate(v)
    ctx.check("translate after rotate", ctx.eq(N.point_to_node(p, ns[0]), tuple(a + b for a, b in zip(want, v))))
    ctx.cover("done")


@harness("C08", functions=[F + "look_at", T + "rotate", M + "rotation_matrix"], budget=40.0)
def look_at(ctx):
    ns = tree([None, 0])
    N = ns[1]
    t = ctx.vec("t")
    N.location = t
    d = ctx.unit("d")
    if ctx.conc and ctx.flag("near z"):
        e = ctx.real("eps", 1e-9, 1e-2, log=True)
        d = (e / math.sqrt(1 + e * e), 0.0, (1.0 if ctx.flag("up") else -1.0) / math.sqrt(1 + e * e))
    L = ctx.pos("L")
    N.look_at(tuple(L * x for x in d))
    got = N.vector_to_node((0.0, 0.0, 1.0), ns[0])
    ctx.check("+z along the direction", ctx.eq(got, d))
    ctx.check("location kept", ctx.eq(N.point_to_node((0.0, 0.0, 0.0), ns[0]), t))
    ctx.cover("done")


@harness("C08", functions=["pvtrace.light.ray.Ray.representation", "pvtrace.geometry.intersection.Intersection.to"])
def carriers(ctx):
    """rays and intersections are converted as points and directions; the rest is kept"""
    ns = tree([None, 0, 0])
    P = spec_pose(ctx, 1, "r")
    ns[1].pose = shim_mat(ctx, *P)
    t2 = ctx.vec("s")
    ns[2].location = t2
    p, d = ctx.vec("p"), ctx.unit("d")
    wl, tr, du = ctx.pos("wl"), ctx.pos("tr"), ctx.pos("du")
    r = Ray(position=p, direction=d, wavelength=wl, travelled=tr, duration=du, source="S")
    for a, b in ((1, 0), (0, 1), (2, 1)):
        q = r.representation(ns[a], ns[b])
        ctx.check(f"position {a}{b}", ctx.eq(q.position, ns[a].point_to_node(p, ns[b])))
        ctx.check(f"direction {a}{b}", ctx.eq(q.direction, ns[a].vector_to_node(d, ns[b])))
        ctx.check(f"rest {a}{b}", ctx.and_(ctx.eq(q.wavelength, wl), ctx.eq(q.travelled, tr), ctx.eq(q.duration, du), q.source == "S"))
        x = Intersection(coordsys=ns[a], point=p, hit=ns[2], distance=tr).to(ns[b])
        ctx.check(f"intersection {a}{b}", ctx.and_(ctx.eq(x.point, ns[a].point_to_node(p, ns[b])), x.coordsys is ns[b], x.hit is ns[2], ctx.eq(x.distance, tr)))


meta("C08", assumptions=["trees of up to five nodes for the composition order (poses opaque); poses rigid (rotation plus translation)",
                         "numpy.linalg.inv returns the exact inverse"])
