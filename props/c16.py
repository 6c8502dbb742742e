"""C16 compiling a scene preserves it or refuses it."""
import random

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from vf.cut import Loop
from props.common import *
from props import kern, real
from props.kern import K
import props.c14  # noqa: bundle (compiled table -> field the kernel reads)
import pvtrace.engine.compiler as cp
from pvtrace.engine.compiler import CompiledScene, UnsupportedSceneError, compile_scene
from pvtrace.engine.recorder import Recorder, Histogram, Heatmap, EVENTS, PROPERTIES
from pvtrace.geometry.box import Box
from pvtrace.geometry.sphere import Sphere
from pvtrace.geometry.cylinder import Cylinder
from pvtrace.geometry.mesh import Mesh
from pvtrace.material.component import Absorber, Scatterer, Luminophore, Reactor
from pvtrace.material.material import Material
from pvtrace.material.surface import Surface, SurfaceDelegate, FresnelSurfaceDelegate, NullSurfaceDelegate
from pvtrace.material.utils import isotropic, lambertian, HenyeyGreenstein, Cone
from pvtrace.scene.node import Node
from pvtrace.scene.scene import Scene
from pvtrace.light.light import Light

M = "pvtrace.engine.compiler."
C = M + "CompiledScene."
meta("C16", assumptions=["names of nodes need not be unique, those of recorders must be (else refused)",
                         "tables of fewer than 2^31 entries", "poses within the compiler's tolerance of a rotation and a translation count as rigid"],
     trusted=["numpy arrays (row and slice assignment, astype), list.extend"])


def shape(ctx, kind, name, mat):
    """a shape with (symbolic) dimensions"""
    p = lambda k: ctx.pos(name + k, lo=0.1, hi=10)
    if kind == "sphere":
        r = p("r")
        return Sphere(radius=r, material=mat), ("sphere", (r,))
    if kind == "cylinder":
        l, r = p("l"), p("r")
        return Cylinder(length=l, radius=r, material=mat), ("cylinder", (l, r))
    size = (p("x"), p("y"), p("z"))
    if ctx.sym:  # the constructor builds a trimesh; the compiler reads the size alone
        b = object.__new__(Box)
        b._size, b._material = size, mat
        b.__dict__["material"] = mat
        if "material" in vars(type(b)) or any("material" in vars(t) for t in type(b).__mro__):
            b._material = mat
        return b, ("box", size)
    return Box(size, material=mat), ("box", size)


GEOM = {"box": lambda: K.GEOM_BOX, "sphere": lambda: K.GEOM_SPHERE, "cylinder": lambda: K.GEOM_CYLINDER}


def spectrum(ctx, n, name):
    xs, ys = table(ctx, n, name)
    if ctx.sym:
        import vf.shim as shim
        return shim.n_array([[a, b] for a, b in zip(xs, ys)]), xs, ys
    return np.column_stack((xs, ys)), xs, ys


def phase(ctx, kind):
    if kind == "hg":
        g = ctx.real("g", lo=-0.99, hi=0.99)
        return HenyeyGreenstein(g), "PHASE_HENYEY_GREENSTEIN", g
    if kind == "cone":
        t = ctx.real("theta", lo=0.01, hi=1.5)
        return Cone(t), "PHASE_CONE", t
    return (None if kind == "default" else isotropic), "PHASE_ISOTROPIC", 0.0


def component(ctx, kind, n_abs, ph="default", taus=(True, True), n_ems=2):
    """-> (component, what it is)"""
    if n_abs == 0:
        c = ctx.choose("coefficient", ["zero", "some"])
        c = 0.0 if c == "zero" else ctx.pos("coef", lo=0.01, hi=10)
        ax, ay = None, [c]
    else:
        c, ax, ay = spectrum(ctx, n_abs, "abs")
    f, tag, par = phase(ctx, ph)
    qy = ctx.real("qy", lo=0, hi=1)
    tr = ctx.pos("tau_rad", lo=1e-10, hi=1e-7) if taus[0] else None
    tn = ctx.pos("tau_nr", lo=1e-10, hi=1e-7) if taus[1] else None
    want = dict(kind=kind, ax=ax, ay=ay, phase=tag, par=par, taus=(tr, tn), ems=None)
    if kind == "scatterer":
        o = Scatterer(c, quantum_yield=qy, tau_rad=tr, tau_nr=tn, phase_function=f, name="scat")
    elif kind == "luminophore":
        e, ex, ey = spectrum(ctx, n_ems, "ems")
        ctx.assume(sum(ey, 0.0) > 1e-6)  # an emission spectrum of zeros is none
        o = Luminophore(c, emission=e, quantum_yield=qy, tau_rad=tr, tau_nr=tn, phase_function=f, name="lumi")
        cdf = list(o._ems_dist._cdf)
        want["ems"] = (ex, cdf)
    elif kind == "absorber":
        o = Absorber(c, tau_nr=tn, name="abso")
        want.update(phase="PHASE_ISOTROPIC", par=0.0, taus=(None, tn))
    else:
        o = Reactor(c, name="reac")
        want.update(phase="PHASE_ISOTROPIC", par=0.0, taus=(None, None))
    want["qy"] = o.quantum_yield
    return o, want


TAG = {"absorber": "COMP_ABSORBER", "scatterer": "COMP_SCATTERER", "luminophore": "COMP_LUMINOPHORE", "reactor": "COMP_REACTOR"}
COLS = ["type", "qy", "tau_rad", "tau_nr", "phase_type", "phase_param", "abs_start", "abs_n", "ems_start", "ems_n"]


def const(n):
    kern.need()
    if not hasattr(K, n):
        raise Unsupported(f"kernel constant {n} is gone")
    return getattr(K, n)


def check_component(ctx, row, want, tab, name):
    """row: the component's entry of every column; tab: the spectra tables, as the kernel reads them"""
    eq = ctx.eq if ctx.sym else (lambda a, b: a == b)
    ctx.check(f"{name}: kind", eq(row["type"], const(TAG[want["kind"]])))
    ctx.check(f"{name}: quantum yield", eq(row["qy"], want["qy"]))
    ctx.check(f"{name}: lifetimes", ctx.and_(*[eq(row[k], 0.0 if t is None else t) for k, t in zip(("tau_rad", "tau_nr"), want["taus"])]))
    ctx.check(f"{name}: phase function", ctx.and_(eq(row["phase_type"], const(want["phase"])), eq(row["phase_param"], want["par"])))
    ys, xs = want["ay"], want["ax"]
    ctx.check(f"{name}: absorption table size", eq(row["abs_n"], len(ys)))
    for j, y in enumerate(ys):
        ctx.check(f"{name}: absorption spectrum in its place", eq(tab["abs_y"](row["abs_start"], j), y))
        if xs is not None:
            ctx.check(f"{name}: absorption wavelengths in their place", eq(tab["abs_x"](row["abs_start"], j), xs[j]))
    if want["ems"]:
        ex, ec = want["ems"]
        ctx.check(f"{name}: emission table size", eq(row["ems_n"], len(ex)))
        for j in range(len(ex)):
            ctx.check(f"{name}: emission spectrum in its place", ctx.and_(eq(tab["ems_x"](row["ems_start"], j), ex[j]), eq(tab["ems_cdf"](row["ems_start"], j), ec[j])))


# ------------------------------------------------------------- pieces, for tables of any length

class Tail(list):
    """a list of symbolic length, the new end of which is kept"""

    def __init__(self, n, *a):
        super().__init__(*a)
        self.n0 = n


def sym_len(x):
    return x.n0 + len(list(x)) if isinstance(x, Tail) else len(x)


def tail_at(ctx, t, start, j):
    for k, v in enumerate(t):
        if bool(ctx.eq(start + j, t.n0 + k)):
            return v
    ctx.check("the table holds the entry", False)
    raise core.Infeasible()


KINDS = [(k, n, "default", t) for k in ("scatterer", "absorber", "reactor", "luminophore") for n in (0, 3) for t in ((True, True), (False, False))] + \
        [(k, 2, p, t) for k in ("scatterer", "luminophore") for p in ("isotropic", "hg", "cone") for t in ((True, False), (False, True))]


@harness("C16", [C + "_compile_component", C + "_compile_distribution", C + "_phase_tag"], params=KINDS, conc=15, budget=30,
         note="tables of any length before it", bound="spectra of up to three entries")
def one_component(ctx, p):
    """a component's row says what it is; its spectra are appended, and only they"""
    kind, n, ph, taus = p
    comp, want = component(ctx, kind, n, ph, taus)
    tabs = {}
    for k in ("abs_x", "abs_y", "ems_x", "ems_cdf"):
        which = k[:3]
        n0 = tabs.setdefault("n " + which, ctx.int("used " + which, lo=0, hi=5) if ctx.conc else ctx.int("used " + which, lo=0))
        tabs[k] = Tail(n0) if ctx.sym else [-1.0] * n0
    if ctx.sym:
        ctx.stub(cp, "len", sym_len)
    node = Obj(name="n", geometry=None)
    cs = object.__new__(CompiledScene)
    row = dict(zip(COLS, cs._compile_component(node, comp, tabs["abs_x"], tabs["abs_y"], tabs["ems_x"], tabs["ems_cdf"])))
    at = (lambda t: (lambda s, j: tail_at(ctx, t, s, j))) if ctx.sym else (lambda t: (lambda s, j: t[int(s) + j]))
    check_component(ctx, row, want, {k: at(tabs[k]) for k in ("abs_x", "abs_y", "ems_x", "ems_cdf")}, kind)
    eq = ctx.eq if ctx.sym else (lambda a, b: a == b)
    ctx.check("its absorption table starts where the last ended", eq(row["abs_start"], tabs["n abs"]))
    new = (lambda k: len(list(tabs[k]))) if ctx.sym else (lambda k: len(tabs[k]) - tabs["n " + k[:3]])
    ctx.check("and ends the tables", new("abs_x") == new("abs_y") == len(want["ay"]))
    if want["ems"]:
        ctx.check("its emission table starts where the last ended", eq(row["ems_start"], tabs["n ems"]))
    ctx.check("and ends the emission tables", new("ems_x") == new("ems_cdf") == (len(want["ems"][0]) if want["ems"] else 0))
    ctx.cover(kind)


class Rows:
    """a table of symbolic height that keeps what is written"""

    def __init__(self):
        self.cells = []

    def __setitem__(self, k, v):
        self.cells.append((k, v))


@harness("C16", [C + "_compile_geometry"], params=["box", "sphere", "cylinder"], conc=40, note="any row of the tables")
def one_shape(ctx, kind):
    """shape and dimensions in the node's own row, where the kernel's intersections read them"""
    g, (kd, dims) = shape(ctx, kind, "s", Material(refractive_index=1.0))
    i = ctx.int("i", lo=0) if ctx.sym else ctx.int("i", lo=0, hi=3)
    cs = object.__new__(CompiledScene)
    cs.geom_type, cs.geom_params = (Rows(), Rows()) if ctx.sym else (np.zeros(4, dtype=np.int32), np.zeros((4, 4)))
    cs._compile_geometry(i, g)
    if not ctx.sym:
        ctx.check("tag", cs.geom_type[i] == GEOM[kind]())
        ctx.check("dimensions", list(cs.geom_params[i][:len(dims)]) == list(dims))
        ctx.check("no other row", not cs.geom_params[[j for j in range(4) if j != i]].any() and not cs.geom_type[[j for j in range(4) if j != i]].any())
        return
    ctx.check("tag", len(cs.geom_type.cells) == 1 and ctx.and_(ctx.eq(cs.geom_type.cells[0][0], i), ctx.eq(cs.geom_type.cells[0][1], GEOM[kind]())))
    got = {}
    for k, v in cs.geom_params.cells:
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported("written in another form")
        ctx.check("no other row", ctx.eq(k[0], i))
        if isinstance(k[1], slice):
            cols = range(4)[k[1]]
            for c, x in zip(cols, list(v)):
                got[c] = x
        else:
            got[k[1]] = v
    ctx.check("dimensions", len(got) >= len(dims) and ctx.and_(*[ctx.eq(got[j], d) for j, d in enumerate(dims)]))
    if kind == "box":
        ctx.cover("box")


def chain(ctx, depth, turn):
    """a chain of nodes with (symbolic) poses; -> root, leaf, the leaf's pose in the root frame"""
    root = node = Node(name="world")
    total = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
    perm = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]
    for k in range(depth):
        loc = ctx.vec(f"loc{k}", lo=-5, hi=5) if not ctx.sym else ctx.vec(f"loc{k}")
        if turn == "any" and k == depth - 1:
            from props.c08 import rot
            R = rot(ctx.quat("q"))
        else:
            R = perm if k % 2 == 0 else [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
        m = [[*R[i], loc[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
        node = Node(name=f"n{k}", parent=node)
        if ctx.sym:
            import vf.shim as shim
            node.pose = shim.n_array(m)
        else:
            node.pose = np.array(m, dtype=float)
        total = [[sum((total[i][x] * m[x][j] for x in range(4)), 0.0) for j in range(4)] for i in range(4)]
    return root, node, total


@harness("C16", [C + "_compile_transform"], params=[(0, "fixed"), (1, "fixed"), (2, "fixed"), (3, "fixed"), (1, "any")], conc=60, budget=60)
def one_transform(ctx, p):
    """the scene's transform to the world and its inverse, in the node's own row"""
    depth, turn = p
    root, leaf, want = chain(ctx, depth, turn)
    i = ctx.int("i", lo=0) if ctx.sym else ctx.int("i", lo=0, hi=3)
    cs = object.__new__(CompiledScene)
    cs.local_to_world, cs.world_to_local = (Rows(), Rows()) if ctx.sym else (np.zeros((4, 4, 4)), np.zeros((4, 4, 4)))
    cs._compile_transform(i, leaf, root)
    if ctx.sym:
        for t in (cs.local_to_world, cs.world_to_local):
            ctx.check("its own row, once", len(t.cells) == 1 and ctx.eq(t.cells[0][0], i))
        l2w, w2l = cs.local_to_world.cells[0][1], cs.world_to_local.cells[0][1]
    else:
        for t in (cs.local_to_world, cs.world_to_local):
            ctx.check("no other row", not t[[j for j in range(4) if j != i]].any())
        l2w, w2l = cs.local_to_world[i], cs.world_to_local[i]
    for a in range(3):
        for b in range(4):
            ctx.check("to the world as in the scene", ctx.eq(l2w[a][b], want[a][b]))
    for a in range(3):
        for b in range(4):
            s = sum((w2l[a][k] * l2w[k][b] for k in range(3)), 0.0) + w2l[a][3] * (1.0 if b == 3 else 0.0)
            ctx.check("mutually inverse", ctx.eq(s, 1.0 if a == b else 0.0))


@harness("C16", [C + "_compile_transform"], params=["scale", "shear", "one axis"], conc=60)
def not_rigid(ctx, how):
    """a pose with scale or shear is refused"""
    root, leaf = Node(name="world"), Node(name="n")
    leaf.parent = root
    s = ctx.real("s", lo=-3, hi=3)
    if how == "shear":
        ctx.assume(ctx.or_(s > 1e-3, s < -1e-3))
        m = [[1.0, s, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]
    else:
        ctx.assume(ctx.or_(s > 1.001, ctx.and_(s < 0.999, s > -0.999), s < -1.001))
        k = s if how == "scale" else 1.0
        m = [[s, 0.0, 0.0, 1.0], [0.0, k, 0.0, 0.0], [0.0, 0.0, k, 0.0], [0.0, 0.0, 0.0, 1.0]]
    if ctx.sym:
        import vf.shim as shim
        leaf.pose = shim.n_array(m)
    else:
        leaf.pose = np.array(m, dtype=float)
    cs = object.__new__(CompiledScene)
    cs.local_to_world, cs.world_to_local = (Rows(), Rows()) if ctx.sym else (np.zeros((2, 4, 4)), np.zeros((2, 4, 4)))
    try:
        cs._compile_transform(0, leaf, root)
        ctx.check("refused", False)
    except UnsupportedSceneError:
        ctx.cover("refused")


# ------------------------------------------------------------- recorders

def hist(ctx, k, prop):
    lo = ctx.real(f"lo{k}", lo=-10, hi=900)
    return Histogram(prop, lo, lo + ctx.pos(f"w{k}", lo=0.1, hi=500), ctx.int(f"bins{k}", lo=1, hi=50))


def make_hist(ctx, k, kind):
    props = sorted(PROPERTIES)
    if kind == 1:
        return hist(ctx, f"{k}a", ctx.choose("prop", props) if ctx.conc else props[k % len(props)])
    h = object.__new__(Heatmap)
    h.a, h.b = hist(ctx, f"{k}a", props[(k + 1) % len(props)]), hist(ctx, f"{k}b", props[(k + 3) % len(props)])
    return h


PROP = ("wavelength", "angle", "duration", "pathlength", "x", "y", "z")
HCOL = ["prop_a", "prop_b", "na", "nb", "lo_a", "hi_a", "lo_b", "hi_b", "offset"]


def check_hist(ctx, row, h):
    """the row says what the histogram is"""
    eq = ctx.eq if ctx.sym else (lambda a, b: a == b)
    a = h.a if isinstance(h, Heatmap) else h
    ctx.check("histogram of its property", eq(row["prop_a"], PROP.index(a.prop)))
    ctx.check("its range and bins", ctx.and_(eq(row["na"], a.bins), eq(row["lo_a"], a.start), eq(row["hi_a"], a.stop)))
    if isinstance(h, Heatmap):
        b = h.b
        ctx.check("second property", eq(row["prop_b"], PROP.index(b.prop)))
        ctx.check("its range and bins", ctx.and_(eq(row["nb"], b.bins), eq(row["lo_b"], b.start), eq(row["hi_b"], b.stop)))
        return a.bins * b.bins
    ctx.check("no second property", ctx.and_(row["prop_b"] < 0, eq(row["nb"], 1)))
    return a.bins


REC_EVENT = {"entering": "REC_ENTERING", "escaping": "REC_ESCAPING", "reflected": "REC_REFLECTED", "lost": "REC_LOST", "reacted": "REC_REACTED", "killed": "REC_KILLED", "exit": "REC_EXIT"}


def check_recorder(ctx, cs, r, i, rec):
    eq = ctx.eq if ctx.sym else (lambda a, b: a == b)
    ctx.check("recorder: its node", eq(cs.rec_node[r], i))
    ctx.check("recorder: its event", eq(cs.rec_event[r], const(REC_EVENT[rec.event])))
    ctx.check("recorder: facet given or not", eq(cs.rec_has_facet[r], 0 if rec.facet is None else 1))
    if rec.facet is not None:
        ctx.check("recorder: facet", ctx.and_(*[eq(cs.rec_facet[r][k], rec.facet[k]) for k in range(3)]))
    ctx.check("recorder: tolerance", eq(cs.rec_atol[r], rec.atol))


def make_recorder(ctx, name, event, kinds, k0):
    f = event in ("entering", "escaping", "reflected", "exit") and ctx.choose("facet", [False, True])
    facet = tuple(ctx.real(f"f{c}", lo=-1, hi=1) for c in "xyz") if f else None
    return Recorder(name, event=event, facet=facet, atol=ctx.pos("atol", lo=1e-9, hi=0.1), histograms=[make_hist(ctx, k0 + j, kd) for j, kd in enumerate(kinds)])


LAYOUTS = [[], [("entering", [])], [("lost", [1])], [("escaping", [2, 1])], [("exit", [1, 1, 2])], [("reflected", [1]), ("killed", [2])], [("reacted", []), ("entering", [2]), ("lost", [1, 1])]]


@harness("C16", [C + "_compile_recorders"], params=range(len(LAYOUTS)), conc=30, budget=60, bound="up to three recorders with up to three histograms")
def recorders(ctx, which):
    """recorders and histograms in their rows; bins of different histograms never overlap and fill the table"""
    layout = LAYOUTS[which]
    nodes = [Node(name=f"n{j}") for j in range(3)]
    for nd in nodes[1:]:
        nd.parent = nodes[0]
    for nd in nodes:
        nd.geometry = Obj()
    recs = []
    k = 0
    for j, (event, kinds) in enumerate(layout):
        at = (j * 2) % 3 if ctx.sym else ctx.choose("node", [0, 1, 2])
        rec = make_recorder(ctx, f"rec{j}", event, kinds, k)
        k += len(kinds)
        nodes[at].recorders.append(rec)
        recs.append((at, rec))
    cs = object.__new__(CompiledScene)
    cs.scene = Scene(nodes[0])
    cs._compile_recorders(nodes)
    order = [rec for nd in nodes for rec in nd.recorders]
    ctx.check("every recorder, once", len(cs.recorder_names) == len(recs) and list(cs.recorder_specs) == order and list(cs.recorder_names) == [x.name for x in order])
    spans = []
    used = []
    for r, rec in enumerate(order):
        i = [a for a, x in recs if x is rec][0]
        check_recorder(ctx, cs, r, i, rec)
        ctx.check("all its histograms", (cs.rec_hist_n[r] == len(rec.histograms)) if not ctx.sym else ctx.eq(cs.rec_hist_n[r], len(rec.histograms)))
        for j, h in enumerate(rec.histograms):
            row = None
            for q in range(k):
                if bool(ctx.eq(cs.rec_hist_start[r] + j, q)):
                    row = q
            ctx.check("a row for each histogram", row is not None and row not in used)
            used.append(row)
            cols = {c: getattr(cs, "hist_" + c)[row] for c in HCOL}
            size = check_hist(ctx, cols, h)
            spans.append((cols["offset"], size))
    total = 0
    for a, (o, s) in enumerate(spans):
        ctx.check("bins inside the table", ctx.and_(o >= 0, o + s <= cs.total_bins))
        for b in range(a):
            o2, s2 = spans[b]
            ctx.check("bins of different histograms never overlap", ctx.or_(o + s <= o2, o2 + s2 <= o))
        total = total + s
    ctx.check("and fill the table", ctx.eq(total, cs.total_bins) if ctx.sym else total == cs.total_bins)


@harness("C16", [C + "_compile_recorders"], params=[[], [1], [2], [1, 2], [2, 2, 1]], conc=20, budget=60, note="an arbitrary recorder after any others")
def recorder_any(ctx, kinds):
    """one pass of the recorder loop from any state: its rows begin where the tables end"""
    event = ctx.choose("event", sorted(EVENTS))
    rec = make_recorder(ctx, "rec", event, kinds, 0)
    if not ctx.sym:
        node = Node(name="n")
        node.geometry = Obj()
        node.recorders = [rec]
        cs = object.__new__(CompiledScene)
        cs.scene = Scene(node)
        cs._compile_recorders([node])
        check_recorder(ctx, cs, 0, 0, rec)
        return
    L = Loop(CompiledScene._compile_recorders, which=-1)
    cs = object.__new__(CompiledScene)
    for k in ("node", "event", "has_facet", "facet", "atol", "hist_start", "hist_n"):
        setattr(cs, "rec_" + k, Rows())
    if not {"h_rows", "offset", "recorders"} <= set(L.names) or not L.is_for:
        raise Unsupported("loop of another form")
    ctx.stub(cp, "len", sym_len)
    n0, off0 = ctx.int("rows before", lo=0), ctx.int("offset", lo=0)
    r, i = ctx.int("r", lo=0), ctx.int("node", lo=0)
    rows = Tail(n0)
    env = {"self": cs, "h_rows": rows, "offset": off0}
    ys, e, ret = L.body(env, (r, (i, rec)))
    ctx.check("the loop goes on", e is not None and e["__flow__"] == "next" and e["h_rows"] is rows)
    view = Obj()
    for k in ("node", "event", "has_facet", "facet", "atol", "hist_start", "hist_n"):
        cells = getattr(cs, "rec_" + k).cells
        for j, v in cells:
            ctx.check("only its own row", ctx.eq(j, r))
        setattr(view, "rec_" + k, {r_: v for r_, v in [("r", c[1]) for c in cells[-1:]]})
    if "r" not in view.rec_has_facet:
        view.rec_has_facet["r"] = 0
    check_recorder(ctx, view, "r", i, rec)
    ctx.check("its histogram rows begin where the table ends", ctx.eq(view.rec_hist_start["r"], n0))
    ctx.check("one row each", len(list(rows)) == len(kinds) and ctx.eq(view.rec_hist_n["r"], len(kinds)))
    off = off0
    for h, row in zip(rec.histograms, rows):
        cols = dict(zip(HCOL, row))
        ctx.check("its bins begin where the last ended", ctx.eq(cols["offset"], off))
        off = off + check_hist(ctx, cols, h)
    ctx.check("the table grows by its bins", ctx.eq(e["offset"], off))


# ------------------------------------------------------------- all of it

def compiled_equals(ctx, cs, nodes, wants):
    """nodes: (node, shape, pose in the world, index, null surface, components) in the order compiled"""
    eq = ctx.eq if ctx.sym else (lambda a, b: a == b)
    ctx.check("a row for every geometry node", len(cs.nodes) == len(nodes) and len(cs.node_names) == len(nodes))
    at = lambda t: (lambda s, j: t[int(s) + j])
    tabs = {k: at(getattr(cs, k)) for k in ("abs_x", "abs_y", "ems_x", "ems_cdf")}
    col = {c: getattr(cs, "comp_" + c) for c in COLS}
    total = sum(len(w["comps"]) for w in wants)
    ctx.check("a row for every component", all(len(col[c]) == total for c in COLS) and len(cs.component_names) == total)
    seen = []
    for w in wants:
        i = [k for k, x in enumerate(cs.nodes) if x is w["node"]]
        ctx.check("each node once", len(i) == 1)
        i = i[0]
        ctx.check("its name", cs.node_names[i] == w["node"].name)
        ctx.check("shape", eq(cs.geom_type[i], GEOM[w["shape"][0]]()))
        ctx.check("dimensions", ctx.and_(*[eq(cs.geom_params[i][j], d) for j, d in enumerate(w["shape"][1])]))
        ctx.check("refractive index", eq(cs.refractive_index[i], w["n"]))
        ctx.check("surface", eq(cs.surface_type[i], const("SURF_NULL" if w["null"] else "SURF_FRESNEL")))
        for a in range(3):
            for b in range(4):
                ctx.check("pose", ctx.eq(cs.local_to_world[i][a][b], w["pose"][a][b]))
                s = sum((cs.world_to_local[i][a][k] * w["pose"][k][b] for k in range(3)), 0.0) + (cs.world_to_local[i][a][3] if b == 3 else 0.0)
                ctx.check("and its inverse", ctx.eq(s, 1.0 if a == b else 0.0))
        ctx.check("its components", eq(cs.comp_count[i], len(w["comps"])))
        for j, (comp, want) in enumerate(w["comps"]):
            q = int(cs.comp_start[i]) + j
            ctx.check("rows of different components", q not in seen and 0 <= q < total)
            seen.append(q)
            ctx.check("component name", cs.component_names[q] == comp.name)
            check_component(ctx, {c: col[c][q] for c in COLS}, want, tabs, want["kind"])
    spans = [(int(col["abs_start"][q]), int(col["abs_n"][q])) for q in range(total)]
    cover_exactly(ctx, "absorption tables", spans, len(cs.abs_x))
    cover_exactly(ctx, "emission tables", [(int(col["ems_start"][q]), int(col["ems_n"][q])) for q in range(total)], len(cs.ems_x))
    ctx.check("tables of one length", len(cs.abs_x) == len(cs.abs_y) and len(cs.ems_x) == len(cs.ems_cdf))


def cover_exactly(ctx, what, spans, n):
    cells = [c for s, k in spans for c in range(s, s + k)]
    ctx.check(f"{what} never overlap and are covered", sorted(cells) == list(range(n)))


@harness("C16", [M + "compile_scene", C + "__init__"], params=range(6), conc=25, budget=60, bound="scenes of up to four nodes and three components")
def whole_scene(ctx, which):
    """a small scene compiled from end to end"""
    kinds = [["sphere"], ["box", "sphere"], ["sphere", "cylinder", "box"], ["cylinder", None, "sphere"], ["box", None, "box", "sphere"], ["sphere", "sphere"]][which]
    comps = [[["absorber"]], [[], ["luminophore", "scatterer"]], [["scatterer"], ["reactor", "absorber"], []], [["reactor"], None, ["luminophore"]], [[], None, ["absorber"], ["luminophore"]], [["scatterer"], []]][which]
    eye = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
    perm = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]
    root, wants, poses, nodes = None, [], [], []
    for k, (kind, cl) in enumerate(zip(kinds, comps)):
        parent = None if k == 0 else nodes[max(0, k - 1 - (which % 2))]
        nd = Node(name=f"node{k}", parent=parent)
        total = eye
        if k:
            loc = ctx.vec(f"loc{k}", lo=-5, hi=5) if not ctx.sym else ctx.vec(f"loc{k}")
            R = perm if k % 2 else [r[:3] for r in eye[:3]]
            m = [[*R[i], loc[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
            if ctx.sym:
                import vf.shim as shim
                nd.pose = shim.n_array(m)
            else:
                nd.pose = np.array(m, dtype=float)
            up = poses[nodes.index(parent)]
            total = [[sum((up[i][x] * m[x][j] for x in range(4)), 0.0) for j in range(4)] for i in range(4)]
        poses.append(total)
        nodes.append(nd)
        if kind is None:
            if ctx.choose("lit", [False, True]):
                nd.light = Light()
            continue
        made = [component(ctx, c, [0, 2, 3][(k + j) % 3], ["default", "hg", "cone"][(k + j) % 3], ((k + j) % 2 == 0, j == 0)) for j, c in enumerate(cl)]
        null = ctx.choose("null", [False, True]) if k == 1 or ctx.conc else k == 2
        n = ctx.pos(f"n{k}", lo=1, hi=3)
        mat = Material(refractive_index=n, components=[c for c, _ in made], surface=Surface(delegate=NullSurfaceDelegate() if null else FresnelSurfaceDelegate()))
        g, sh = shape(ctx, kind, f"g{k}", mat)
        nd.geometry = g
        wants.append(dict(node=nd, shape=sh, n=n, null=null, pose=total, comps=made))
    scene = Scene(nodes[0])
    rec = Recorder("r", event="entering")
    wants[-1]["node"].recorders = [rec]
    cs = compile_scene(scene)
    ctx.check("the root", cs.nodes[int(cs.root_id)] is nodes[0])
    compiled_equals(ctx, cs, [w["node"] for w in wants], wants)
    ctx.check("recorders kept at their nodes", list(cs.recorder_specs) == [rec] and cs.nodes[int(cs.rec_node[0])] is wants[-1]["node"])


# ------------------------------------------------------------- refusals

class OwnSurface(SurfaceDelegate):
    def reflectivity(self, *a):
        return 0.5

    def reflected_direction(self, *a):
        return (0.0, 0.0, 1.0)

    transmitted_direction = reflected_direction


class OwnFresnel(FresnelSurfaceDelegate):
    def reflectivity(self, *a):
        return 0.5


class OwnSurfaceObject(Surface):
    def is_reflected(self, *a):
        return True


class OwnCone(Cone):
    def __call__(self):
        return np.array([0.0, 1.0, 0.0])


class OwnHG(HenyeyGreenstein):
    def __call__(self):
        return np.array([0.0, 1.0, 0.0])


class OwnLuminophore(Luminophore):
    def emit(self, ray, **k):
        return ray


class OwnAbsorber(Absorber):
    def coefficient(self, w):
        return 2.0


class OwnScatterer(Scatterer):
    def is_radiative(self, ray):
        return True


class OwnSphere(Sphere):
    def intersections(self, o, d):
        return ()


class OwnBox(Box):
    def normal(self, p):
        return (0.0, 0.0, 1.0)


def spec3(peak=1.0):
    return np.array([[400.0, 0.0], [500.0, peak], [600.0, 0.0]])


def refusals():
    import trimesh
    mat = lambda **k: Material(refractive_index=1.5, **k)
    node = lambda nd, **k: setattr(nd, "geometry", Sphere(radius=1.0, material=mat(**k)))
    comp = lambda c: (lambda nd: node(nd, components=[c]))
    surf = lambda d: (lambda nd: node(nd, surface=Surface(delegate=d)))
    rec = lambda *rs: (lambda nd: (node(nd), setattr(nd, "recorders", list(rs))))
    lum = lambda **k: Luminophore(k.pop("c", 1.0), emission=spec3(), quantum_yield=1.0, **k)

    def hist_emission():
        e = lum()
        from pvtrace.material.distribution import Distribution
        e._ems_dist = Distribution(x=np.array([400.0, 500.0, 600.0]), y=np.array([1.0, 2.0, 1.0]), hist=True)
        return e

    def many_nodes(nd):
        node(nd)
        for k in range(130):
            Node(name=f"extra{k}", parent=nd, geometry=Sphere(radius=0.01, material=mat()))

    def pose(m):
        def f(nd):
            node(nd)
            nd.pose = np.array(m, dtype=float)
        return f

    def duplicate_elsewhere(nd):
        node(nd)
        nd.recorders = [Recorder("twin", event="entering")]
        Node(name="other", parent=nd, geometry=Sphere(radius=0.1, material=mat()), recorders=[Recorder("twin", event="escaping")])

    return {
        "mesh": lambda nd: setattr(nd, "geometry", Mesh(trimesh.creation.icosphere(), material=mat())),
        "custom surface delegate": surf(OwnSurface()),
        "subclass of the Fresnel delegate": surf(OwnFresnel()),
        "custom surface": lambda nd: node(nd, surface=OwnSurfaceObject()),
        "custom phase function": comp(Scatterer(1.0, quantum_yield=1.0, phase_function=lambda: np.array([0.0, 0.0, 1.0]))),
        "lambertian phase function": comp(Scatterer(1.0, quantum_yield=1.0, phase_function=lambertian)),
        "custom phase function of a luminophore": comp(lum(phase_function=lambda: np.array([0.0, 0.0, 1.0]))),
        "redefined cone": comp(Scatterer(1.0, quantum_yield=1.0, phase_function=OwnCone(0.1))),
        "redefined Henyey-Greenstein": comp(lum(phase_function=OwnHG(0.1))),
        "redefined luminophore": comp(OwnLuminophore(1.0, emission=spec3(), quantum_yield=1.0)),
        "redefined absorber": comp(OwnAbsorber(1.0)),
        "redefined scatterer": comp(OwnScatterer(1.0, quantum_yield=1.0)),
        "redefined sphere": lambda nd: setattr(nd, "geometry", OwnSphere(radius=1.0, material=mat())),
        "redefined box": lambda nd: setattr(nd, "geometry", OwnBox((1.0, 1.0, 1.0), material=mat())),
        "histogram absorption": comp(Absorber(spec3(), hist=True)),
        "histogram absorption of a luminophore": comp(lum(c=spec3(), hist=True)),
        "histogram emission": comp(hist_emission()),
        "scaled pose": pose(np.diag([2.0, 2.0, 2.0, 1.0])),
        "slightly scaled pose": pose(np.diag([1.0, 1.001, 1.0, 1.0])),
        "sheared pose": pose([[1, 0.3, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]),
        "no material": lambda nd: setattr(nd, "geometry", Sphere(radius=1.0)),
        "duplicate recorders": rec(Recorder("a"), Recorder("a", event="escaping")),
        "duplicate recorders on two nodes": duplicate_elsewhere,
        "facet on a volume recorder": rec(Recorder("a", event="lost", facet=(0, 0, 1))),
        "facet on a reaction recorder": rec(Recorder("a", event="reacted", facet=(0, 0, 1))),
        "facet on a kill recorder": rec(Recorder("a", event="killed", facet=(0, 0, 1))),
        "no recorder": rec("a"),
        "recorder without geometry": lambda nd: setattr(nd, "recorders", [Recorder("a")]),
        "too many recorders": rec(*[Recorder(f"a{k}") for k in range(257)]),
        "too many nodes": many_nodes,
    }


@harness("C16", [M + "compile_scene"], conc=1, executed=True, bound="one scene for each unsupported feature, at two places in the tree")
def refused(ctx):
    """what the engine cannot represent is refused with UnsupportedSceneError"""
    for deep in (False, True):
        for name, f in refusals().items():
            root = Node(name="world", geometry=Sphere(radius=100.0, material=Material(refractive_index=1.0)))
            nd = Node(name="fine", parent=root, geometry=Box((1.0, 1.0, 1.0), material=Material(refractive_index=1.2)))
            if deep:
                nd = Node(name="between", parent=nd)
            nd = Node(name="bad", parent=nd)
            f(nd)
            try:
                compile_scene(Scene(root))
                ctx.check(f"refused: {name}", False)
            except UnsupportedSceneError:
                ctx.check(f"refused: {name}", True)
    for name, root in (("no geometry", Node(name="world")), ("no geometry at the root", Node(name="world"))):
        if name.endswith("root"):
            Node(name="n", parent=root, geometry=Sphere(radius=1.0, material=Material(refractive_index=1.0)))
        try:
            compile_scene(Scene(root))
            ctx.check(f"refused: {name}", False)
        except UnsupportedSceneError:
            pass


@harness("C16", [M + "compile_scene"], conc=6, executed=True, bound="the limits themselves")
def accepted(ctx):
    """scenes at the limits, and subclasses that redefine nothing, are represented"""
    class MyBox(Box):
        def __init__(self, *a, **k):
            super().__init__((1.0, 2.0, 3.0), **k)

    class Dye(Luminophore):
        def __init__(self):
            super().__init__(3.0, emission=spec3(), quantum_yield=0.5, name="dye")
    kern.need("trace_one")
    root = Node(name="world", geometry=Sphere(radius=100.0, material=Material(refractive_index=1.0)), recorders=[Recorder(f"r{k}") for k in range(K.MAX_RECORDERS)])
    for k in range(K.MAX_NODES - 1):
        Node(name=f"n{k}", parent=root, geometry=Sphere(radius=0.1 + k, material=Material(refractive_index=1.0 + k / 100)))
    cs = compile_scene(Scene(root))
    ctx.check("every node", len(cs.geom_type) == K.MAX_NODES and len(cs.rec_node) == K.MAX_RECORDERS)
    order = {nd.name: k for k, nd in enumerate(cs.nodes)}
    for k in range(K.MAX_NODES - 1):
        i = order[f"n{k}"]
        ctx.check("in its own row", cs.geom_params[i][0] == 0.1 + k and cs.refractive_index[i] == 1.0 + k / 100)


@harness("C16", [M + "compile_scene"], conc=40, executed=True, bound="scenes drawn at random")
def random_scenes(ctx):
    """scenes drawn at random, their nodes read back from the tables"""
    number = ctx.int("scene", lo=0, hi=10 ** 6)
    scene = real.build(number).scene
    try:
        cs = compile_scene(scene)
    except UnsupportedSceneError:
        ctx.check("built of supported parts only", False)
    wants = []
    from anytree import PreOrderIter
    for nd in PreOrderIter(scene.root):
        g = nd.geometry
        if g is None:
            continue
        pose = np.eye(4)
        x = nd
        while x is not scene.root:
            pose = x.pose @ pose
            x = x.parent
        sh = ("box", tuple(g._size)) if isinstance(g, Box) else ("sphere", (g.radius,)) if isinstance(g, Sphere) else ("cylinder", (g.length, g.radius))
        comps = []
        for c in g.material.components:
            kind = "reactor" if isinstance(c, Reactor) else "absorber" if isinstance(c, Absorber) else "luminophore" if isinstance(c, Luminophore) else "scatterer"
            d = c._abs_dist
            ax = None if d._x is None else list(d._x)
            ay = [d._y] if d._x is None else list(d._y)
            f = c.phase_function
            tag, par = ("PHASE_HENYEY_GREENSTEIN", f.g) if isinstance(f, HenyeyGreenstein) else ("PHASE_CONE", f.theta_max) if isinstance(f, Cone) else ("PHASE_ISOTROPIC", 0.0)
            want = dict(kind=kind, ax=ax, ay=ay, phase=tag, par=par, taus=(c.tau_rad, c.tau_nr), qy=c.quantum_yield, ems=None)
            if kind == "luminophore":
                want["ems"] = (list(c._ems_dist._x), list(c._ems_dist._cdf))
            comps.append((c, want))
        wants.append(dict(node=nd, shape=sh, n=g.material.refractive_index, null=isinstance(g.material.surface.delegate, NullSurfaceDelegate), pose=pose, comps=comps))
    ctx.check("the root", cs.nodes[int(cs.root_id)] is scene.root)
    compiled_equals(ctx, cs, [w["node"] for w in wants], wants)
    specs = [(i, r) for i, nd in enumerate(cs.nodes) for r in nd.recorders]
    ctx.check("every recorder", len(specs) == len(cs.recorder_specs))
    cells = []
    for i, rec in specs:
        r = list(cs.recorder_specs).index(rec)
        check_recorder(ctx, cs, r, i, rec)
        ctx.check("its histograms", cs.rec_hist_n[r] == len(rec.histograms))
        for j, h in enumerate(rec.histograms):
            row = int(cs.rec_hist_start[r]) + j
            cols = {c: getattr(cs, "hist_" + c)[row] for c in HCOL}
            size = check_hist(ctx, cols, h)
            cells += range(int(cols["offset"]), int(cols["offset"]) + int(size))
    ctx.check("bins never overlap and fill the table", sorted(cells) == list(range(cs.total_bins)))


