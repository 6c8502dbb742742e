"""C19 scene documents: every node, component, light and recorder is the one stated.

The parser is one function with local helpers; it is executed as a whole on documents
whose structure is split into cases and whose numbers are symbolic.  Constructors of
shapes, components and spectra are replaced by recording stand-ins (their own contracts
are C05, C06, C09 to C12)."""
import contextlib
import io
import json
import os
import random
import shutil
import tempfile

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from vf.cut import Loop
from props.common import *
import pvtrace.cli.parse as pp
from pvtrace.material.component import Absorber, Luminophore, Scatterer
from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian
from pvtrace.light.light import (CubeMask, RectangularMask, CircularMask, ConstantWavelengthMask, SpectrumWavelengthMask)
from pvtrace.scene.node import Node

P = "pvtrace.cli.parse."
meta("C19", assumptions=["documents valid under the published schema, with three coordinates wherever a point is asked for, positive wavelengths and spectra with a positive peak",
                         "spectrum files have an index column, then positions, then values, as in the samples"],
     trusted=["yaml and jsonschema; pandas.read_csv (executed on real files in `documents`)", "trimesh loads the mesh file named"])


class Made:
    """a recorded construction"""

    def __init__(self, kind, a, k, names):
        self.kind = kind
        self.args = dict(zip(names, a))
        self.args.update(k)
        self.__dict__.update(self.args)

    def get(self, k, default=None):
        return self.args.get(k, default)


def recording(kind, names):
    return lambda *a, **k: Made(kind, a, k, names)


def shapes(ctx):
    ctx.stub(pp, "Box", recording("box", ["size", "material"]))
    ctx.stub(pp, "Sphere", recording("sphere", ["radius", "material"]))
    ctx.stub(pp, "Cylinder", recording("cylinder", ["length", "radius", "material"]))
    ctx.stub(pp, "Mesh", recording("mesh", ["trimesh", "material"]))
    if hasattr(pp, "trimesh"):
        ctx.stub(pp, "trimesh", Obj(exchange=Obj(load=Obj(load=lambda f, *a, **k: ("mesh of", f))), load=lambda f, *a, **k: ("mesh of", f)))


def looks(ctx):
    """node -> direction given to look_at (its effect is C08's)"""
    log = []
    ctx.stub(pp.Node, "look_at", lambda self, v: log.append((self, v)))
    return log


def run(doc, where="/documents"):
    with contextlib.redirect_stdout(io.StringIO()):
        return pp.parse_v_1_0(doc, where)


def world(ctx=None):
    return {"sphere": {"radius": 10.0, "material": {"refractive-index": 1.0}}}


def tree(scene):
    out = {}

    def walk(n):
        out.setdefault(n.name, []).append(n)
        for c in n.children:
            walk(c)
    walk(scene.root)
    return out


def nums(ctx, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and ctx.and_(*[ctx.eq(x, y, 1e-12) for x, y in zip(a, b)])


# ------------------------------------------------------------------ nodes

@harness("C19", [P + "parse_v_1_0"], params=["box", "sphere", "cylinder", "mesh"], conc=40)
def node(ctx, kind):
    """one node: its shape, material, pose and parent"""
    shapes(ctx)
    log = looks(ctx)
    n = ctx.real("index", lo=1, hi=4)
    comps = ctx.choose("components", [None, [], ["a"], ["b", "a"]])
    mat = {"refractive-index": n}
    if comps is not None:
        mat["components"] = list(comps)
    body = {"material": mat}
    if kind == "box":
        body["size"] = list(ctx.vec("size", lo=0.01))
    if kind in ("sphere", "cylinder"):
        body["radius"] = ctx.pos("radius")
    if kind == "cylinder":
        body["length"] = ctx.pos("length")
    if kind == "mesh":
        body["file"] = ctx.choose("file", ["part.stl", "sub/part.stl", "/elsewhere/part.stl"])
    spec = {kind: body}
    parent = ctx.choose("parent", ["omitted", None, "world", "other", "unknown"])
    if parent != "omitted":
        spec["parent"] = parent
    loc = list(ctx.vec("at")) if ctx.flag("located") else None
    if loc is not None:
        spec["location"] = loc
    direction = list(ctx.vec("dir")) if ctx.flag("directed") else None
    if direction is not None:
        if ctx.sym:
            ctx.assume(ctx.not_(ctx.eq(direction[0], 0.0)))
        spec["direction"] = direction
    order = ctx.choose("order", ["first", "last"])
    nodes = {"world": world(), "other": world()}
    nodes = {"thing": spec, **nodes} if order == "first" else {**nodes, "thing": spec}
    doc = {"version": "1.0", "nodes": nodes, "components": {"a": {"absorber": {"coefficient": 1.0}}, "b": {"absorber": {"coefficient": 2.0}}}}
    try:
        scene = run(doc)
    except (core.Unsupported, core.Infeasible, core.PathLimit, core.Reject):
        raise
    except Exception:
        ctx.check("only unknown parents are errors", parent == "unknown")
        return
    ctx.check("an unknown parent is an error", parent != "unknown")
    t = tree(scene)
    ctx.check("every node once", sorted(t) == ["other", "thing", "world"] and all(len(v) == 1 for v in t.values()))
    ctx.check("the world is the root", scene.root is t["world"][0] and scene.root.parent is None)
    th = t["thing"][0]
    ctx.check("parent", th.parent.name == ("other" if parent == "other" else "world"))
    ctx.check("other parent", t["other"][0].parent.name == "world")
    g = th.geometry
    ctx.check("shape", isinstance(g, Made) and g.kind == kind)
    if kind == "box":
        ctx.check("size", nums(ctx, g.size, body["size"]))
    if kind in ("sphere", "cylinder"):
        ctx.check("radius", ctx.eq(g.radius, body["radius"], 1e-12))
    if kind == "cylinder":
        ctx.check("length", ctx.eq(g.length, body["length"], 1e-12))
    if kind == "mesh":
        f = body["file"]
        ctx.check("mesh file", isinstance(g.trimesh, tuple) and os.path.normpath(g.trimesh[1]) == (f if os.path.isabs(f) else os.path.join("/documents", f)))
    ctx.check("refractive index", ctx.eq(g.material.refractive_index, n, 1e-12))
    ctx.check("components", [c.name for c in g.material.components] == (comps or []))
    ctx.check("location", nums(ctx, th.location, loc or (0.0, 0.0, 0.0)))
    mine = [v for k, v in log if k is th]
    ctx.check("direction", (direction is None and not mine) or (len(mine) == 1 and direction is not None and nums(ctx, mine[0], direction)))
    ctx.check("others untouched", all(k is th for k, _ in log) and nums(ctx, t["other"][0].location, (0.0, 0.0, 0.0)) and not t["other"][0].recorders and th.light is None)
    ctx.cover("parsed")


@harness("C19", [P + "parse_v_1_0"], params=["components", "parents", "recorders"], conc=6)
def unknown_names(ctx, what):
    """references to names the document does not define are errors"""
    shapes(ctx)
    doc = {"version": "1.0", "nodes": {"world": world(), "a": world()}, "components": {"dye": {"absorber": {"coefficient": 1.0}}}}
    bad = ctx.choose("name", ["nothing", "", "World", "a ", "dyes"])
    if what == "components":
        doc["nodes"]["a"]["sphere"]["material"]["components"] = ctx.choose("list", [[bad], ["dye", bad], [bad, "dye"]])
        if ctx.flag("no components section"):
            del doc["components"]
    elif what == "parents":
        doc["nodes"]["a"]["parent"] = bad
    else:
        doc["recorders"] = {"r": {"node": bad, "event": "entering"}}
    try:
        run(doc)
        ctx.check("refused", False)
    except (core.Unsupported, core.Infeasible, core.PathLimit, core.Reject):
        raise
    except Exception:
        ctx.check("refused", True)


# ------------------------------------------------------------------ components

class Floats(np.ndarray):
    """a table of numbers; as floats the symbolic entries are the reals they already are"""

    def astype(self, t, *a, **k):
        if self.dtype == object and t in (float, np.float64, "float", "float64"):
            return self.copy()
        if self.dtype == object:
            raise Unsupported("another type of number")
        return np.ndarray.astype(self, t, *a, **k)


class Frame:
    """what pandas.read_csv gives for a file of an index column, positions and values"""

    def __init__(self, arr):
        self.arr = arr

    @property
    def iloc(self):
        return self

    def __getitem__(self, k):
        if not (isinstance(k, tuple) and k[0] == slice(None) and k[1] in (slice(0, 2), slice(None), slice(None, 2))):
            raise Unsupported("frame selection")
        return Frame(self.arr)

    @property
    def values(self):
        return self.arr.copy().view(Floats)

    def to_numpy(self, *a, **k):
        return self.values

    def astype(self, t):
        return Frame(self.values.astype(t))

    def __getattr__(self, k):
        raise Unsupported("frame." + k)


def table2(ctx, n, name):
    xs, ys = table(ctx, n, name)
    tot = ys[0]
    for y in ys[1:]:
        tot = tot + y
    ctx.assume(tot > 0)
    if ctx.sym:
        a = np.empty((n, 2), dtype=object)
    else:
        a = np.empty((n, 2))
    for i in range(n):
        a[i, 0], a[i, 1] = xs[i], ys[i]
    return a


def spectrum_stubs(ctx, tables):
    asked = []

    def read_csv(f, *a, **k):
        asked.append(os.path.normpath(str(f)))
        if k.get("usecols") not in (None, [0, 1, 2]) or k.get("index_col") != 0:
            raise Unsupported("another way to read a spectrum file")
        return Frame(tables[os.path.basename(str(f))])
    ctx.stub(pp, "pandas", Obj(read_csv=read_csv))
    return asked


def components_stub(ctx):
    ctx.stub(pp, "Absorber", recording("absorber", ["coefficient", "x", "name", "hist"]))
    ctx.stub(pp, "Scatterer", recording("scatterer", ["coefficient", "x", "quantum_yield", "phase_function", "hist", "name"]))
    ctx.stub(pp, "Luminophore", recording("luminophore", ["coefficient", "emission", "x", "hist", "quantum_yield", "phase_function", "name"]))


def phase(ctx, name="phase"):
    k = ctx.choose(name, [None, "isotropic", "lambertian", "cone", "cone text", "henyey-greenstein"])
    if k is None:
        return None, None
    if k == "cone":
        a = ctx.real(name + " angle", lo=0.1, hi=90)
        return {"cone": {"half-angle": a}}, ("cone", a)
    if k == "cone text":
        return {"cone": {"half-angle": "30.5"}}, ("cone", 30.5)
    if k == "henyey-greenstein":
        g = ctx.real(name + " g", lo=-1, hi=1)
        return {k: {"g": g}}, ("hg", g)
    return {k: None}, (k, None)


def is_phase(ctx, f, want):
    if want is None:
        return f is None or f is isotropic
    k, v = want
    if k == "isotropic":
        return f is isotropic
    if k == "lambertian":
        return f is lambertian
    if k == "cone":
        return type(f) is Cone and ctx.eq(f.theta_max, v * (math.pi / 180.0), 1e-12)
    return type(f) is HenyeyGreenstein and ctx.eq(f.g, v, 1e-12)


def matrix(a):
    try:
        return [(r[0], r[1]) for r in a]
    except TypeError:
        return None


def check_scaled(ctx, got, tab, coefficient):
    """positions kept; values tab scaled so that the peak equals the coefficient (or kept when none is given)"""
    rows = matrix(got)
    ok = rows is not None and len(rows) == len(tab)
    ctx.check("a spectrum", ok)
    if not ok:
        return
    for i, (x, y) in enumerate(rows):
        ctx.check("positions", ctx.eq(x, tab[i, 0], 1e-12))
        if coefficient is None:
            ctx.check("values", ctx.eq(y, tab[i, 1], 1e-12))
            continue
        # y = coefficient * t / max t, without naming the maximum
        for j in range(len(tab)):
            ctx.check("in proportion", ctx.eq(y * tab[j, 1], rows[j][1] * tab[i, 1], 1e-9))
            ctx.check("no value above the coefficient", ctx.le(y, coefficient, 1e-9))
    if coefficient is not None:
        ctx.check("the peak is the coefficient", ctx.or_(*[ctx.eq(y, coefficient, 1e-9) for _, y in rows]))


def one_component(ctx, p):
    kind, form, rows = p
    components_stub(ctx)
    tables = {"a.csv": table2(ctx, rows, "a"), "e.csv": table2(ctx, 2, "e")}
    asked = spectrum_stubs(ctx, tables)
    c = ctx.real("coefficient", lo=0, hi=100, special=(0.0,)) if form != "coefficient" or ctx.conc else ctx.real("coefficient", lo=0)
    absn = {}
    if form != "file":
        absn["coefficient"] = c
    if form != "coefficient":
        absn["spectrum"] = {"file": ctx.choose("path", ["a.csv", "sub/a.csv", "/tables/a.csv"])}
    hist = ctx.choose("hist", [None, False, True])
    qy = None
    ph, want_ph = (None, None)
    spec = dict(absn)
    if kind != "absorber":
        qy = ctx.real("yield", lo=0, hi=1) if ctx.flag("yield given") else None
        ph, want_ph = phase(ctx)
    if kind == "luminophore":
        em = {"spectrum": {"file": "e.csv"}}
        if qy is not None:
            em["quantum-yield"] = qy
        if ph is not None:
            em["phase-function"] = ph
        spec = {"absorption": absn, "emission": em}
    else:
        if qy is not None:
            spec["quantum-yield"] = qy
        if ph is not None:
            spec["phase-function"] = ph
    if hist is not None:
        spec["hist"] = hist
    w = world()
    w["sphere"]["material"]["components"] = ["thing"]
    scene = run({"version": "1.0", "nodes": {"world": w}, "components": {"thing": {kind: spec}}})
    got = scene.root.geometry.material.components
    ctx.check("one component", len(got) == 1 and isinstance(got[0], Made))
    got = got[0]
    ctx.check("kind", got.kind == kind)
    ctx.check("name", got.get("name") == "thing")
    if form == "coefficient":
        ctx.check("coefficient", not isinstance(got.coefficient, np.ndarray) and ctx.eq(got.coefficient, c, 1e-12))
    else:
        check_scaled(ctx, got.coefficient, tables["a.csv"], c if form == "both" else None)
        f = absn["spectrum"]["file"]
        ctx.check("file", (f if os.path.isabs(f) else os.path.join("/documents", f)) in asked)
        ctx.check("histogram flag", bool(got.get("hist", False)) == bool(hist))
    if kind != "absorber":
        ctx.check("quantum yield", ctx.eq(got.get("quantum_yield", 1.0), 1.0 if qy is None else qy, 1e-12))
        ctx.check("phase function", is_phase(ctx, got.get("phase_function"), want_ph))
    if kind == "luminophore":
        check_scaled(ctx, got.emission, tables["e.csv"], None)
    ctx.cover(form)


@harness("C19", [P + "parse_v_1_0"], params=["absorber", "scatterer", "luminophore"], conc=30)
def component(ctx, kind):
    """one component with a coefficient: quantum yield, phase function, name"""
    one_component(ctx, (kind, "coefficient", 2))


@harness("C19", [P + "parse_v_1_0"], params=[(k, f, n) for k in ("absorber", "scatterer", "luminophore") for f in ("file", "both") for n in (2, 3)],
         conc=30, bound="spectrum files of two or three rows (symbolic entries)", max_paths=20000)
def tabulated(ctx, p):
    """one component with a spectrum, scaled when a coefficient is given too"""
    one_component(ctx, p)


NAMED = ["lumogen-f-red-305", "fluro-red"]


@harness("C19", [P + "parse_v_1_0"], params=[(n, k) for n in NAMED for k in ("absorber", "luminophore", "light")], conc=30, executed=True, bound="random ranges", note="built-in dyes over a range")
def named_spectrum(ctx, p):
    """a built-in dye's absorption or emission, over the stated range"""
    if ctx.sym:
        raise Unsupported("executed only")
    name, kind = p
    components_stub(ctx)
    lo = ctx.choose("min", [300, 400, 450.5])
    sp = ctx.choose("spacing", [1, 5, 2.5, 0.5, 7])
    hi = lo + ctx.choose("span", [100, 300, 10.5])
    ref = {"name": name, "range": {"min": lo, "max": hi, "spacing": sp}}
    m = {"lumogen-f-red-305": pp.lumogen_f_red_305, "fluro-red": pp.fluro_red}[name]

    def ok(a, f):
        a = np.asarray(a, dtype=float)
        x = a[:, 0]
        ctx.check("starts at the minimum", x[0] == lo)
        ctx.check("steps by the spacing", np.allclose(np.diff(x), sp, rtol=1e-9, atol=1e-9))
        ctx.check("covers the range, and at most one step more", hi - 1e-6 <= x[-1] <= hi + sp + 1e-6)
        ctx.check("the dye's values", np.allclose(a[:, 1], f(x)))
    if kind == "light":
        made = []
        ctx.stub(pp, "Distribution", lambda x, y: made.append((x, y)) or "distribution")
        s = run({"version": "1.0", "nodes": {"world": world(), "l": {"light": {"mask": {"wavelength": {"spectrum": ref}}}}}})
        ctx.check("one distribution", len(made) == 1 and s.root.children[0].light.wavelength.distribution == "distribution")
        ok(np.column_stack(made[0]), m.absorption)
        return
    w = world()
    w["sphere"]["material"]["components"] = ["d"]
    spec = {"spectrum": ref} if kind == "absorber" else {"absorption": {"spectrum": ref}, "emission": {"spectrum": ref}}
    got = run({"version": "1.0", "nodes": {"world": w}, "components": {"d": {kind: spec}}}).root.geometry.material.components[0]
    ok(got.coefficient, m.absorption)
    if kind == "luminophore":
        ok(got.emission, m.emission)


# ------------------------------------------------------------------ lights

@harness("C19", [P + "parse_v_1_0"], params=["none", "nanometers", "number", "spectrum"], conc=60, max_paths=20000)
def light(ctx, wl):
    """one light: wavelength, position and direction masks"""
    tables = {"w.csv": table2(ctx, 2, "w")}
    spectrum_stubs(ctx, tables)
    made = []
    ctx.stub(pp, "Distribution", lambda x, y, *a, **k: made.append((x, y)) or ("distribution", len(made)))
    spec, mask = {}, {}
    nm = None
    if ctx.flag("wavelength given"):
        nm = ctx.real("wavelength", lo=100, hi=2000)
        spec["wavelength"] = nm
    if wl in ("nanometers", "number"):
        w = ctx.real("mask wavelength", lo=100, hi=2000)
        mask["wavelength"] = {"nanometers": w} if wl == "nanometers" else w
    if wl == "spectrum":
        mask["wavelength"] = {"spectrum": {"file": "w.csv"}}
    pos = ctx.choose("position", [None, "rect", "cube", "circle", "point"])
    dims = {"rect": 2, "cube": 3, "circle": 1, "point": 3}.get(pos, 0)
    v = [ctx.real(f"dim{i}", lo=0.01, hi=10) for i in range(dims)]
    if pos:
        mask["position"] = v if pos == "point" else {pos: v[0] if pos == "circle" else v}
    if ctx.flag("direction as a point"):
        d = ctx.unit("dir")
        mask["direction"], want = list(d), ("point", d)
    else:
        ph, want = phase(ctx, "direction")
        if ph is not None:
            mask["direction"] = ph
    if mask or ctx.flag("empty mask"):
        spec["mask"] = mask
    scene = run({"version": "1.0", "nodes": {"world": world(), "lamp": {"light": spec}}})
    n = scene.root.children
    ctx.check("one light node", len(n) == 1 and n[0].name == "lamp" and n[0].geometry is None and n[0].light is not None)
    l = n[0].light
    ctx.check("name", l.name == "lamp")
    plain = pp.Light(name="lamp")
    w0, d0, p0 = l.wavelength, l.direction, l.position
    if wl == "spectrum":
        ok = type(w0) is SpectrumWavelengthMask and isinstance(w0.distribution, tuple) and len(made) == 1
        ctx.check("spectrum", ok)
        if ok:
            ctx.check("its values", ctx.and_(nums(ctx, made[0][0], tables["w.csv"][:, 0]), nums(ctx, made[0][1], tables["w.csv"][:, 1])))
    elif wl != "none":
        ctx.check("mask wavelength", ctx.eq(w0(), w, 1e-12))
    elif nm is not None:
        ctx.check("wavelength", ctx.eq(w0(), nm, 1e-12))
    else:
        ctx.check("default wavelength", w0 is plain.wavelength or type(w0) is type(plain.wavelength))
    if pos is None:
        ctx.check("default position", p0 is plain.position or type(p0) is type(plain.position))
    elif pos == "rect":
        ctx.check("rectangle", type(p0) is RectangularMask and nums(ctx, (p0.x, p0.y), v))
    elif pos == "cube":
        ctx.check("cube", type(p0) is CubeMask and nums(ctx, (p0.x, p0.y, p0.z), v))
    elif pos == "circle":
        ctx.check("circle", type(p0) is CircularMask and nums(ctx, (p0.radius,), v))
    else:
        ctx.check("point", nums(ctx, p0(), v))
    if want is None:
        ctx.check("default direction", d0 is plain.direction or type(d0) is type(plain.direction))
    elif want[0] == "point":
        ctx.check("fixed direction", ctx.and_(*[ctx.eq(x, y) for x, y in zip(d0(), want[1])]))
    else:
        ctx.check("direction", is_phase(ctx, d0, want))
    ctx.cover("parsed")


# ------------------------------------------------------------------ recorders

AXES = "xyz"


@harness("C19", [P + "auto_recorders"], params=["box", "sphere", "cylinder", "mesh"], conc=60)
def automatic(ctx, kind):
    """automatic recorders: each face of a box once, the whole surface otherwise, and the losses"""
    spec = {"record": True}
    size = list(ctx.vec("size", lo=0.001, hi=50))
    spec[kind] = {"size": size, "material": {"refractive-index": 1.5}} if kind == "box" else {"material": {"refractive-index": 1.5}}
    out = pp.auto_recorders("slab", spec)
    ctx.check("of this node", all(r["node"] == "slab" for r in out.values()))
    lost = [r for r in out.values() if r["event"] == "lost"]
    ctx.check("one for the losses", len(lost) == 1 and lost[0].get("facet") is None)
    esc = {k: r for k, r in out.items() if r["event"] == "escaping"}
    ctx.check("nothing else", len(out) == len(esc) + 1)
    if kind != "box":
        ctx.check("the whole surface", len(esc) == 1 and list(esc.values())[0].get("facet") is None)
        return
    want = {tuple(s * (1 if i == k else 0) for i in range(3)) for k in range(3) for s in (1, -1)}
    ctx.check("each face once", len(esc) == 6 and {tuple(int(v) for v in r["facet"]) for r in esc.values()} == want)
    for r in esc.values():
        k = [i for i in range(3) if r["facet"][i]][0]
        a, b, ra, rb = r["histograms"]["position"]
        ctx.check("over the face", {a, b} == set(AXES) - {AXES[k]})
        for ax, (lo, hi, bins) in ((a, ra), (b, rb)):
            s = size[AXES.index(ax)]
            ctx.check("the whole face", ctx.and_(ctx.eq(lo, -0.5 * s, 1e-12), ctx.eq(hi, 0.5 * s, 1e-12)))
            ctx.check("some bins", bins >= 1)


@harness("C19", [P + "parse_recorders", P + "parse_v_1_0", P + "auto_recorders"], params=["box", "sphere"], conc=40)
def recorders(ctx, kind):
    """explicit and automatic recorders reach their nodes; an explicit one of the same name wins"""
    shapes(ctx)
    body = {"material": {"refractive-index": 1.5}}
    if kind == "box":
        body["size"] = [1.0, 2.0, 3.0]
    else:
        body["radius"] = 1.0
    on = ctx.choose("record", [None, False, True])
    slab = {kind: body}
    if on is not None:
        slab["record"] = on
    doc = {"version": "1.0", "nodes": {"world": world(), "slab": slab}}
    auto = pp.auto_recorders("slab", slab)
    names = ["mine"] + (sorted(auto)[:2] if ctx.flag("same names") else [])
    rec = {}
    start, width, atol = ctx.real("start"), ctx.pos("width"), ctx.pos("atol", lo=1e-9, hi=1)
    bins = ctx.int("bins", lo=1, hi=50)
    form = ctx.choose("form", ["plain", "full"])
    target = ctx.choose("target", ["world", "slab"])
    for n in names:
        rec[n] = {"node": target, "event": "entering"}
        if form == "full":
            rec[n].update(facet=[0, 0, -1], atol=atol, histograms={"angle": [start, start + width, bins], "position": ["x", "z", [start, start + width, bins], [0.0, 1.0, 3]]})
    if ctx.flag("section"):
        doc["recorders"] = rec
    else:
        rec, names = {}, []
    keep = json.dumps(doc, default=str) if ctx.conc else None
    t = tree(run(doc))
    if keep:
        ctx.check("the document is unchanged", json.dumps(doc, default=str) == keep)
    got = {}
    for n, l in t.items():
        for r in l[0].recorders:
            ctx.check("each recorder once", r.name not in got)
            got[r.name] = (n, r)
    ctx.check("explicit and automatic recorders", set(got) == set(names) | (set(auto) if on else set()))
    for n in names:
        where, r = got[n]
        ctx.check("on its node", where == target)
        ctx.check("its event", r.event == "entering")
        if form == "full":
            ctx.check("its facet", tuple(r.facet) == (0.0, 0.0, -1.0))
            ctx.check("its tolerance", ctx.eq(r.atol, atol, 1e-12))
            h = r.histograms
            ok = len(h) == 2 and h[0].prop == "angle" and h[1].a.prop == "x" and h[1].b.prop == "z"
            ctx.check("its histograms", ok)
            if ok:
                for x in (h[0], h[1].a):
                    ctx.check("range and bins", ctx.and_(ctx.eq(x.start, start, 1e-12), ctx.eq(x.stop, start + width, 1e-12), ctx.eq(x.bins, bins, 1e-12)))
                ctx.check("second range", (h[1].b.start, h[1].b.stop, h[1].b.bins) == (0.0, 1.0, 3))
        else:
            ctx.check("no facet", r.facet is None and not r.histograms)
            ctx.check("default tolerance", r.atol == 1e-6)
    for n in set(got) - set(names):
        where, r = got[n]
        a = auto[n]
        ctx.check("automatic recorder", where == "slab" and r.event == a["event"] and (r.facet is None) == (a.get("facet") is None) and (r.facet is None or tuple(r.facet) == tuple(float(v) for v in a["facet"])))
        ctx.check("automatic histograms", len(r.histograms) == len(a["histograms"]))


# ------------------------------------------------------------------ whole documents, executed

SHAPES = ["box", "sphere", "cylinder"]


def random_document(rng, d):
    """a random valid document and what it states"""
    comps, nodes, want = {}, {}, {"components": {}, "nodes": {}}

    def csv(ints):
        n = rng.randrange(2, 6)
        x = sorted(rng.sample(range(300, 900), n))
        y = [rng.randrange(0, 9) if ints else round(rng.uniform(0, 3), 3) for _ in x]
        y[rng.randrange(n)] = rng.randrange(1, 9)
        f = f"s{rng.randrange(10 ** 9)}.csv"
        open(os.path.join(d, f), "w").write(",x,y\n" + "".join(f"{i},{a},{b}\n" for i, (a, b) in enumerate(zip(x, y))))
        return f, x, y
    for i in range(rng.randrange(0, 4)):
        kind = rng.choice(["absorber", "scatterer", "luminophore"])
        ints = rng.random() < 0.5
        f, x, y = csv(ints)
        form = rng.choice(["coefficient", "file", "both"])
        c = rng.choice([0, 1, 0.25, 10.5, round(rng.uniform(0, 20), 3)])
        absn = {}
        if form != "file":
            absn["coefficient"] = c
        if form != "coefficient":
            absn["spectrum"] = {"file": f}
        qy = rng.choice([None, 0, 0.5, 1])
        if kind == "luminophore":
            em = {"spectrum": {"file": f}}
            if qy is not None:
                em["quantum-yield"] = qy
            spec = {"absorption": absn, "emission": em}
        else:
            spec = dict(absn)
            if kind == "scatterer" and qy is not None:
                spec["quantum-yield"] = qy
        if rng.random() < 0.3 and form != "coefficient":
            spec["hist"] = True
        comps[f"c{i}"] = {kind: spec}
        scale = 1.0 if form == "file" else c / max(y)
        want["components"][f"c{i}"] = (kind, form, c, x, [v * scale for v in y], 1.0 if qy is None else qy, spec.get("hist", False))
    names = [f"n{i}" for i in range(rng.randrange(0, 6))]
    order = ["world"] + names
    rng.shuffle(order)
    rank = {"world": -1, **{n: i for i, n in enumerate(rng.sample(names, len(names)))}}
    for n in order:
        kind = rng.choice(SHAPES + ["light"]) if n != "world" else rng.choice(SHAPES)
        use = [k for k in comps if rng.random() < 0.4]
        mat = {"refractive-index": rng.choice([1, 1.5, 2.25])}
        if use or rng.random() < 0.3:
            mat["components"] = use
        num = lambda: rng.choice([1, 2, 0.5, round(rng.uniform(0.1, 9), 3)])
        if kind == "light":
            nodes[n] = {"light": {"wavelength": rng.choice([555, 610.5])}}
            dims = nodes[n]["light"]["wavelength"]
        else:
            if kind == "box":
                dims = [num(), num(), num()]
                body = {"size": dims}
            elif kind == "sphere":
                dims = num()
                body = {"radius": dims}
            else:
                dims = (num(), num())
                body = {"length": dims[0], "radius": dims[1]}
            nodes[n] = {kind: dict(body, material=mat)}
        par = "world"
        if n != "world":
            above = [m for m in names if rank[m] < rank[n] and m != n]
            k = rng.random()
            if k < 0.3:
                pass
            elif k < 0.4:
                nodes[n]["parent"] = None
            elif k < 0.6 or not above:
                nodes[n]["parent"] = "world"
            else:
                par = nodes[n]["parent"] = rng.choice(above)
        loc = [rng.choice([0, 1, -2.5]) for _ in range(3)] if rng.random() < 0.5 else None
        if loc is not None:
            nodes[n]["location"] = loc
        direction = rng.choice([[0, 0, 1], [1, 0, 0], [0, 0, -1], [1, 2, -2]]) if rng.random() < 0.5 else None
        if direction is not None:
            nodes[n]["direction"] = direction
        want["nodes"][n] = (kind, dims, mat, use, par, loc or [0, 0, 0], direction)
    doc = {"version": "1.0", "nodes": nodes}
    if comps:
        doc["components"] = comps
    return doc, want


@harness("C19", [P + "parse", P + "load_spec", P + "parse_v_1_0"], conc=25, executed=True, bound="random documents of up to seven nodes and three components", note="real shapes, components and CSV files")
def documents(ctx):
    """whole random documents from real files give exactly the scenes they state"""
    if ctx.sym:
        raise Unsupported("executed only")
    import jsonschema
    import yaml
    rng = random.Random(ctx.int("seed", lo=0, hi=10 ** 6, small=10 ** 6))
    d = tempfile.mkdtemp()
    try:
        doc, want = random_document(rng, d)
        jsonschema.validate(doc, schema=pp.load_schema())
        path = os.path.join(d, "scene.yml")
        open(path, "w").write(yaml.safe_dump(doc, sort_keys=False))
        with contextlib.redirect_stdout(io.StringIO()):
            scene = pp.parse(path)
        t = tree(scene)
        ctx.check("every node once", set(t) == set(want["nodes"]) and all(len(v) == 1 for v in t.values()))
        for n, (kind, dims, mat, use, par, loc, direction) in want["nodes"].items():
            x = t[n][0]
            ctx.check("parent", (x.parent is None) if n == "world" else x.parent.name == par)
            ctx.check("location", np.allclose(x.location, loc))
            if direction is not None:
                u = np.array(direction) / np.linalg.norm(direction)
                ctx.check("direction", np.allclose(np.asarray(x.pose)[:3, :3] @ [0, 0, 1], u))
            else:
                ctx.check("no rotation", np.allclose(np.asarray(x.pose)[:3, :3], np.eye(3)))
            if kind == "light":
                ctx.check("light", x.geometry is None and x.light is not None and x.light.wavelength() == dims)
                continue
            g = x.geometry
            ctx.check("shape", type(g).__name__.lower() == kind and x.light is None)
            if kind == "box":
                ctx.check("size", np.allclose(g.size, dims) if hasattr(g, "size") else np.allclose(g._size, dims))
            elif kind == "sphere":
                ctx.check("radius", g.radius == dims)
            else:
                ctx.check("cylinder", g.length == dims[0] and g.radius == dims[1])
            ctx.check("refractive index", g.material.refractive_index == mat["refractive-index"])
            ctx.check("components", [c.name for c in g.material.components] == use)
            for c in g.material.components:
                kind2, form, co, xs, ys, qy, hist = want["components"][c.name]
                ctx.check("component kind", type(c).__name__.lower() == kind2)
                if kind2 != "absorber":
                    ctx.check("quantum yield", c.quantum_yield == qy)
                if form == "coefficient":
                    ctx.check("coefficient", c.coefficient(500.0) == co)
                else:
                    for a, b in zip(xs, ys):
                        if not hist:
                            ctx.check("spectrum", abs(float(c.coefficient(float(a))) - b) < 1e-9)
    finally:
        shutil.rmtree(d, ignore_errors=True)
