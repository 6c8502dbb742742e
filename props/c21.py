"""C21 the concentrator: surfaces, facet labels, scene and reports."""
import contextlib
import io
import random

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
import pvtrace.device.lsc as lm
from pvtrace.device.lsc import LSC, OptionalMirrorAndSolarCell, AirGapMirror
from pvtrace.light.event import Event
from pvtrace.light.ray import Ray
from pvtrace.material.surface import Surface, FresnelSurfaceDelegate
from pvtrace.material.component import Absorber, Luminophore, Scatterer

L = "pvtrace.device.lsc."
meta("C21", assumptions=["the device is the box LSC builds, so its normals are the six axis directions (Box.normal: C06)",
                         "random draws lie in [0, 1)"],
     trusted=["pandas selection by boolean masks (the label function is also run on real frames)"])

FACES = {"left": (-1.0, 0.0, 0.0), "right": (1.0, 0.0, 0.0), "near": (0.0, -1.0, 0.0), "far": (0.0, 1.0, 0.0), "bottom": (0.0, 0.0, -1.0), "top": (0.0, 0.0, 1.0)}
EDGES = ("left", "right", "near", "far")


class Geo:
    def __init__(self, n):
        self.n = n

    def normal(self, p):
        return self.n


def device(ctx, size=(1.0, 1.0, 0.1)):
    """a configuration: cells on some edges, fitted in one or two steps, perhaps a mirror"""
    d = LSC(size)
    cells = set()
    for e in EDGES:
        if ctx.flag("cell " + e):
            cells.add(e)
    form = ctx.choose("fitted", ["at once", "in turn"])
    if form == "at once":
        d.add_solar_cell(cells)
    else:
        for e in sorted(cells):
            d.add_solar_cell([e])
    mirror = ctx.flag("back mirror")
    if mirror:
        d.add_back_surface_mirror()
    return d, cells, mirror


def fresnel_stub(ctx, log):
    """stands for whatever an ordinary Fresnel surface does"""
    R = ctx.real("fresnel R", lo=0, hi=1)
    for m in ("reflectivity", "reflected_direction", "transmitted_direction"):
        def f(self, *a, m=m, **k):
            log.append((m, a, k))
            return R if m == "reflectivity" else ("fresnel", m)
        ctx.stub(FresnelSurfaceDelegate, m, f)
    return R


def a_ray(ctx):
    return Ray(ctx.vec("p"), ctx.unit("d"), 555.0)


def around(ctx):
    return medium(ctx.pos("n1", lo=1, hi=3)), medium(ctx.pos("n2", lo=1, hi=3))


@harness("C21", [L + "OptionalMirrorAndSolarCell.reflectivity", L + "OptionalMirrorAndSolarCell.transmitted_direction", L + "LSC.add_solar_cell", L + "LSC.add_back_surface_mirror", "pvtrace.material.surface.Surface.is_reflected"],
         params=list(FACES), conc=120, max_paths=20000)
def edges(ctx, face):
    """cells never reflect and pass straight, a mirror always reflects, everything else is Fresnel's"""
    dev, cells, mirror = device(ctx)
    n = FACES[face]
    ray = a_ray(ctx)
    if ctx.flag("numpy normal") and ctx.conc:
        n = np.array(n)
    log = []
    R = fresnel_stub(ctx, log)
    s = Surface(OptionalMirrorAndSolarCell(dev))
    c, a = around(ctx)
    args = (s, ray, Geo(n), c, a)
    out = s.is_reflected(ray, Geo(n), c, a)
    if face in cells:
        ctx.check("a cell never reflects", ctx.not_(out))
        ctx.check("zero reflectivity", ctx.eq(s.delegate.reflectivity(*args), 0.0))
        t = s.delegate.transmitted_direction(*args)
        ctx.check("straight through a cell", t[0] != "fresnel" and len(t) == 3 and ctx.and_(*[ctx.eq(x, y) for x, y in zip(t, ray.direction)]))
        ctx.cover("cell")
        return
    if face == "bottom" and mirror:
        ctx.check("a mirror always reflects", out)
        ctx.check("unit reflectivity", ctx.eq(s.delegate.reflectivity(*args), 1.0))
        ctx.cover("mirror")
    else:
        ctx.check("Fresnel decides", ctx.eq(s.delegate.reflectivity(*args), R, 1e-15))
        if ctx.draws:
            ctx.check("reflected as often as Fresnel says", ctx.iff(out, ctx.draws[0] < R))
            ctx.cover("ordinary")
        given = list(log[-1][1]) + list(log[-1][2].values()) if log else []
        ctx.check("on the same interaction", len(given) == 5 and given[1] is ray and given[3] is c and given[4] is a)
    del log[:]
    ctx.check("Fresnel refraction", tuple(s.delegate.transmitted_direction(*args)) == ("fresnel", "transmitted_direction"))
    ctx.check("specular reflection", tuple(s.delegate.reflected_direction(*args)) == ("fresnel", "reflected_direction"))


@harness("C21", [L + "OptionalMirrorAndSolarCell.reflectivity", L + "OptionalMirrorAndSolarCell.transmitted_direction", L + "OptionalMirrorAndSolarCell.reflected_direction"],
         params=list(FACES), conc=200, executed=True, bound="random interactions", note="against a plain Fresnel surface, unstubbed")
def ordinary(ctx, face):
    """numerically the plain Fresnel surface away from cells and mirror"""
    if ctx.sym:
        raise Unsupported("executed only")
    dev, cells, mirror = device(ctx)
    ray = a_ray(ctx)
    c, a = around(ctx)
    g = Geo(np.array(FACES[face]))
    s = Surface(OptionalMirrorAndSolarCell(dev))
    f = FresnelSurfaceDelegate()
    args = (s, ray, g, c, a)
    R = s.delegate.reflectivity(*args)
    if face in cells:
        ctx.check("zero reflectivity", R == 0.0)
        return
    if face == "bottom" and mirror:
        ctx.check("unit reflectivity", R == 1.0)
    else:
        ctx.check("Fresnel reflectivity", ctx.eq(R, f.reflectivity(*args), 1e-12))
    ctx.check("specular", ctx.eq(s.delegate.reflected_direction(*args), f.reflected_direction(*args), 1e-12))
    if f.reflectivity(*args) < 1.0:
        ctx.check("refraction", ctx.eq(s.delegate.transmitted_direction(*args), f.transmitted_direction(*args), 1e-12))


@harness("C21", [L + "AirGapMirror.reflectivity", L + "AirGapMirror.reflected_direction", L + "LSC.add_air_gap_mirror", "pvtrace.material.surface.Surface.is_reflected", "pvtrace.material.utils.lambertian"],
         params=list(FACES), conc=100)
def air_gap(ctx, face):
    """an air-gap mirror always reflects, specularly or diffusely upward"""
    dev = LSC((1.0, 1.0, 0.1))
    diffuse = ctx.flag("diffuse")
    dev.add_air_gap_mirror(lambertian=diffuse)
    ray = a_ray(ctx)
    c, a = around(ctx)
    n = FACES[face]
    g = Geo(np.array(n) if ctx.conc else n)
    s = Surface(AirGapMirror(dev))
    ctx.check("always reflects", s.is_reflected(ray, g, c, a))
    d = ray.direction
    try:
        out = s.delegate.reflected_direction(s, ray, g, c, a)
    except NotImplementedError:
        # diffuse reflection is only offered on the top face
        ctx.check("refused only off the top face", diffuse and face != "top")
        ctx.cover("refused")
        return
    if diffuse:
        ctx.check("upward", out[2] >= 0)
        ctx.check("a unit direction", ctx.eq(dot(out, out), 1.0))
        ctx.cover("diffuse")
    else:
        dn = dot(d, n)
        ctx.check("specular", ctx.and_(*[ctx.eq(x, y - 2 * dn * z) for x, y, z in zip(out, d, n)]))
        ctx.cover("specular")


@harness("C21", [L + "LSC.add_solar_cell"], params=[("left", "up"), ("top",), "left", 5, ("left", "bottom")], conc=2)
def refused_cells(ctx, facets):
    """cells elsewhere than on the edges are refused and change nothing"""
    d = LSC((1.0, 1.0, 0.1))
    d.add_solar_cell({"far"})
    try:
        d.add_solar_cell(facets)
        ctx.check("refused", False)
    except ValueError:
        ctx.check("refused", True)
    ctx.check("cells unchanged", set(d._solar_cell_surfaces) == {"far"})


# ------------------------------------------------------------------ labels

class Frame:
    """a frame of one row, for masks and columns as label_facets uses them"""

    def __init__(self, row):
        self.row = dict(row)

    @property
    def loc(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.row[k]
        raise Unsupported("frame selection")

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
            if bool(k[0]):
                self.row[k[1]] = v
            return
        if isinstance(k, str) and v is None:
            self.row.setdefault(k, v)
            return
        raise Unsupported("frame assignment")

    def __getattr__(self, k):
        raise Unsupported("frame." + k)


def label(ctx, dev, p, size):
    """the label the real function gives to one point"""
    row = dict(position_x=p[0], position_y=p[1], position_z=p[2])
    if ctx.sym:
        f = Frame(row)
        out = dev.label_facets(f, *size)
        if not isinstance(out, Frame):
            raise Unsupported("another frame")
        return out.row.get("facet")
    import pandas as pd
    other = dict(position_x=0.0, position_y=0.0, position_z=0.0)
    out = dev.label_facets(pd.DataFrame([other, row]), *size)
    v = out["facet"].tolist() if "facet" in out else [None, None]
    ctx.check("a point well inside has no label", v[0] is None or v[0] != v[0])
    return v[1] if isinstance(v[1], str) else None


def a_size(ctx):
    return tuple(ctx.pos("size" + c, lo=0.01, hi=100) for c in "xyz")


@harness("C21", [L + "LSC.label_facets", L + "OptionalMirrorAndSolarCell.reflectivity"], params=list(FACES), conc=40)
def labels(ctx, face):
    """a point on a face gets its name, the one its solar cell goes by"""
    size = a_size(ctx)
    for s in size:
        ctx.assume(s >= 1e-4)
    n = FACES[face]
    p = []
    for k in range(3):
        if n[k]:
            p.append(0.5 * n[k] * size[k])
        else:
            t = ctx.real("t" + "xyz"[k], lo=-0.4999, hi=0.4999)
            p.append(t * size[k])
    dev = LSC(size)
    if face in EDGES:
        dev.add_solar_cell({face})
    got = label(ctx, dev, p, size)
    ctx.check("named after its face", got == face)
    if face in EDGES:
        g = Geo(np.array(n) if ctx.conc else n)
        c, a = around(ctx)
        R = dev_surface(dev).reflectivity(None, Ray(tuple(p), ctx.unit("d"), 555.0), g, c, a)
        ctx.check("where the cell of that name is", ctx.eq(R, 0.0))


def dev_surface(dev):
    return OptionalMirrorAndSolarCell(dev)


@harness("C21", [L + "LSC.label_facets"], conc=80)
def no_label(ctx):
    """a point away from every face plane has no label"""
    size = a_size(ctx)
    p = []
    for k in range(3):
        ctx.assume(size[k] >= 1e-4)
        t = ctx.real("t" + "xyz"[k], lo=-3, hi=3)
        ctx.assume(ctx.and_(ctx.or_(t > 0.5001, t < 0.4999), ctx.or_(t > -0.4999, t < -0.5001)))
        p.append(t * size[k])
    ctx.check("no label", label(ctx, LSC(size), p, size) is None)


# ------------------------------------------------------------------ the scene

class FakeBox:
    def __init__(self, size, material=None, **k):
        self.size, self.material = tuple(size), material


@harness("C21", [L + "LSC._make_scene", L + "LSC.add_luminophore", L + "LSC.add_absorber", L + "LSC.add_scatterer", L + "LSC.add_light"], conc=40)
def scene(ctx):
    """the scene built has the configured size, indices, components, lights and mirror"""
    size = a_size(ctx)
    n0, n1 = ctx.pos("n0", lo=1, hi=2), ctx.pos("n1", lo=1, hi=3)
    wr = ctx.choose("wavelengths", [None, "given"])
    x = np.arange(500, 510, dtype=float)
    dev = LSC(size, n0=n0, n1=n1) if wr is None else LSC(size, wavelength_range=x, n0=n0, n1=n1)
    ctx.check("wavelength range", dev.wavelength_range is x if wr else len(dev.wavelength_range) == 400)
    comps = ctx.choose("components", ["absorber", "scatterer", "both"])
    if comps != "scatterer":
        dev.add_absorber("pmma", 0.25)
    if comps != "absorber":
        dev.add_scatterer("haze", 0.5)
    lights = ctx.choose("lights", [1, 2])
    where = []
    for i in range(lights):
        loc = ctx.vec(f"at{i}")
        rot = ctx.choose(f"rotation{i}", [None, (math.pi, (1.0, 0.0, 0.0))])
        dev.add_light(f"lamp{i}", loc, rotation=rot, direction=f"direction{i}", wavelength=f"wavelength{i}", position=f"position{i}")
        where.append((loc, rot))
    mirror = ctx.flag("mirror")
    if mirror:
        dev.add_air_gap_mirror(lambertian=ctx.flag("diffuse"))
    ctx.stub(lm, "Box", FakeBox)
    dev._make_scene()
    root = dev._scene.root
    kids = {c.name: c for c in root.children}
    ctx.check("one node each", len(kids) == len(root.children) == 1 + mirror + lights)
    w = root.geometry
    ctx.check("world index", ctx.eq(w.material.refractive_index, n0))
    devs = [c for c in root.children if c.geometry is not None and isinstance(c.geometry.material.surface.delegate, OptionalMirrorAndSolarCell)]
    ctx.check("one device", len(devs) == 1)
    g = devs[0].geometry
    ctx.check("device size", ctx.and_(*[ctx.eq(a, b) for a, b in zip(g.size, size)]))
    ctx.check("device index", ctx.eq(g.material.refractive_index, n1))
    ctx.check("device configuration", g.material.surface.delegate.lsc is dev)
    ctx.check("device at the origin", ctx.and_(*[ctx.eq(v, 1.0 if i == j else 0.0) for i, r in enumerate(np.asarray(devs[0].pose).tolist()) for j, v in enumerate(r)]))
    got = {c.name: c for c in g.material.components}
    want = {"absorber": {"pmma"}, "scatterer": {"haze"}, "both": {"pmma", "haze"}}[comps]
    ctx.check("components", set(got) == want)
    if "pmma" in want:
        ctx.check("absorber", type(got["pmma"]) is Absorber and ctx.eq(got["pmma"].coefficient(555.0), 0.25))
    if "haze" in want:
        ctx.check("scatterer", type(got["haze"]) is Scatterer and ctx.eq(got["haze"].coefficient(555.0), 0.5))
    mirrors = [c for c in root.children if c.geometry is not None and isinstance(c.geometry.material.surface.delegate, AirGapMirror)]
    ctx.check("a mirror exactly when asked", len(mirrors) == int(mirror))
    if mirrors:
        m = mirrors[0]
        z = m.location[2]
        ms = m.geometry.size
        ctx.check("mirror below the device", z + 0.5 * ms[2] < -0.5 * size[2])
        ctx.check("mirror as wide as the device", ctx.and_(ctx.eq(ms[0], size[0]), ctx.eq(ms[1], size[1]), ctx.eq(m.location[0], 0.0), ctx.eq(m.location[1], 0.0)))
        ctx.check("mirror configuration", m.geometry.material.surface.delegate.lsc is dev)
    for i, (loc, rot) in enumerate(where):
        n = kids.get(f"lamp{i}")
        ctx.check("light", n is not None and n.light is not None and n.light.name == f"lamp{i}" and n.light.direction == f"direction{i}" and n.light.wavelength == f"wavelength{i}" and n.light.position == f"position{i}")
        ctx.check("light location", ctx.and_(*[ctx.eq(a, b) for a, b in zip(n.location, loc)]))
        z = -1.0 if rot else 1.0
        ctx.check("light orientation", ctx.and_(ctx.eq(n.pose[2][2], z), ctx.eq(n.pose[1][1], z), ctx.eq(n.pose[0][0], 1.0)))
    ctx.check("names", dev.component_names() == want and dev.light_names() == {f"lamp{i}" for i in range(lights)})


# ------------------------------------------------------------------ reports, executed

def face_of(p, size):
    out = []
    for name, n in FACES.items():
        k = [i for i in range(3) if n[i]][0]
        if abs(p[k] - 0.5 * n[k] * size[k]) < 1e-9:
            out.append(name)
    return out[0] if out else None


@harness("C21", [L + "LSC.simulate", L + "LSC.spectrum", L + "LSC.counts", L + "LSC.summary", L + "LSC.label_facets", L + "LSC.expand_coords", L + "LSC._make_dataframe", L + "LSC._make_counts"],
         conc=25, executed=True, bound="random histories, up to 30 rays in one or two simulations")
def reports(ctx):
    """reports count each ray by the face and source of its first hit and of where it ended"""
    if ctx.sym:
        raise Unsupported("pandas")
    rng = random.Random(ctx.int("seed", lo=0, hi=10 ** 6, small=10 ** 6))
    size = (rng.choice([1.0, 4.8]), rng.choice([1.0, 1.8]), rng.choice([0.25, 0.1]))
    dev = LSC(size)
    dev.add_absorber("pmma", 0.1)
    dev.add_light("lamp", (0.0, 0.0, 1.0))
    cells = {e for e in EDGES if rng.random() < 0.5}
    if cells:
        dev.add_solar_cell(cells)

    def on_face():
        n = FACES[rng.choice(list(FACES))]
        return tuple(0.5 * n[k] * size[k] if n[k] else rng.uniform(-0.49, 0.49) * size[k] for k in range(3))

    def ray(p, src):
        return Ray(p, (0.0, 0.0, 1.0), rng.choice([500.0, 600.0, rng.uniform(400, 800)]), source=src)
    hist = []

    def history():
        h = [(ray((0.0, 0.0, 1.0), "lamp"), Event.GENERATE), (ray(on_face(), "lamp"), rng.choice([Event.TRANSMIT, Event.REFLECT]))]
        end = rng.choice(["exit", "exit", "nonradiative", "react", "kill"])
        src = rng.choice(["lamp", "pmma"])
        inside = tuple(rng.uniform(-0.4, 0.4) * s for s in size)
        if end == "exit":
            if rng.random() < 0.7:
                h.append((ray(on_face(), src), Event.TRANSMIT))
            else:
                src = "lamp"
            h.append((ray((50.0, 0.0, 0.3), src), Event.EXIT))
        else:
            h.append((ray(inside, src), Event.ABSORB))
            h.append((ray(inside, src), {"nonradiative": Event.NONRADIATIVE, "react": Event.REACT, "kill": Event.KILL}[end]))
        hist.append(h)
        return h
    ctx.stub(lm, "photon_tracer", Obj(follow=lambda scene, r, **k: history()))
    for n in ([rng.randrange(2, 30)] if rng.random() < 0.5 else [rng.randrange(2, 15), rng.randrange(1, 15)]):
        if dev._scene is None:
            dev._make_scene()
        dev._scene.emit = lambda k: (None for _ in range(k))
        with contextlib.redirect_stdout(io.StringIO()):
            dev.simulate(n)
        if rng.random() < 0.5:
            dev.counts()
        lamp, comp = {"lamp"}, {"pmma"}
        first = [(face_of(h[1][0].position, size), h[1][0].source, h[1][1], h[1][0].wavelength) for h in hist]
        last = []
        for h in hist:
            r, e = h[-2] if h[-1][1] is Event.EXIT else h[-1]
            last.append((face_of(r.position, size), r.source, e, r.wavelength))
        counts = dev.counts()
        for f in FACES:
            for col, data, src in (("Solar In", first, lamp), ("Luminescent In", first, comp), ("Solar Out", last, lamp), ("Luminescent Out", last, comp)):
                ctx.check(col, counts[col][f] == sum(1 for x in data if x[0] == f and x[1] in src))
        f = set(rng.sample(sorted(FACES), rng.randrange(0, 4)))
        src = rng.choice(["all", "lamp", {"pmma"}, {"lamp", "pmma"}])
        evs = rng.choice([None, {"transmit"}, {"nonradiative", "react"}])
        kind = rng.choice(["first", "last"])
        got = sorted(dev.spectrum(facets=f, source=src, kind=kind, events=evs).tolist())
        names = {"lamp", "pmma"} if src == "all" else {src} if isinstance(src, str) else src
        want = sorted(x[3] for x in (first if kind == "first" else last) if (not f or x[0] in f) and x[1] in names and (evs is None or x[2].name.lower() in evs))
        ctx.check("spectrum", got == want)
        incident = sum(1 for x in first if x[0] and x[1] == "lamp")
        if incident:
            s = dev.summary()
            col = sum(1 for x in last if x[0] in cells and x[1] in comp)
            esc = sum(1 for x in last if x[0] and x[0] not in cells and x[1] in comp)
            ctx.check("incident", s["Incident"] == incident)
            ctx.check("optical efficiency", ctx.eq(s["Optical Efficiency"], col / incident))
            if col + esc:
                ctx.check("waveguide efficiency", ctx.eq(s["Waveguide Efficiency"], col / (col + esc)))
            ctx.check("loss", ctx.eq(s["Non-radiative Loss (fraction):"], sum(1 for x in last if x[2] in (Event.NONRADIATIVE, Event.REACT)) / incident))
            ctx.check("geometric concentration", ctx.eq(s["Geometric Concentration"], size[0] * size[1] / (2 * (size[0] + size[1]) * size[2])))
