"""Descriptions of the planted changes (see plant.py)."""

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append((ident, prop, edits, needs, breaks, demo))


SCENE = '''
import numpy as np
from pvtrace import *
from pvtrace.geometry.box import Box
from pvtrace.geometry.sphere import Sphere
from pvtrace.geometry.cylinder import Cylinder
from pvtrace.material.material import Material
from pvtrace.material.component import Absorber, Scatterer, Luminophore, Reactor
from pvtrace.algorithm import photon_tracer
from pvtrace.light.event import Event
from pvtrace.light.ray import Ray
from pvtrace.scene.node import Node
from pvtrace.scene.scene import Scene

def world(r=100.0, n=1.0):
    return Node(name="world", geometry=Sphere(radius=r, material=Material(refractive_index=n)))
'''

bug("c02-kernel-clock", "C02",
    [("pvtrace/engine/_kernel.pyx",
      "            duration += depth * n_container / C_CM_PER_S\n",
      "            duration += depth * S.nidx[hit] / C_CM_PER_S\n")],
    "a ray absorbed inside a medium whose next surface belongs to a node nested in it with another "
    "refractive index, compiled engine",
    "the clock of an absorbed ray advances with the refractive index of the node ahead instead of the "
    "containing medium",
    SCENE + '''
from pvtrace.engine import api
w = world()
host = Node(name="host", parent=w, geometry=Sphere(
    radius=10.0, material=Material(refractive_index=1.5, components=[Absorber(50.0)])))
Node(name="core", parent=host, geometry=Sphere(
    radius=1.0, material=Material(refractive_index=3.0)))
node = Node(name="light", parent=w, light=Light(
    position=lambda: (5.0, 0.0, 0.0), direction=lambda: (-1.0, 0.0, 0.0)))
res = api.simulate(Scene(w), 20, seed=3, record_every=1)
c = 2.99792458e10
for history in res.histories():
    ray, event, _ = history[-1]
    assert event == Event.NONRADIATIVE, event
    assert np.isclose(ray.duration, ray.travelled * 1.5 / c, rtol=1e-9, atol=0.0), (ray.duration, ray.travelled)
''')

bug("c05-sphere-graze", "C05",
    [("pvtrace/engine/_kernel.pyx",
      "    if disc < 0.0:\n        return 0\n    sq = sqrt(disc)\n    t = (-b - sq) / (2.0 * a)\n    if t > EPS:",
      "    if disc < 1e-9:\n        return 0\n    sq = sqrt(disc)\n    t = (-b - sq) / (2.0 * a)\n    if t > EPS:")],
    "a sphere smaller than 15 micrometres, or a ray that grazes a larger one, compiled engine",
    "the two crossings of a small or nearly grazed sphere are not reported",
    SCENE + '''
from pvtrace.engine import api
w = world()
Node(name="bead", parent=w, geometry=Sphere(radius=1e-5, material=Material(refractive_index=1.0)))
Node(name="light", parent=w, light=Light(
    position=lambda: (0.0, 0.0, -0.001), direction=lambda: (0.0, 0.0, 1.0)))
res = api.simulate(Scene(w), 3, seed=3, record_every=1)
for history in res.histories():
    events = [e for _, e, _ in history]
    assert events.count(Event.TRANSMIT) == 2, events
''')

bug("c08-inverse-order", "C08",
    [("pvtrace/scene/node.py",
      "            transform = np.linalg.multi_dot(transforms[::-1])\n",
      "            transform = np.linalg.multi_dot(transforms[::-1] if upwards else transforms)\n")],
    "a conversion from a node down to a descendant two or more levels below it, with rotations or "
    "translations that do not commute",
    "going down several levels the inverse poses are multiplied in the wrong order",
    SCENE + '''
w = world()
a = Node(name="a", parent=w); a.rotate(0.7, (0, 0, 1)); a.translate((1, 2, 3))
b = Node(name="b", parent=a); b.rotate(1.1, (1, 0, 0)); b.translate((0, -1, 4))
p = (0.3, -0.2, 0.9)
direct = np.array(w.point_to_node(p, b))
via = np.array(a.point_to_node(w.point_to_node(p, a), b))
assert np.allclose(direct, via), (direct, via)
assert np.allclose(b.point_to_node(direct, w), p)
''')

bug("c10-tau-gate", "C10",
    [("pvtrace/engine/_kernel.pyx",
      "                    if S.comp_tau_rad[comp] > 0.0:\n",
      "                    if S.comp_tau_rad[comp] > 0.0 and S.comp_qy[comp] < 1.0:\n")],
    "a luminophore with unit quantum yield and a radiative lifetime, compiled engine",
    "the radiative delay is skipped for luminophores of unit quantum yield",
    SCENE + '''
from pvtrace.engine import api
x = np.linspace(400, 800, 81)
y = np.exp(-((x - 500) / 60) ** 2)
e = np.exp(-((x - 620) / 60) ** 2)
w = world()
Node(name="host", parent=w, geometry=Sphere(radius=10.0, material=Material(
    refractive_index=1.0, components=[Luminophore(
        coefficient=np.column_stack((x, 20 * y)), emission=np.column_stack((x, e)),
        quantum_yield=1.0, tau_rad=1e-3)])))
Node(name="light", parent=w, light=Light())
res = api.simulate(Scene(w), 20, seed=3, record_every=1)
found = 0
for history in res.histories():
    for (r0, e0, _), (r1, e1, _) in zip(history, history[1:]):
        if e1 == Event.EMIT:
            found += 1
            assert r1.duration > r0.duration, (r0, r1)
assert found
''')


bug("c01-exit-past-limit", "C01",
    [("pvtrace/algorithm/photon_tracer.py",
      "        if count > maxsteps or ray.travelled > maxpathlength:\n",
      "        if (count > maxsteps and hit is not scene.root) or ray.travelled > maxpathlength:\n")],
    "a ray that reaches the step limit exactly when only the world boundary is left ahead, Python tracer",
    "a ray at the step limit leaves through the world boundary instead of being killed",
    SCENE + '''
w = world()
Node(name="a", parent=w, geometry=Sphere(radius=1.0, material=Material(refractive_index=1.0)))
ray = Ray(position=(0.0, 0.0, -5.0), direction=(0.0, 0.0, 1.0), wavelength=555.0)
for limit in (1, 2, 3, 4):
    h = photon_tracer.follow(Scene(w), ray, maxsteps=limit)
    events = [e for _, e, *_ in h]
    assert len(events) <= limit + 2, (limit, events)
    want = Event.KILL if limit < 3 else Event.EXIT
    assert events[-1] == want, (limit, events)
''')

bug("c03-local-normal", "C03",
    [("pvtrace/engine/_kernel.pyx",
      "            specular_reflect(direction, nrm, new_dir)\n",
      "            specular_reflect(direction, nrm_local, new_dir)\n")],
    "a ray reflected by a node that is rotated with respect to the world, compiled engine",
    "the reflected direction is computed with the normal in the node's frame instead of the world's",
    SCENE + '''
from pvtrace.engine import api
w = world(n=3.0)
box = Node(name="box", parent=w, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.0)))
box.rotate(0.9, (0.0, 1.0, 0.0))
Node(name="light", parent=w, light=Light(
    position=lambda: (0.0, 0.0, -6.0), direction=lambda: (0.0, 0.0, 1.0)))
res = api.simulate(Scene(w), 5, seed=1, record_every=1)
n = 0
for history in res.histories():
    for (r0, e0, _), (r1, e1, meta) in zip(history, history[1:]):
        if e1 == Event.REFLECT:
            d = np.array(r0.direction); m = np.array(meta["normal"]); n += 1
            assert np.allclose(r1.direction, d - 2 * d.dot(m) * m)
assert n
''')

bug("c04-critical-early", "C04",
    [("pvtrace/material/utils.py",
      "    if n2 < n1 and angle > np.arcsin(n2 / n1):\n",
      "    if n2 < n1 and angle > np.arcsin(n2 / n1) - 2e-3:\n")],
    "a ray within two milliradians below the critical angle, Python tracer",
    "total internal reflection sets in before the critical angle",
    '''
import numpy as np
from pvtrace.material.utils import fresnel_reflectivity
n1, n2 = 1.5, 1.0
angle = np.arcsin(n2 / n1) - 1e-3
R = fresnel_reflectivity(angle, n1, n2)
back = np.arcsin(n1 / n2 * np.sin(angle))
assert R < 0.95, R
assert np.isclose(R, fresnel_reflectivity(back, n2, n1)), R
''')

bug("c06-cap-band", "C06",
    [("pvtrace/engine/_kernel.pyx",
      "        if fabs(p[2] + half) <= 1e-8 + 1e-5 * fabs(half):\n",
      "        if p[2] + half <= 1e-8 + 1e-3 * fabs(half):\n")],
    "a ray crossing the curved side of a cylinder within 0.1% of the half length of its lower cap, compiled engine",
    "points on the curved side near the lower cap are given the cap's normal",
    SCENE + '''
from pvtrace.engine import api
w = world()
Node(name="rod", parent=w, geometry=Cylinder(length=20.0, radius=1.0, material=Material(refractive_index=1.0)))
Node(name="light", parent=w, light=Light(
    position=lambda: (-5.0, 0.0, -9.995), direction=lambda: (1.0, 0.0, 0.0)))
res = api.simulate(Scene(w), 2, seed=1, record_every=1)
for history in res.histories():
    normals = [m["normal"] for _, e, m in history if e == Event.TRANSMIT]
    assert len(normals) == 2, history
    assert np.allclose(normals[0], (-1, 0, 0)) and np.allclose(normals[1], (1, 0, 0)), normals
''')

bug("c07-far-ties", "C07",
    [("pvtrace/scene/scene.py",
      "            d = np.linalg.norm(v)\n            return d\n",
      "            d = np.linalg.norm(v)\n            return round(float(d), 3)\n")],
    "two surfaces less than half a thousandth apart along the ray, the outer one's node listed first",
    "nearly coincident surfaces are taken in the order of the scene tree instead of by distance",
    SCENE + '''
w = world()
a = Node(name="outer", parent=w, geometry=Sphere(radius=1.0002, material=Material(refractive_index=1.2)))
b = Node(name="inner", parent=a, geometry=Sphere(radius=1.0, material=Material(refractive_index=1.5)))
ray = Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=500.0)
hit, (container, adjacent), point, distance = photon_tracer.next_hit(Scene(w), ray)
assert hit is b and container is b and adjacent is a, (hit, container, adjacent)
assert abs(distance - 1.0) < 1e-9
''')

bug("c09-thin-medium", "C09",
    [("pvtrace/engine/_kernel.pyx",
      "cdef double ALPHA_ZERO = 1e-8\n",
      "cdef double ALPHA_ZERO = 1e-3\n")],
    "a weakly absorbing medium (attenuation below 1e-3 per unit length) and long paths, compiled engine",
    "weakly absorbing media do not absorb at all",
    SCENE + '''
from pvtrace.engine import api
w = world(1e6)
Node(name="fog", parent=w, geometry=Sphere(radius=1e5, material=Material(
    refractive_index=1.0, components=[Absorber(5e-4)])))
Node(name="light", parent=w, light=Light())
res = api.simulate(Scene(w), 50, seed=1, record_every=1)
for history in res.histories():
    assert history[-1][1] == Event.NONRADIATIVE, history[-1]
''')

bug("c11-hist-last-edge", "C11",
    [("pvtrace/material/distribution.py",
      "            cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))\n",
      "            cdf = np.cumsum(np.sqrt(y[:-1] * y[1:]) * np.diff(x))\n")
     if False else
     ("pvtrace/material/distribution.py",
      "            if not np.all(np.diff(x) > 0):\n",
      "            if not np.all(np.diff(x) >= 0):\n")],
    "a spectrum table in which a position is repeated",
    "tables with repeated positions are accepted",
    '''
import numpy as np
from pvtrace.material.distribution import Distribution
try:
    Distribution(np.array([400.0, 500.0, 500.0, 600.0]), np.array([1.0, 2.0, 3.0, 1.0]))
except ValueError:
    pass
else:
    raise SystemExit("accepted a repeated position")
''')

bug("c12-bundle-cube", "C12",
    [("pvtrace/engine/emit.py",
      "            np.random.uniform(-delegate.z, delegate.z, n),\n",
      "            np.random.uniform(-delegate.y, delegate.z, n),\n")],
    "a cube light mask whose y half-size exceeds its z half-size, compiled engine",
    "bundle positions of a cube mask leave the cube",
    SCENE + '''
from pvtrace.engine.emit import emit_bundle
from pvtrace.light.light import CubeMask
w = world()
Node(name="light", parent=w, light=Light(position=CubeMask(1.0, 4.0, 0.5)))
pos, _, _, _ = emit_bundle(Scene(w), 500)
assert np.all(np.abs(pos[:, 2]) <= 0.5), np.abs(pos[:, 2]).max()
''')

bug("c13-shares-capped", "C13",
    [("pvtrace/scene/scene.py", "        rays[0] += remainder\n", "        rays[0] += min(remainder, num_rays_per_worker)\n")],
    "more left-over rays than rays per worker, e.g. 15 rays over 8 workers",
    "fewer rays than requested are thrown",
    SCENE + '''
w = world()
Node(name="light", parent=w, light=Light())
got = Scene(w).simulate(15, workers=8)
assert len(got) == 15, len(got)
''')

bug("c13-bundle-rotation", "C13",
    [("pvtrace/engine/emit.py", "        positions[rows] = pos @ rotation.T + translation\n", "        positions[rows] = (pos + translation) @ rotation.T if len(rows) == 1 else pos @ rotation.T + translation\n")],
    "a turned and displaced light which throws exactly one ray of the bundle",
    "the ray starts at the wrong place",
    SCENE + '''
from pvtrace.engine.emit import emit_bundle
w = world()
l = Node(name="light", parent=w, light=Light())
l.look_at((1.0, 0.0, 0.0))
l.translate((1.0, 2.0, 3.0))
want = l.point_to_node((0.0, 0.0, 0.0), w)
for n in (1, 2, 5):
    pos = emit_bundle(Scene(w), n)[0]
    assert np.allclose(pos, want), (n, pos)
''')

bug("c14-history-slots", "C14",
    [("pvtrace/engine/_kernel.pyx", "                base = (i // record_every) * max_events\n", "                base = (i / record_every) * (max_events - (1 if n_recorded > 64 else 0))\n")
     if False else
     ("pvtrace/engine/_kernel.pyx", "        n_recorded = (n + record_every - 1) // record_every\n", "        n_recorded = max(1, n // record_every)\n")],
    "recording every k-th ray when the number of rays is not a multiple of k",
    "the last recorded ray is written past the end of the event log",
    SCENE + '''
from pvtrace.engine import api
w = world()
Node(name="light", parent=w, light=Light())
for n, k in ((7, 3), (10, 10), (11, 10), (1, 5)):
    res = api.simulate(Scene(w), n, seed=1, record_every=k)
    got = len(list(res.histories()))
    assert got == -(-n // k), (n, k, got)
''')

bug("c15-heatmap-rows", "C15",
    [("pvtrace/engine/tally.py", "                    bins[ia * hist.b.bins + ib] += 1\n", "                    bins[ib + ia * min(hist.a.bins, hist.b.bins)] += 1\n")],
    "a heat map with more columns than rows, in the reference tally",
    "the reference implementation puts values in the wrong cell",
    SCENE + '''
from pvtrace.engine.recorder import Recorder, Heatmap
from pvtrace.engine.tally import tally_histories
from pvtrace.engine import api
from pvtrace.material.utils import Cone
w = world()
b = Node(name="box", parent=w, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.5)))
b.recorders = [Recorder("r", "entering", histograms=[Heatmap("x", "y", (-1.0, 1.0, 3), (-1.0, 1.0, 7))])]
l = Node(name="light", parent=w, light=Light(direction=Cone(0.3)))
l.translate((0.0, 0.0, -3.0))
res = api.simulate(Scene(w), 400, seed=2, record_every=1)
ref = tally_histories(Scene(w), list(res.histories()))["r"]
x, y = np.asarray(ref._bins[0]).ravel(), np.asarray(res.recorders["r"]._bins[0]).ravel()
assert x.sum() > 0 and np.array_equal(x, y), (x, y)
''')

bug("c15-crossings-once", "C15",
    [("pvtrace/engine/tally.py", "                state.crossings += 1\n                if recorder.name in seen:\n                    continue\n", "                if recorder.name in seen:\n                    if event != Event.REFLECT:\n                        state.crossings += 1\n                    continue\n                state.crossings += 1\n")],
    "a ray reflected more than once from the same node, in the reference tally",
    "further reflections are not counted as crossings",
    SCENE + '''
from pvtrace.engine.recorder import Recorder
from pvtrace.engine.tally import tally_histories
from pvtrace.light.ray import Ray
w = world()
b = Node(name="box", parent=w, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.5)))
b.recorders = [Recorder("r", "reflected")]
ray = Ray(position=(0.0, 0.0, 1.0), direction=(0.0, 0.0, 1.0), wavelength=500.0)
m = {"hit": "box", "container": "world", "adjacent": "box", "normal": (0.0, 0.0, 1.0)}
h = [(ray, Event.GENERATE, None), (ray, Event.REFLECT, m), (ray, Event.REFLECT, m), (ray, Event.EXIT, {"hit": "world"})]
r = tally_histories(Scene(w), [h])["r"]
got = getattr(r, "crossings", None)
assert got == 2, vars(r)
''')

bug("c16-duplicate-recorders", "C16",
    [("pvtrace/engine/compiler.py", "        names = [rec.name for _, rec in recorders]\n        if len(set(names)) != len(names):\n", "        names = [rec.name for _, rec in recorders]\n        if len(set((i, rec.name) for i, rec in recorders)) != len(names):\n")],
    "recorders of the same name on two different nodes",
    "the scene compiles and one recorder's results are lost",
    SCENE + '''
from pvtrace.engine.recorder import Recorder
import pvtrace.engine as engine
w = world()
for i, n in enumerate(("a", "b")):
    x = Node(name=n, parent=w, geometry=Box((1.0, 1.0, 1.0), material=Material(refractive_index=1.5)))
    x.translate((0.0, 0.0, 3.0 * i))
    x.recorders = [Recorder("same", "entering")]
try:
    engine.compile_scene(Scene(w))
except engine.UnsupportedSceneError:
    pass
else:
    raise SystemExit("accepted two recorders of the same name")
''')

bug("c16-shared-table", "C16",
    [("pvtrace/engine/compiler.py", "        start = len(xs)\n        if dist._x is None:\n", "        start = len(xs)\n        if dist._x is not None and start >= len(dist._x) and np.array_equal(xs[-len(dist._x):], dist._x):\n            return start - len(dist._x), len(dist._x)\n        if dist._x is None:\n")],
    "two consecutive components tabulated at the same wavelengths with different values",
    "the second component absorbs with the first one's spectrum",
    SCENE + '''
import pvtrace.engine as engine
x = np.array([400.0, 500.0, 600.0])
a = Absorber(np.column_stack((x, [1.0, 2.0, 3.0])))
b = Absorber(np.column_stack((x, [5.0, 6.0, 7.0])))
w = world()
Node(name="box", parent=w, geometry=Box((1.0, 1.0, 1.0), material=Material(refractive_index=1.5, components=[a, b])))
c = engine.compile_scene(Scene(w))
s, n = int(c.comp_abs_start[1]), int(c.comp_abs_n[1])
assert list(c.abs_y[s:s + n]) == [5.0, 6.0, 7.0], c.abs_y[s:s + n]
''')

bug("c17-facet-like", "C17",
    [("pvtrace/cli/db.py", '        inner.append("AND facet = ?")\n', '        inner.append("AND facet LIKE ?")\n')],
    "facet names differing in case only, or containing _ or %",
    "rays at other facets are counted",
    '''
import sqlite3
import pvtrace.cli.db as db
import pvtrace.cli.main as main
import tempfile, os
d = tempfile.mkdtemp()
path = os.path.join(d, "t.sqlite3")
main.prepare_database(path)
c = sqlite3.connect(path)
for i, f in enumerate(("top", "TOP", "t_p", "tip")):
    c.execute("INSERT INTO ray VALUES (?, 0, 0, 0, 0, 0, 1, 500, 's', 0, 0)", (i,))
    c.execute("INSERT INTO event VALUES (?, 'TRANSMIT', NULL, 'box', 'world', 'box', ?, 0, 0, 1)", (i + 1, f))
got = {f: c.execute(*db.sql_count_entering_into_node("box", facet=f)).fetchone()[0] for f in ("top", "t_p", "tip")}
assert got == {"top": 1, "t_p": 1, "tip": 1}, got
''')

bug("c17-strict-tolerance", "C17",
    [("pvtrace/cli/db.py", 'lines.append(f"AND (ABS(? - {column}) <= ?)")', 'lines.append(f"AND (ABS(? - {column}) < ?)")')],
    "a tolerance of zero, or a component exactly at the tolerance",
    "rays on a face whose normal is given exactly are not counted",
    '''
import sqlite3, tempfile, os
import pvtrace.cli.db as db
import pvtrace.cli.main as main
path = os.path.join(tempfile.mkdtemp(), "t.sqlite3")
main.prepare_database(path)
c = sqlite3.connect(path)
c.execute("INSERT INTO ray VALUES (0, 0, 0, 0, 0, 0, 1, 500, 's', 0, 0)")
c.execute("INSERT INTO event VALUES (1, 'TRANSMIT', NULL, 'box', 'world', 'box', NULL, 0, 0, 1)")
assert c.execute(*db.sql_count_entering_into_node("box", nz=1.0, atol=0.0)).fetchone()[0] == 1
''')

bug("c18-throw-ids-forgotten", "C18",
    [("pvtrace/cli/main.py", '''                else:
                    if pid in history:
                        history.pop(pid)
''', '''                else:
                    if pid in history:
                        history.pop(pid)
                        global_ids.pop((pid, throw_idx - 1), None)
''')],
    "rendering every n-th throw while two workers' throws interleave",
    "a later throw reuses the id of another",
    '''
import os, queue, sqlite3, tempfile
import pvtrace.cli.main as main
from pvtrace.light.ray import Ray
from pvtrace.light.event import Event
path = os.path.join(tempfile.mkdtemp(), "t.sqlite3")
main.prepare_database(path)
q = queue.Queue()
ray = Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=500.0)
for pid, n in ((1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (2, 2), (1, 3)):
    q.put((pid, n, ray, Event.GENERATE, None))
class Stop:
    def is_set(self): return True
class Bar:
    def update(self, n): pass
main.monitor_queue(path, q, Stop(), Bar(), None, None, True, 4, 1)
ids = [r[0] for r in sqlite3.connect(path).execute("SELECT throw_id FROM ray")]
assert len(ids) == 7 and len(set(ids)) == 7, ids
''')

bug("c19-emission-phase", "C19",
    [("pvtrace/cli/parse.py", '''        phase_function = isotropic_phase_function
        quantum_yield = 1.0
        if "emission" in spec:
''', '''        phase_function = isotropic_phase_function
        quantum_yield = 1.0
        if "emission" in spec and len(spec["emission"]) > 2:
''')],
    "a luminophore with a quantum yield but no phase function",
    "the quantum yield is taken as one",
    '''
import os, tempfile, contextlib, io
from pvtrace.cli.parse import parse
d = tempfile.mkdtemp()
open(os.path.join(d, "s.csv"), "w").write(",x,y\\n0,400,1.5\\n1,500,2.5\\n")
open(os.path.join(d, "scene.yml"), "w").write("""version: "1.0"
nodes:
  world:
    sphere: {radius: 10.0, material: {refractive-index: 1.0, components: [dye]}}
components:
  dye:
    luminophore:
      absorption: {coefficient: 2.5, spectrum: {file: s.csv}}
      emission: {quantum-yield: 0.25, spectrum: {file: s.csv}}
""")
with contextlib.redirect_stdout(io.StringIO()):
    s = parse(os.path.join(d, "scene.yml"))
assert s.root.geometry.material.components[0].quantum_yield == 0.25
''')

bug("c20-recorders-by-prefix", "C20",
    [("pvtrace/studio/server.py", '''            if data["recorders"][rec_name].get("node") == name:
''', '''            if rec_name.startswith(f"{name}-"):
''')],
    "deleting a node whose recorders were named by hand, or whose name begins another's",
    "recorders of other nodes are deleted",
    '''
import contextlib, io, os, tempfile, yaml
from pvtrace.studio import server
TEXT = """version: "1.0"
nodes:
  world:
    sphere: {radius: 10.0, material: {refractive-index: 1.0}}
  box:
    box: {size: [1.0, 1.0, 1.0], material: {refractive-index: 1.5}}
  box-2:
    location: [3.0, 0.0, 0.0]
    box: {size: [1.0, 1.0, 1.0], material: {refractive-index: 1.5}}
recorders:
  box-2-top: {node: box-2, event: escaping}
  box-top: {node: box, event: escaping}
"""
os.chdir(tempfile.mkdtemp())
with contextlib.redirect_stdout(io.StringIO()):
    st = server.Studio()
    st.apply(TEXT)
    new = yaml.safe_load(server._patch(st, {"op": "delete-node", "node": "box"}))
assert list(new["recorders"]) == ["box-2-top"], new["recorders"]
''')

bug("c20-move-offset", "C20",
    [("pvtrace/studio/server.py", '''        local = studio.scene.root.point_to_node(tuple(world), node.parent)
''', '''        local = [
            w - p for w, p in zip(
                world,
                node.parent.point_to_node((0.0, 0.0, 0.0), studio.scene.root),
            )
        ]
''')],
    "moving a node whose parent is turned",
    "the node ends somewhere else",
    '''
import contextlib, io, os, tempfile, yaml
import numpy as np
from pvtrace.studio import server
TEXT = """version: "1.0"
nodes:
  world:
    sphere: {radius: 100.0, material: {refractive-index: 1.0}}
  a:
    location: [1.0, 2.0, 3.0]
    direction: [1.0, 0.0, 0.0]
    box: {size: [9.0, 9.0, 9.0], material: {refractive-index: 1.5}}
  b:
    parent: a
    sphere: {radius: 0.5, material: {refractive-index: 1.2}}
"""
os.chdir(tempfile.mkdtemp())
with contextlib.redirect_stdout(io.StringIO()):
    st = server.Studio()
    st.apply(TEXT)
    st.apply(server._patch(st, {"op": "move", "node": "b", "world_position": [2.0, 1.0, 4.0]}))
b = [n for n in st.scene.root.descendants if n.name == "b"][0]
assert np.allclose(b.point_to_node((0.0, 0.0, 0.0), st.scene.root), (2.0, 1.0, 4.0), atol=1e-5)
''')

bug("c21-cell-refracts", "C21",
    [("pvtrace/device/lsc.py", '''            or (np.allclose((0, -1, 0), normal) and "near" in cell_locations)
            or (np.allclose((0, 1, 0), normal) and "far" in cell_locations)
        ):
''', '''            or (np.allclose((0, -1, 0), normal) and "near" in cell_locations)
            or (np.allclose((0, 1, 0), normal) and "near" in cell_locations)
        ):
''')],
    "solar cells on only one of the near and far edges",
    "rays are bent at a cell, and unbent at a bare edge",
    '''
import numpy as np
from pvtrace.device.lsc import LSC, OptionalMirrorAndSolarCell
from pvtrace.light.ray import Ray
lsc = LSC((5.0, 5.0, 1.0))
lsc.add_solar_cell({"far"})
d = OptionalMirrorAndSolarCell(lsc)
class G:
    def normal(self, p): return (0.0, 1.0, 0.0)
v = tuple((np.array((0.3, 0.8, 0.2)) / np.linalg.norm((0.3, 0.8, 0.2))).tolist())
ray = Ray(position=(0.0, 2.5, 0.0), direction=v, wavelength=500.0)
class M: refractive_index = 1.5
class W: refractive_index = 1.0
class N:
    def __init__(self, m):
        class g: material = m
        self.geometry = g
got = d.transmitted_direction(None, ray, G(), N(M), N(W))
assert np.allclose(got, v), got
''')

bug("c23-rounded-band", "C23",
    [("pvtrace/light/utils.py", "    w = int(nanometers)\n", "    w = round(nanometers)\n")],
    "a wavelength just outside the visible band, e.g. 379.7 nm",
    "a colour is given to an invisible wavelength",
    '''
from pvtrace.light.utils import wavelength_to_rgb
assert wavelength_to_rgb(379.7) == (0, 0, 0)
assert wavelength_to_rgb(780.9) != (0, 0, 0)
''')

bug("c22-rays-in-place", "C22",
    [("pvtrace/engine/_kernel.pyx", '''] pos_work = np.ascontiguousarray(positions).copy()
''', '''] pos_work = np.ascontiguousarray(positions)
'''),
     ("pvtrace/engine/_kernel.pyx", '''] dir_work = np.ascontiguousarray(directions).copy()
''', '''] dir_work = np.ascontiguousarray(directions)
''')],
    "tracing the same ray arrays a second time (the engine's own emission makes new arrays each time)",
    "tracing changes the caller's rays, so the same rays and seed give another result the second time",
    '''
import numpy as np
from pvtrace import *
from pvtrace.engine import _kernel
from pvtrace.engine.compiler import compile_scene
world = Node(name="world", geometry=Sphere(radius=10.0, material=Material(refractive_index=1.0)))
Node(name="ball", parent=world, geometry=Sphere(radius=1.0, material=Material(refractive_index=1.5)))
c = compile_scene(Scene(world))
pos = np.array([[0.2, 0.1, -3.0], [0.0, 0.3, -3.0]])
d = np.array([[0.0, 0.0, 1.0], [0.0, 0.0, 1.0]])
w = np.array([500.0, 600.0])
go = lambda t: _kernel.trace_bundle(c, pos, d, w, 7, 100, 64, 0, t, 1)
a, b = go(1), go(2)
assert all(np.array_equal(a[k], b[k]) for k in a)
''')

bug("c22-seed-zero", "C22",
    [("pvtrace/engine/api.py", '''    if seed is None:
        seed = np.random.randint(0, 2 ** 31 - 1)

    from pvtrace.engine.emit''', '''    if not seed:
        seed = np.random.randint(0, 2 ** 31 - 1)

    from pvtrace.engine.emit''')],
    "the seed 0",
    "a simulation seeded with 0 is not repeatable",
    '''
import numpy as np
from pvtrace import *
from pvtrace import engine
world = Node(name="world", geometry=Sphere(radius=10.0, material=Material(refractive_index=1.0)))
Node(name="ball", parent=world, geometry=Sphere(radius=2.0, material=Material(refractive_index=1.5, components=[Absorber(coefficient=0.3)])))
Node(name="light", parent=world, light=Light())
s = Scene(world)
def go(k):
    np.random.seed(k)
    return [[(r.position, e) for r, e, _ in h] for h in engine.simulate(s, 20, seed=0, workers=1).histories()]
assert go(1) == go(2)
''')

bug("c14-draw-of-one", "C14",
    [("pvtrace/engine/_kernel.pyx", '''(result >> 11) * (1.0 / 9007199254740992.0)''', '''(result >> 10) * (1.0 / 18014398509481984.0)''')],
    "a generator state whose word is within 2^10 of 2^64 (54 bits do not fit a double)",
    "a random draw can be exactly 1",
    '''
import importlib.util, os, subprocess, sys, sysconfig, tempfile
import numpy as np
tmp = tempfile.mkdtemp()
try:
    src = open("pvtrace/engine/_kernel.pyx").read() + """

def _draw(unsigned long long a, unsigned long long b):
    cdef RNG rng
    rng.s0 = a
    rng.s1 = 1
    rng.s2 = 2
    rng.s3 = b
    return rng_uniform(&rng)
"""
    f = os.path.join(tmp, "demo_kernel.pyx")
    open(f, "w").write(src)
    from Cython.Compiler.Main import compile, CompilationOptions
    compile(f, CompilationOptions(language_level=3))
    so = os.path.join(tmp, "demo_kernel.so")
    subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-fopenmp", "-I" + sysconfig.get_path("include"), "-I" + np.get_include(), f[:-3] + "c", "-o", so, "-lm"], check=True)
    spec = importlib.util.spec_from_file_location("demo_kernel", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for a, b in ((2 ** 64 - 1, 0), (2 ** 64 - 5, 0), (2 ** 63, 2 ** 63 - 1), (0, 0), (123, 456)):
        assert 0.0 <= m._draw(a, b) < 1.0, (a, b)
finally:
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
''')

bug("c18-stop-early", "C18",
    [("pvtrace/cli/main.py", "        if stop.is_set() and queue.empty():\n", "        if stop.is_set():\n")],
    "events still waiting in the queue when the last worker finishes",
    "the events still queued are not stored",
    '''
import contextlib, io, os, queue, sqlite3, tempfile, threading
from pvtrace.cli import main
from pvtrace.light.ray import Ray
from pvtrace.light.event import Event
d = tempfile.mkdtemp()
p = os.path.join(d, "x.sqlite3")
with contextlib.redirect_stdout(io.StringIO()):
    main.prepare_database(p)
q, stop = queue.Queue(), threading.Event()
for t in range(3):
    q.put((1, t, Ray((0.0, 0.0, 0.0), (0.0, 0.0, 1.0), 555.0, source="l"), Event.GENERATE, None))
stop.set()
class Bar:
    def update(self, n): pass
main.monitor_queue(p, q, stop, Bar(), None, None, True, 10, 1)
assert sqlite3.connect(p).execute("select count(*) from ray").fetchone()[0] == 3
''')

bug("c19-scatterer-yield", "C19",
    [("pvtrace/cli/parse.py", '''            return Scatterer(
                spectrum,
                quantum_yield=quantum_yield,
                phase_function=phase_function,
                name=name,
                hist=hist,
            )
        elif spectrum is not None:
            return Scatterer(
                spectrum,
                quantum_yield=quantum_yield,
''', '''            return Scatterer(
                spectrum,
                quantum_yield=quantum_yield,
                phase_function=phase_function,
                name=name,
                hist=hist,
            )
        elif spectrum is not None:
            return Scatterer(
                spectrum,
''')],
    "a scatterer given by a spectrum alone with a quantum yield below one",
    "its quantum yield is ignored",
    '''
import contextlib, io, os, tempfile
from pvtrace.cli.parse import parse
d = tempfile.mkdtemp()
open(os.path.join(d, "s.csv"), "w").write("i,x,y\\n0,400,1.5\\n1,500,2.5\\n2,600,0.5\\n")
p = os.path.join(d, "scene.yml")
open(p, "w").write("""
version: "1.0"
nodes:
  world:
    sphere: {radius: 10.0, material: {refractive-index: 1.0}}
  a:
    sphere: {radius: 1.0, material: {refractive-index: 1.5, components: [s]}}
components:
  s:
    scatterer: {spectrum: {file: s.csv}, quantum-yield: 0.25}
""")
with contextlib.redirect_stdout(io.StringIO()):
    scene = parse(p)
a = [n for n in scene.root.descendants if n.name == "a"][0]
assert a.geometry.material.components[0].quantum_yield == 0.25
''')

bug("c21-cells-replaced", "C21",
    [("pvtrace/device/lsc.py", "        self._solar_cell_surfaces = facets.union(self._solar_cell_surfaces)\n", "        self._solar_cell_surfaces = facets\n")],
    "solar cells added in two calls",
    "the cells added first are forgotten",
    '''
from pvtrace.device.lsc import LSC, OptionalMirrorAndSolarCell
from pvtrace.light.ray import Ray
lsc = LSC((5.0, 5.0, 1.0))
lsc.add_solar_cell({"left"})
lsc.add_solar_cell({"right"})
class G:
    def normal(self, p): return (-1.0, 0.0, 0.0)
class M: refractive_index = 1.5
class W: refractive_index = 1.0
class N:
    def __init__(self, m):
        class g: material = m
        self.geometry = g
ray = Ray(position=(-2.5, 0.0, 0.0), direction=(-0.6, 0.8, 0.0), wavelength=500.0)
assert OptionalMirrorAndSolarCell(lsc).reflectivity(None, ray, G(), N(M), N(W)) == 0.0
''')

bug("c23-negative-clamp", "C23",
    [("pvtrace/light/utils.py", "        return max(0, min(x, 255))\n", "        return min(abs(x), 255)\n")],
    "a component below zero",
    "a negative component is not clamped to zero",
    '''
from pvtrace.light.utils import rgb_to_hex_int
for rgb in ((0, 0, 0), (255, 0, 0), (1, 2, 3), (200, 100, 15), (16, 16, 16), (-4, 300, 7)):
    r, g, b = (max(0, min(255, x)) for x in rgb)
    assert rgb_to_hex_int(rgb) == r * 65536 + g * 256 + b, rgb
''')


WS = '''
import contextlib, io, logging, os, tempfile, warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
from fastapi.testclient import TestClient
from pvtrace.studio import server
TEXT = """version: "1.0"
nodes:
  world:
    sphere: {radius: 10.0, material: {refractive-index: 1.0}}
  slab:
    box: {size: [5.0, 5.0, 0.5], material: {refractive-index: 1.5}}
  core:
    parent: slab
    location: [1.0, 0.0, 0.0]
    sphere: {radius: 0.2, material: {refractive-index: 1.7}}
  lamp:
    light: {wavelength: 555, mask: {direction: {cone: {half-angle: 90}}}}
recorders:
  inside: {node: core, event: entering}
  out: {node: slab, event: escaping}
"""
os.chdir(tempfile.mkdtemp())
with open("doc.yml", "w") as f:
    f.write(TEXT)

def run(**ask):
    with contextlib.redirect_stdout(io.StringIO()):
        app = server.create_app("doc.yml")
        with TestClient(app) as c, c.websocket_connect("/ws") as ws:
            ws.send_json(dict(cmd="run", **ask))
            out = []
            while True:
                m = ws.receive_json()
                out.append(m)
                if m["type"] in ("done", "error"):
                    return out
'''

bug("c24-paths-limit", "C24",
    [("pvtrace/studio/server.py", '''                    sent_paths += len(paths)
''', '''                    sent_paths = len(paths)
''')],
    "a run of at least three bundles that together record more rays than the viewport asked for",
    "more ray paths are sent than asked for",
    WS + '''
got = run(rays=4000, bundle=1000, seed=3, record_every=100, max_paths=15)
n = sum(len(m["paths"]) for m in got if m["type"] == "bundle")
assert got[-1]["type"] == "done" and n == 15, n
''')

bug("c24-mean-by-crossings", "C24",
    [("pvtrace/studio/server.py", '''        n = max(int(distinct[r]), 1)
''', '''        n = max(int(crossings[r]), 1)
''')],
    "a recorder whose event happens more than once to the same ray",
    "mean wavelength and angle are divided by the number of crossings although only the first of each ray is summed",
    WS + '''
got = run(rays=2000, bundle=500, seed=3, record_every=0)
last = [m for m in got if m["type"] == "bundle"][-1]["recorders"]
for r in ("inside", "out"):
    assert last[r]["rays"] > 0 and abs(last[r]["mean_wavelength"] - 555) < 1e-6, last[r]
''')

bug("c15-own-frame", "C15",
    [("pvtrace/engine/tally.py", '''    if node is root:
        return tuple(position)''', '''    if node is root or not np.any(node.location):
        return tuple(position)''')],
    "a recorder with a position histogram on a node that is turned but not moved, in the reference tally",
    "positions are tallied in the world's frame instead of the node's",
    SCENE + '''
from pvtrace.engine.recorder import Recorder, Histogram
from pvtrace.engine.tally import tally_histories
from pvtrace.engine import api
w = world()
b = Node(name="box", parent=w, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.5)))
b.rotate(np.pi / 2, (1.0, 0.0, 0.0))
b.recorders = [Recorder("r", "entering", histograms=[Histogram("y", -1.5, 1.5, 3), Histogram("z", -1.5, 1.5, 3)])]
l = Node(name="light", parent=w, light=Light())
l.translate((0.0, 0.0, -3.0))
res = api.simulate(Scene(w), 20, seed=2, record_every=1)
ref = tally_histories(Scene(w), list(res.histories()))["r"]
for i in (0, 1):
    x, y = ref.histogram(i)[1], res.recorders["r"].histogram(i)[1]
    assert x.sum() > 0 and np.array_equal(x, y), (i, x, y)
''')

bug("c13-thinned-names", "C13",
    [("pvtrace/engine/api.py", "np.arange(0, self.num_rays, self.record_every, dtype=np.int64)",
      "np.arange(self.num_recorded, dtype=np.int64) * (self.num_rays // max(self.num_recorded, 1))")],
    "several lights and a number of rays that is not a multiple of record_every",
    "recorded histories are named after the light of another ray",
    SCENE + '''
from pvtrace.engine import api
w = world()
for i in range(3):
    l = Node(name=f"l{i}", parent=w, light=Light(name=f"l{i}"))
    l.translate((float(i), 0.0, -3.0))
res = api.simulate(Scene(w), 10, seed=2, record_every=4)
for h in res.histories():
    ray = h[0][0]
    assert ray.source == f"l{int(round(ray.position[0]))}", (ray.position, ray.source)
''')

bug("c04-faint", "C04",
    [("pvtrace/material/surface.py", '''        if r == 0.0:
            return False''', '''        if r < 1e-4:
            return False''')],
    "an interface between nearly matched indices (reflectivity below 1e-4) and a draw below it",
    "a ray is transmitted although the draw fell below the reflectivity",
    SCENE + '''
from unittest import mock
from pvtrace.material.surface import Surface
w = world()
b = Node(name="box", parent=w, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.01)))
ray = Ray(position=(0.0, 0.0, -1.0), direction=(0.0, 0.0, 1.0), wavelength=555.0)
with mock.patch("numpy.random.uniform", lambda *a, **k: 1e-5):
    assert Surface().is_reflected(ray, b.geometry, w, b)
with mock.patch("numpy.random.uniform", lambda *a, **k: 3e-5):
    assert not Surface().is_reflected(ray, b.geometry, w, b)
''')

bug("c01-path-limit-ahead", "C01",
    [("pvtrace/algorithm/photon_tracer.py", "if count > maxsteps or ray.travelled > maxpathlength:",
      "if count > maxsteps or (ray.travelled > maxpathlength and hit is not scene.root):")],
    "a path length limit passed just before the ray leaves the scene",
    "a ray beyond its path length limit exits instead of being killed",
    SCENE + '''
w = world(10.0)
b = Node(name="box", parent=w, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.0)))
ray = Ray(position=(0.0, 0.0, -5.0), direction=(0.0, 0.0, 1.0), wavelength=555.0)
got = [e for _, e in photon_tracer.follow(Scene(w), ray, maxpathlength=5.0)]
assert got == [Event.GENERATE, Event.TRANSMIT, Event.TRANSMIT, Event.KILL], got
''')
