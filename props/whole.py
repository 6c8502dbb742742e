"""Executed contracts over whole histories (see props/real.py)."""
import numpy as np

from vf import kernel
from vf.api import harness
from vf.core import Unsupported
from props import kern, real
from props.common import *

E = "pvtrace.engine.api.simulate"
K = "pvtrace.engine._kernel.trace_bundle"
PT = "pvtrace.algorithm.photon_tracer.step_forward"
BOUND = "scenes drawn at random: up to seven nested or neighbouring nodes, two components each; a few rays"
KW = dict(executed=True, bound=BOUND)


def engine(ctx):
    sc = real.engine_run(ctx)
    for h in sc.histories:
        ctx.cover(h[-1][1].name)
    return sc


@harness("C01", [E, K], conc=150, **KW)
def engine_histories(ctx):
    """life stories of the compiled engine"""
    sc = engine(ctx)
    for h in sc.histories:
        real.check_grammar(ctx, sc, h, sc.kw["maxsteps"], sc.kw["max_events"])


@harness("C01", [PT], conc=100, **KW)
def tracer_histories(ctx):
    """life stories of the Python tracer"""
    sc = real.tracer_run(ctx)
    for h in sc.histories:
        real.check_grammar(ctx, sc, h, sc.kw["maxsteps"])


@harness("C02", [E, K], conc=150, **KW)
def engine_clock(ctx):
    sc = engine(ctx)
    for h in sc.histories:
        real.check_clock(ctx, sc, h)


@harness("C02", [PT], conc=100, **KW)
def tracer_clock(ctx):
    sc = real.tracer_run(ctx)
    for h in sc.histories:
        real.check_clock(ctx, sc, h)


@harness(["C03", "C04"], [E, K], conc=150, **KW)
def engine_surfaces(ctx):
    sc = engine(ctx)
    for h in sc.histories:
        real.check_surfaces(ctx, sc, h)


@harness(["C03", "C04"], [PT], conc=100, **KW)
def tracer_surfaces(ctx):
    sc = real.tracer_run(ctx)
    for h in sc.histories:
        real.check_surfaces(ctx, sc, h)


@harness(["C07", "C05"], [E, K], conc=150, **KW)
def engine_places(ctx):
    sc = engine(ctx)
    for h in sc.histories:
        real.check_places(ctx, sc, h)


@harness(["C07", "C05"], [PT], conc=100, **KW)
def tracer_places(ctx):
    sc = real.tracer_run(ctx)
    for h in sc.histories:
        real.check_places(ctx, sc, h)


@harness(["C09", "C10", "C11"], [E, K], conc=150, **KW)
def engine_components(ctx):
    sc = engine(ctx)
    for h in sc.histories:
        real.check_components(ctx, sc, h, sc.kw["emit_method"])


@harness(["C09", "C10", "C11"], [PT], conc=100, **KW)
def tracer_components(ctx):
    sc = real.tracer_run(ctx)
    for h in sc.histories:
        real.check_components(ctx, sc, h, sc.kw["emit_method"])


@harness("C15", [E, K, "pvtrace.engine.tally.tally_histories"], conc=200, **KW)
def engine_recorders(ctx):
    """the kernel's tallies are those of its own recorded histories"""
    from pvtrace.engine.tally import tally_histories
    sc = engine(ctx)
    if sc.kw["max_events"] < 100:
        return      # cut histories
    a, b = sc.result.recorders, tally_histories(sc.scene, sc.histories)
    ctx.check("the same recorders", set(a) == set(b))
    for k in a:
        x, y = a[k], b[k]
        ctx.check("the same rays", x.rays == y.rays)
        ctx.check("the same crossings", x.crossings == y.crossings)
        ctx.check("the same moments", np.allclose(np.asarray(x._moments, dtype=float), np.asarray(y._moments, dtype=float), rtol=1e-6, atol=1e-9))
        ctx.check("the same bins", all(np.array_equal(np.ravel(p), np.ravel(q)) for p, q in zip(x._bins, y._bins)))


@harness("C14", [K, "pvtrace.engine._kernel.trace_one", "pvtrace.engine._kernel.intersect_node", "pvtrace.engine._kernel.local_normal", "pvtrace.engine._kernel.sample_phase"], conc=60, **KW)
def watched(ctx):
    """the kernel's source run with every access watched, against the compiled kernel"""
    from pvtrace.engine.compiler import compile_scene, EMIT_METHODS
    C = real.use_current_kernel()
    K = kern.K
    kern.need("trace_bundle")
    sc = real.build(real.draw(ctx))
    r = sc.r
    comp = compile_scene(sc.scene)
    n = r.randint(0, 3)
    pos, d = np.array([[r.uniform(-4, 4) for _ in range(3)] for _ in range(n)]).reshape(n, 3), np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(n)]).reshape(n, 3)
    d = d / np.linalg.norm(d, axis=1, keepdims=True) if n else d
    wav = np.array([r.uniform(350, 750) for _ in range(n)])
    cap, every = r.choice([2, 3, 4, 9, 40]), r.choice([0, 1, 2, 3])
    a = (r.randint(0, 2 ** 62), r.choice([0, 1, 5, 30]), cap, r.choice(sorted(EMIT_METHODS.values())), r.choice([1, 2, 3]), every)
    k0 = [pos.copy(), d.copy(), wav.copy()]
    tables = {k: v.copy() for k, v in vars(comp).items() if isinstance(v, np.ndarray)}
    tid = r.randrange(max(1, a[4]))
    kernel.LOG["threadid"] = lambda F: tid
    try:
        out = kern.run(ctx, K.trace_bundle, comp, pos, d, wav, *a)
    finally:
        kernel.LOG.clear()
    ctx.check("inputs unchanged", all(np.array_equal(x, y) for x, y in zip(k0, (pos, d, wav))) and all(np.array_equal(v, getattr(comp, k)) for k, v in tables.items()))
    want = C.trace_bundle(comp, pos, d, wav, *a)
    ctx.check("inputs unchanged by the compiled kernel", all(np.array_equal(x, y) for x, y in zip(k0, (pos, d, wav))))
    m = len(want["counts"])
    ctx.check("one history per recorded ray", m == (0 if every == 0 else -(-n // every)))
    ctx.check("event counts between one and the limit", all(1 <= c <= cap for c in want["counts"]))
    ctx.check("the source and the compiled kernel agree: counts", np.array_equal(out["counts"], want["counts"]))
    for j, c in enumerate(want["counts"]):
        k = want["kind"][j * cap:j * cap + c]
        ctx.check("a full history ends with a kill or an end of its own", k[0] == 0 and k[-1] in (2, 1, 7, 9, 4, 8) or c < cap)
        ctx.check("starts with generate", k[0] == 0)
        ctx.check("a history out of budget ends with a kill", c < cap or k[-1] in (7, 9, 4, 8))
        ctx.check("rows after the last event stay empty", not want["kind"][j * cap + c:(j + 1) * cap].any() and not want["wavelength"][j * cap + c:(j + 1) * cap].any())
        ctx.cover("full" if c == cap else "room")
    for k in want:
        ctx.check("the source and the compiled kernel agree", out[k].shape == want[k].shape and np.allclose(out[k].astype(float), want[k].astype(float), rtol=1e-9, atol=1e-12))


@harness("C14", [K, "pvtrace.engine._kernel.trace_one"], conc=12, executed=True, bound="scenes at the declared limits: 128 nodes, 256 recorders")
def at_the_limits(ctx):
    """as many nodes, intersections and recorders as the kernel has room for"""
    from pvtrace.engine.compiler import compile_scene, UnsupportedSceneError
    from props.real import Node, Scene, Box, Cylinder, Sphere, Material, Recorder
    number = real.draw(ctx)
    import random
    r = random.Random(number)
    K = kern.K
    kern.need("trace_bundle")
    nn, nr = r.choice([127, 128, 128, 128]), r.choice([0, 256, 256])
    world = Node(name="world", geometry=Box((400.0, 400.0, 400.0), material=Material(refractive_index=1.0)))
    nodes = [world]
    for i in range(nn - 1):
        g = r.choice([0, 1, 2])
        m = Material(refractive_index=1.0)
        # all along the ray's path: every node is hit twice
        s = 1.0
        geo = Box((s, s, s), material=m) if g == 0 else Sphere(radius=s / 2, material=m) if g == 1 else Cylinder(length=s, radius=s / 2, material=m)
        nd = Node(name=f"n{i}", parent=world, geometry=geo)
        nd.location = (0.0, 0.0, -150.0 + 2.0 * i)
        nodes.append(nd)
    for i in range(nr):
        nd = nodes[i % nn]
        nd.recorders = list(nd.recorders) + [Recorder(f"r{i}", event=r.choice(["entering", "escaping", "killed", "exit"]))]
    comp = compile_scene(Scene(world))
    pos, d, wav = np.array([[0.05, 0.02, -160.0]]), np.array([[0.0, 0.0, 1.0]]), np.array([500.0])
    out = kern.run(ctx, K.trace_bundle, comp, pos, d, wav, 7, 1, 8, 2, 1, 1)
    ctx.check("traced", out["counts"][0] >= 2)
    ctx.check("first hit is the first node", out["kind"][1] in (1, 2) and out["hit"][1] == 1)
    kernel.LOG.clear()
