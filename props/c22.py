"""C22 the outcome depends on the ray, the scene and the seed, not on threads.

Frame conditions: each pass of the parallel loop touches only memory it owns
(bundle, tally, record: shared with C13, C14 and C15), what it computes uses
neither the thread's number nor the tallies (trace_one, below), and its random
stream is set from its seed alone.  With nothing shared between two passes but
memory that is only read, every schedule and every number of threads gives the
same histories and the same integer tallies (moments are floating-point sums,
added per thread)."""
import numpy as np

from vf import kernel
from vf.api import harness, meta
from vf.core import Unsupported
from props import kern, ktrace, real, anysim
from props.kern import K, P
from props.common import *
import props.c13  # noqa: engine_simulate
import props.c14  # noqa: bundle, record, rng_seed, rng_uniform
import props.c15  # noqa: kernel_tally

meta("C22", assumptions=["the compiled scene is one the compiler produces (C16)",
                         "per-thread slices of the tallies are summed as integers; moments are sums of floats and may differ in their last bits"],
     trusted=["composition: passes of a parallel loop that write disjoint memory and read only their own or read-only memory give the same result in every schedule",
              "Cython's generated C, the C compiler and OpenMP: prange runs each index once, scalars assigned in the loop are private to a pass"])


class Shared(Exception):
    pass


def _no(name):
    def f(self, *a, **k):
        raise Shared(name)
    return f


class Hidden:
    """a value that may be handed on but not looked at"""
    __slots__ = ()
    __hash__ = None


for _n in ("eq ne lt le gt ge add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs invert and rand or ror xor rxor "
           "lshift rshift rlshift rrshift int float bool index round getitem setitem iter len call").split():
    setattr(Hidden, f"__{_n}__", _no(_n))


class Accumulators(kernel.Struct):
    def __init__(self):
        pass

    def __getattribute__(self, k):
        if k.startswith("__"):
            return object.__getattribute__(self, k)
        raise Shared("tallies." + k)

    def __setattr__(self, k, v):
        raise Shared("tallies." + k)


def watched(ctx, **kw):
    sim = ktrace.scene(ctx, **kw)
    sim.AB, sim.tid, sim.streams = Accumulators(), Hidden(), []

    def stream(name, at):
        orig = getattr(sim, "s_" + name)

        def f(*a):
            sim.streams.append((name, a[at]))
            return orig(*a)
        ctx.stub(K, name, f)
    stream("rng_seed", 0)
    stream("rng_uniform", 0)
    stream("sample_phase", 2)
    return sim


def snapshot(S):
    return {k: list(p.arr.data) for k, p in S.__dict__.items() if isinstance(p, kernel.Ptr)}, {k: v for k, v in S.__dict__.items() if not isinstance(v, kernel.Ptr)}


def judge(ctx, sim, before, run):
    try:
        run()
    except Shared as e:
        ctx.check(f"nothing depends on what other rays or threads share ({e})", False)
        return False
    ctx.check("nothing depends on what other rays or threads share", all(not isinstance(getattr(e, f), Hidden) for e in sim.ev
              for f in ("source", "wavelength", "travelled", "duration", "hit", "container", "adjacent", "component")))
    after = snapshot(sim.S)
    ctx.check("the scene is only read", all(len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b)) for a, b in ((before[0][k], after[0][k]) for k in before[0])) and
              set(before[0]) == set(after[0]) and all(before[1][k] is after[1].get(k) for k in before[1]))
    ctx.check("one stream of random numbers", len({id(r) for _, r in sim.streams}) <= 1)
    for t in sim.tal:
        ctx.check("tallies go to the ray's own thread", t.AB is sim.AB and t.tid is sim.tid)
    return True


COMPS = [("luminophore", "absorber"), ("scatterer", "reactor")]


@harness("C22", ktrace.FNS, params=[(c, w) for c in COMPS for w in ktrace.CASES], bound=ktrace.BOUND, conc=40,
         assumes=["the contracts of the kernel functions called by trace_one"], note="any state of the ray: one arbitrary pass of the loop")
def own_step(ctx, param):
    """a step reads the ray, the scene and the ray's own stream only"""
    comps, where = param
    sim = watched(ctx, comps=comps, places=[where], ids=((1, 2, 0),), nrec=1, emit=ctx.choose("emit", [K.EMIT_KT, K.EMIT_REDSHIFT, K.EMIT_FULL]) if comps[0] == "luminophore" else None,
                  zero=where in ("A", "world"), taus=where == "A")
    if judge(ctx, sim, snapshot(sim.S), sim.run_any):
        ctx.check("the stream is seeded before the first step only", [n for n, _ in sim.streams].count("rng_seed") == 1 and sim.streams[0][0] == "rng_seed")
        for e in sim.ev:
            ctx.cover(sim.kind(e))


@harness("C22", ktrace.FNS, params=[(c, w) for c in COMPS for w in ktrace.CASES], conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def own_step_any(ctx, param):
    """a step reads the ray, the scene and the ray's own stream only, in scenes of any size"""
    ktrace.any_scene(own_step)(ctx, param)


@harness("C22", ktrace.FNS, params=[(c, w) for c in COMPS for w in ("nothing", "world", "A")], bound=ktrace.BOUND + "; the first two steps", conc=40,
         assumes=["the contracts of the kernel functions called by trace_one"])
def own_start(ctx, param):
    """a ray starts from its own state and seed, whatever was traced before"""
    comps, where = param
    sim = watched(ctx, comps=comps, places=[where], ids=((1, 2, 0),), nrec=1, zero=False, taus=False, max_events=8, maxsteps=5)
    if judge(ctx, sim, snapshot(sim.S), lambda: sim.run_entry(1)):
        seeds = [c for c in sim.calls if c[0] == "seed"]
        ctx.check("seeded once, with the ray's seed, before any draw", len(seeds) == 1 and ctx.eq(seeds[0][1], sim.seed) and sim.streams[0][0] == "rng_seed")
        e = sim.ev[0]
        ctx.check("starts from its initial state", sim.kind(e) == "GENERATE" and ctx.and_(ctx.eq(e.pos, sim.pre.pos), ctx.eq(e.direction, sim.pre.direction),
                  ctx.eq(e.wavelength, sim.pre.wavelength), ctx.eq(e.travelled, 0.0), ctx.eq(e.duration, 0.0)) and e.source == -1)
        ctx.cover("started")


# ------------------------------------------------------------- the compiled kernel itself

ROWS = ("kind", "hit", "container", "adjacent", "component", "source", "position", "direction", "normal", "wavelength", "travelled", "duration")
EXACT = ("rec_distinct", "rec_crossings", "rec_bins")


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def alike(a, b):
    return all(a[k].shape == b[k].shape and bits(a[k]) == bits(b[k]) for k in ROWS + EXACT + ("counts",))


def bundle_of(ctx, rays):
    from pvtrace.engine.compiler import compile_scene, EMIT_METHODS
    C = real.use_current_kernel()
    sc = real.build(real.draw(ctx))
    r = sc.r
    comp = compile_scene(sc.scene)
    n = r.choice(rays)
    g = np.random.RandomState(r.randint(0, 2 ** 31))
    pos, d = g.uniform(-4, 4, (n, 3)), g.normal(0, 1, (n, 3))
    d = d / np.linalg.norm(d, axis=1, keepdims=True)
    wav = g.uniform(350, 750, n)
    kw = dict(seed=r.randint(0, 2 ** 62), steps=r.choice([1, 5, 30, 100]), cap=r.choice([2, 5, 40, 128]), emit=r.choice(sorted(EMIT_METHODS.values())), every=r.choice([1, 1, 2, 5]))
    return C, comp, (pos, d, wav), kw


@harness("C22", [P + "trace_bundle", P + "trace_one", P + "tally"], conc=60, executed=True, bound="scenes drawn at random, up to 500 rays on 1 to 16 threads")
def threads(ctx):
    """the same bundle on different numbers of threads, and again"""
    C, comp, rays, a = bundle_of(ctx, [1, 70, 200, 500])
    keep = [x.copy() for x in rays]
    tables = {k: v.copy() for k, v in vars(comp).items() if isinstance(v, np.ndarray)}
    go = lambda t: C.trace_bundle(comp, *rays, a["seed"], a["steps"], a["cap"], a["emit"], t, a["every"])
    one = go(1)
    for t in (2, 3, 8, 16, 1):
        other = go(t)
        ctx.check(f"bit for bit the same on {t} threads", alike(one, other))
        ctx.check("the same moments", np.allclose(one["rec_sums"], other["rec_sums"], rtol=1e-9, atol=0))
    ctx.check("rays and scene unchanged", all(bits(x) == bits(y) for x, y in zip(keep, rays)) and all(bits(v) == bits(getattr(comp, k)) for k, v in tables.items()))
    ctx.cover("compared")


@harness("C22", [P + "trace_bundle", P + "trace_one"], conc=60, executed=True, bound="scenes drawn at random, up to 150 rays")
def alone(ctx):
    """a ray of a bundle has the history it has when traced alone with its own seed"""
    C, comp, (pos, d, wav), a = bundle_of(ctx, [3, 70, 150])
    n = len(wav)
    whole = C.trace_bundle(comp, pos, d, wav, a["seed"], a["steps"], a["cap"], a["emit"], 3, 1)
    g = np.random.RandomState(n)
    sums = {k: 0 for k in EXACT}
    for i in range(n):
        s = slice(i, i + 1)
        if n < 4 or g.uniform() < 0.2:
            one = C.trace_bundle(comp, pos[s].copy(), d[s].copy(), wav[s].copy(), a["seed"] + i, a["steps"], a["cap"], a["emit"], 1, 1)
            rows = slice(i * a["cap"], (i + 1) * a["cap"])
            ctx.check("the same number of events", one["counts"][0] == whole["counts"][i])
            ctx.check("the same history", all(bits(one[k]) == bits(whole[k][rows]) for k in ROWS))
            sums = {k: sums[k] + one[k] for k in EXACT}
    if n < 4:
        ctx.check("tallies add up ray by ray", all(np.array_equal(sums[k], whole[k]) for k in EXACT))
    ctx.cover("compared")
