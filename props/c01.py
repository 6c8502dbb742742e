"""C01 every photon history is a well-formed life story."""
from vf.api import harness, meta
from props.common import *
from props.tracer import *

P = "pvtrace.algorithm.photon_tracer."
K = "pvtrace.material.component."
meta("C01", assumptions=["python tracing loop: every iteration starts from an arbitrary ray and arbitrary surroundings; the loop is followed to its end for step limits 0, 1 and 2 (the counter, a single increment, is the only state carried besides the ray)"])

TERMINAL = (Event.EXIT, Event.KILL, Event.NONRADIATIVE, Event.REACT)
OUTCOME = {"scatterer": (Event.SCATTER, Event.NONRADIATIVE), "absorber": (Event.NONRADIATIVE,),
           "reactor": (Event.REACT,), "luminophore": (Event.EMIT, Event.NONRADIATIVE)}
AFTER = (Event.EMIT, Event.SCATTER, Event.NONRADIATIVE, Event.REACT)


def grammar(ctx, es, kind, nothing_ahead, what=""):
    ctx.check("first event is generate", es[0] is Event.GENERATE)
    ctx.check("generate only once", es.count(Event.GENERATE) == 1)
    ctx.check("no terminal event before the end", not any(e in TERMINAL for e in es[:-1]))
    ctx.check("ends with a terminal event unless nothing lies ahead", nothing_ahead or es[-1] in TERMINAL)
    ctx.check("nothing ahead adds no event", (not nothing_ahead) or es[-1] not in TERMINAL)
    for i, e in enumerate(es):
        if e is Event.ABSORB:
            ctx.check("absorb is followed by the outcome of the capturing component",
                      i + 1 < len(es) and es[i + 1] in OUTCOME[kind])
        if e in AFTER:
            ctx.check("outcomes only after an absorb", es[i - 1] is Event.ABSORB)


PLACES = ["nothing", "world", "world>A", "A"]


@harness("C01", [P + "step_forward", P + "next_hit", P + "find_container", K + "Scatterer.is_radiative", K + "Absorber.is_radiative",
                 "pvtrace.material.material.Material.is_absorbed", "pvtrace.material.material.Material.component", "pvtrace.material.surface.Surface.is_reflected"],
         params=[(k, m) for k in ("scatterer", "absorber", "reactor", "luminophore") for m in (0, 1, 2)],
         assumes=["the shapes' intersections and normals (C05, C06)"])
def history(ctx, param):
    kind, limit = param
    scene, log, info = build(ctx, kind, PLACES if limit < 2 else ["nothing", "world", "A"], lifetimes=False)
    scene.bound = limit + 2
    ev = []
    for item in photon_tracer.step_forward(scene, ray0(ctx), maxsteps=limit, emit_method="full"):
        ev.append(item)
        if scene.calls > limit + 1:
            break
    es = [e for _, e, _m in ev]
    ctx.check("never more steps than the limit", scene.calls <= limit + 1)
    nothing = log and [l for l in log if l[0] == "intersections"][-1][1] == "nothing"
    grammar(ctx, es, kind, nothing)
    steps = sum(1 for e in es if e not in AFTER and e not in (Event.GENERATE, Event.KILL))
    ctx.check("interactions within the step limit", steps <= limit)
    if scene.calls == limit + 1 and not nothing:
        ctx.check("the step limit kills", es[-1] is Event.KILL)
    if es[-1] is Event.KILL:
        ctx.check("killed only at the step limit", scene.calls == limit + 1)
    for e in es:
        ctx.cover(e.name)


@harness("C01", [P + "step_forward"], params=["scatterer"], assumes=["the shapes' intersections and normals (C05, C06)"])
def path_limit(ctx, kind):
    scene, log, info = build(ctx, kind, ["nothing", "world", "world>A", "A"])
    r = ray0(ctx)
    mx = ctx.pos("maxpathlength", lo=1, hi=60)
    ctx.away(r.travelled, mx)
    ev = trace(ctx, scene, r, 1, maxpathlength=mx, emit_method="full")
    es = [e for _, e, _m in ev]
    nothing = log[0][1] == "nothing"
    ctx.check("killed exactly when over the path limit and a surface is ahead",
              ctx.iff(es[-1] is Event.KILL, ctx.and_(not nothing, ctx.gt(r.travelled, mx) if ctx.sym else r.travelled > mx)))
    for e in es:
        ctx.cover(e.name)


@harness("C01", [P + "follow"], params=["absorber"], assumes=["the shapes' intersections and normals (C05, C06)"])
def follow(ctx, kind):
    """follow returns exactly the (ray, event) pairs of the generator"""
    scene, log, info = build(ctx, kind, ["nothing", "world", "A"])
    r = ray0(ctx)
    h = photon_tracer.follow(scene, r, maxsteps=1, emit_method="full")
    es = [e for _, e in h]
    nothing = log[-1][1] == "nothing" if log[-1][0] == "intersections" else [l for l in log if l[0] == "intersections"][-1][1] == "nothing"
    grammar(ctx, es, kind, nothing)
    ctx.check("first ray is the emitted one", h[0][0] == r)
    for e in es:
        ctx.cover(e.name)


# ------------------------------------------------------------- the compiled engine

from props import ktrace, anysim
from props.ktrace import Sim, K as KN

KTERM = ("EXIT", "KILL", "NONRADIATIVE", "REACT")


def kgrammar(ctx, sim, es, ended):
    """es: event names; ended: the history ended"""
    ctx.check("no terminal event before the end", not any(e in KTERM for e in es[:-1]))
    for i, e in enumerate(es):
        if e == "ABSORB":
            kind = sim.kinds[sim.ev[i].component] if 0 <= sim.ev[i].component < len(sim.kinds) else None
            want = tuple(x.name for x in OUTCOME[kind]) if kind else ()
            ctx.check("absorb is followed by the outcome of the capturing component", i + 1 < len(es) and es[i + 1] in want)
            ctx.check("outcome names the capturing component", i + 1 < len(es) and sim.ev[i + 1].component == sim.ev[i].component)
        if e in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            ctx.check("outcomes only after an absorb", i > 0 and es[i - 1] == "ABSORB")
        ctx.cover(e)


@harness(["C01", "C14"], ktrace.FNS, params=[(k, w) for k in (("luminophore", "absorber"), ("scatterer", "reactor")) for w in ktrace.CASES], bound=ktrace.BOUND,
         assumes=["the contracts of the kernel functions called by trace_one"], conc=40)
def kernel_step(ctx, param):
    """any iteration of the compiled loop continues the history properly"""
    kinds, where = param
    sim = ktrace.scene(ctx, comps=kinds, places=[where], ids=((1, 2, 0),), zero=False, taus=False).run_any()
    es = [sim.kind(e) for e in sim.ev]
    kgrammar(ctx, sim, es, sim.post is None)
    ctx.check("no second generate", "GENERATE" not in es)
    budget = sim.base >= 0 and bool(sim.nev >= sim.max_events - 2)
    if where == "nothing" and not budget:
        ctx.check("nothing ahead adds no event and ends", es == [] and sim.post is None)
        ctx.cover("nothing")
        return
    ctx.check("every step adds an event", len(es) >= 1)
    ctx.check("ends exactly with a terminal event", (sim.post is None) == (bool(es) and es[-1] in KTERM))
    over = bool(sim.cnt + 1 > sim.maxsteps)
    ctx.check("killed exactly at the step limit or out of budget", (es[-1:] == ["KILL"]) == (over or budget))
    steps = sum(1 for e in es if e in ("ABSORB", "REFLECT", "TRANSMIT", "EXIT"))
    ctx.check("at most one interaction per step", steps <= 1 and (steps == 1) == (es[-1:] != ["KILL"]))
    if sim.post is not None:
        ctx.check("steps are counted", ctx.eq(sim.post.count, sim.cnt + 1))
        ctx.check("never beyond the step limit", ctx.le(sim.post.count, sim.maxsteps))
    ktrace.invariant(sim)


@harness(["C01", "C14"], ktrace.FNS, params=[(k, w) for k in (("luminophore", "absorber"), ("scatterer", "reactor")) for w in ktrace.CASES], conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def kernel_step_any(ctx, param):
    """any iteration of the compiled loop continues the history properly, in scenes of any size"""
    ktrace.any_scene(kernel_step)(ctx, param)


@harness("C01", ktrace.FNS, params=[(m, k) for m in (0, 1, 2) for k in (("luminophore", "absorber"), ("scatterer", "reactor"))], bound=ktrace.BOUND + ", step limits 0 to 2",
         assumes=["the contracts of the kernel functions called by trace_one"], conc=40)
def kernel_history(ctx, param):
    """whole histories of the compiled loop for small step limits"""
    limit, kinds = param
    sim = Sim(ctx, comps=kinds, places=["nothing", "world", "A"] if limit == 2 else ["nothing", "world", "world>A", "A"], ids=((2, 0, 1),), zero=False, taus=False, logged=True,
              maxsteps=limit, max_events=60).run_entry(limit + 2)
    es = [sim.kind(e) for e in sim.ev]
    ctx.check("ends within the step limit", not sim.cut)
    ctx.check("starts with one generate", es[:1] == ["GENERATE"] and es.count("GENERATE") == 1)
    kgrammar(ctx, sim, es, True)
    nothing = bool(sim.plans) and sim.plans[-1].where == "nothing"
    ctx.check("ends with a terminal event unless nothing lies ahead", (es[-1] in KTERM) != nothing)
    steps = sum(1 for e in es if e in ("ABSORB", "REFLECT", "TRANSMIT", "EXIT"))
    ctx.check("interactions within the step limit", steps <= limit)
    ctx.check("killed exactly at the step limit", (es[-1] == "KILL") == (len(sim.plans) == limit + 1 and not nothing))


@harness(["C01", "C14"], ktrace.FNS, params=[2, 3, 4, 5], bound=ktrace.BOUND + ", event budgets 2 to 5", conc=40,
         assumes=["the contracts of the kernel functions called by trace_one"])
def kernel_budget(ctx, cap):
    """histories cut by the event budget still end with a kill"""
    sim = Sim(ctx, comps=("luminophore", "absorber"), places=["world", "A"], ids=((2, 0, 1),), zero=False, taus=False, logged=True,
              maxsteps=9, max_events=cap).run_entry(cap + 1)
    es = [sim.kind(e) for e in sim.ev]
    ctx.check("ends", not sim.cut)
    kgrammar(ctx, sim, es, True)
    ctx.check("starts with one generate", es[:1] == ["GENERATE"] and es.count("GENERATE") == 1)
    ctx.check("ends with a terminal event", es[-1] in KTERM)
    ctx.check("within the budget", len(es) <= cap)

import props.whole  # noqa: E402 executed contracts over whole histories


# ------------------------------------------------- histories read back from the engine's event rows
import numpy as np
from pvtrace.engine import api as eapi
from pvtrace.light.event import Event as Ev

EA = "pvtrace.engine.api.EngineResult."


@harness(["C01", "C02", "C13", "C22"], [EA + "histories", EA + "recorded_indices", EA + "num_recorded", EA + "num_rays", EA + "event_counts"],
         params=[(n, e) for n in (1, 3, 5) for e in (1, 2, 3)] + [(3, 0)], bound="up to five recorded rays of up to three events each", conc=40)
def history_rows(ctx, param):
    """event k of recorded ray j is row j * max_events + k, for its own ray, and nothing else"""
    n, every = param
    m = len(range(0, n, every)) if every else 0
    cap = 3
    a = ctx.choose("shift", [0, 1, 2, 3])
    counts = [(a + j * (1 + a)) % (cap + 1) for j in range(m)]
    kinds = list(Ev)
    rows = m * cap
    f = lambda nm: np.array([ctx.real(nm, lo=-10, hi=10) for _ in range(rows)], dtype=object if ctx.sym else float)
    v = lambda nm: (np.array([[ctx.real(nm, lo=-10, hi=10) for _ in range(3)] for _ in range(rows)], dtype=object if ctx.sym else float)
                    if rows else np.zeros((0, 3)))
    i = lambda k, lo: np.array([(r * k + a) % 4 - 1 if lo else kinds[(r * 7 + a) % len(kinds)].value for r in range(rows)], dtype=np.int32)
    d = {"counts": np.array(counts, dtype=np.int32), "position": v("pos"), "direction": v("dir"), "normal": v("nrm"), "wavelength": f("nm"), "travelled": f("tr"), "duration": f("du"),
         "hit": i(1, 1), "container": i(3, 1), "adjacent": i(5, 1), "component": i(7, 1), "source": i(2, 1), "kind": i(1, 0)}
    # rows beyond a ray's count are never filled in
    for j in range(m):
        for k in range(counts[j], cap):
            d["kind"][j * cap + k] = 99
    names, comps = ["n0", "n1", "n2"], ["c0", "c1", "c2"]
    lights = [f"light{r}" for r in range(n)]
    res = eapi.EngineResult(Obj(node_names=names, component_names=comps), d, lights, cap, every, 0.5)
    ctx.check("rays traced", res.num_rays == n)
    ctx.check("rays recorded", res.num_recorded == m and [int(x) for x in res.recorded_indices] == (list(range(0, n, every)) if every else []))
    hs = list(res.histories())
    ctx.check("one history per recorded ray", len(hs) == m)
    name = lambda t, x: t[x] if x >= 0 else None
    want = {}
    for j, h in enumerate(hs):
        ctx.check("its events", len(h) == counts[j])
        for k, (ray, event, meta_) in enumerate(h):
            r = j * cap + k
            e = kinds[(r * 7 + a) % len(kinds)]
            want[e] = want.get(e, 0) + 1
            ctx.check("kind", event is e)
            for x in ("position", "direction"):
                ctx.check(x, ctx.eq(tuple(getattr(ray, x)), tuple(d[x][r][q] for q in range(3)), 0.0 if ctx.sym else 1e-12))
            for x in ("wavelength", "travelled", "duration"):
                ctx.check(x, ctx.eq(getattr(ray, x), d[x][r], 0.0 if ctx.sym else 1e-12))
            ctx.check("source", ray.source == (lights[j * every] if d["source"][r] < 0 else comps[d["source"][r]]))
            for x, t in (("hit", names), ("container", names), ("adjacent", names), ("component", comps)):
                ctx.check(f"metadata: {x}", x in meta_ and meta_[x] == name(t, d[x][r]))
            if e in (Ev.REFLECT, Ev.TRANSMIT):
                ctx.check("normal", ctx.eq(tuple(meta_["normal"]), tuple(d["normal"][r][q] for q in range(3)), 0.0 if ctx.sym else 1e-12))
            else:
                ctx.check("no normal elsewhere", "normal" not in meta_)
    got = res.event_counts()
    ctx.check("events counted", {k: c for k, c in got.items() if c} == want)
    ctx.cover("read")
