"""C02 position, path length and clock advance together."""
from vf.api import harness, meta
from props.common import *
from props.tracer import *

R = "pvtrace.light.ray."
P = "pvtrace.algorithm.photon_tracer."
K = "pvtrace.material.component."
meta("C02", assumptions=["tracing loop: the ray entering an iteration is arbitrary, so one iteration stands for every iteration; two consecutive ones are executed"])


@harness("C02", [R + "Ray.propagate"])
def propagate(ctx):
    p, d = ctx.vec("p"), ctx.unit("d")
    w, tr, du = ctx.pos("w"), ctx.real("travelled", lo=0), ctx.real("duration", lo=0)
    n = ctx.pos("n", lo=0.5, hi=4)
    dist = ctx.real("dist", special=(0,))
    out = Ray(position=p, direction=d, wavelength=w, travelled=tr, duration=du, source="src").propagate(dist, n)
    ctx.cover("moved")
    ctx.check("moves along its direction", ctx.eq(out.position, add(p, mul(dist, d))))
    ctx.check("path length grows by the distance", ctx.eq(out.travelled, tr + dist))
    ctx.check("clock grows by distance times index over c", ctx.eq((out.duration - du) * C_CM, n * dist, 1e-6 * (1 + du * C_CM) if ctx.conc else None))
    ctx.check("direction, wavelength and source kept", ctx.and_(ctx.eq(out.direction, d), ctx.eq(out.wavelength, w), out.source == "src"))


@harness("C02", [R + "Ray.propagate"])
def standing_still(ctx):
    p, d = ctx.vec("p"), ctx.unit("d")
    r = Ray(position=p, direction=d, wavelength=500.0, travelled=ctx.real("travelled", lo=0), duration=ctx.real("duration", lo=0))
    out = r.propagate(0.0, ctx.pos("n", lo=0.5, hi=4))
    ctx.cover("moved")
    ctx.check("nothing changes", ctx.and_(ctx.eq(out.position, p), ctx.eq(out.travelled, r.travelled), ctx.eq(out.duration, r.duration), ctx.eq(out.direction, d)))


def close_t(ctx, a, b):
    return ctx.eq(a * C_CM, b * C_CM, 1e-6)


def check_flight(ctx, info, ev):
    for (r0, e0, m0), (r1, e1, m1) in zip(ev, ev[1:]):
        moved = r1.travelled - r0.travelled
        spent = r1.duration - r0.duration
        name = f"{e0.name}->{e1.name}"
        if e1 in (Event.EMIT, Event.SCATTER, Event.NONRADIATIVE, Event.REACT):
            ctx.check(f"{name} happens on the spot", ctx.and_(ctx.eq(moved, 0.0), ctx.eq(r1.position, r0.position)))
            ctx.check(f"{name} delay is not negative", ctx.ge(spent, 0.0))
            tr, tn = info.taus["A"]
            t = tr if e1 in (Event.EMIT, Event.SCATTER) else tn
            if t is None:
                ctx.check(f"{name} no delay without a lifetime", ctx.eq(spent * C_CM, 0.0, 1e-4))
        elif e1 is Event.KILL:
            ctx.check(f"{name} killed where it was", ctx.and_(ctx.eq(moved, 0.0), ctx.eq(r1.position, r0.position), ctx.eq(spent, 0.0)))
        else:
            ctx.check(f"{name} moves forwards", ctx.ge(moved, 0.0))
            ctx.check(f"{name} straight line", ctx.eq(r1.position, add(r0.position, mul(moved, r0.direction)), 1e-6))
            ctx.check(f"{name} clock", ctx.eq(spent * C_CM, moved * info.n[m1["container"]], 1e-4))
        if e1 is not Event.EMIT:
            ctx.check(f"{name} wavelength kept", ctx.eq(r1.wavelength, r0.wavelength))
        if e1 not in (Event.REFLECT, Event.TRANSMIT, Event.EMIT, Event.SCATTER):
            ctx.check(f"{name} direction kept", ctx.eq(r1.direction, r0.direction))


PLACES = ["nothing", "world", "world>A", "A", "A>B"]


@harness("C02", [P + "step_forward", P + "next_hit", P + "find_container", R + "Ray.propagate", R + "Ray.representation",
                 K + "Scatterer.emit", K + "Luminophore.emit", K + "Scatterer.nonradiative_absorb",
                 "pvtrace.material.material.Material.is_absorbed", "pvtrace.material.surface.Surface.reflect", "pvtrace.material.surface.Surface.transmit"],
         params=["scatterer", "absorber", "reactor", "luminophore"],
         assumes=["the shapes' intersections and normals (C05, C06)", "surface delegates return a direction triple (C03, C21)"])
def flight(ctx, kind):
    scene, log, info = build(ctx, kind, PLACES)
    r = ray0(ctx)
    ev = trace(ctx, scene, r, 1, maxsteps=5, emit_method="full")
    ctx.check("starts with the ray as emitted", ev[0][0] == r and ev[0][1] is Event.GENERATE)
    check_flight(ctx, info, ev)
    for _, e, _m in ev:
        ctx.cover(e.name)
    # distance moved is that of the reported surface
    call = log[0]
    last = ev[1] if len(ev) > 1 else None
    if last is not None and last[1] in (Event.REFLECT, Event.TRANSMIT, Event.EXIT):
        ctx.check("stops at the next surface", ctx.eq(last[0].travelled - r.travelled, call[2][0].distance, 1e-6))


# ------------------------------------------------------------- the compiled engine

from props import ktrace, anysim
from props.ktrace import Sim, K as KN


def kclose_t(ctx, spent, length):
    return ctx.eq(spent * ktrace.C_CM, length, 1e-4)


def kcheck_flight(ctx, sim):
    prev = sim.pre
    for e in sim.ev:
        k = sim.kind(e)
        moved, spent = e.travelled - prev.travelled, e.duration - prev.duration
        if k == "GENERATE":
            ctx.check("starts with the ray as emitted", ctx.and_(ctx.eq(e.pos, prev.pos), ctx.eq(e.direction, prev.direction), ctx.eq(e.wavelength, prev.wavelength),
                                                                ctx.eq(e.travelled, 0.0), ctx.eq(e.duration, 0.0), ctx.eq(e.source, -1)))
        elif k in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            ctx.check(f"{k} happens on the spot", ctx.and_(ctx.eq(moved, 0.0), ctx.eq(e.pos, prev.pos)))
            ctx.check(f"{k} delay is not negative", ctx.ge(spent, 0.0))
            t = (sim.tau_rad if k in ("EMIT", "SCATTER") else sim.tau_nr)[e.component]
            if isinstance(t, float) and t == 0.0:
                ctx.check(f"{k} no delay without a lifetime", ctx.eq(spent * ktrace.C_CM, 0.0, 1e-4))
        elif k == "KILL":
            ctx.check("killed where it was", ctx.and_(ctx.eq(moved, 0.0), ctx.eq(e.pos, prev.pos), ctx.eq(spent, 0.0)))
        else:
            n = sim.n[sim.medium(e)]
            ctx.check(f"{k} moves forwards", ctx.ge(moved, 0.0))
            ctx.check(f"{k} straight line", ctx.eq(e.pos, add(prev.pos, mul(moved, prev.direction)), 1e-6))
            ctx.check(f"{k} clock", kclose_t(ctx, spent, moved * n))
            if k in ("REFLECT", "TRANSMIT", "EXIT"):
                ctx.check(f"{k} stops at the next surface", ctx.eq(moved, e.plan.dist, 1e-6))
        if k != "EMIT":
            ctx.check(f"{k} wavelength kept", ctx.eq(e.wavelength, prev.wavelength))
        if k not in ("REFLECT", "TRANSMIT", "EMIT", "SCATTER"):
            ctx.check(f"{k} direction kept", ctx.eq(e.direction, prev.direction))
        ctx.cover(k)
        prev = e


@harness("C02", ktrace.FNS, params=[(k, w) for k in (("luminophore", "absorber"), ("scatterer", "reactor")) for w in ktrace.CASES[1:]], bound=ktrace.BOUND,
         assumes=["the contracts of the kernel functions called by trace_one"], conc=40)
def kernel_step(ctx, param):
    """any iteration of the compiled loop, from any state"""
    kinds, where = param
    sim = ktrace.scene(ctx, comps=kinds, places=[where], ids=((1, 2, 0),), zero=False).run_any()
    kcheck_flight(ctx, sim)
    ktrace.invariant(sim)


@harness("C02", ktrace.FNS, params=[(k, w) for k in (("luminophore", "absorber"), ("scatterer", "reactor")) for w in ktrace.CASES[1:]], conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def kernel_step_any(ctx, param):
    """any iteration of the compiled loop, from any state, in scenes of any size"""
    ktrace.any_scene(kernel_step)(ctx, param)


@harness("C02", ktrace.FNS, params=[("luminophore", "absorber"), ("scatterer", "reactor")],
         bound=ktrace.BOUND + ", first two iterations", assumes=["the contracts of the kernel functions called by trace_one"], conc=40)
def kernel_start(ctx, kinds):
    """the first two iterations of the compiled loop"""
    sim = Sim(ctx, comps=kinds, zero=False, taus=False, places=("world>A", "A"), logged=True, maxsteps=5, max_events=60, ids=((0, 1, 2),)).run_entry(2)
    kcheck_flight(ctx, sim)

import props.whole  # noqa: E402 executed contracts over whole histories
