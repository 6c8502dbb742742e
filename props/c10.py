"""C10 luminescent emission respects the chosen spectral window and lifetimes."""
import numpy as np
from vf.api import harness, meta
from props.common import *
from props.tracer import *
from pvtrace.material.distribution import Distribution
from pvtrace.material import component as comp_mod

K = "pvtrace.material.component."
D = "pvtrace.material.distribution.Distribution."
KB_EV = 1.380649e-23 / 1.60217662e-19


def lum(ctx, n, hist=False, **k):
    """a luminophore whose emission table is arbitrary (length n)"""
    xs, ys = table(ctx, n)
    tot = sum((ys[i] + ys[i + 1]) * (xs[i + 1] - xs[i]) for i in range(n - 1))
    ctx.assume(tot > 1e-3)
    d = (0.0, 0.6, 0.8)
    c = Luminophore(1.0, emission=np.column_stack(([1.0, 2.0], [1.0, 1.0])), phase_function=lambda: d, name="lum", **k)
    c._ems_dist = Distribution(array(ctx, xs), array(ctx, ys), hist=hist)
    return c, xs, ys, d


def ray_at(ctx, nm):
    return Ray(position=ctx.vec("pos"), direction=ctx.unit("dir"), wavelength=nm, travelled=ctx.real("travelled", lo=0, hi=9),
               duration=ctx.real("duration", lo=0, hi=1e-7), source="lamp")


def same_place(ctx, out, ray, d):
    for i in range(3):
        ctx.check("leaves from where it was absorbed", ctx.eq(out.position[i], ray.position[i]))
        ctx.check("direction from the phase function", ctx.eq(out.direction[i], d[i]))
    ctx.check("carries the component's name", out.source == "lum")
    ctx.check("path length kept", ctx.eq(out.travelled, ray.travelled))


def cdf(xs, ys, x):
    """area up to x (specification)"""
    acc = 0.0
    for i in range(len(xs) - 1):
        dx = xs[i + 1] - xs[i]
        a = (ys[i] + ys[i + 1]) / 2 * dx
        if bool(x <= xs[i + 1]):
            return acc + a * (x - xs[i]) / dx
        acc = acc + a
    return acc


@harness("C10", [K + "Luminophore.emit", D + "sample", D + "lookup"], params=[("kT", 2), ("redshift", 2), ("full", 2), ("kT", 3), ("redshift", 3), ("full", 3), ("redshift", 4), ("full", 4)])
def window(ctx, p):
    method, n = p
    c, xs, ys, d = lum(ctx, n)
    nm = xs[0] + ctx.real("f", lo=0, hi=1) * (xs[-1] - xs[0])
    T = ctx.pos("T", lo=1, hi=600) if method == "kT" else 300.0
    if method == "kT":
        low = 1240.0 / (1240.0 / nm + 1.5 * KB_EV * T)
        ctx.assume(low >= xs[0])
    ray = ray_at(ctx, nm)
    out = c.emit(ray, method=method, T=T)
    w = out.wavelength
    same_place(ctx, out, ray, d)
    ctx.check("wavelength inside the emission table", ctx.and_(ctx.ge(w, xs[0]), ctx.le(w, xs[-1])))
    if method == "redshift":
        ctx.check("never shorter than absorbed", ctx.ge(w, nm))
        start = nm
    elif method == "kT":
        ctx.check("at most 3/2 kT above the absorbed energy", ctx.ge(w, low))
        start = low
    else:
        start = xs[0]
    ctx.check("one draw for the wavelength", len(ctx.draws) == 1)
    u = ctx.draws[0]
    # the wavelength is the emission spectrum restricted to [start, end)
    tot = cdf(xs, ys, xs[-1])
    a = cdf(xs, ys, start)
    ctx.check("follows the spectrum beyond the start", ctx.eq(cdf(xs, ys, w), a + u * (tot - a), 1e-6))
    ctx.check("clock unchanged without a lifetime", ctx.eq(out.duration, ray.duration))
    ctx.cover("emitted")


@harness("C10", [K + "Luminophore.emit"])
def default_method(ctx):
    """without a choice the kT window at 300 K is used"""
    c, xs, ys, d = lum(ctx, 2)
    nm = xs[0] + ctx.real("f", lo=0, hi=1) * (xs[-1] - xs[0])
    low = 1240.0 / (1240.0 / nm + 1.5 * KB_EV * 300.0)
    ctx.assume(low >= xs[0])
    out = c.emit(ray_at(ctx, nm))
    ctx.check("at most 3/2 kT above the absorbed energy", ctx.ge(out.wavelength, low))
    tot, a = cdf(xs, ys, xs[-1]), cdf(xs, ys, low)
    ctx.check("follows the spectrum beyond the start", ctx.eq(cdf(xs, ys, out.wavelength), a + ctx.draws[0] * (tot - a), 1e-6))
    ctx.cover("emitted")


@harness("C10", [K + "Luminophore.emit"], params=["kT", "redshift", "full"])
def histogram(ctx, method):
    """histogram spectra: the wavelength is still inside the table and window"""
    c, xs, ys, d = lum(ctx, 3, hist=True)
    nm = xs[0] + ctx.real("f", lo=0, hi=1) * (xs[-1] - xs[0])
    low = 1240.0 / (1240.0 / nm + 1.5 * KB_EV * 300.0)
    if method == "kT":
        ctx.assume(low >= xs[0])
    out = c.emit(ray_at(ctx, nm), method=method)
    w = out.wavelength
    ctx.check("inside the table", ctx.and_(ctx.ge(w, xs[0]), ctx.le(w, xs[-1])))
    if method == "redshift":
        ctx.check("never shorter than absorbed", ctx.ge(w, nm))
    if method == "kT":
        ctx.check("at most 3/2 kT above the absorbed energy", ctx.ge(w, low))
    ctx.cover("emitted")


@harness("C10", [K + "Luminophore.emit"], params=["kT", "redshift"])
def outside_table(ctx, method):
    """absorption beyond the emission table is refused, never sampled outside"""
    c, xs, ys, d = lum(ctx, 2)
    nm = xs[-1] + ctx.pos("over", lo=60, hi=500)
    low = 1240.0 / (1240.0 / nm + 1.5 * KB_EV * 300.0)
    if method == "kT":
        ctx.assume(low > xs[-1])
    try:
        out = c.emit(ray_at(ctx, nm), method=method)
    except ValueError:
        ctx.check("refused", True)
        ctx.cover("refused")
        return
    ctx.check("wavelength inside the emission table", ctx.and_(ctx.ge(out.wavelength, xs[0]), ctx.le(out.wavelength, xs[-1])))


@harness("C10", [K + "Luminophore.emit", K + "Scatterer.emit"], params=["lum", "scatterer"])
def lifetimes(ctx, kind):
    tau = ctx.choose("tau", ["none", "some"]) == "some" and ctx.pos("tau", lo=1e-10, hi=1e-7) or None
    if kind == "lum":
        c, xs, ys, d = lum(ctx, 2, tau_rad=tau)
        ray = ray_at(ctx, (xs[0] + xs[-1]) / 2)
        out = c.emit(ray, method="full")
        if tau is not None:
            ctx.check("two draws", len(ctx.draws) == 2)
            goals = [ctx.eq(out.duration - ray.duration, -ctx.log(1.0 - u) * tau) for u in ctx.draws]
            ctx.check_any("exponential delay of mean tau", goals)
        else:
            ctx.check("no delay", ctx.eq(out.duration, ray.duration))
        ctx.check("never earlier", ctx.ge(out.duration, ray.duration))
    else:
        d = (0.0, 0.6, 0.8)
        c = Scatterer(1.0, tau_rad=tau, phase_function=lambda: d, name="lum")
        ray = ray_at(ctx, 500.0)
        out = c.emit(ray)
        same_place(ctx, out, ray, d)
        ctx.check("scattering keeps the wavelength", ctx.eq(out.wavelength, 500.0))
    ctx.cover("some" if tau is not None else "none")


@harness("C10", [K + "Scatterer.nonradiative_absorb"], params=["absorber", "luminophore", "scatterer", "reactor"])
def losses(ctx, kind):
    if kind == "reactor":
        tau = None
    else:
        tau = ctx.choose("tau", ["none", "some"]) == "some" and ctx.pos("tau", lo=1e-10, hi=1e-7) or None
    ems = np.column_stack(([400.0, 700.0], [1.0, 1.0]))
    c = {"absorber": lambda: Absorber(1.0, tau_nr=tau), "reactor": lambda: Reactor(1.0),
         "luminophore": lambda: Luminophore(1.0, emission=ems, tau_nr=tau), "scatterer": lambda: Scatterer(1.0, tau_nr=tau)}[kind]()
    ray = ray_at(ctx, 500.0)
    out = c.nonradiative_absorb(ray)
    if tau is None:
        ctx.check("no delay", ctx.eq(out.duration, ray.duration))
    else:
        ctx.check("one draw", len(ctx.draws) == 1)
        ctx.check("exponential delay of mean tau", ctx.eq(out.duration - ray.duration, -ctx.log(1.0 - ctx.draws[0]) * tau))
    for i in range(3):
        ctx.check("stays where it was absorbed", ctx.eq(out.position[i], ray.position[i]))
    ctx.check("wavelength kept", ctx.eq(out.wavelength, 500.0))
    ctx.check("path length kept", ctx.eq(out.travelled, ray.travelled))
    ctx.cover("done")


@harness("C10", [K + "Scatterer.__init__", K + "Scatterer.is_radiative", K + "Absorber.is_radiative", K + "Luminophore.__init__", K + "Reactor.__init__"],
         params=["luminophore", "scatterer", "absorber", "reactor"])
def yields(ctx, kind):
    """emission happens with probability equal to the quantum yield"""
    ems = np.column_stack(([400.0, 700.0], [1.0, 1.0]))
    both = kind in ("luminophore", "scatterer") and ctx.flag("both lifetimes")
    qy = ctx.real("qy", lo=0, hi=1, special=(0, 1))
    kw = dict(quantum_yield=qy)
    if both:
        t1, t2 = ctx.pos("tau_rad", lo=1e-10, hi=1e-7), ctx.pos("tau_nr", lo=1e-10, hi=1e-7)
        kw = dict(tau_rad=t1, tau_nr=t2)
        if ctx.flag("yield given too"):
            kw["quantum_yield"] = qy
        qy = t2 / (t1 + t2)
    if kind == "luminophore":
        c = Luminophore(1.0, emission=ems, **kw)
    elif kind == "scatterer":
        c = Scatterer(1.0, **kw)
    else:
        c = Absorber(1.0) if kind == "absorber" else Reactor(1.0)
        qy = 0.0
    got = c.is_radiative(ray_at(ctx, 500.0))
    if kind in ("absorber", "reactor"):
        ctx.check("never radiative", not bool(got))
        ctx.cover("done")
        return
    ctx.check("yield stored", ctx.eq(c.quantum_yield, qy))
    ctx.check("one draw", len(ctx.draws) == 1)
    ctx.check("radiative exactly when the draw is below the yield", ctx.iff(got, ctx.draws[0] < qy))
    ctx.cover("done")


@harness("C10", [K + "Scatterer.__init__"])
def no_yield(ctx):
    """a component without a yield or both lifetimes is refused"""
    bad = ctx.choose("bad", [None, float("nan"), float("inf")])
    one = ctx.choose("one", ["none", "rad", "nr"])
    kw = {}
    if one != "none":
        kw["tau_" + one] = ctx.pos("tau", lo=1e-10, hi=1e-7)
    try:
        Scatterer(1.0, quantum_yield=bad, **kw)
    except ValueError:
        ctx.check("refused", True)
        ctx.cover("refused")
        return
    ctx.check("refused", False)


@harness("C10", ["pvtrace.algorithm.photon_tracer.step_forward"], params=[("luminophore", "kT"), ("luminophore", "redshift"), ("luminophore", "full"), ("scatterer", "kT")],
         assumes=["the shapes' intersections and normals (C05, C06)"])
def traced(ctx, param):
    """the tracing loop emits with the method asked for, along the phase function's direction in the node's own frame"""
    kind, method = param
    scene, log, info = build(ctx, kind, ["A"], lifetimes=False)
    asked = []
    c = info.comp["A"]
    real = c.emit

    def emit(ray, **k):
        asked.append((ray, dict(k)))
        return real(ray, **k)
    c.emit = emit
    ray = ray0(ctx)
    ev = trace(ctx, scene, ray, 1, maxsteps=5, emit_method=method)
    kinds = [e for _, e, _m in ev]
    out = Event.EMIT if kind == "luminophore" else Event.SCATTER
    if out in kinds:
        i = kinds.index(out)
        if kind == "luminophore":
            ctx.check("method passed on", len(asked) >= 1 and asked[0][1].get("method") == method)
            ctx.check("temperature left at 300 K", asked[0][1].get("T", 300.0) == 300.0)
        turned = PERM[:3, :3] @ np.array([0.0, 0.6, 0.8])      # A's frame is turned in the world's
        for k in range(3):
            ctx.check("phase function in the node's own frame", ctx.eq(ev[i][0].direction[k], float(turned[k]), 1e-6))
        for k in range(3):
            ctx.check("emitted where absorbed", ctx.eq(ev[i][0].position[k], ev[i - 1][0].position[k]))
        ctx.check("component named", ev[i][2].get("component") == "comp A")
        ctx.cover("emitted")
    else:
        ctx.cover("other")


meta("C10", assumptions=["elementary charge as used by the repository (1.60217662e-19 C)", "1240 eV nm stands for h c (the code's constant)"],
     trusted=["numpy.interp / cumsum / diff: contracts in vf/shim.py"])


# ------------------------------------------------------------- the compiled engine

from props import ktrace, kern, anysim
from props.ktrace import Sim
from props.kern import P

KE = kern.K


def lin(ctx, x, x0, x1, y0, y1, r):
    """r is on the straight line through (x0, y0), (x1, y1)"""
    return ctx.eq((r - y0) * (x1 - x0), (y1 - y0) * (x - x0), 1e-6)


def tables(ctx, strict_y):
    """ascending xs, non-decreasing ys of any length (symbolic) / random length (concrete)"""
    if ctx.sym:
        n = ctx.int("n", lo=1)
        return n, kern.SymArr(ctx, "xs", n, "<", lo=0), kern.SymArr(ctx, "ys", n, "<=" if strict_y else None, lo=0)
    n = ctx.int("n", lo=1, hi=9)
    xs = [ctx.pos("x0", lo=0.1, hi=5)]
    for i in range(1, n):
        xs.append(xs[-1] + ctx.pos("dx", lo=0.01, hi=3))
    ys = [ctx.real("y", lo=0, hi=3, special=(0,)) for _ in range(n)]
    if strict_y:
        ys = [sum(ys[:i + 1]) for i in range(n)]
    return n, kern.dbl(xs, "xs"), kern.dbl(ys, "ys")


@harness(["C10", "C14"], [P + "interp_clamped"], conc=400, note="table length unbounded: the binary search is verified with a loop invariant and a variant")
def kernel_interp(ctx):
    """linear interpolation inside the table, the edge values outside"""
    n, xs, ys = tables(ctx, False)
    x = ctx.real("x", lo=0, hi=30)
    if ctx.sym:
        r, br = kern.interp(ctx, x, xs, ys, n)
        first, last = xs[0], xs[n - 1]
        if br == "edge":
            if bool(ctx.lt(x, first)):
                ctx.check("first value below the table", ctx.eq(r, ys[0]))
                ctx.cover("below")
            elif bool(ctx.ge(x, last)):
                ctx.check("last value above the table", ctx.eq(r, ys[n - 1]))
                ctx.cover("above")
            else:
                ctx.check("inside the table", False)
            return
        lo, hi = br
        ctx.check("neighbours bracket the position", ctx.and_(xs[lo] <= x, x < xs[hi], ctx.eq(hi - lo, 1)))
        ctx.check("linear in between", lin(ctx, x, xs[lo], xs[hi], ys[lo], ys[hi], r))
        ctx.cover("inside")
        return
    r = kern.call(ctx, "interp_clamped", x, xs, ys, n)
    X, Y = xs.list(), ys.list()
    ctx.check("linear interpolation, clamped", ctx.eq(r, float(np.interp(x, X, Y)), 1e-9))
    ctx.cover("below" if x < X[0] else "above" if x >= X[-1] else "inside")


@harness(["C10", "C14"], [P + "interp_clamped"], conc=400, note="table length unbounded: both binary searches are verified with a loop invariant and a variant")
def kernel_quantile(ctx):
    """inverting a cumulative table at or beyond the level of x gives a position at or beyond x"""
    n, X, C = tables(ctx, True)
    if ctx.sym:
        ctx.assume(n >= 2)
        x = ctx.real("x", lo=0, hi=30)
        ctx.assume(ctx.and_(x >= X[0], x <= X[n - 1]))
        p, b1 = kern.interp(ctx, x, X, C, n)
        g = ctx.real("g", lo=0)
        ctx.assume(ctx.and_(g >= p, g <= C[n - 1]))
        if b1 != "edge":
            l, h = b1
            ctx.lemma("level between its neighbours", ctx.and_(C[l] <= p, p <= C[h]))
        q, b2 = kern.interp(ctx, g, C, X, n)
        if b2 != "edge":
            l2, h2 = b2
            ctx.lemma("quantile between its neighbours", ctx.and_(X[l2] <= q, q <= X[h2]))
            ctx.check("follows the spectrum", lin(ctx, g, C[l2], C[h2], X[l2], X[h2], q))
            if b1 != "edge":
                ctx.lemma("bracket not before the one of x", l2 >= l)
                if bool(ctx.eq(l, l2)):
                    ctx.lemma("same neighbours", ctx.and_(ctx.eq(X[l], X[l2]), ctx.eq(X[h], X[h2]), ctx.eq(C[l], C[l2]), ctx.eq(C[h], C[h2])))
        ctx.check("inside the table", ctx.and_(q >= X[0], q <= X[n - 1]))
        ctx.check("not before x", q >= x)
        ctx.cover("done")
        return
    if n < 2:
        ctx.assume(False)
    xs, cs = X.list(), C.list()
    ctx.assume(cs[-1] > 1e-6)
    x = xs[0] + ctx.real("f", lo=0, hi=1) * (xs[-1] - xs[0])
    p = kern.call(ctx, "interp_clamped", x, X, C, n)
    g = p + ctx.real("u", lo=0, hi=1) * (cs[-1] - p)
    q = kern.call(ctx, "interp_clamped", g, C, X, n)
    ctx.check("inside the table", xs[0] - 1e-9 <= q <= xs[-1] + 1e-9)
    ctx.check("not before x", ctx.ge(q, x) or q >= x - 1e-6)
    ctx.cover("done")


@harness("C10", ktrace.FNS, params=[(k, m) for k in ("luminophore", "scatterer", "absorber", "reactor") for m in ("FULL", "KT", "REDSHIFT") if k == "luminophore" or m == "FULL"],
         bound=ktrace.BOUND, conc=60, assumes=["the contracts of the kernel functions called by trace_one"])
def kernel_outcome(ctx, param):
    """what follows an absorption in the compiled loop: yield, window, phase function, source, delays"""
    kind, method = param
    kern.need("interp_clamped")
    sim = ktrace.scene(ctx, comps=(kind,), places=["A"], ids=((1, 2, 0),), zero=False, maxsteps=9, emit=getattr(KE, "EMIT_" + method)).run_any()
    es = [sim.kind(e) for e in sim.ev]
    if "ABSORB" not in es:
        ctx.cover("other")
        return
    i = es.index("ABSORB")
    a, e = sim.ev[i], sim.ev[i + 1]
    c = a.component
    at = next(j for j, x in enumerate(sim.calls) if x[0] == "event" and x[1] is a)
    end = next(j for j, x in enumerate(sim.calls) if x[0] == "event" and x[1] is e)
    mid = sim.calls[at:end]
    draws = [x[1] for x in mid if x[0] == "uniform"]
    qy, out = sim.qy[c], es[i + 1]
    radiative = out in ("EMIT", "SCATTER")
    if kind in ("absorber", "reactor"):
        ctx.check("never radiative", not radiative)
    else:
        ctx.check("yield is drawn", len(draws) >= 1)
        ctx.check("radiative exactly when the draw is below the yield", ctx.iff(radiative, draws[0] < qy))
        draws = draws[1:]
    spent = e.duration - a.duration
    tau = (sim.tau_rad if radiative else sim.tau_nr)[c]
    ctx.check("leaves from where it was absorbed", ctx.and_(ctx.eq(e.pos, a.pos), ctx.eq(e.travelled, a.travelled)))
    ctx.check("component named", e.component == c and e.container == a.container)
    ctx.check("never earlier", ctx.ge(spent, 0.0))
    some = not (isinstance(tau, float) and tau == 0.0)
    C = ktrace.C_CM
    delays = [ctx.eq(spent * C, -ctx.log(1.0 - u) * tau * C, 1e-6) if some else ctx.eq(spent * C, 0.0, 1e-6) for u in (draws or [0.0])]
    phases = [x for x in mid if x[0] == "phase"]
    if radiative:
        ctx.check("phase function of the component", len(phases) == 1 and ctx.and_(ctx.eq(phases[0][1], sim.phase[c]), ctx.eq(phases[0][2], sim.phase_param[c])))
        frame = sim.rot[sim.name[a.container]]
        ctx.check("direction from the phase function, in the node's own frame", ctx.eq(e.direction, tuple(sum((frame[x][j] * phases[0][3][j] for j in range(3)), 0.0) for x in range(3)), 1e-6))
        ctx.check("the component becomes the source", ctx.eq(e.source, c))
    else:
        ctx.check("source kept", ctx.eq(e.source, a.source))
        ctx.check("direction kept", ctx.eq(e.direction, a.direction))
    if out == "EMIT":
        q = [x for x in mid if x[0] == "quantile"]
        cd = [x for x in mid if x[0] == "cdf"]
        ctx.check("wavelength from the component's own spectrum", len(q) == 1 and q[0][1] == c and ctx.eq(e.wavelength, q[0][3]))
        if method == "FULL":
            ctx.check("no window", len(cd) == 0)
            start = 0.0
        else:
            ctx.check("window from the component's own spectrum", len(cd) == 1 and cd[0][1] == c)
            start = cd[0][3]
            if method == "REDSHIFT":
                ctx.check("window starts at the absorbed wavelength", ctx.eq(cd[0][2], a.wavelength, 1e-6))
            else:
                ctx.check("window starts 3/2 kT above the absorbed energy", ctx.eq(cd[0][2] * (1240.0 / a.wavelength + 1.5 * KB_EV * 300.0), 1240.0, 1e-6))
        g = q[0][2]
        ctx.check("level within the window", ctx.and_(ctx.ge(g, start), ctx.le(g, 1.0)))
        if some:
            ctx.check("two further draws", len(draws) == 2)
            ctx.check_any("level and delay from independent draws", [ctx.and_(ctx.eq(g, start + (1.0 - start) * draws[j]), delays[1 - j]) for j in (0, 1)])
        else:
            ctx.check_any("uniform level in the window", [ctx.eq(g, start + (1.0 - start) * u) for u in draws])
            ctx.check("no delay without a lifetime", delays[0])
    else:
        ctx.check("wavelength kept", ctx.eq(e.wavelength, a.wavelength))
        if out != "SCATTER":
            ctx.check("exponential delay of mean tau", len(draws) == (1 if some else 0) and delays[0])
    ctx.cover(out)

import props.whole  # noqa: E402 executed contracts over whole histories


@harness("C10", ktrace.FNS, params=[(k, m) for k in ("luminophore", "scatterer", "absorber", "reactor") for m in ("FULL", "KT", "REDSHIFT") if k == "luminophore" or m == "FULL"],
         conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def kernel_outcome_any(ctx, param):
    """what follows an absorption in the compiled loop, in scenes of any size"""
    ktrace.any_scene(kernel_outcome)(ctx, param)
