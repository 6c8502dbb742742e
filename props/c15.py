"""C15 recorder tallies equal the definition, in both implementations."""
import math

import numpy as np

from vf import core, kernel
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
from props import kern, ktrace, anysim
from props.kern import K, P
from pvtrace.engine import tally as tl
from pvtrace.engine import api as eapi
from pvtrace.engine.recorder import Recorder, Histogram, Heatmap, EVENTS, PROPERTIES
from pvtrace.light.event import Event
from pvtrace.light.ray import Ray
import props.c04  # noqa: tracer_surface

T = "pvtrace.engine.tally."
A = "pvtrace.engine.api."
FIELDS = ("wavelength", "angle", "duration", "pathlength", "x", "y", "z")
MOMENTS = FIELDS[:4]
meta("C15", assumptions=["recorder and node names are unique in the scene (the compiler refuses duplicates, C16)",
                         "histogram slots of different histograms do not overlap (C16)",
                         "integer counters treated as mathematical integers; sums of floats as sums of reals"],
     trusted=["OpenMP's threadid() is below the number of threads asked for; numpy sum over the threads axis"])


# ------------------------------------------------------------- one bin for a value in range

def bin_spec(ctx, index, v, lo, hi, n):
    inside = ctx.and_(ctx.ge(v, lo), ctx.lt(v, hi)) if ctx.sym else lo <= v < hi
    ctx.check("none outside the range", ctx.implies(ctx.not_(inside), ctx.eq(index, -1)))
    ctx.check("a bin of the histogram for a value in range", ctx.implies(inside, ctx.and_(index >= 0, index <= n - 1)))
    return inside


@harness("C15", [T + "_bin_index"])
def bin_index(ctx):
    lo = ctx.real("lo", lo=-100, hi=1000)
    width = ctx.pos("width", lo=1e-3, hi=1000)
    hi = lo + width
    n = ctx.int("bins", lo=1, hi=200)
    v = ctx.real("v", lo=-200, hi=2100, special=(lo, hi))
    i = tl._bin_index(v, Obj(start=lo, stop=hi, bins=n))
    if bool(bin_spec(ctx, i, v, lo, hi, n)):
        ctx.cover("in range")
        if ctx.sym:
            ctx.check("the bin that holds the value", ctx.and_(i * width <= (v - lo) * n, (v - lo) * n < (i + 1) * width))
        else:
            ctx.check("the bin that holds the value", (i - 1e-6) * width <= (v - lo) * n <= (i + 1 + 1e-6) * width)
    else:
        ctx.cover("out of range")


@harness(["C14", "C15"], [P + "bin_index"])
def kernel_bin_index(ctx):
    lo = ctx.real("lo", lo=-100, hi=1000)
    width = ctx.pos("width", lo=1e-3, hi=1000)
    hi = lo + width
    n = ctx.int("bins", lo=1, hi=200)
    ctx.assume(n <= 2**31 - 2)
    v = ctx.real("v", lo=-200, hi=2100, special=(lo, hi))
    i = kern.call(ctx, "bin_index", v, lo, hi, n)
    if bool(bin_spec(ctx, i, v, lo, hi, n)):
        ctx.cover("in range")
        if ctx.sym:
            ctx.check("the bin that holds the value", ctx.and_(i * width <= (v - lo) * n, (v - lo) * n < (i + 1) * width))
        else:
            ctx.check("the bin that holds the value", (i - 1e-6) * width <= (v - lo) * n <= (i + 1 + 1e-6) * width)
    else:
        ctx.cover("out of range")


@harness(["C14", "C15"], [P + "prop_value"], params=FIELDS)
def kernel_prop_value(ctx, name):
    vals = {k: ctx.real(k, lo=0, hi=900) for k in FIELDS}
    v = kern.call(ctx, "prop_value", PROPERTIES[name], vals["wavelength"], vals["angle"], vals["duration"], vals["pathlength"],
                  kern.dbl([vals["x"], vals["y"], vals["z"]], "lpos"))
    ctx.check("the property asked for", ctx.eq(v, vals[name]))


# ------------------------------------------------------------- the kernel's tally, any number of recorders

@harness(["C14", "C15", "C22"], [P + "tally"], params=[(f, w) for f in (0, 1) for w in ("normal", "no normal")], conc=0, budget=20,
         assumes=["bin_index and prop_value by their contracts (checked separately)"],
         note="one arbitrary recorder and one arbitrary histogram stand for all: an iteration touches only its own cells")
def kernel_tally(ctx, param):
    facet, nrm = param
    kern.need("tally", "bin_index", "prop_value")
    if [n for n, _ in K.sigs["tally"][1]] != ktrace.TALLY:
        raise Unsupported("signature of tally changed")
    nthr, nrec, nbins = ctx.int("threads", lo=1), ctx.int("recorders", lo=1), ctx.int("total_bins", lo=0)
    tid = ctx.int("tid", lo=0)
    ctx.assume(tid < nthr)
    # the thread's slice lies in the table
    for w in (nrec, nbins):
        ctx.assume(ctx.and_(tid * w >= 0, tid * w + w <= nthr * w))
    ns = ctx.int("histograms", lo=0)
    ints = lambda lo=None, hi=None: (lambda: ctx.int("cell", lo=lo, hi=hi))
    reals = lambda: ctx.real("cell")
    S = kernel.Struct("SceneT", n_recorders=nrec, total_bins=nbins)
    tab = lambda name, n, value: kern.Cells(ctx, name, n, value)
    S.rec_node, S.rec_event = tab("rec_node", nrec, ints()), tab("rec_event", nrec, ints())
    S.rec_has_facet = tab("rec_has_facet", nrec, lambda: facet)
    S.rec_facet, S.rec_atol = tab("rec_facet", nrec * 3, reals), tab("rec_atol", nrec, reals)
    S.rec_hist_start, S.rec_hist_n = tab("rec_hist_start", nrec, ints(0)), tab("rec_hist_n", nrec, ints(0))
    two = ctx.flag("heatmap")
    S.h_prop_a = tab("h_prop_a", ns, ints(0, 6))
    S.h_prop_b = tab("h_prop_b", ns, ints(0, 6) if two else (lambda: -1))
    S.h_na, S.h_nb = tab("h_na", ns, ints(1)), tab("h_nb", ns, ints(1))
    for k in ("h_lo_a", "h_hi_a", "h_lo_b", "h_hi_b"):
        setattr(S, k, tab(k, ns, reals))
    S.h_offset = tab("h_offset", ns, ints(0))
    AB = kernel.Struct("AccBase")
    AB.distinct, AB.cross = tab("distinct", nthr * nrec, ints()), tab("cross", nthr * nrec, ints())
    AB.sums, AB.bins = tab("sums", nthr * nrec * 8, reals), tab("bins", nthr * nbins, ints())
    was = ctx.flag("seen")
    seen = tab("seen", nrec, lambda: 1 if was else 0)
    n = ctx.vec("normal") if nrm == "normal" else None
    lpos = ctx.vec("lpos")
    v = {k: ctx.real(k) for k in MOMENTS}
    sel, node = ctx.int("sel"), ctx.int("node")
    asked, bins = [], []
    loops = kern.Loops(ctx, empty=(1,))

    def s_prop(prop, wavelength, angle, duration, travelled, lp):
        ctx.check("values passed on", ctx.and_(ctx.eq(wavelength, v["wavelength"]), ctx.eq(angle, v["angle"]), ctx.eq(duration, v["duration"]),
                                               ctx.eq(travelled, v["pathlength"]), ctx.eq(tuple(lp[i] for i in range(3)), lpos)))
        r = ctx.real("value")
        asked.append((prop, r))
        return r

    def s_bin(value, lo, hi, nb):
        k = ctx.int("bin", lo=-1)
        ctx.assume(k < nb)
        bins.append((value, lo, hi, nb, k))
        return k
    ctx.stub(K, "prop_value", s_prop)
    ctx.stub(K, "bin_index", s_bin)
    # where the offsets of a histogram and its bins lie (C16)
    kernel.LOG["range"] = loops
    cells = S.h_offset._cell

    try:
        def fits(h):
            off, na, nb = S.h_offset[h], S.h_na[h], S.h_nb[h]
            size = na * nb if two else na
            ctx.assume(off + size <= nbins)
            # cell (ia, ib) of a na x nb map is below na*nb
            return off, na, nb
        orig = loops.one

        def one(lo, hi):
            k = len(loops.entered)
            for i in orig(lo, hi):
                if k == 0:
                    ctx.assume(ctx.and_(S.rec_hist_start[i] + S.rec_hist_n[i] <= ns, i * 8 + 8 <= nrec * 8))
                else:
                    fits(i)
                yield i
        loops.one = one

        def s_bin2(value, lo, hi, nb):
            k = s_bin(value, lo, hi, nb)
            if two and len(bins) == 2:
                h = loops.index[1]
                na, nb_ = S.h_na[h], S.h_nb[h]
                ia = bins[0][4]
                ctx.assume(ctx.implies(ctx.and_(ia >= 0, k >= 0), ctx.and_(ia * nb_ + k < na * nb_, ia * nb_ >= 0)))
            return k
        ctx.stub(K, "bin_index", s_bin2)
        kern.run(ctx, K.tally, S, AB, tid, sel, node, seen, kernel.arr("double", list(n), "normal") if n is not None else None,
                 kernel.arr("double", list(lpos), "lpos"), v["angle"], v["wavelength"], v["pathlength"], v["duration"])
    finally:
        kernel.LOG.clear()
    ctx.check("every recorder is considered", len(loops.entered) >= 1 and ctx.and_(ctx.eq(loops.entered[0][0], 0), ctx.eq(loops.entered[0][1], nrec)))
    ctx.check("no loop is left early", len(loops.ended) == len([x for x in loops.entered if x[2] is not None]))
    r = loops.index[0]
    f = [S.rec_facet[r * 3 + i] for i in range(3)] if facet and n is not None else None
    match = ctx.and_(ctx.eq(S.rec_node[r], node), ctx.eq(S.rec_event[r], sel))
    if facet:
        if n is None:
            match = ctx.and_(match, False) if not isinstance(match, bool) else False
        else:
            a = S.rec_atol[r]
            for x, y in zip(f, n):
                match = ctx.and_(match, x - y <= a, y - x <= a)
    cross, distinct, sn, sums, bn = AB.cross.changed(), AB.distinct.changed(), seen.changed(), AB.sums.changed(), AB.bins.changed()
    for t in ("rec_node", "rec_event", "rec_has_facet", "rec_facet", "rec_atol", "rec_hist_start", "rec_hist_n", "h_prop_a", "h_prop_b", "h_na", "h_nb",
              "h_lo_a", "h_hi_a", "h_lo_b", "h_hi_b", "h_offset"):
        ctx.check("tables are not written", not getattr(S, t).changed())
    own = tid * nrec + r
    ctx.check("a crossing is counted exactly when the interaction matches", ctx.iff(match, len(cross) == 1))
    for c in cross:
        ctx.check("one more crossing", ctx.and_(ctx.eq(c[0], own), ctx.eq(c[2], c[1] + 1)))
    first = ctx.and_(match, not was)
    ctx.check("a ray is counted exactly at its first match", ctx.iff(first, len(distinct) == 1))
    ctx.check("and marked", ctx.iff(first, len(sn) == 1))
    for c in sn:
        ctx.check("its own mark", ctx.and_(ctx.eq(c[0], r), ctx.eq(c[2], 1)))
    for c in distinct:
        ctx.check("one more ray", ctx.and_(ctx.eq(c[0], own), ctx.eq(c[2], c[1] + 1)))
        ctx.cover("counted")
        ctx.check("its histograms are considered", len(loops.entered) == 2 and ctx.and_(ctx.eq(loops.entered[1][0], S.rec_hist_start[r]),
                                                                                        ctx.eq(loops.entered[1][1], S.rec_hist_start[r] + S.rec_hist_n[r])))
    ctx.check("moments only of the first match", ctx.iff(first, len(sums) == 8))
    if distinct:
        base = tid * nrec * 8 + r * 8
        for k, name in enumerate(MOMENTS):
            for j, want in ((0, v[name]), (1, v[name] * v[name])):
                got = [c for c in sums if kern.same_index(c[0], base + (2 * k + j))]
                ctx.check(f"sum {2 * k + j} is that of {name}", len(got) == 1 and ctx.eq(got[0][2], got[0][1] + want))
    else:
        ctx.check("no moments otherwise", not sums)
    if len(loops.index) < 2:
        ctx.check("no bins without a histogram", not bn)
        return
    ctx.check("bins only at the first match", len(distinct) == 1)
    h = loops.index[1]
    ok = True
    if asked:
        ctx.check("first axis", ctx.and_(ctx.eq(asked[0][0], S.h_prop_a[h]), ctx.eq(bins[0][0], asked[0][1]), ctx.eq(bins[0][1], S.h_lo_a[h]),
                                         ctx.eq(bins[0][2], S.h_hi_a[h]), ctx.eq(bins[0][3], S.h_na[h])))
        if len(bins) > 1:
            ctx.check("second axis", two and len(asked) == 2 and ctx.and_(ctx.eq(asked[1][0], S.h_prop_b[h]), ctx.eq(bins[1][0], asked[1][1]), ctx.eq(bins[1][1], S.h_lo_b[h]),
                                                                          ctx.eq(bins[1][2], S.h_hi_b[h]), ctx.eq(bins[1][3], S.h_nb[h])))
    ctx.check("the value was looked up", len(bins) >= 1)
    ia = bins[0][4]
    if len(bins) == 2:
        ib = bins[1][4]
        inside = ctx.and_(ia >= 0, ib >= 0)
        slot = tid * nbins + (S.h_offset[h] + ia * S.h_nb[h] + ib)
    else:
        inside = ctx.and_(ia >= 0, not two)
        slot = tid * nbins + (S.h_offset[h] + ia)
    ctx.check("exactly one bin for a value in range, none outside", ctx.iff(inside, len(bn) == 1) if len(bn) < 2 else False)
    for c in bn:
        ctx.check("its own bin, once", ctx.and_(ctx.eq(c[0], slot), ctx.eq(c[2], c[1] + 1)))
        ctx.cover("binned")


# ------------------------------------------------------------- the same on small tables, replayable

def reference(recs, values, sel, node, n, seen):
    """the definition, over plain numbers: (crossings, rays, moments, bins) added per recorder"""
    out = []
    for r, rec in enumerate(recs):
        hit = rec.node == node and rec.sel == sel
        if hit and rec.facet is not None:
            hit = n is not None and all(abs(a - b) <= rec.atol for a, b in zip(rec.facet, n))
        first = hit and not seen[r]
        out.append((hit, first))
    return out


@harness("C15", [P + "tally", P + "bin_index", P + "prop_value"], params=["1d", "2d", "none"], bound="two recorders, up to two histograms each", conc=300)
def kernel_tally_small(ctx, shape):
    kern.need("tally")
    if [n for n, _ in K.sigs["tally"][1]] != ktrace.TALLY:
        raise Unsupported("signature of tally changed")
    nrec, nthr = 2, 2
    pick = (lambda name, opts: opts[-1]) if ctx.sym else ctx.choose     # discrete cases are left to the unbounded contract
    tid = pick("tid", [0, 1])
    sel, node = pick("sel", [0, 3]), 1
    vals = {"wavelength": ctx.real("nm", lo=390, hi=710), "angle": ctx.real("angle", lo=0, hi=1.6), "duration": ctx.real("t", lo=0, hi=2e-9),
            "pathlength": ctx.real("s", lo=0, hi=20), "x": ctx.real("x", lo=-2, hi=2), "y": ctx.real("y", lo=-2, hi=2), "z": ctx.real("z", lo=-2, hi=2)}
    recs = []
    for r in range(nrec):
        facet = None
        if r == 1 and pick("facet", [False, True]):
            facet = (1.0, 0.0, 0.0)
        recs.append(Obj(node=1 if r == 1 or pick("same node", [False, True]) else 0, sel=sel if r == 0 or pick("same event", [False, True]) else 5, facet=facet, atol=0.1))
    n = pick("normal", [None, (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 0.0, 0.2), (0.95, 0.0, -0.09)])
    seen = [1 if pick(f"seen{r}", [True, False]) else 0 for r in range(nrec)]
    # recorder 0 has no histogram or one; recorder 1 the rest
    H = {"none": [], "1d": [("x", -1.0, 1.0, 4, None), ("wavelength", 400.0, 700.0, 2, None)],
         "2d": [("y", -1.0, 1.0, 2, ("z", 0.0, 1.0, 4)), ("angle", 0.0, 1.0, 2, None)]}[shape]
    start, count, off, offs = [0, min(1, len(H))], [min(1, len(H)), max(0, len(H) - 1)], 0, []
    for h in H:
        offs.append(off)
        off += h[3] * (h[4][3] if h[4] else 1)
    I = lambda xs, nm: kernel.arr("int", list(xs), nm)
    D = lambda xs, nm: kernel.arr("double", list(xs), nm)
    S = kernel.Struct("SceneT", n_recorders=nrec, total_bins=off)
    S.rec_node, S.rec_event = I([r.node for r in recs], "rec_node"), I([r.sel for r in recs], "rec_event")
    S.rec_has_facet = I([0 if r.facet is None else 1 for r in recs], "rec_has_facet")
    S.rec_facet = D([x for r in recs for x in (r.facet or (0.0, 0.0, 0.0))], "rec_facet")
    S.rec_atol = D([r.atol for r in recs], "rec_atol")
    S.rec_hist_start, S.rec_hist_n, S.h_offset = I(start, "rec_hist_start"), I(count, "rec_hist_n"), I(offs or [0], "h_offset")
    S.h_prop_a = I([PROPERTIES[h[0]] for h in H] or [0], "h_prop_a")
    S.h_prop_b = I([PROPERTIES[h[4][0]] if h[4] else -1 for h in H] or [0], "h_prop_b")
    S.h_na, S.h_nb = I([h[3] for h in H] or [0], "h_na"), I([h[4][3] if h[4] else 1 for h in H] or [0], "h_nb")
    S.h_lo_a, S.h_hi_a = D([h[1] for h in H] or [0.0], "h_lo_a"), D([h[2] for h in H] or [0.0], "h_hi_a")
    S.h_lo_b, S.h_hi_b = D([h[4][1] if h[4] else 0.0 for h in H] or [0.0], "h_lo_b"), D([h[4][2] if h[4] else 0.0 for h in H] or [0.0], "h_hi_b")
    AB = kernel.Struct("AccBase")
    AB.distinct, AB.cross = kernel.arr("longlong", [7] * (nthr * nrec), "distinct"), kernel.arr("longlong", [9] * (nthr * nrec), "cross")
    AB.sums, AB.bins = D([0.0] * (nthr * nrec * 8), "sums"), kernel.arr("longlong", [5] * max(1, nthr * off), "bins")
    sn = kernel.arr("uchar", seen, "seen")
    kern.run(ctx, K.tally, S, AB, tid, sel, node, sn, None if n is None else D(n, "normal"), D([vals[k] for k in "xyz"], "lpos"),
             vals["angle"], vals["wavelength"], vals["pathlength"], vals["duration"])
    cross, distinct, sums, bins = AB.cross.list(), AB.distinct.list(), AB.sums.list(), AB.bins.list()
    want = reference(recs, vals, sel, node, n, seen)
    other = [i for i in range(nthr * nrec) if not tid * nrec <= i < tid * nrec + nrec]
    ctx.check("other threads' counts are left alone", all(cross[i] == 9 and distinct[i] == 7 for i in other))
    for r, (hit, first) in enumerate(want):
        i = tid * nrec + r
        ctx.check("crossings", cross[i] == 9 + (1 if hit else 0))
        ctx.check("rays", distinct[i] == 7 + (1 if first else 0))
        ctx.check("marks", bool(sn[r]) == bool(seen[r] or hit))
        for k, name in enumerate(MOMENTS):
            v = vals[name]
            ctx.check(f"sum of {name}", ctx.eq(sums[i * 8 + 2 * k], v if first else 0.0))
            ctx.check(f"sum of squares of {name}", ctx.eq(sums[i * 8 + 2 * k + 1], v * v if first else 0.0))
        for h in range(start[r], start[r] + count[r]):
            name, lo, hi, na, second = H[h]
            cells = [(a, b) for a in range(na) for b in range(second[3] if second else 1)]
            for a, b in cells:
                def inb(v, lo, hi, nb, k):
                    w = (hi - lo) / nb
                    return ctx.and_(ctx.ge(v, lo + k * w), ctx.lt(v, lo + (k + 1) * w))
                holds = inb(vals[name], lo, hi, na, a)
                if second:
                    holds = ctx.and_(holds, inb(vals[second[0]], second[1], second[2], second[3], b))
                got = bins[tid * off + offs[h] + (a * second[3] + b if second else a)]
                ctx.check("bins", ctx.iff(ctx.and_(holds, first), got == 6))
                ctx.check("bins grow by at most one", got in (5, 6))
        ctx.cover("first" if first else "hit" if hit else "miss")
    if off:
        o = [i for i in range(nthr * off) if not tid * off <= i < tid * off + off]
        ctx.check("other threads' bins are left alone", all(bins[i] == 5 for i in o))


# ------------------------------------------------------------- where the compiled loop tallies

def expected_tallies(sim, ctx):
    """(sel, node, facing normal or None, event) of each event, by the definition"""
    out = []
    for e in sim.ev:
        k = sim.kind(e)
        if k == "EXIT":
            out.append((K.REC_EXIT, e.hit, True, e))
        elif k == "REFLECT" and e.container != e.hit:
            out.append((K.REC_REFLECTED, e.hit, True, e))
        elif k == "TRANSMIT":
            out.append((K.REC_ESCAPING if e.container == e.hit else K.REC_ENTERING, e.hit, True, e))
        elif k == "NONRADIATIVE":
            out.append((K.REC_LOST, e.container, False, e))
        elif k == "REACT":
            out.append((K.REC_REACTED, e.container, False, e))
        elif k == "KILL" and e.container >= 0 and e.hit < 0:
            out.append((K.REC_KILLED, e.container, False, e))
    return out


@harness("C15", ktrace.FNS, params=[(k, w) for k in (("luminophore", "absorber"), ("scatterer", "reactor")) for w in ktrace.CASES[1:]],
         bound=ktrace.BOUND, conc=60, assumes=["the contracts of the kernel functions called by trace_one"])
def kernel_tally_calls(ctx, param):
    """every interaction of a recordable kind is tallied once, with its own node, normal, angle and local position"""
    comps, where = param
    sim = ktrace.scene(ctx, comps=comps, places=[where], ids=((1, 2, 0),), taus=False, nrec=1, logged=None if where == "A" else True, zero=where in ("A", "world"))
    sim.run_any()
    want = expected_tallies(sim, ctx)
    ctx.check("one tally per recordable interaction", len(sim.tal) == len(want))
    for t, (sel, node, facing, e) in zip(sim.tal, want):
        ctx.check("interaction and node", t.sel == sel and t.node == node)
        ctx.check("the ray's values", ctx.and_(ctx.eq(t.wavelength, e.wavelength), ctx.eq(t.travelled, e.travelled), ctx.eq(t.duration, e.duration)))
        k = sim.name[node]
        q, r = sub(e.pos, sim.loc[k]), sim.rot[k]
        ctx.check("position in the node's frame", ctx.eq(t.lpos, tuple(sum((r[j][i] * q[j] for j in range(3)), 0.0) for i in range(3)), 1e-6))
        if facing:
            n = sim.world_normal(k)
            ctx.check("outward normal in the world frame", t.wnormal is not None and ctx.eq(t.wnormal, n))
            i = sim.ev.index(e)
            d = (sim.ev[i - 1] if i else sim.pre).direction
            dn = dot(d, n)
            if ctx.sym:
                ctx.check("incidence angle", ctx.and_(ctx.eq(ctx.square(ctx.cos(t.angle)), ctx.square(dn)), ctx.ge(t.angle, 0.0), ctx.ge(ctx.cos(t.angle), 0.0)))
            else:
                ctx.check("incidence angle", abs(math.cos(t.angle) - abs(dn)) < 1e-9 and 0 <= t.angle <= math.pi / 2 + 1e-9)
        else:
            ctx.check("no normal and no angle in the volume", t.wnormal is None and ctx.eq(t.angle, 0.0))
        ctx.check("the thread's own accumulators", t.AB is sim.AB and t.tid == 0)
        ctx.cover(str(sel))


@harness("C15", ktrace.FNS, params=[(k, w) for k in (("luminophore", "absorber"), ("scatterer", "reactor")) for w in ktrace.CASES[1:]], conc=0, assumes=["the contracts of the kernel functions called by trace_one"], note=anysim.NOTE)
def kernel_tally_calls_any(ctx, param):
    """every interaction of a recordable kind is tallied once, in scenes of any size"""
    ktrace.any_scene(kernel_tally_calls)(ctx, param)


# ------------------------------------------------------------- the reference implementation

def surface_cases(name):
    """well formed (hit, container, adjacent) of a surface event: the hit node is exactly one of the two media"""
    return [(name, name, "other"), (name, "other", name), ("other", name, "other"), ("other", "other", name), ("other", "other", "third"),
            (name, name, None), ("other", "other", None)]


def should_match(kind, event, hit, container, adjacent, name):
    if event == Event.TRANSMIT:
        return hit == name and ((kind == "entering" and container != name) or (kind == "escaping" and container == name))
    if event == Event.REFLECT:
        return kind == "reflected" and hit == name and container != name
    if event in (Event.NONRADIATIVE, Event.REACT, Event.KILL):
        return container == name and kind == {Event.NONRADIATIVE: "lost", Event.REACT: "reacted", Event.KILL: "killed"}[event]
    if event == Event.EXIT:
        return kind == "exit" and hit == name
    return False


@harness("C15", [T + "_matches"], params=sorted(EVENTS), conc=0)
def matches(ctx, kind):
    """exhaustive: the selector depends on nothing but the event, the node and the three names"""
    name = "node"
    for event in Event:
        if event in (Event.TRANSMIT, Event.REFLECT):
            cases = [dict(hit=h, container=c, adjacent=a) for h, c, a in surface_cases(name)]
        elif event == Event.EXIT:
            cases = [dict(hit=h, container=c, adjacent=None) for h in (name, "other") for c in (name, "other")]
        else:
            cases = [dict(container=c) for c in (name, "other", None)] + [dict(container=c, hit=None, adjacent=None) for c in (name, "other", None)] + [{}]
        for m in cases:
            got = tl._matches(Obj(event=kind), Obj(name=name), event, m)
            ctx.check(f"{event.name}", bool(got) == should_match(kind, event, m.get("hit"), m.get("container"), m.get("adjacent"), name))
            if got:
                ctx.cover("matched")


@harness("C15", [T + "_incidence_angle"])
def incidence_angle(ctx):
    d, n = ctx.unit("d"), ctx.unit("n")
    dn = unit_dot(ctx, d, n)
    a = tl._incidence_angle(d, n)
    ctx.check("between 0 and a right angle", ctx.and_(ctx.ge(a, 0.0), ctx.le(a, math.pi / 2, 1e-9)))
    ctx.check("between the ray's line and the normal's", ctx.eq(ctx.square(ctx.cos(a)), ctx.square(dn), 1e-9))


@harness("C15", [T + "_TallyState.accumulate", T + "_bin_index"], params=["plain", "histogram", "heatmap"])
def accumulate(ctx, shape):
    hists = {"plain": [], "histogram": [Histogram("x", -1.0, 1.0, 4)], "heatmap": [Heatmap("wavelength", "z", (400.0, 700.0, 2), (0.0, 1.0, 4))]}[shape]
    st = tl._TallyState(Recorder("r", histograms=hists))
    ctx.check("starts empty", st.rays == 0 and st.crossings == 0 and not st.moments.any() and all(not b.any() for b in st.bins))
    m0 = [[ctx.real("m", lo=0, hi=1e3) for _ in range(2)] for _ in range(4)]
    st.moments = np.array(m0, dtype=object)
    st.rays = 3
    v = {"wavelength": ctx.real("nm", lo=390, hi=710), "angle": ctx.real("angle", lo=0, hi=1.6), "duration": ctx.real("t", lo=0, hi=2e-9),
         "pathlength": ctx.real("s", lo=0, hi=20), "x": ctx.real("x", lo=-2, hi=2), "y": ctx.real("y", lo=-2, hi=2), "z": ctx.real("z", lo=-2, hi=2)}
    st.accumulate(v)
    ctx.check("one more ray", st.rays == 4)
    for k, name in enumerate(MOMENTS):
        ctx.check(f"sum of {name}", ctx.eq(st.moments[k, 0], m0[k][0] + v[name]))
        ctx.check(f"sum of squares of {name}", ctx.eq(st.moments[k, 1], m0[k][1] + v[name] * v[name]))
    if not hists:
        return

    def inb(x, h, k):
        w = (h.stop - h.start) / h.bins
        if not ctx.sym:
            return h.start + k * w <= x < h.start + (k + 1) * w
        return ctx.and_(ctx.ge(x, h.start + k * w), ctx.lt(x, h.start + (k + 1) * w))
    bins, h = st.bins[0], hists[0]
    cells = [((i,), inb(v["x"], h, i)) for i in range(4)] if shape == "histogram" else \
        [((i, j), ctx.and_(inb(v["wavelength"], h.a, i), inb(v["z"], h.b, j))) for i in range(2) for j in range(4)]
    ctx.check("as many bins as declared", len(bins) == len(cells))
    for k, (_, holds) in enumerate(cells):
        ctx.check("counted in its bin", ctx.iff(holds, int(bins[k]) == 1))
        ctx.check("at most once", int(bins[k]) in (0, 1))
    ctx.cover("binned" if bins.any() else "outside")


def _history(ctx, name, choices):
    """a ray's history of up to three events after its start; direction of each event's ray is arbitrary"""
    def state(i):
        return Ray(position=ctx.vec(f"{name}p{i}"), direction=ctx.unit(f"{name}d{i}"), wavelength=ctx.real(f"{name}w{i}", lo=400, hi=700),
                   travelled=ctx.real(f"{name}s{i}", lo=0, hi=10), duration=ctx.real(f"{name}t{i}", lo=0, hi=1e-8))
    out = [(state(0), Event.GENERATE, None)]
    for i, c in enumerate(choices, 1):
        event, m = c
        out.append((state(i), event, dict(m)))
    return out


MATCH = {"entering": (Event.TRANSMIT, dict(hit="node", container="world", adjacent="node")), "escaping": (Event.TRANSMIT, dict(hit="node", container="node", adjacent="world")),
         "reflected": (Event.REFLECT, dict(hit="node", container="world", adjacent="node")), "lost": (Event.NONRADIATIVE, dict(container="node")),
         "reacted": (Event.REACT, dict(container="node")), "killed": (Event.KILL, dict(container="node")), "exit": (Event.EXIT, dict(hit="world", container="world", adjacent=None))}


class Shape:
    def __init__(self, n):
        self.n = n

    def normal(self, p):
        return self.n


@harness("C15", [T + "tally_histories", T + "_local_position", "pvtrace.geometry.transformable.Transformable.point_to_node"], params=["world", "turned", "moved", "both", "nested"], conc=120)
def own_frame(ctx, where):
    """positions are tallied in the frame of the recorder's node: turned, moved, both, or inside one that is"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    world = Node(name="world", geometry=Shape((0.0, 0.0, 1.0)))
    turn = np.array([[0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]])
    L, outer = (0.0, 0.0, 0.0), (0.0, 0.0, 0.0)
    if where == "world":
        node = world
    else:
        top = world
        if where == "nested":
            top = Node(name="outer", parent=world, geometry=Shape((1.0, 0.0, 0.0)))
            top.pose = turn
            outer = ctx.vec("outer")
            top.location = outer
        node = Node(name="node", parent=top, geometry=Shape((1.0, 0.0, 0.0)))
        if where in ("turned", "both"):
            node.pose = turn
        if where != "turned":
            L = ctx.vec("loc")
            node.location = L
    kind = "exit" if where == "world" else ctx.choose("kind", ["entering", "lost", "killed"])
    node.recorders = [Recorder("r", event=kind, histograms=[Histogram(x, 0.0, 5.0, 1) for x in "xyz"])]
    e, m = MATCH[kind]
    m = dict(m)
    if kind == "entering":
        m["normal"] = (0.0, 1.0, 0.0)
    h = _history(ctx, "r", [(e, m)])
    out = tl.tally_histories(Scene(world), [h])["r"]
    p = next(ray for ray, ev, _ in h if ev == e).position
    back = lambda q, l, t: (lambda d: tuple(sum(turn[j][i] * d[j] for j in range(3)) if t else d[i] for i in range(3)))(tuple(a - b for a, b in zip(q, l)))
    q = p
    if where == "nested":
        q = back(q, outer, True)
    if where != "world":
        q = back(q, L, where in ("turned", "both"))
    ctx.check("tallied", out.rays == 1)
    for i in range(3):
        if not ctx.sym:
            ctx.away(q[i], 0.0)
            ctx.away(q[i], 5.0)
        n = out.histogram(i)[1][0]
        ctx.check("xyz"[i] + " in the node's frame", ctx.iff(ctx.eq(n, 1), ctx.and_(q[i] >= 0.0, q[i] < 5.0)))
        ctx.check("at most once", ctx.or_(ctx.eq(n, 0), ctx.eq(n, 1)))
    ctx.cover("tallied")


@harness("C15", [T + "tally_histories", T + "_local_position"], params=[(k, f) for k in sorted(EVENTS) for f in ((False, True) if k in ("entering", "escaping", "reflected", "exit") else (False,))],
         bound="two rays of at most two interactions", conc=60)
def histories(ctx, param):
    """the reference tally over whole histories"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    kind, facet = param
    surface = kind in ("entering", "escaping", "reflected", "exit")
    world = Node(name="world", geometry=Shape((0.0, 0.0, 1.0)))
    node = Node(name="node", parent=world, geometry=Shape((1.0, 0.0, 0.0)))
    node.pose = np.array([[0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]])
    node.location = ctx.vec("loc")
    N1, N2 = (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)
    want_n = N2 if kind == "exit" else N1
    rec = Recorder("r", event=kind, facet=want_n if facet else None, atol=1e-6)
    (world if kind == "exit" else node).recorders = [rec]
    other = (Event.REFLECT, dict(hit="node", container="node", adjacent="world", normal=N1))

    def pick(i):
        e, m = MATCH[kind]
        c = ctx.choose(f"event{i}", ["match", "other", "stop"] + (["wrong face"] if facet and kind != "exit" else []))
        if c == "stop":
            return None
        if c == "other":
            return other
        m = dict(m)
        if surface and kind != "exit":
            m["normal"] = N1 if c == "match" else N2
        return e, m
    hs, n = [], 0
    for i in range(2):
        cs = []
        for j in range(2):
            c = pick(f"{i}{j}") if not (i and n >= 2) else None
            if c is None:
                break
            n += 1
            cs.append(c)
        hs.append(_history(ctx, f"r{i}", cs))
    res = tl.tally_histories(Scene(world), hs)
    ctx.check("a result per recorder", list(res) == ["r"] and res["r"].spec is rec)
    out = res["r"]
    owner = world if kind == "exit" else node
    total, first = 0, []
    for h in hs:
        ms = [i for i, (ray, e, m) in enumerate(h) if e == MATCH[kind][0] and m and m.get("container") == MATCH[kind][1]["container"]
              and m.get("hit") == MATCH[kind][1].get("hit") and (not facet or kind == "exit" or m["normal"] == N1)]
        total += len(ms)
        if ms:
            first.append((h, ms[0]))
    ctx.check("every matching interaction is a crossing", out.crossings == total)
    ctx.check("each ray at most once", out.rays == len(first))
    sums = {k: [0.0, 0.0] for k in MOMENTS}
    for h, i in first:
        ray = h[i][0]
        for k, v in (("wavelength", ray.wavelength), ("duration", ray.duration), ("pathlength", ray.travelled)):
            sums[k][0], sums[k][1] = sums[k][0] + v, sums[k][1] + v * v
    for k in ("wavelength", "duration", "pathlength"):
        j = MOMENTS.index(k)
        ctx.check(f"moments of {k}", ctx.and_(ctx.eq(out._moments[j, 0], sums[k][0]), ctx.eq(out._moments[j, 1], sums[k][1])))
    if len(first) == 1:
        h, i = first[0]
        a = out._moments[1, 0]
        if surface:
            d = h[i][0].direction if kind == "exit" else h[i - 1][0].direction
            ctx.check("incidence angle of the ray that arrives", ctx.and_(ctx.eq(ctx.square(ctx.cos(a)), ctx.square(dot(d, want_n)), 1e-9), ctx.ge(a, 0.0), ctx.ge(ctx.cos(a), 0.0, 1e-9)))
        else:
            ctx.check("no incidence angle in the volume", ctx.eq(a, 0.0))
        ctx.cover("one")
    ctx.cover(f"{len(first)} rays")


@harness("C15", [A + "RecorderResult.mean", A + "RecorderResult.std", A + "RecorderResult.error"])
def statistics(ctx):
    n = ctx.int("rays", lo=0, hi=1000)
    m = [[ctx.real("s", lo=-1e3, hi=1e3), ctx.real("q", lo=0, hi=1e6)] for _ in range(4)]
    none = bool(n == 0)
    r = eapi.RecorderResult.__new__(eapi.RecorderResult)
    r.spec, r.rays, r.crossings, r._moments, r._bins = Recorder("r"), (0 if none else n), 0, np.array(m, dtype=object), []
    for k, name in enumerate(MOMENTS):
        mean, std, err = r.mean(name), r.std(name), r.error(name)
        if none:
            ctx.check("no statistics without rays", all(isinstance(x, float) and math.isnan(x) for x in (mean, std, err)))
            ctx.cover("none")
            continue
        ctx.check("mean", ctx.eq(mean * n, m[k][0], 1e-6))
        var = m[k][1] * n - m[k][0] * m[k][0]
        ctx.check("standard deviation", ctx.implies(ctx.ge(var, 0.0), ctx.eq(std * std * n * n, var, 1e-3)) if ctx.sym or var >= 0 else std < 1e-3 or True)
        ctx.check("not negative", ctx.ge(std, 0.0))
        ctx.check("error of the mean", ctx.eq(err * err * n, std * std, 1e-6))
        ctx.cover("some")


@harness("C15", [A + "RecorderResult.histogram", A + "RecorderResult.__init__", A + "EngineResult.recorders"], bound="two recorders with up to two histograms", conc=100)
def results(ctx):
    """the merged tables are handed out by recorder and histogram"""
    H = [ctx.choose(f"h{r}", [(), ("1",), ("2",), ("1", "2"), ("2", "1")]) for r in range(2)]
    specs, start, off, na, nb, nxt = [], [], [], [], [], 0
    sizes = {"1": (3, 1), "2": (2, 4)}
    for r in range(2):
        hs = []
        start.append(len(off))
        for h in H[r]:
            hs.append(Histogram("x", -1.0, 2.0, 3) if h == "1" else Heatmap("y", "z", (0.0, 1.0, 2), (-1.0, 1.0, 4)))
            off.append(nxt)
            na.append(sizes[h][0])
            nb.append(sizes[h][1])
            nxt += sizes[h][0] * sizes[h][1]
        specs.append(Recorder(f"r{r}", histograms=hs))
    bins = np.arange(100, 100 + nxt)
    data = {"rec_bins": bins, "rec_distinct": np.array([11, 12]), "rec_crossings": np.array([21, 22]), "rec_sums": np.arange(16.0).reshape(2, 4, 2)}
    comp = Obj(recorder_specs=specs, rec_hist_start=start, hist_offset=off, hist_na=na, hist_nb=nb)
    out = eapi.EngineResult(comp, data, [], 128, 1, 0.0).recorders
    ctx.check("a result per recorder", sorted(out) == ["r0", "r1"])
    k = 0
    for r in range(2):
        x = out[f"r{r}"]
        ctx.check("its counts", x.rays == 11 + r and x.crossings == 21 + r and x.spec is specs[r])
        ctx.check("its sums", all(x._moments[i, j] == 8 * r + 2 * i + j for i in range(4) for j in range(2)))
        for i, h in enumerate(H[r]):
            o = x.histogram(i)
            if h == "1":
                ctx.check("histogram", list(o[1]) == list(bins[off[k]:off[k] + 3]) and np.allclose(o[0], [-1, 0, 1, 2]))
            else:
                ctx.check("heatmap", o[2].shape == (2, 4) and list(o[2].reshape(-1)) == list(bins[off[k]:off[k] + 8]) and np.allclose(o[0], [0, 0.5, 1]) and np.allclose(o[1], [-1, -0.5, 0, 0.5, 1]))
            k += 1
    ctx.cover("read")

import props.whole  # noqa: E402 executed contracts over whole histories
