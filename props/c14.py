"""C14 the compiled kernel stays inside its tables."""
import z3

from vf import core, kernel
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
from props import kern, ktrace
from props.kern import K, P, Cells
import props.c01  # noqa: kernel_step, kernel_budget
import props.c10  # noqa: kernel_interp
import props.c15  # noqa: kernel_tally, kernel_bin_index, kernel_prop_value

meta("C14", assumptions=["the compiled scene is one the compiler produces (C16): table lengths as declared, component, spectrum, histogram and bin ranges inside their tables",
                         "max_events >= 2; rows fit a 64-bit signed integer, table sizes a 32-bit one",
                         "C aliasing: numpy arrays made by different calls do not overlap"],
     trusted=["Cython's generated C, the C compiler and OpenMP: prange runs each index once, threadid() is below num_threads"])


# ------------------------------------------------------------- random numbers

@harness(["C14", "C22"], [P + "rng_uniform"], note="64-bit words exactly, as bit vectors", conc=300)
def rng_uniform(ctx):
    """a draw lies in [0, 1) for every state of the generator"""
    kern.need("rng_uniform")
    if ctx.sym:
        rng = kernel.Struct("RNG", **{f"s{i}": kernel.U64(z3.BitVec(f"s{i}", 64)) for i in range(4)})
    else:
        word = lambda n: kernel.UInt((ctx.choose(n, [0, 1, 2 ** 64 - 1, 2 ** 63, None]) if ctx.flag(n + "?") else None) or
                                     (ctx.int(n + "h", lo=0, hi=2 ** 32 - 1) << 32 | ctx.int(n + "l", lo=0, hi=2 ** 32 - 1)))
        rng = kernel.Struct("RNG", **{f"s{i}": word(f"s{i}") for i in range(4)})
        st = [getattr(rng, f"s{i}") for i in range(4)]
    u = kern.run(ctx, K.rng_uniform, rng)
    if not ctx.sym:
        ctx.check("in [0, 1)", isinstance(u, float) and 0.0 <= u < 1.0)
        return
    if not isinstance(u, kernel.U64Scaled):
        raise Unsupported("rng_uniform is no scaled word")
    s = z3.Solver()
    s.set("timeout", 15000)
    # u.e * scale < 1  <=>  u.e <= ceil(1/scale) - 1
    from fractions import Fraction
    if not u.scale > 0:
        ctx.check("in [0, 1)", False)
        return
    top = -((-1) // Fraction(u.scale))
    s.add(z3.UGE(u.e, z3.BitVecVal(min(top, 2 ** 64 - 1), 64)))
    r = s.check()
    if r == z3.unknown:
        raise Unsupported("bit-vector solver gave up")
    ctx.check("in [0, 1)", r == z3.unsat)
    # exact in a double: no rounding up to 1
    s = z3.Solver()
    s.add(z3.UGT(u.e, z3.BitVecVal(2 ** 53, 64)))
    ctx.check("the integer drawn is exact in a double", s.check() == z3.unsat)


@harness(["C14", "C22"], [P + "rng_seed", P + "_splitmix64"], conc=200)
def rng_seed(ctx):
    """seeding sets the whole state, from the seed alone"""
    kern.need("rng_seed", "_splitmix64")
    seed = kernel.U64(z3.BitVec("seed", 64)) if ctx.sym else kernel.UInt(ctx.int("seedh", lo=0, hi=2 ** 32 - 1) << 32 | ctx.int("seedl", lo=0, hi=2 ** 32 - 1))
    rng = kernel.Struct("RNG")
    kern.run(ctx, K.rng_seed, rng, seed)
    ctx.check("every word of the state is set", all(f"s{i}" in rng.__dict__ for i in range(4)))
    if not ctx.sym:
        other = kernel.Struct("RNG")
        K.rng_seed(other, kernel.UInt((int(seed) + ctx.choose("apart", [1, 2, 64, 50000])) % 2 ** 64))
        ctx.check("neighbouring seeds, different streams", any(int(getattr(rng, f"s{i}")) != int(getattr(other, f"s{i}")) for i in range(4)))
        ctx.check("words of 64 bits", all(0 <= int(getattr(rng, f"s{i}")) < 2 ** 64 for i in range(4)))


# ------------------------------------------------------------- the event log

FIELDS1 = ("kind", "hit", "container", "adjacent", "component", "source", "wavelength", "travelled", "duration")
FIELDS3 = ("position", "direction", "normal")


@harness(["C14", "C22"], [P + "record"], params=["normal", "no normal"], conc=0, note="any event budget, any number of recorded rays")
def record(ctx, nrm):
    kern.need("record")
    if [n for n, _ in K.sigs["record"][1]] != ktrace.RECORD:
        raise Unsupported("signature of record changed")
    rows, cap = ctx.int("rows", lo=0), ctx.int("max_events", lo=2)
    logged = ctx.flag("logged")
    base = ctx.int("base", lo=0) if logged else ctx.int("nobase", hi=-1)
    cnt = ctx.int("count", lo=0)
    if logged:
        ctx.assume(base + cap <= rows)
    elog = kernel.Struct("EventLog", max_events=cap)
    val = lambda: ctx.real("cell")
    for f in FIELDS1:
        setattr(elog, f, Cells(ctx, f, rows, val))
    for f in FIELDS3:
        setattr(elog, f, Cells(ctx, f, rows * 3, val))
    count = kernel.arr("int", [cnt], "count")
    v = {k: ctx.int(k, lo=-1, hi=255) for k in ("hit", "container", "adjacent", "component", "source")}
    v["kind"] = ctx.int("kind", lo=0, hi=9)
    v |= {k: ctx.real(k) for k in ("wavelength", "travelled", "duration")}
    vec = {"position": ctx.vec("position"), "direction": ctx.vec("direction"), "normal": ctx.vec("normal") if nrm == "normal" else (0.0, 0.0, 0.0)}
    A = lambda n: kernel.arr("double", list(vec[n]), n)
    a = dict(elog=elog, base=base, count=count, pos=A("position"), direction=A("direction"), normal=A("normal") if nrm == "normal" else None, **v)
    kern.run(ctx, K.record, *[a[n] for n in ktrace.RECORD])
    fits = ctx.and_(logged, cnt < cap)
    wrote = {f: getattr(elog, f).changed() for f in FIELDS1 + FIELDS3}
    ctx.check("a row is written exactly when the ray is logged and has room", ctx.iff(fits, all(wrote.values())) if any(wrote.values()) else ctx.not_(fits))
    ctx.check("counted exactly then", ctx.eq(count[0], ctx.ite(fits, cnt + 1, cnt)))
    if not any(wrote.values()):
        ctx.cover("dropped")
        return
    ctx.cover("written")
    row = base + cnt
    for f in FIELDS1:
        ctx.check(f"one {f}", len(wrote[f]) == 1)
        for i, _, x in wrote[f]:
            ctx.check(f"{f} in the ray's next row", ctx.and_(ctx.eq(i, row), i >= base, i < base + cap))
            ctx.check(f"{f} as given", ctx.eq(x, v[f]))
    for f in FIELDS3:
        ctx.check(f"three {f}", len(wrote[f]) == 3)
        for k in range(3):
            got = [c for c in wrote[f] if kern.same_index(c[0], row * 3 + k)]
            ctx.check(f"{f} in the ray's next row", len(got) == 1)
            if got:
                ctx.check(f"{f} as given", ctx.eq(got[0][2], vec[f][k]))


@harness("C14", [P + "record"], bound="budgets up to 6", conc=300)
def record_small(ctx):
    kern.need("record")
    cap, ray = ctx.choose("cap", [2, 3, 6]), ctx.choose("ray", [0, 1])
    logged = ctx.flag("logged")
    rows = 2 * cap
    base = ray * cap if logged else -1
    cnt = ctx.choose("count", [0, 1, 2, 5, 6])
    if cnt > cap:
        cnt = cap
    elog = kernel.Struct("EventLog", max_events=cap)
    for f in FIELDS1:
        t = "uchar" if f == "kind" else ("double" if f in ("wavelength", "travelled", "duration") else "int")
        setattr(elog, f, kernel.arr(t, [77] * rows, f))
    for f in FIELDS3:
        setattr(elog, f, kernel.arr("double", [77.0] * (3 * rows), f))
    count = kernel.arr("int", [cnt], "count")
    v = dict(kind=3, hit=1, container=2, adjacent=-1, component=4, source=5, wavelength=ctx.real("nm", lo=300, hi=900), travelled=ctx.real("s", lo=0, hi=9), duration=ctx.real("t", lo=0, hi=9))
    vec = {f: ctx.vec(f) for f in FIELDS3}
    a = dict(elog=elog, base=base, count=count, pos=kern.dbl(vec["position"]), direction=kern.dbl(vec["direction"]), normal=kern.dbl(vec["normal"]), **v)
    kern.run(ctx, K.record, *[a[n] for n in ktrace.RECORD])
    fits = logged and cnt < cap
    ctx.check("counted", count[0] == cnt + fits)
    for f in FIELDS1:
        for i, x in enumerate(getattr(elog, f).arr.data):
            ctx.check(f"{f} written in its row only", ctx.eq(x, v[f]) if fits and i == base + cnt else x == 77)
    for f in FIELDS3:
        for i, x in enumerate(getattr(elog, f).arr.data):
            ctx.check(f"{f} written in its row only", ctx.eq(x, vec[f][i % 3]) if fits and i // 3 == base + cnt else x == 77)


# ------------------------------------------------------------- the bundle

class Nd:
    """a numpy array of known kind and (symbolic) shape"""

    def __init__(self, w, shape, dtype, name="", of=None):
        self.w, self.shape, self.dtype, self.name, self.of = w, tuple(shape), dtype, name, of

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n = n * k
        return n

    def vf_check(self, ctype, ndim, name):
        self.w.ctx.check(f"{name}: element type and dimensions as declared", self.dtype == ctype and len(self.shape) == ndim)
        return self

    def vf_ptr(self, ctype, name):
        self.w.ctx.check(f"{name}: read as what it holds", self.dtype == ctype)
        p = Cells(self.w.ctx, name, self.size, self.w.value(self, ctype))
        p.nd = self
        self.w.ptrs.append(p)
        return p

    def copy(self):
        return Nd(self.w, self.shape, self.dtype, self.name, of=self)

    def sum(self, axis=None):
        self.w.ctx.check("summed over the threads", axis == 0)
        return Nd(self.w, self.shape[1:], self.dtype, "sum of " + self.name, of=self)

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.start is not None or s.step is not None:
            raise Unsupported("indexing an array")
        return Nd(self.w, (s.stop,) + self.shape[1:], self.dtype, self.name, of=self)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
        n = 1
        for k in shape:
            n = n * k
        self.w.ctx.check("reshaped to the same size", self.w.ctx.eq(n, self.size))
        return Nd(self.w, shape, self.dtype, self.name, of=self)


class FakeNp:
    uint8, int32, int64, float64 = "uchar", "int", "llong", "double"

    def __init__(self, w):
        self.w = w

    def _new(self, shape, dtype, fill):
        shape = shape if isinstance(shape, tuple) else (shape,)
        for k in shape:
            ok = k >= 0
            self.w.ctx.check("array sizes are not negative", ok)
            self.w.ctx.assume(ok)
        a = Nd(self.w, shape, dtype)
        a.fill = fill
        self.w.made.append(a)
        return a

    def zeros(self, shape, dtype="double"):
        return self._new(shape, dtype, 0)

    def full(self, shape, fill, dtype="double"):
        return self._new(shape, dtype, fill)

    def ascontiguousarray(self, a):
        return a

    def __getattr__(self, k):
        raise Unsupported(f"numpy.{k} in trace_bundle")


TABLES = {  # field of the compiled scene -> (struct field, element type, length, inner dimensions)
    "geom_type": ("geom_type", "int", "nodes", ()), "geom_params": ("geom_params", "double", "nodes", (4,)),
    "local_to_world": ("l2w", "double", "nodes", (4, 4)), "world_to_local": ("w2l", "double", "nodes", (4, 4)),
    "refractive_index": ("nidx", "double", "nodes", ()), "surface_type": ("surf_type", "int", "nodes", ()),
    "comp_start": ("comp_start", "int", "nodes", ()), "comp_count": ("comp_count", "int", "nodes", ()),
    "comp_type": ("comp_type", "int", "comps", ()), "comp_qy": ("comp_qy", "double", "comps", ()),
    "comp_tau_rad": ("comp_tau_rad", "double", "comps", ()), "comp_tau_nr": ("comp_tau_nr", "double", "comps", ()),
    "comp_phase_type": ("comp_phase_type", "int", "comps", ()), "comp_phase_param": ("comp_phase_param", "double", "comps", ()),
    "comp_abs_start": ("abs_start", "int", "comps", ()), "comp_abs_n": ("abs_n", "int", "comps", ()),
    "comp_ems_start": ("ems_start", "int", "comps", ()), "comp_ems_n": ("ems_n", "int", "comps", ()),
    "abs_x": ("abs_x", "double", "absn", ()), "abs_y": ("abs_y", "double", "absn", ()), "ems_x": ("ems_x", "double", "emsn", ()), "ems_cdf": ("ems_cdf", "double", "emsn", ()),
    "rec_node": ("rec_node", "int", "recs", ()), "rec_event": ("rec_event", "int", "recs", ()), "rec_has_facet": ("rec_has_facet", "int", "recs", ()),
    "rec_facet": ("rec_facet", "double", "recs", (3,)), "rec_atol": ("rec_atol", "double", "recs", ()), "rec_hist_start": ("rec_hist_start", "int", "recs", ()),
    "rec_hist_n": ("rec_hist_n", "int", "recs", ()), "hist_prop_a": ("h_prop_a", "int", "hists", ()), "hist_prop_b": ("h_prop_b", "int", "hists", ()),
    "hist_na": ("h_na", "int", "hists", ()), "hist_nb": ("h_nb", "int", "hists", ()), "hist_lo_a": ("h_lo_a", "double", "hists", ()),
    "hist_hi_a": ("h_hi_a", "double", "hists", ()), "hist_lo_b": ("h_lo_b", "double", "hists", ()), "hist_hi_b": ("h_hi_b", "double", "hists", ()),
    "hist_offset": ("h_offset", "int", "hists", ())}
LOGGED = {"kind": "uchar", "hit": "int", "container": "int", "adjacent": "int", "component": "int", "source": "int", "position": "double", "direction": "double",
          "normal": "double", "wavelength": "double", "travelled": "double", "duration": "double"}


@harness(["C14", "C13", "C22"], [P + "trace_bundle"], params=[0, 1, 2, 7, "any"], conc=0, budget=60,
         assumes=["the contract of trace_one: it touches only its tables, its own rows and its thread's slices"],
         note="any number of rays, threads, nodes, recorders; two arbitrary rays stand for all schedules")
def bundle(ctx, every):
    """every ray gets its own rows, its own state and its own seed"""
    kern.need("trace_bundle", "trace_one")
    w = Obj(ctx=ctx, ptrs=[], made=[])
    n = ctx.int("rays", lo=0)
    cap, steps, emit = ctx.int("max_events", lo=2), ctx.int("maxsteps", lo=0), ctx.int("emit_method", lo=0, hi=2)
    threads = ctx.int("threads")
    re = ctx.int("record_every") if every == "any" else every
    if every == "any":
        ctx.assume(re != 0)
    size = {k: ctx.int(k, lo=0) for k in ("nodes", "comps", "absn", "emsn", "recs", "hists")}
    total = ctx.int("total_bins", lo=0)
    seed = ctx.int("seed", lo=0)

    def value(nd, ctype):
        return lambda: ctx.real("cell") if ctype == "double" else ctx.int("cell")
    w.value = value
    comp = Obj(root_id=ctx.int("root", lo=0), total_bins=total)
    for k, (_, t, ln, inner) in TABLES.items():
        setattr(comp, k, Nd(w, (size[ln],) + inner, t, k))
    pos, dirs, wav = Nd(w, (n, 3), "double", "positions"), Nd(w, (n, 3), "double", "directions"), Nd(w, (n,), "double", "wavelengths")
    runs, names = [], [a for a, _ in K.sigs["trace_one"][1]]
    state = Obj(cur=None, threads=None, rays=[])

    def s_trace_one(*a):
        v = dict(zip(names, a))
        if set(v) - ktrace.NAMES:
            raise Unsupported("signature of trace_one changed")
        v["nev"] = ctx.int("events", lo=0)
        ctx.assume(v["nev"] <= cap)
        state.rays.append(v)
        return v["nev"]

    def prange(F, m, num_threads=None):
        ctx.check("one task per ray", ctx.eq(m, n))
        ctx.check("a positive number of threads is asked for", num_threads is not None and num_threads >= 1)
        state.threads = num_threads
        for q in range(2):
            i = ctx.int(f"i{q}")
            ctx.assume(ctx.and_(i >= 0, i < n))
            runs.append(i)
            if q:
                ctx.assume(ctx.not_(ctx.eq(i, runs[0])))
            for k in ("base", "nev", "tid"):
                F.__dict__.pop(k, None)
            before = len(state.rays)
            yield i
            ctx.check("each ray is traced once", len(state.rays) == before + 1)

    def threadid(F):
        t = ctx.int("tid", lo=0)
        ctx.assume(t < state.threads)
        return t
    ctx.stub(kernel.PY, "np", FakeNp(w))
    ctx.stub(K, "trace_one", s_trace_one)
    kernel.LOG["prange"], kernel.LOG["threadid"] = prange, threadid
    try:
        out = kern.run(ctx, K.trace_bundle, comp, pos, dirs, wav, seed, steps, cap, emit, threads, re)
    except ValueError:
        ctx.check("only scenes beyond the node limit are refused here", size["nodes"] > K.MAX_NODES)
        ctx.cover("refused")
        return
    finally:
        kernel.LOG.clear()
    ctx.check("never more nodes than the kernel has room for", size["nodes"] <= K.MAX_NODES)
    ctx.check("all rays are traced", len(runs) == 2)
    ctx.cover("traced")
    nthr = state.threads
    on = re > 0 if every == "any" else re > 0
    on = bool(on)
    slots = [None, None]
    if on:
        nrec = (n + re - 1) // re
        for q, i in enumerate(runs):
            slots[q] = i // re if bool(ctx.eq(i % re, 0)) else None
    else:
        nrec = 0
    for q, v in enumerate(state.rays):
        i, S, E, A = runs[q], v["S"], v["elog"], v["AB"]
        # scene tables
        for k, (f, t, ln, inner) in TABLES.items():
            p = getattr(S, f)
            ctx.check(f"{f} is the compiled {k}", isinstance(p, Cells) and p.off == 0 and p.nd.name == k)
        ctx.check("table sizes", ctx.and_(ctx.eq(S.n_nodes, size["nodes"]), ctx.eq(S.root, comp.root_id), ctx.eq(S.n_recorders, size["recs"]), ctx.eq(S.total_bins, total)))
        # the ray
        ctx.check("limits passed on", ctx.and_(ctx.eq(v["maxsteps"], steps), ctx.eq(v["emit_method"], emit), ctx.eq(E.max_events, cap)))
        ctx.check("its own seed", ctx.eq(v["seed"], seed + i))
        for nm, src in (("pos", pos), ("direction", dirs)):
            p = v[nm]
            ctx.check(f"{nm} is the ray's own, in a copy", isinstance(p, Cells) and p.nd.of is src and ctx.eq(p.off, i * 3))
        got = [p for p in w.ptrs if p.nd.name == "wavelengths" or p.nd is wav]
        ctx.check("its own wavelength", len(got) == 1 and any(kern.same_index(c[0], i) and c[2] is v["wavelength"] for c in got[0].cells))
        # tallies
        ctx.check("thread slice", ctx.and_(v["tid"] >= 0, v["tid"] < nthr))
        room = {"distinct": size["recs"], "cross": size["recs"], "sums": size["recs"] * 8, "bins": total}
        for f, width in room.items():
            p = getattr(A, f)
            ctx.check(f"{f}: a slice for every thread", p.off == 0 and len(p.nd.shape) == 2 and ctx.and_(p.nd.shape[0] >= nthr, ctx.or_(ctx.eq(p.nd.shape[1], width), ctx.eq(width, 0))))
            ctx.check(f"{f}: starts at zero", p.nd.fill == 0 and p.nd.dtype == ("double" if f == "sums" else "llong"))
        # the log
        if slots[q] is None:
            ctx.check("a ray not selected logs nothing", v["base"] < 0)
            ctx.cover("unlogged")
        else:
            ctx.cover("logged")
            ctx.check("rows of its own", ctx.eq(v["base"], slots[q] * cap))
            ctx.lemma("the last recorded ray", slots[q] + 1 <= nrec)
            ctx.lemma("whole blocks", (nrec - slots[q] - 1) * cap >= 0)
            for f, t in LOGGED.items():
                p = getattr(E, f)
                per = 3 if f in FIELDS3 else 1
                ctx.check(f"{f}: rows for every event", p.off == 0 and p.nd.dtype == t and ctx.and_(v["base"] >= 0, (v["base"] + cap) * per <= p.nd.size))
    if slots[0] is not None and slots[1] is not None:
        a, b = slots
        ctx.lemma("different slots", ctx.not_(ctx.eq(a, b)))
        ctx.lemma("blocks apart", ctx.or_((a - b - 1) * cap >= 0, (b - a - 1) * cap >= 0))
        ctx.check("rows of different rays never overlap", ctx.or_(a * cap + cap <= b * cap, b * cap + cap <= a * cap))
    # the numbers of events
    cn = out["counts"]
    ctx.check("one count per recorded ray", ctx.eq(cn.size, nrec))
    tab = [p for p in w.ptrs if p.nd is cn.of]
    ctx.check("counts table", len(tab) == 1 and cn.of.fill == 0)
    for q, v in enumerate(state.rays):
        if slots[q] is not None:
            ctx.check("its count is kept", any(kern.same_index(c[0], slots[q]) and c[2] is v["nev"] for c in tab[0].cells))
    ctx.check("no other count is written", len(tab[0].changed()) == sum(1 for s in slots if s is not None))
    for f in LOGGED:
        ctx.check(f"{f} returned whole", out[f] is getattr(state.rays[0]["elog"], f).nd and ctx.eq(out[f].shape[0], nrec * cap))
    for k, f, shape in (("rec_distinct", "distinct", (size["recs"],)), ("rec_crossings", "cross", (size["recs"],)), ("rec_sums", "sums", (size["recs"], 4, 2)), ("rec_bins", "bins", (total,))):
        o = out[k]
        root = o
        while getattr(root, "of", None) is not None:
            root = root.of
        ctx.check(f"{k} sums the threads' slices", root is getattr(state.rays[0]["AB"], f).nd and len(o.shape) == len(shape) and ctx.and_(*[ctx.eq(a, b) for a, b in zip(o.shape, shape)]))
    for p in w.ptrs:
        if p.nd.name in TABLES or p.nd.name == "wavelengths":
            ctx.check("tables are not written", not p.changed())

import props.whole  # noqa: E402 executed contracts over whole histories
