"""The compiled tracing loop (trace_one) under contract.

trace_one is executed as translated from the pyx; its callees with contracts
of their own are replaced by those contracts: intersect_node (C05),
local_normal (C06), fresnel_reflectivity (C04), specular_reflect and
fresnel_refract (C03), sample_phase and rng_uniform (C12), interp_clamped
(C10), record and tally (C14, C15).

mode "any":   one iteration of the main loop from an arbitrary state that
              satisfies the loop invariant (the state is that of the last
              recorded event; 0 <= count <= maxsteps); the invariant is
              checked again at the next loop head.
mode "entry": the function from its start, for a few iterations.
"""
import re

from vf import core, kernel
from vf.core import Unsupported, SNum
from props.common import *
from props import kern
from props.kern import K, P

C_CM = 2.99792458e10
NAMES = {"S", "elog", "base", "AB", "tid", "pos", "direction", "wavelength", "seed", "maxsteps", "emit_method"}
RECORD = ["elog", "base", "count", "kind", "hit", "container", "adjacent", "component", "source", "pos", "direction", "normal", "wavelength", "travelled", "duration"]
TALLY = ["S", "AB", "tid", "sel", "node", "seen", "wnormal", "lpos", "angle", "wavelength", "travelled", "duration"]
FNS = [P + "trace_one", P + "transform_point", P + "transform_vector"]

# a ray's surroundings: forward hits per node, in order of distance
PLACES = {"nothing": [], "world": ["W"], "world>A": ["A", "A", "W"], "A": ["A", "W"], "A>B": ["B", "B", "A", "W"],
          "B": ["B", "A", "W"], "A|B": ["A", "B", "B", "W"], "world>A>B": ["A", "B", "B", "A", "W"], "world>A>B out": ["A", "B", "A", "B", "W"]}
MEDIUM = {"world": "W", "world>A": "W", "A": "A", "A>B": "A", "B": "B", "A|B": "A", "world>A>B": "W"}
HIT = {"world": "W", "world>A": "A", "A": "A", "A>B": "B", "B": "B", "A|B": "A", "world>A>B": "A"}
ADJ = {"world": None, "world>A": "A", "A": "W", "A>B": "B", "B": "A", "A|B": "W", "world>A>B": "A"}
CASES = ["nothing", "world", "world>A", "A", "A>B", "B", "A|B"]
EV = {k: None for k in ("GENERATE", "REFLECT", "TRANSMIT", "ABSORB", "NONRADIATIVE", "SCATTER", "EMIT", "EXIT", "REACT", "KILL")}
BOUND = "scenes of three nodes (every nesting of two), two components in the medium"


class Sim:
    def __init__(self, ctx, places=("world", "world>A", "A", "A>B", "B", "A|B"), comps=("luminophore", "absorber"), ids=((0, 1, 2), (2, 0, 1)),
                 logged=None, nrec=0, emit=None, maxsteps=None, max_events=None, zero=True, taus=True, rots=True, extremes=True):
        kern.need("trace_one", "record", "tally", "intersect_node", "local_normal", "fresnel_reflectivity", "specular_reflect",
                  "fresnel_refract", "sample_phase", "rng_uniform", "rng_seed", "interp_clamped")
        if [n for n, _ in K.sigs["record"][1]] != RECORD or [n for n, _ in K.sigs["tally"][1]] != TALLY:
            raise Unsupported("signature of record or tally changed")
        self.ctx, self.places = ctx, list(places)
        self.ev, self.tal, self.calls, self.plans = [], [], [], []
        self.ended = True
        self.ids = dict(zip("WAB", ctx.choose("ids", list(ids))))
        self.name = {v: k for k, v in self.ids.items()}
        self.n = {k: ctx.pos("n_" + k, lo=1, hi=3) for k in "WAB"}
        self.nrec = nrec
        # poses: world identity, A rotated and moved, B moved
        I = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
        la, lb = ctx.vec("locA"), ctx.vec("locB")
        R = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]] if rots else [r[:3] for r in I[:3]]
        E3 = [r[:3] for r in I[:3]]
        self.rot, self.loc = {"W": E3, "A": R, "B": E3}, {"W": (0.0, 0.0, 0.0), "A": la, "B": lb}
        self.normal = {}
        S = self.S = kernel.Struct("SceneT", n_nodes=3, root=self.ids["W"], n_recorders=nrec, total_bins=0)
        l2w, w2l = {}, {}
        for k in "WAB":
            r, l = self.rot[k], self.loc[k]
            l2w[k] = [x for i in range(3) for x in (*r[i], l[i])] + [0.0, 0.0, 0.0, 1.0]
            w2l[k] = [x for i in range(3) for x in (r[0][i], r[1][i], r[2][i], 0.0 - sum((r[j][i] * l[j] for j in range(3) if r[j][i]), 0.0))] + [0.0, 0.0, 0.0, 1.0]
        order = [self.name[i] for i in range(3)]
        S.l2w = kernel.arr("double", [x for k in order for x in l2w[k]], "l2w")
        S.w2l = kernel.arr("double", [x for k in order for x in w2l[k]], "w2l")
        S.nidx = kernel.arr("double", [self.n[k] for k in order], "nidx")
        self.fresnel = {k: ctx.choose("fresnel_" + k, [True, False]) if k == "A" else (k == "B") for k in "WAB"}
        S.surf_type = kernel.arr("int", [K.SURF_FRESNEL if self.fresnel[k] else K.SURF_NULL for k in order], "surf_type")
        S.geom_type = kernel.arr("int", [K.GEOM_BOX] * 3, "geom_type")
        S.geom_params = kernel.arr("double", [1.0] * 12, "geom_params")
        # components: one in W (0), the listed ones in A, none in B
        self.kinds = ["absorber"] + list(comps)
        nc = len(self.kinds)
        self.of = {"W": [0], "A": list(range(1, nc)), "B": []}
        S.comp_start = kernel.arr("int", [{"W": 0, "A": 1, "B": nc}[k] for k in order], "comp_start")
        S.comp_count = kernel.arr("int", [len(self.of[k]) for k in order], "comp_count")
        T = {"absorber": K.COMP_ABSORBER, "scatterer": K.COMP_SCATTERER, "luminophore": K.COMP_LUMINOPHORE, "reactor": K.COMP_REACTOR}
        S.comp_type = kernel.arr("int", [T[k] for k in self.kinds], "comp_type")
        self.qy = [ctx.real("qy", lo=0, hi=1, special=(0, 1)) for _ in self.kinds]
        some = ctx.choose("lifetimes", [0.0, None]) if taus else 0.0
        self.tau_rad = [some if i == 1 else 0.0 for i in range(nc)]
        self.tau_nr = [some if i == 1 else 0.0 for i in range(nc)]
        self.tau_rad = [ctx.pos("taur", lo=1e-10, hi=1e-7) if t is None else t for t in self.tau_rad]
        self.tau_nr = [ctx.pos("taun", lo=1e-10, hi=1e-7) if t is None else t for t in self.tau_nr]
        S.comp_qy = kernel.arr("double", self.qy, "comp_qy")
        S.comp_tau_rad = kernel.arr("double", self.tau_rad, "comp_tau_rad")
        S.comp_tau_nr = kernel.arr("double", self.tau_nr, "comp_tau_nr")
        self.phase = [ctx.int("phase", lo=0, hi=2) if ctx.sym else i % 3 for i in range(nc)]
        self.phase_param = [ctx.real("phpar", lo=-1, hi=1) for i in range(nc)]
        S.comp_phase_type = kernel.arr("int", self.phase, "comp_phase_type")
        S.comp_phase_param = kernel.arr("double", self.phase_param, "comp_phase_param")
        self.tab = 4
        S.abs_start = kernel.arr("int", [i * self.tab for i in range(nc)], "abs_start")
        S.abs_n = kernel.arr("int", [self.tab] * nc, "abs_n")
        S.ems_start = kernel.arr("int", [i * self.tab for i in range(nc)], "ems_start")
        S.ems_n = kernel.arr("int", [self.tab] * nc, "ems_n")
        for t in ("abs_x", "abs_y", "ems_x", "ems_cdf"):
            setattr(S, t, kernel.arr("double", [0.0] * (self.tab * nc), t))
        self.coef = []
        for i in range(nc):
            c = 0.0 if zero and ctx.flag(f"clear{i}") else ctx.pos(f"coef{i}", lo=0.01, hi=5)
            if not (isinstance(c, float) and c == 0.0):
                ctx.assume(c > 1e-6)
            self.coef.append(c)
        self.emit = emit if emit is not None else K.EMIT_FULL
        self.base = 0 if (ctx.flag("logged") if logged is None else logged) else -1
        self.max_events = max_events if max_events is not None else ctx.int("max_events", lo=2, hi=60)
        self.maxsteps = maxsteps if maxsteps is not None else ctx.int("maxsteps", lo=0, hi=40)
        self.elog = kernel.Struct("EventLog", max_events=self.max_events)
        self.AB, self.tid = kernel.Struct("AccBase"), 0
        self.R = []
        for nm in ("rng_seed", "rng_uniform", "intersect_node", "local_normal", "fresnel_reflectivity", "specular_reflect", "fresnel_refract",
                   "sample_phase", "interp_clamped", "record", "tally"):
            ctx.stub(K, nm, getattr(self, "s_" + nm))

    # ------------------------------------------------------- contracts of the callees
    def s_rng_seed(self, rng, seed):
        self.calls.append(("seed", seed))

    def s_rng_uniform(self, rng):
        u = self.ctx.uniform()
        self.calls.append(("uniform", u))
        return u

    def plan(self):
        ctx = self.ctx
        where = ctx.choose("where", self.places)
        ts, t = {k: [] for k in "WAB"}, 0.0
        d0 = None
        for k in PLACES[where]:
            step = ctx.pos("step", lo=1e-5, hi=10)
            ctx.assume(step > 1e-6)
            t = t + step
            d0 = t if d0 is None else d0
            ts[k].append(t)
        if where in ("world>A", "A>B") and ctx.flag("far hit first"):
            k = HIT[where]
            ts[k].reverse()
        p = Obj(where=where, ts=ts, dist=d0, asked=set(), at=len(self.ev))
        self.plans.append(p)
        self.calls.append(("plan", p))
        return p

    def last(self):
        return self.ev[-1] if self.ev else self.pre

    def s_intersect_node(self, S, node, o, d, ts):
        ctx = self.ctx
        k = self.name[int(node)]
        p = self.plans[-1] if self.plans else None
        if p is None or k in p.asked or p.at != len(self.ev):
            p = self.plan()
        p.asked.add(k)
        r, l, e = self.rot[k], self.loc[k], self.last()
        q = sub(e.pos, l)
        # an inverse rotation multiplies by the transposed matrix
        ctx.check("node asked at the ray's position", ctx.eq(tuple(o[i] for i in range(3)), tuple(sum((r[j][i] * q[j] for j in range(3)), 0.0) for i in range(3)), 1e-6))
        ctx.check("node asked along the ray's direction", ctx.eq(tuple(d[i] for i in range(3)), tuple(sum((r[j][i] * e.direction[j] for j in range(3)), 0.0) for i in range(3)), 1e-6))
        for i, t in enumerate(p.ts[k]):
            ts[i] = t
        return len(p.ts[k])

    def s_local_normal(self, S, node, p, out):
        k = self.name[int(node)]
        if k not in self.normal:
            self.normal[k] = {"W": (0.0, 0.0, 1.0), "A": (1.0, 0.0, 0.0), "B": (0.0, 1.0, 0.0)}[k]
        self.calls.append(("normal", k, tuple(p[i] for i in range(3))))
        for i in range(3):
            out[i] = self.normal[k][i]

    def world_normal(self, k):
        n = {"W": (0.0, 0.0, 1.0), "A": (1.0, 0.0, 0.0), "B": (0.0, 1.0, 0.0)}[k]
        r = self.rot[k]
        return tuple(sum(r[i][j] * n[j] for j in range(3)) for i in range(3))

    def s_fresnel_reflectivity(self, angle, n1, n2):
        r = self.ctx.real("R", lo=0, hi=1, special=(0, 1))
        self.calls.append(("reflectivity", angle, n1, n2, r))
        return r

    def vec3(self, name, out):
        d = self.ctx.unit(name)
        for i in range(3):
            out[i] = d[i]
        return d

    def s_specular_reflect(self, d, normal, out):
        a = (tuple(d[i] for i in range(3)), tuple(normal[i] for i in range(3)))
        self.calls.append(("reflect", *a, self.vec3("rd", out)))

    def s_fresnel_refract(self, d, normal, n1, n2, out):
        a = (tuple(d[i] for i in range(3)), tuple(normal[i] for i in range(3)), n1, n2)
        self.calls.append(("refract", *a, self.vec3("td", out)))

    def s_sample_phase(self, kind, param, rng, out):
        self.calls.append(("phase", kind, param, self.vec3("sd", out)))

    def s_interp_clamped(self, x, xs, ys, n):
        ctx = self.ctx
        name, comp = (xs.arr.name, ys.arr.name), xs.off // self.tab
        ctx.check("table looked up whole", xs.off == ys.off and xs.off % self.tab == 0 and n == self.tab)
        if name == ("abs_x", "abs_y"):
            ctx.check("coefficient at the ray's wavelength", ctx.eq(x, self.last().wavelength))
            self.calls.append(("coef", comp))
            return self.coef[comp]
        if name == ("ems_x", "ems_cdf"):
            p = ctx.real("cdf", lo=0, hi=1)
            self.calls.append(("cdf", comp, x, p))
            return p
        if name == ("ems_cdf", "ems_x"):
            w = ctx.pos("emitted", lo=300, hi=900)
            self.calls.append(("quantile", comp, x, w))
            return w
        raise Unsupported(f"interp_clamped on {name}")

    def s_record(self, elog, base, count, kind, hit, container, adjacent, component, source, pos, direction, normal, wavelength, travelled, duration):
        ctx = self.ctx
        e = Obj(kind=int(kind), hit=int(hit), container=int(container), adjacent=int(adjacent), component=int(component), source=source,
                pos=tuple(pos[i] for i in range(3)), direction=tuple(direction[i] for i in range(3)),
                normal=None if normal is None else tuple(normal[i] for i in range(3)), wavelength=wavelength, travelled=travelled, duration=duration,
                plan=self.plans[-1] if self.plans else None)
        self.calls.append(("event", e))
        c = count[0]
        if self.base >= 0:
            ctx.check("event rows of this ray only", elog is self.elog and base == self.base and (isinstance(c, SNum) or c >= 0))
            ctx.check("no event is dropped", ctx.lt(c, self.max_events) if isinstance(c, SNum) or isinstance(self.max_events, SNum) else c < self.max_events)
            count[0] = c + 1
        else:
            ctx.check("unlogged ray writes no events", base < 0)
        self.ev.append(e)

    def s_tally(self, S, AB, tid, sel, node, seen, wnormal, lpos, angle, wavelength, travelled, duration):
        self.tal.append(Obj(sel=int(sel), node=int(node), wnormal=None if wnormal is None else tuple(wnormal[i] for i in range(3)),
                            lpos=tuple(lpos[i] for i in range(3)), angle=angle, wavelength=wavelength, travelled=travelled, duration=duration,
                            at=len(self.ev), seen=seen, tid=tid, AB=AB))
        self.calls.append(("tally", self.tal[-1]))

    def total(self, med):
        """total coefficient of a medium"""
        return sum((self.coef[i] for i in self.of[med]), 0.0)

    def below(self, c):
        """total coefficient of the components before c in its medium"""
        mine = next(self.of[x] for x in "WAB" if c in self.of[x])
        return sum((self.coef[i] for i in mine if i < c), 0.0)

    def clear(self):
        """nothing absorbs"""
        for m in "WAB":
            self.ctx.assume(self.total(m) == 0)

    # ------------------------------------------------------- running
    def ray(self, name="ray"):
        ctx = self.ctx
        return Obj(kind=None, pos=ctx.vec("pos"), direction=ctx.unit("dir"), wavelength=ctx.real("nm", lo=300, hi=900),
                   travelled=ctx.real("travelled", lo=0, hi=50), duration=ctx.real("duration", lo=0, hi=1e-7), source=-1, container=-1, plan=None)

    def args(self, e):
        self.pos = kernel.arr("double", e.pos, "pos")
        self.dir = kernel.arr("double", e.direction, "direction")
        self.seed = 12345
        v = dict(S=self.S, elog=self.elog, base=self.base, AB=self.AB, tid=self.tid, pos=self.pos, direction=self.dir, wavelength=e.wavelength,
                 seed=self.seed, maxsteps=self.maxsteps, emit_method=self.emit)
        names = [n for n, _ in K.sigs["trace_one"][1]]
        if set(names) - NAMES:
            raise Unsupported("signature of trace_one changed")
        return [v[n] for n in names]

    def state(self, F):
        return Obj(pos=tuple(self.pos[i] for i in range(3)), direction=tuple(self.dir[i] for i in range(3)), wavelength=F.wavelength,
                   travelled=F.travelled, duration=F.duration, source=F.source)

    def run_any(self):
        """one arbitrary iteration; sets pre, ev, post (None when the history ended)"""
        ctx = self.ctx
        names = modified()
        if not {"travelled", "duration", "count", "nevents"} <= names:
            raise Unsupported("loop variables of trace_one renamed")
        self.pre = self.ray()
        src = ctx.int("source", lo=-1, hi=len(self.kinds) - 1) if ctx.sym else ctx.choose("source", list(range(-1, len(self.kinds))))
        self.pre.source = src
        cnt = ctx.int("count", lo=0, hi=50)
        nev = ctx.int("nevents", lo=1, hi=60)
        ctx.assume(cnt <= self.maxsteps)
        if self.base >= 0:
            ctx.assume(ctx.lt(nev, self.max_events) if ctx.sym else nev < self.max_events)
        self.cnt, self.nev = cnt, nev
        self.post, self.F = None, None
        visits = []

        def head(F, key):
            if key != ("trace_one", 1):
                return True
            visits.append(key)
            self.F = F
            if len(visits) == 1:
                init = list(self.ev)
                self.init = init
                ctx.check("one event before the first step", len(init) == 1 and init[0].kind == K.EV_GENERATE)
                del self.ev[:], self.tal[:], self.calls[:]
                d = F.__dict__
                for k in list(d):
                    if k.startswith("_"):
                        continue
                    v = d[k]
                    if isinstance(v, kernel.Ptr) and v.arr.name.startswith("trace_one.") and not v.arr.name.endswith("rseen"):
                        v.arr.data[:] = [kernel._UNSET] * len(v.arr.data)
                    elif k in names and k not in NAMES:
                        del d[k]
                F.wavelength, F.travelled, F.duration, F.source = self.pre.wavelength, self.pre.travelled, self.pre.duration, src
                F.count, F.nevents = cnt, nev if self.base >= 0 else 0
                for i in range(3):
                    self.pos[i] = self.pre.pos[i]
                    self.dir[i] = self.pre.direction[i]
                return True
            self.post = self.state(F)
            self.post.count, self.post.nevents = F.count, F.nevents
            return False
        kernel.LOG["head"] = head
        try:
            ret = K.trace_one(*self.args(self.pre))
        except kernel.Uninit as e:
            raise Unsupported(f"arbitrary iteration: {e}")
        finally:
            kernel.LOG.clear()
        if not visits:
            raise Unsupported("main loop of trace_one not found")
        ctx.check("returns the number of events", ctx.eq(ret, (nev if self.base >= 0 else 0) + (len(self.ev) if self.base >= 0 else 0)))
        return self

    def run_entry(self, iterations, start=None):
        ctx = self.ctx
        self.pre = start or self.ray()
        if start is None:
            self.pre.travelled, self.pre.duration = 0.0, 0.0
        self.post = None
        visits = []

        def head(F, key):
            if key != ("trace_one", 1):
                return True
            visits.append(key)
            if len(visits) <= iterations:
                return True
            try:
                self.post = self.state(F)
            except kernel.Uninit:
                pass
            self.cut = True
            return False
        self.cut = False
        kernel.LOG["head"] = head
        try:
            ret = kern.run(ctx, K.trace_one, *self.args(self.pre))
        finally:
            kernel.LOG.clear()
        self.visits = len(visits)
        if not visits:
            raise Unsupported("main loop of trace_one not found")
        ctx.check("returns the number of events", bool(ret == (len(self.ev) if self.base >= 0 else 0)))
        return self

    # ------------------------------------------------------- shared shape of an iteration
    def kind(self, e):
        return NAME().get(e.kind, str(e.kind))

    def medium(self, e):
        return MEDIUM[e.plan.where]


_N = {}


def NAME():
    if not _N:
        for k in EV:
            _N[getattr(K, "EV_" + k)] = k
    return _N


_M = None


def modified():
    """names assigned inside the main loop of trace_one"""
    global _M
    if _M is None:
        s = K.source["trace_one"]
        i = s.find("K.head(F, ('trace_one', 1))")
        if i < 0:
            raise Unsupported("main loop of trace_one not found")
        body = s[i:]
        _M = set(re.findall(r"\bF\.(\w+) = ", body)) | set(re.findall(r"\bfor F\.(\w+) in", body)) | set(re.findall(r"FieldPtr\(F, '(\w+)'", body))
    return _M


def invariant(sim):
    """at the loop head the ray's state is that of its last event"""
    ctx, post = sim.ctx, sim.post
    if post is None:
        return
    e = sim.last()
    for f in ("pos", "direction", "wavelength", "travelled", "duration", "source"):
        ctx.check(f"state carried on: {f}", ctx.eq(getattr(post, f), getattr(e, f)))


# ------------------------------------------------------- one contract, two kinds of scene
ANY = []


def scene(ctx, **k):
    """a Sim, or within any_scene (symbolic runs) one of any number of nodes and components"""
    if ANY and ctx.sym:
        from props.anysim import AnySim
        return AnySim(ctx, **k)
    return Sim(ctx, **k)


def any_scene(fn):
    """the contract fn for scenes of any number of nodes and components"""
    def body(ctx, param):
        ANY.append(1)
        try:
            return fn(ctx, param)
        finally:
            ANY.pop()
    body.__name__ = fn.__name__ + "_any"
    body.__doc__ = (fn.__doc__ or "") + " (scenes of any size)"
    return body
