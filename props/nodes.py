"""The node loops of trace_one for any number of nodes and crossings.

One arbitrary iteration of the main loop is run with S.n_nodes a symbolic
number.  Each of the five loops over nodes or hits carries an invariant; the
harness is run once per loop (an arbitrary pass from an arbitrary state
satisfying the invariant must restore it) and once with every loop replaced by
its invariant at exit, where the next event's hit, container, adjacent,
distance and index are checked against their definition.

The crossings are any function: nh(node) crossings of a node, the nearest at
near(node).  Universally quantified facts are used at arbitrary witnesses."""
import ast
import math

from vf import core, kernel
from vf.core import Unsupported
from props.common import *
from props import kern
from props.kern import K, P

PHASES = ["collect", "nearest", "second", "container", "adjacent", "end"]
NEEDS = ["transform_point", "transform_vector", "intersect_node", "record", "tally", "rng_seed", "rng_uniform", "local_normal",
         "fresnel_reflectivity", "specular_reflect", "fresnel_refract", "sample_phase", "interp_clamped"]
ARRAYS = ("hit_t", "hit_node", "node_hits", "node_min_t")


class Done(Exception):
    """the first event of the iteration has been recorded"""


class Table:
    """a read-only function of an index of any size; equal at equal indices"""

    def __init__(self, ctx, name, lo, hi, make, both=None, _s=None, _off=0):
        self.ctx, self.name, self.lo, self.hi, self.make, self.both, self.off = ctx, name, lo, hi, make, both, _off
        self.seen = _s if _s is not None else []
        self.arr = self

    def __add__(self, k):
        return Table(self.ctx, self.name, self.lo, self.hi, self.make, self.both, self.seen, self.off + k)

    def entry(self, i):
        ctx = self.ctx
        for j, v in self.seen:
            if kern.same_index(i, j):
                return v
        v = self.make(i)
        for j, w in self.seen:
            for a, b in zip(v, w):
                if not (isinstance(a, int) and isinstance(b, int)):
                    ctx.assume(ctx.implies(ctx.eq(i, j), ctx.eq(a, b)))
            if self.both is not None:
                self.both(i, v, j, w)
        self.seen.append((i, v))
        return v

    def __getitem__(self, i):
        ctx, i = self.ctx, self.off + i
        ok = ctx.and_(i >= self.lo, i < self.hi)
        ctx.check(f"read within {self.name}", ok)
        ctx.assume(ok)
        return self.entry(i)[0]

    def __setitem__(self, i, v):
        raise Unsupported(f"{self.name} written outside its loop")


class View:
    """another column of a Table"""

    def __init__(self, t, col):
        self.t, self.col = t, col
        self.arr = self

    def __getitem__(self, i):
        self.t[i]
        return self.t.entry(i)[self.col]

    def __setitem__(self, i, v):
        raise Unsupported("hits written outside their loop")


def loops():
    """{for-loop number: names and arrays it assigns} of trace_one"""
    tree = ast.parse(K.source["trace_one"])
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, "attr", "") == "crange":
            names = set()
            for m in ast.walk(n):
                for t in (m.targets if isinstance(m, ast.Assign) else [m.target] if isinstance(m, ast.For) else []):
                    if isinstance(t, ast.Attribute):
                        names.add(t.attr)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                        names.add(t.value.attr + "[]")
            out[ast.literal_eval(n.iter.args[1])[1]] = names
    return out


SHAPES = {"collect": {"node", "nhits", "k", "nlocal", "hit_t[]", "hit_node[]", "node_hits[]", "node_min_t[]"},
          "nearest": {"i", "first"}, "second": {"i", "second"}, "container": {"node", "best", "container"}, "adjacent": {"node", "best", "adjacent"}}


class Any:
    def __init__(self, ctx, phase):
        kern.need("trace_one", *NEEDS)
        self.ctx, self.phase = ctx, phase
        self.kind = {}
        if ctx.sym:
            for k, names in loops().items():
                for s, want in SHAPES.items():
                    if names == want:
                        self.kind[k] = s
            if set(self.kind.values()) != set(SHAPES):
                raise Unsupported("the node loops of trace_one have another shape")
            self.N = ctx.int("n_nodes", lo=1, hi=K.MAX_NODES)
            self.root = ctx.int("root")
            ctx.assume(ctx.and_(self.root >= 0, self.root < self.N))
            self.symbolic()
        else:
            self.concrete()
        self.passed, self.recs, self.marks = [], [], {}
        S = self.S = kernel.Struct("SceneT", n_nodes=self.N, root=self.root, n_recorders=0, total_bins=0)
        S.w2l = self.pose("w2l")
        S.l2w = self.pose("l2w")
        S.nidx = self.table("nidx", lambda i: (ctx.pos("n", lo=1, hi=3),))
        S.surf_type = self.table("surf_type", lambda i: (K.SURF_NULL,))
        S.comp_start = self.table("comp_start", lambda i: (0,))
        S.comp_count = self.table("comp_count", lambda i: (0,))
        for nm in NEEDS:
            ctx.stub(K, nm, getattr(self, "s_" + nm))

    def table(self, name, make):
        return Table(self.ctx, name, 0, self.N, make)

    def pose(self, name):
        class Pose:
            off = 0

            def __add__(s, k):
                p = Pose()
                p.off = s.off + k
                return p
        Pose.name = name
        return Pose()

    # -------------------------------------------------------------- any scene
    def symbolic(self):
        ctx = self.ctx

        def node(i):
            n = ctx.int("nh", lo=0, hi=4)
            return n, ctx.pos("near", lo=1e-5, hi=100)
        self.nodes = Table(ctx, "node_hits", 0, self.N, node)
        self.M = ctx.int("nhits", lo=0, hi=K.MAX_HITS)
        self.owner = {}

        def slot(s):
            j, t = ctx.int("owner"), ctx.pos("t", lo=1e-5, hi=100)
            ctx.assume(ctx.and_(j >= 0, j < self.N))
            n, near = self.nodes.entry(j)
            ctx.assume(ctx.and_(n >= 1, t >= near, ctx.implies(ctx.eq(n, 1), ctx.eq(t, near))))
            return t, j

        def two(s, a, r, b):
            # one slot per crossing: two slots of one node are two crossings
            ctx.assume(ctx.implies(ctx.and_(ctx.not_(ctx.eq(s, r)), ctx.eq(a[1], b[1])), self.nodes.entry(a[1])[0] >= 2))
        self.slots = Table(ctx, "hits", 0, self.M, slot, two)

    def nearest_slot(self, w):
        """the slot of the nearest crossing of node w (which has one)"""
        ctx = self.ctx
        s = ctx.int("slot_w")
        ctx.assume(ctx.and_(s >= 0, s < self.M))
        t, j = self.slots.entry(s)
        n, near = self.nodes.entry(w)
        ctx.assume(ctx.and_(ctx.eq(j, w), ctx.eq(t, near)))
        return s

    def concrete(self):
        ctx = self.ctx
        self.N = ctx.int("n_nodes", lo=1, hi=12)
        self.root = ctx.int("root", lo=0, hi=self.N - 1)
        self.cross = []
        for i in range(self.N):
            n = ctx.choose("crossings", [0, 1, 1, 2, 3, 4])
            self.cross.append([ctx.pos("t", lo=1e-4, hi=10) for _ in range(n)])
        flat = [t for c in self.cross for t in c]
        ctx.assume(len(set(flat)) == len(flat))

    # -------------------------------------------------------------- contracts of the callees
    def s_rng_seed(self, rng, seed):
        pass

    def s_rng_uniform(self, rng):
        return self.ctx.uniform()

    def mark(self, what, m, v, out):
        ctx = self.ctx
        if not hasattr(m, "off") or not hasattr(m, "name"):
            raise Unsupported("pose handed on in another way")
        ctx.check("pose read within its table", ctx.and_(m.off >= 0, m.off + 16 <= 16 * self.N))
        w = ctx.vec("local")
        for i in range(3):
            out[i] = w[i]
        self.marks[what, m.name] = (m.off, tuple(v[i] for i in range(3)), w)

    def s_transform_point(self, m, p, out):
        self.mark("point", m, p, out)

    def s_transform_vector(self, m, v, out):
        self.mark("vector", m, v, out)

    def s_intersect_node(self, S, node, o, d, ts):
        ctx = self.ctx
        for what, got, src in (("point", o, self.pos), ("vector", d, self.dir)):
            m = self.marks.pop((what, "w2l"), None)
            ctx.check(f"{what} taken to the node's frame", m is not None and bool(ctx.sym or m[0] == node * 16))
            if m is None:
                return 0
            ctx.check("by the node's own pose", ctx.eq(m[0], node * 16))
            ctx.check("from the ray", ctx.eq(m[1], tuple(src[i] for i in range(3))))
            ctx.check("and handed to the shape", ctx.eq(tuple(got[i] for i in range(3)), m[2]))
        c = self.crossings if ctx.sym else self.cross[node]
        for i, t in enumerate(c):
            ts[i] = t
        self.asked = node
        return len(c)

    def s_local_normal(self, S, node, p, out):
        self.ctx.check("normal of the surface hit", self.ctx.eq(node, self.hit_node()))
        for i, x in enumerate(self.ctx.unit("n")):
            out[i] = x

    def hit_node(self):
        return self.expect()[0] if not self.ctx.sym else self.F.hit if "hit" in self.F.__dict__ else self.fail()

    def fail(self):
        raise Unsupported("variable hit not found")

    def no(self, *a):
        self.ctx.check("no Fresnel surface and no medium is consulted here", False)
        raise Done()

    s_fresnel_reflectivity = s_specular_reflect = s_fresnel_refract = s_sample_phase = s_interp_clamped = s_tally = no

    def s_record(self, elog, base, count, kind, hit, container, adjacent, component, source, pos, direction, normal, wavelength, travelled, duration):
        self.recs.append(Obj(kind=int(kind), hit=hit, container=container, adjacent=adjacent, travelled=travelled, duration=duration,
                             pos=tuple(pos[i] for i in range(3))))
        if len(self.recs) == 2:
            raise Done()

    # -------------------------------------------------------------- loops
    def on_for(self, F, key, *a):
        if key[0] != "trace_one" or self.kind.get(key[1]) is None:
            if any(isinstance(x, core.SNum) for x in a):
                raise Unsupported("unknown loop over a symbolic range")
            return None
        k = self.kind[key[1]]
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            raise Unsupported("loop with a step")
        self.passed.append(k)
        self.F = F
        return getattr(self, "l_" + k)(F, lo, hi)

    def whole(self, lo, hi, n, first=(0,)):
        """the loop visits all of them; another range may be as good, and is left to the concrete runs"""
        if not isinstance(lo, int) or lo not in first or not kern.same_index(hi, n):
            raise Unsupported("nodes or hits visited in another way")

    def forget(self, F, *names):
        for n in names:
            F.__dict__.pop(n, None)

    def l_collect(self, F, lo, hi):
        ctx = self.ctx
        self.whole(lo, hi, self.N)
        ctx.check("no hits yet", ctx.eq(F.nhits, 0))
        if self.phase == "collect":
            size = {"hit_t": K.MAX_HITS, "hit_node": K.MAX_HITS, "node_hits": K.MAX_NODES, "node_min_t": K.MAX_NODES}
            old = {}
            for n in ARRAYS:
                v = getattr(F, n)
                if len(v.arr) != size[n]:
                    raise Unsupported(f"size of {n}")
                isint = n in ("hit_node", "node_hits")
                old[n] = kern.Cells(ctx, n, size[n], (lambda: ctx.int("stale", lo=-5, hi=500)) if isint else (lambda: ctx.real("stale", lo=-5, hi=500)))
                setattr(F, n, old[n])
            ts, t = [], 0.0
            for _ in range(ctx.choose("crossings", [0, 1, 2, 3, 4])):
                ts.append(ctx.pos("t", lo=1e-5, hi=100))
            self.crossings = ts
            self.forget(F, "nlocal", "k")
            n0 = ctx.int("held", lo=0, hi=K.MAX_HITS)
            F.nhits = n0
            node = ctx.int("node")
            ctx.assume(ctx.and_(node >= lo, node < hi))
            yield node
            ctx.check("the node itself is asked", ctx.eq(self.asked, node))
            c = old["node_hits"].changed()
            ctx.check("only its own count is set", len(c) == 1 and bool(kern.same_index(c[0][0], node)))
            ctx.check("number of crossings", ctx.eq(old["node_hits"][node], len(ts)))
            m = old["node_min_t"].changed()
            ctx.check("only its own nearest is set", len(m) <= 1 and all(bool(kern.same_index(x[0], node)) for x in m))
            if ts:
                near = old["node_min_t"][node]
                ctx.check("nearest crossing", ctx.and_(*[near <= t for t in ts], ctx.or_(*[ctx.eq(near, t) for t in ts])))
            stored = F.nhits - n0
            for w in ("hit_t", "hit_node"):
                got = sorted(((core.cur().concretise(x[0] - n0) if isinstance(x[0] - n0, core.SNum) else x[0] - n0), x[2]) for x in old[w].changed())
                ctx.check(f"{w}: slots filled in turn", [i for i, _ in got] == list(range(len(got))))
                ctx.check(f"{w}: as many as counted", ctx.eq(stored, len(got)))
                for (_, v), t in zip(got, ts):
                    ctx.check(f"{w}: crossing kept", ctx.eq(v, t if w == "hit_t" else node))
                ctx.check("no crossing is lost while there is room", ctx.or_(ctx.eq(stored, len(ts)), n0 + len(ts) > K.MAX_HITS))
            ctx.cover(f"{len(ts)} crossings")
            raise Done()
        # any scene, all of whose crossings are held
        F.hit_t, F.hit_node = self.slots, View(self.slots, 1)
        F.node_hits, F.node_min_t = self.nodes, View(self.nodes, 1)
        self.forget(F, "nlocal", "k", "node")
        F.nhits = self.M

    def l_nearest(self, F, lo, hi):
        ctx = self.ctx
        self.whole(lo, hi, self.M, (0, 1))
        s = ctx.int("s")
        ctx.assume(ctx.and_(s >= 0, s < self.M))
        T = lambda i: self.slots.entry(i)[0]

        def inv(f, i):
            return ctx.and_(f >= 0, f < self.M, ctx.implies(s < i, T(f) <= T(s)))
        ctx.check("invariant holds at the start (nearest)", inv(F.first, lo))
        i, f = ctx.int("i"), ctx.int("first")
        F.first = f
        if self.phase == "nearest":
            ctx.assume(ctx.and_(i >= lo, i < hi, inv(f, i)))
            yield i
            ctx.check("invariant is kept (nearest)", inv(F.first, i + 1))
            ctx.cover("nearest")
            raise Done()
        ctx.assume(ctx.and_(f >= 0, f < self.M))
        self.first = f
        self.forget(F, "i")

    def l_second(self, F, lo, hi):
        ctx = self.ctx
        self.whole(lo, hi, self.M)
        s, f = ctx.int("s"), F.first
        ctx.assume(ctx.and_(s >= 0, s < self.M))
        T = lambda i: self.slots.entry(i)[0]

        def inv(r, i):
            # witness-free part, then the part for the arbitrary slot s
            return ctx.and_(r >= -1, r < self.M, ctx.not_(ctx.eq(r, f)),
                            ctx.implies(ctx.and_(s < i, ctx.not_(ctx.eq(s, f))), ctx.and_(r >= 0, self.le_at(r, s))))
        ctx.check("invariant holds at the start (second)", inv(F.second, lo))
        i = ctx.int("i")
        r = -1 if ctx.flag("none yet") else ctx.int("second")
        if not isinstance(r, int):
            ctx.assume(r >= 0)
        F.second = r
        if self.phase == "second":
            ctx.assume(ctx.and_(i >= lo, i < hi, inv(r, i)))
            yield i
            ctx.check("invariant is kept (second)", inv(F.second, i + 1))
            ctx.cover("second")
            raise Done()
        ctx.assume(ctx.and_(r >= -1, r < self.M, ctx.not_(ctx.eq(r, f))))
        if isinstance(r, int):
            # no slot but the first: there is only one hit
            ctx.assume(ctx.eq(self.M, 1))
        self.second = r
        self.forget(F, "i")

    def le_at(self, r, s):
        """hit_t[r] <= hit_t[s], where r may be -1 (then there is no such hit)"""
        if isinstance(r, int) and r < 0:
            return False
        return self.slots.entry(r)[0] <= self.slots.entry(s)[0]

    def chosen(self, F, lo, hi, var, skip):
        """loops that look for the nearest node crossed once (but not skip)"""
        ctx = self.ctx
        self.whole(lo, hi, self.N)
        w = ctx.int("w")
        ctx.assume(ctx.and_(w >= 0, w < self.N))

        def once(j):
            e = ctx.eq(self.nodes.entry(j)[0], 1)
            return e if skip is None else ctx.and_(e, ctx.not_(ctx.eq(j, skip)))
        near = lambda j: self.nodes.entry(j)[1]

        def inv(c, best, i):
            if isinstance(c, int) and c == -1:
                return ctx.and_(best == math.inf, ctx.implies(w < i, ctx.not_(once(w))))
            if isinstance(best, float) and math.isinf(best):
                return False
            return ctx.and_(c >= 0, c < self.N, once(c), ctx.eq(best, near(c)), ctx.implies(ctx.and_(w < i, once(w)), near(c) <= near(w)))
        ctx.check(f"invariant holds at the start ({var})", inv(getattr(F, var), F.best, lo))
        i = ctx.int("i")
        if ctx.flag("none yet"):
            c, best = -1, math.inf
        else:
            c = ctx.int(var)
            ctx.assume(ctx.and_(c >= 0, c < self.N))
            best = near(c)
        setattr(F, var, c)
        F.best = best
        if self.phase == var:
            ctx.assume(ctx.and_(i >= lo, i < hi))
            ctx.assume(inv(c, best, i))
            yield i
            ctx.check(f"invariant is kept ({var})", inv(getattr(F, var), F.best, i + 1))
            ctx.cover(var)
            raise Done()
        if not isinstance(c, int):
            ctx.assume(once(c))
        setattr(self, "loop_" + var, (c, once, near))
        self.forget(F, "i", "node")

    def l_container(self, F, lo, hi):
        return self.chosen(F, lo, hi, "container", None)

    def l_adjacent(self, F, lo, hi):
        return self.chosen(F, lo, hi, "adjacent", F.hit)

    # -------------------------------------------------------------- running
    def run(self):
        ctx = self.ctx
        names = ktrace.modified()
        if not {"travelled", "duration", "count", "nevents", "hit"} <= names:
            raise Unsupported("loop variables of trace_one renamed")
        self.pos = kernel.arr("double", ctx.vec("pos"), "pos")
        self.dir = kernel.arr("double", ctx.unit("dir"), "direction")
        self.p0, self.d0 = tuple(self.pos[i] for i in range(3)), tuple(self.dir[i] for i in range(3))
        self.tr, self.du = ctx.real("travelled", lo=0, hi=50), ctx.real("duration", lo=0, hi=1e-7)
        cnt = ctx.int("count", lo=0, hi=50)
        ms = ctx.int("maxsteps", lo=1, hi=60)
        ctx.assume(cnt < ms)
        visits = []

        def head(F, key):
            if key != ("trace_one", 1):
                return True
            visits.append(key)
            self.F = F
            if len(visits) > 1:
                return False
            d = F.__dict__
            for k in list(d):
                if k.startswith("_"):
                    continue
                v = d[k]
                if isinstance(v, kernel.Ptr) and v.arr.name.startswith("trace_one.") and not v.arr.name.endswith("rseen"):
                    # arbitrary leftovers of earlier passes
                    old = None if ctx.sym else [ctx.choose("left", [0, 1, 2]) for _ in range(7)]
                    v.arr.data[:] = [kernel._UNSET if ctx.sym else kernel.coerce(old[i % 7], v.arr.ctype) for i in range(len(v.arr.data))]
                elif k in names and k not in ktrace.NAMES:
                    del d[k]
            F.travelled, F.duration, F.source, F.count, F.nevents = self.tr, self.du, -1, cnt, 0
            return True
        v = dict(S=self.S, elog=kernel.Struct("EventLog", max_events=10), base=-1, AB=kernel.Struct("AccBase"), tid=0, pos=self.pos, direction=self.dir,
                 wavelength=500.0, seed=1, maxsteps=ms, emit_method=K.EMIT_FULL)
        args = [n for n, _ in K.sigs["trace_one"][1]]
        if set(args) - set(v):
            raise Unsupported("signature of trace_one changed")
        kernel.LOG["head"] = head
        if ctx.sym:
            kernel.LOG["for"] = self.on_for
        self.done = False
        try:
            K.trace_one(*[v[n] for n in args])
        except Done:
            self.done = True
        except kernel.Uninit as e:
            raise Unsupported(f"arbitrary iteration: {e}")
        finally:
            kernel.LOG.clear()
        return self

    # -------------------------------------------------------------- the definition
    def expect(self):
        """hit, container, adjacent, distance of concrete crossings"""
        h = sorted((t, i) for i, c in enumerate(self.cross) for t in c)
        once = lambda skip=None: min(((c[0], i) for i, c in enumerate(self.cross) if len(c) == 1 and i != skip), default=(0, None))[1]
        hit = h[0][1]
        if len(h) == 1:
            return hit, hit, -1, h[0][0]
        con = once()
        con = hit if con is None else con
        adj = hit
        if con == hit:
            adj = once(hit)
            adj = h[1][1] if adj is None else adj
        return hit, con, adj, h[0][0]


def check_end(self):
    """the next event names the media and the surface as defined"""
    ctx = self.ctx
    e = self.recs[1] if len(self.recs) > 1 else None
    if not ctx.sym:
        if not any(self.cross):
            ctx.check("nothing is reported when nothing lies ahead", e is None)
            return
        hit, con, adj, t0 = self.expect()
        ctx.check("an event", e is not None)
        ctx.check("hit", e.hit == hit)
        ctx.check("container", e.container == con)
        ctx.check("adjacent", e.adjacent == adj)
        ctx.check("exit exactly at the root", (e.kind == K.EV_EXIT) == (hit == self.root))
        self.moved(e, t0, con)
        return
    nh, near = (lambda j: self.nodes.entry(j)[0]), (lambda j: self.nodes.entry(j)[1])
    T = lambda i: self.slots.entry(i)[0]
    w = ctx.int("w")
    ctx.assume(ctx.and_(w >= 0, w < self.N))
    if ctx.flag("w has crossings"):
        ctx.assume(nh(w) >= 1)
        sw = self.nearest_slot(w)
    else:
        ctx.assume(ctx.eq(nh(w), 0))
        sw = None
    if e is None:
        ctx.check("nothing is reported when nothing lies ahead", sw is None)
        ctx.cover("nothing ahead")
        return
    f = self.first
    t0 = T(f)
    for s in ([sw] if sw is not None else []) + [self.nearest_slot(e.hit)]:
        ctx.assume(t0 <= T(s))
    ctx.check("hit is crossed there", ctx.and_(nh(e.hit) >= 1, ctx.eq(near(e.hit), t0)))
    if sw is not None:
        ctx.check("no node is crossed nearer", t0 <= near(w))
    lc, la = getattr(self, "loop_container", None), getattr(self, "loop_adjacent", None)
    if bool(ctx.eq(self.M, 1)):
        ctx.check("container", ctx.eq(e.container, e.hit))
        ctx.check("adjacent", ctx.or_(ctx.eq(e.adjacent, -1)))
        if sw is not None:
            ctx.check("only node ahead", ctx.eq(w, e.hit))
        ctx.cover("one hit")
    else:
        if lc is None:
            raise Unsupported("container loop not reached")
        c, once, _ = lc
        ctx.assume(ctx.not_(once(w)) if isinstance(c, int) else ctx.implies(once(w), near(c) <= near(w)))
        ctx.check("container", ctx.or_(ctx.and_(once(e.container), ctx.implies(once(w), near(e.container) <= near(w))),
                                       ctx.and_(ctx.not_(once(w)), ctx.eq(e.container, e.hit))))
        if la is None:
            ctx.check("adjacent on entering", ctx.and_(ctx.eq(e.adjacent, e.hit), ctx.not_(ctx.eq(e.container, e.hit))))
            ctx.cover("entering")
        else:
            a, other, _ = la
            ctx.assume(ctx.not_(other(w)) if isinstance(a, int) else ctx.implies(other(w), near(a) <= near(w)))
            ctx.check("adjacent on leaving", ctx.and_(ctx.eq(e.container, e.hit), ctx.or_(
                ctx.and_(other(e.adjacent), ctx.implies(other(w), near(e.adjacent) <= near(w))),
                ctx.and_(ctx.not_(other(w)), ctx.eq(e.adjacent, self.slots.entry(self.second)[1]) if not isinstance(self.second, int) else False))))
            ctx.cover("leaving")
    ctx.check("exit exactly at the root", ctx.eq(e.hit, self.root) if e.kind == K.EV_EXIT else ctx.not_(ctx.eq(e.hit, self.root)))
    self.moved(e, t0, e.container)


def moved(self, e, t0, con):
    ctx = self.ctx
    ctx.check("path length", ctx.eq(e.travelled, self.tr + t0, 1e-9))
    ctx.check("place", ctx.eq(e.pos, tuple(a + b * t0 for a, b in zip(self.p0, self.d0)), 1e-9))
    ctx.check("time at the container's index", ctx.eq((e.duration - self.du) * 1e9, t0 * self.S.nidx[con] / 2.99792458e10 * 1e9, 1e-6))


Any.check_end, Any.moved = check_end, moved

from props import ktrace    # noqa: E402
