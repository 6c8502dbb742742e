"""C13 a simulation throws exactly the requested number of rays."""
import inspect

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from vf.cut import Loop
from props.common import *
import pvtrace.scene.scene as sc
import pvtrace.light.light as li
import pvtrace.engine.api as api
import pvtrace.engine.emit as em
import pvtrace.engine
from pvtrace.algorithm import photon_tracer
from pvtrace.scene.node import Node
from pvtrace.scene.scene import Scene
from pvtrace.light.light import Light
from pvtrace.light.event import Event
import props.c14  # noqa: bundle (the kernel gives ray i the seed `seed + i`)

S = "pvtrace.scene.scene."
A = "pvtrace.engine.api."
meta("C13", assumptions=["a light's delegates return (an exception of a delegate ends the simulation)",
                         "bundle >= 1, workers >= 1", "Light.emit(None) yields nothing, as its code (not its docstring) says"],
     trusted=["multiprocessing.Pool.apply_async runs each submitted task once and result.get() returns its value",
              "numpy.random.randint(lo, hi) lies in [lo, hi)"])


def drive(g):
    out = []
    try:
        while True:
            out.append(next(g))
    except StopIteration:
        return out


# ------------------------------------------------------------- one light

@harness("C13", ["pvtrace.light.light.Light.emit"], params=["loop", "ends"], conc=120)
def light_emit(ctx, part):
    """exactly num_rays rays: at the head of the loop `count` rays have been yielded"""
    log = []
    mk = lambda tag, v: (lambda: (log.append(tag), v)[1])
    light = Light(wavelength=mk("w", 600.0), position=mk("p", (1.0, 2.0, 3.0)), direction=mk("d", (0.0, 0.6, 0.8)), name="lamp")
    if ctx.conc or part == "ends":
        n = ctx.int("n", lo=0, hi=40) if ctx.conc and part == "loop" else ctx.choose("n", [None, 0])
        out = list(light.emit(n))
        ctx.check("exactly the rays asked for", len(out) == (n or 0))
        ctx.check("each drawn from the delegates once", log == ["w", "p", "d"] * (n or 0))
        for r in out:
            ctx.check("named after the light, as the delegates say", r.source == "lamp" and r.wavelength == 600.0 and tuple(r.position) == (1.0, 2.0, 3.0) and tuple(r.direction) == (0.0, 0.6, 0.8))
        return
    n = ctx.int("n", lo=1)
    L = Loop(Light.emit)
    ys, env, ret = L.prefix(light, n)
    ctx.check("nothing before the loop", ys == [] and env is not None)
    if L.is_for:
        rng = []
        # `for _ in range(n)`: no state may be carried
        saved = ctx.stub(li, "range", lambda *a: rng.append(a) or [])
        L.iter(env)
        if len(rng) != 1 or len(rng[0]) != 1:
            raise Unsupported("loop of another form")
        ctx.check("one pass per ray", ctx.eq(rng[0][0], n))
        ys, env2, ret = L.body(env, ctx.int("i", lo=0))
        if L.changed(env, env2):
            raise Unsupported("loop of another form")
        ctx.check("one ray each pass", len(ys) == 1 and env2["__flow__"] == "next")
    else:
        state = [k for k, v in env.items() if isinstance(v, int) and not isinstance(v, bool) and k != "num_rays"]
        if state != ["count"]:
            raise Unsupported("loop of another form")
        ctx.check("no ray yielded at the start", env["count"] == 0)
        done = ctx.int("done", lo=0)
        ctx.assume(done <= n)
        env["count"] = done
        if not bool(L.test(env)):
            raise Unsupported("loop of another form")
        ys, env2, ret = L.body(env)
        if env2 is None or env2["__flow__"] == "break":
            ctx.check("it stops only after the last ray", ctx.and_(len(ys) == 0, ctx.eq(done, n)))
            ctx.cover("stops")
            return
        ctx.check("one more ray", len(ys) == 1)
        ctx.check("counted", ctx.and_(ctx.eq(env2["count"], done + 1), env2["count"] <= n))
        ctx.check("nothing else changes", set(L.changed(env, env2)) <= {"count", "ray"})
    ctx.cover("yields")
    r = ys[0]
    ctx.check("each drawn from the delegates once", log == ["w", "p", "d"])
    ctx.check("named after the light, as the delegates say", r.source == "lamp" and r.wavelength == 600.0 and tuple(r.position) == (1.0, 2.0, 3.0) and tuple(r.direction) == (0.0, 0.6, 0.8))


# ------------------------------------------------------------- lights of a scene

def lit_scene(ctx, n):
    """n light nodes in a world, each moved (and every other one turned, and nested)"""
    root = Node(name="world")
    nodes = []
    for i in range(n):
        parent = nodes[i - 1] if i % 3 == 2 else root
        nd = Node(name=f"node{i}", parent=parent)
        nd.light = Light(position=(lambda i=i: (0.1 * i, 0.2, 0.3)), direction=lambda: (0.6, 0.0, 0.8), wavelength=(lambda i=i: 500.0 + i), name=f"lamp{i}")
        nd.pose = np.array([[0.0, 0.0, 1.0, 1.0 + i], [1.0, 0.0, 0.0, -2.0], [0.0, 1.0, 0.0, 0.5 * i], [0.0, 0.0, 0.0, 1.0]]) if i % 2 else \
            np.array([[1.0, 0.0, 0.0, 3.0 * i], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 1.0], [0.0, 0.0, 0.0, 1.0]])
        nodes.append(nd)
    return Scene(root), nodes


def world(node, p, w):
    """p (w=1: a point, w=0: a vector) of `node` in the root frame, by the poses alone"""
    v = np.array([p[0], p[1], p[2], w])
    while node.parent is not None:
        v = node.pose @ v
        node = node.parent
    return v[:3]


@harness("C13", [S + "Scene.light_nodes"], params=[0, 1, 2, 5])
def lights_found(ctx, n):
    """every node with a light, each once, and no other"""
    scene, nodes = lit_scene(ctx, n)
    Node(name="dark", parent=scene.root)
    if n:
        nodes[-1].light.name = "other"
    got = list(scene.light_nodes)
    ctx.check("each light node once", len(got) == n and all(sum(1 for g in got if g is x) == 1 for x in nodes))


@harness("C13", [S + "Scene.emit", "pvtrace.light.ray.Ray.representation", "pvtrace.scene.node.Node.emit"], params=[1, 2, 3], conc=60,
         note="any number of rays, an arbitrary pass of the loop")
def scene_emit(ctx, k):
    """ray i comes from light i mod L, in the world frame"""
    scene, nodes = lit_scene(ctx, k)
    order = list(scene.light_nodes)

    def expect(r, i):
        nd = order[i]
        j = nodes.index(nd)
        ctx.check("named after its light", r.source == f"lamp{j}")
        ctx.check("its light's wavelength", r.wavelength == 500.0 + j)
        ctx.check("world position", same(ctx, r.position, world(nd, (0.1 * j, 0.2, 0.3), 1.0)))
        ctx.check("world direction", same(ctx, r.direction, world(nd, (0.6, 0.0, 0.8), 0.0)))
    if ctx.conc:
        n = ctx.int("n", lo=0, hi=30)
        out = list(scene.emit(n))
        ctx.check("exactly the rays asked for", len(out) == n)
        for i, r in enumerate(out):
            expect(r, i % k)
        return
    n = ctx.int("n", lo=0)
    L = Loop(Scene.emit)
    ys, env, ret = L.prefix(scene, n)
    ctx.check("nothing before the loop", ys == [] and env is not None)
    seen = []
    ctx.stub(sc, "range", lambda *a: seen.append(a) or [])
    if not L.is_for:
        raise Unsupported("loop of another form")
    L.iter(env)
    if len(seen) != 1 or len(seen[0]) != 1:
        raise Unsupported("loop of another form")
    ctx.check("one pass per ray", ctx.eq(seen[0][0], n))
    i = ctx.int("i", lo=0)
    ctx.assume(i < n)
    ys, env2, ret = L.body(env, i)
    ctx.check("every pass goes on", env2 is not None and env2["__flow__"] == "next")
    if [c for c in L.changed(env, env2) if c != "ray"]:
        raise Unsupported("loop carries state")
    ctx.check("one ray each", len(ys) == 1)
    at = [j for j in range(k) if bool(ctx.eq(i % k, j))]
    ctx.cover(f"light {at[0]}")
    expect(ys[0], at[0])
    ys, env3, ret = L.suffix(env)
    ctx.check("nothing after the loop", ys == [])


def same(ctx, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and ctx.and_(*[ctx.eq(x, float(y)) for x, y in zip(a, b)])


# ------------------------------------------------------------- bundles

class Lane:
    """an array of (symbolic) length n, one arbitrary row of which is known"""

    def __init__(self, n, of):
        self.n, self.of = n, of


class Rows(Lane):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    @property
    def size(self):
        # ceil((stop - start) / step), not negative
        d = self.stop - self.start
        if bool(d <= 0):
            return 0
        return (d + self.step - 1) // self.step


class Table:
    def __init__(self, n):
        self.n, self.writes = n, []

    def __setitem__(self, k, v):
        self.writes.append((k, v))

    def tolist(self):
        return self


class FakeNp:
    def __init__(self, w):
        self.w = w

    def zeros(self, shape, dtype=None):
        n = shape[0] if isinstance(shape, tuple) else shape
        t = Table(n)
        self.w.tables.append(t)
        return t

    empty = zeros

    def arange(self, start, stop, step):
        r = Rows(start, stop, step)
        self.w.rows.append(r)
        return r

    def asarray(self, a, dtype=None):
        return np.asarray(a)

    def __getattr__(self, k):
        raise Unsupported(f"numpy.{k} in emit_bundle")


class LaneArr:
    """sampled values of the rows of one light: `one` is the value of an arbitrary row"""

    def __init__(self, n, one):
        self.n, self.one = n, one

    def __matmul__(self, m):
        return LaneArr(self.n, np.asarray(self.one) @ m)

    def __add__(self, v):
        return LaneArr(self.n, np.asarray(self.one) + v)

    __radd__ = __add__


@harness("C13", ["pvtrace.engine.emit.emit_bundle"], params=[(k, f) for k in (1, 2, 3) for f in ("built in", "custom")], conc=60, budget=60,
         note="any number of rays and any first ray, up to three lights", bound="at most three lights (any number of rays)")
def emit_bundle(ctx, p):
    """the rows of light j are those with (first + row) mod L = j; every row is filled from its light, in the world frame"""
    k, form = p
    scene, nodes = lit_scene(ctx, k)
    order = list(scene.light_nodes)
    if ctx.conc:
        for j, nd in enumerate(nodes):
            if form == "built in":
                nd.light = Light(wavelength=li.ConstantWavelengthMask(500.0 + j), name=f"lamp{j}")
        n, first = ctx.int("n", lo=0, hi=40), ctx.int("first", lo=0, hi=9)
        pos, dirs, wav, src = em.emit_bundle(scene, n, first) if first else em.emit_bundle(scene, n)
        ctx.check("exactly the rays asked for", len(pos) == n and len(dirs) == n and len(wav) == n and len(src) == n)
        for i in range(n):
            nd = order[(first + i) % k]
            j = nodes.index(nd)
            p0, d0 = ((0.0, 0.0, 0.0), (0.0, 0.0, 1.0)) if form == "built in" else ((0.1 * j, 0.2, 0.3), (0.6, 0.0, 0.8))
            ctx.check("named after its light", src[i] == f"lamp{j}")
            ctx.check("its light's wavelength", wav[i] == 500.0 + j)
            ctx.check("world frame", bool(np.allclose(pos[i], world(nd, p0, 1.0), atol=1e-9) and np.allclose(dirs[i], world(nd, d0, 0.0), atol=1e-9)))
        return
    n, first = ctx.int("n", lo=0), ctx.int("first", lo=0)
    w = Obj(tables=[], rows=[], emitted=[])
    ctx.stub(em, "np", FakeNp(w))
    sampled = {}
    for fn, f in (("_sample_wavelengths", lambda j: 500.0 + j), ("_sample_positions", lambda j: (0.1 * j, 0.2, 0.3)), ("_sample_directions", lambda j: (0.6, 0.0, 0.8))):
        def one(delegate, m, fn=fn, f=f):
            j = [x for x in range(k) if delegate in (nodes[x].light.wavelength, nodes[x].light.position, nodes[x].light.direction)]
            if len(j) != 1:
                raise Unsupported("delegate of no light")
            ctx.check("as many samples as rows", len(w.rows) > 0 and ctx.eq(m, w.rows[-1].size))
            if form == "custom":
                return None if fn == ctx_kind[j[0]] else LaneArr(m, f(j[0]))
            return LaneArr(m, f(j[0]))
        ctx.stub(em, fn, one)
    ctx_kind = ["_sample_wavelengths", "_sample_positions", "_sample_directions"]

    class Emits:
        def __init__(self, rows, node, m):
            self.rows, self.node, self.m = rows, node, m
    pending = []

    def zip_(rows, rays):
        if not isinstance(rows, Rows):
            raise Unsupported("rows of another form")
        ctx.check("one ray for each row", isinstance(rays, Emits) and ctx.eq(rays.m, rows.size))
        kk = ctx.int("row of the light", lo=0)
        ctx.assume(kk < rows.size)
        row = rows.start + kk * rows.step
        ray = next(iter(rays.node.light.emit(1)))
        pending.append((rows, row))
        yield row, ray
    ctx.stub(em, "zip", zip_)
    for nd in nodes:
        ctx.stub(nd, "emit", lambda m=None, nd=nd: Emits(None, nd, m))
    if "first_ray" in inspect.signature(em.emit_bundle).parameters:
        out = em.emit_bundle(scene, n, first)
    else:
        first = 0
        out = em.emit_bundle(scene, n)
    if not all(isinstance(t, Table) for t in out):
        raise Unsupported("tables of another kind")
    for t in out:
        ctx.check("a row for every ray", ctx.eq(t.n, n))
    i = ctx.int("i", lo=0)
    ctx.assume(i < n)
    hit = []
    for t, what in zip(out, ("pos", "dir", "wav", "src")):
        mine = []
        for rows, v in t.writes:
            if isinstance(rows, Rows):
                r = rows
            else:
                r = [a for a, b in pending if b is rows]
                ctx.check("the row of the ray", len(r) == 1)
                r = r[0]
            ctx.check("rows advance", r.step > 0)
            ctx.check("first row is a row", r.start >= 0)
            if bool(ctx.and_(i >= r.start, i < r.stop, ctx.eq((i - r.start) % r.step, 0))):
                mine.append(v)
        ctx.check("every row is filled once", len(mine) == 1)
        hit.append(mine[0])
    at = [j for j in range(k) if bool(ctx.eq((first + i) % k, j))][0]
    ctx.cover(f"light {at}")
    nd = order[at]
    j = nodes.index(nd)
    val = lambda v: v.one if isinstance(v, LaneArr) else v
    ctx.check("named after its light", hit[3] == f"lamp{j}")
    ctx.check("its light's wavelength", val(hit[2]) == 500.0 + j)
    ctx.check("world position", same(ctx, val(hit[0]), world(nd, (0.1 * j, 0.2, 0.3), 1.0)))
    ctx.check("world direction", same(ctx, val(hit[1]), world(nd, (0.6, 0.0, 0.8), 0.0)))


@harness("C13", ["pvtrace.engine.emit.emit_bundle", S + "Scene.emit"], conc=40)
def no_lights(ctx):
    """a scene without lights throws no rays: asked for some, it refuses"""
    scene, _ = lit_scene(ctx, 0)
    n = ctx.int("n", lo=1, hi=5)
    for f in (lambda: em.emit_bundle(scene, n), lambda: list(scene.emit(n))):
        try:
            f()
            ctx.check("no rays out of nothing", False)
        except (ValueError, ZeroDivisionError, IndexError):
            pass


# ------------------------------------------------------------- worker processes

class SymList:
    """[base] * n for a symbolic n, with a few entries replaced"""

    def __init__(self, ctx, base, n, over=()):
        self.ctx, self.base, self.n, self.over = ctx, base, n, list(over)

    def __getitem__(self, i):
        ok = self.ctx.and_(i >= 0, i < self.n)
        self.ctx.check("a worker's entry exists", ok)
        self.ctx.assume(ok)
        for k, v in self.over:
            if bool(self.ctx.eq(i, k)):
                return v
        return self.base

    def __setitem__(self, i, v):
        ok = self.ctx.and_(i >= 0, i < self.n)
        self.ctx.check("a worker's entry exists", ok)
        self.ctx.assume(ok)
        self.over = [(k, x) for k, x in self.over if not bool(self.ctx.eq(i, k))] + [(i, v)]

    def total(self):
        t = self.base * self.n
        for _, v in self.over:
            t = t + (v - self.base)
        return t


class SeedArr:
    def __init__(self, ctx, start, n):
        self.ctx, self.start, self.n = ctx, start, n

    def __radd__(self, o):
        return SeedArr(self.ctx, self.start + o, self.n)

    __add__ = __radd__

    def __getitem__(self, i):
        ok = self.ctx.and_(i >= 0, i < self.n)
        self.ctx.check("a seed for each worker", ok)
        self.ctx.assume(ok)
        return self.start + i


class FakePool:
    def __init__(self, w, processes):
        w.pools.append(processes)
        self.w = w

    def apply_async(self, fn, args=(), kwds=None):
        self.w.tasks.append((fn, args, dict(kwds or {})))
        n = len(self.w.tasks) - 1
        return Obj(get=lambda *a, **k: self.w.gets.append(n) or [f"history {n}.0", f"history {n}.1"])

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def watch_simulate(ctx, w):
    w.pools, w.tasks, w.gets, w.direct = [], [], [], []
    ctx.stub(sc, "multiprocessing", Obj(Pool=lambda processes=None, **k: FakePool(w, processes), cpu_count=lambda: w.cpus))
    ctx.stub(sc, "print", lambda *a, **k: None)
    # the numbers in the message that is printed
    ctx.stub(core, "INT_FORMAT", lambda v, spec: "(a number)")
    ctx.stub(sc, "do_simulation", w.one)
    ctx.stub(sc, "do_simulation_add_to_queue", w.queued)


SIG_ONE, SIG_QUEUED = inspect.signature(sc.do_simulation), inspect.signature(sc.do_simulation_add_to_queue)


def stand_ins(w):
    def one(*a, **k):
        d = SIG_ONE.bind(*a, **k).arguments
        w.direct.append(("one", (d["scene"], d["num_rays"], d["seed"])))
        return ["direct"]

    def queued(*a, **k):
        d = SIG_QUEUED.bind(*a, **k).arguments
        w.direct.append(("queued", (d["scene"], d["num_rays"], d["seed"], d["queue"], d["end_rays"])))
        return 1
    w.one, w.queued = one, queued


def task_args(w, t, queue, end):
    fn, args, kw = t
    return (SIG_QUEUED if fn is w.queued else SIG_ONE).bind(*args, **kw).arguments


@harness("C13", [S + "Scene.simulate"], params=[(m, q) for m in (1, 2, 3, 4, 7) for q in (False, True)], conc=80, budget=60,
         bound="up to seven workers (any number of rays)", note="shares of the workers")
def split(ctx, p):
    """shares are non-negative and sum to the number of rays; one task, one seed per worker"""
    run_split(ctx, *p)


@harness("C13", [S + "Scene.simulate"], params=[False, True], conc=80, budget=60, note="any number of workers and of rays")
def split_any(ctx, q):
    """shares of any number of workers"""
    if ctx.conc:
        run_split(ctx, ctx.int("workers", lo=1, hi=40), q)
        return
    run_split(ctx, None, q)


def seeds_np(ctx):
    start = ctx.int("start", lo=0)
    ctx.assume(start < 2 ** 31 - 1)

    class Np:
        random = Obj(randint=lambda lo, hi, size=None: start if size is None else _unsup())
        arange = staticmethod(lambda m: SeedArr(ctx, 0, m))

        def __getattr__(self, k):
            raise Unsupported(f"numpy.{k} in simulate")
    return Np()


def run_split(ctx, workers, q):
    w = Obj(cpus=8)
    stand_ins(w)
    scene = Scene(Node(name="world"))
    n = ctx.int("n", lo=0) if ctx.sym else ctx.choose("n", [0, 1, 2, None])
    if n is None:
        n = ctx.int("n", lo=0, hi=500)
    anyw = workers is None
    if anyw:
        workers = ctx.int("workers", lo=1)
    watch_simulate(ctx, w)
    queue = Obj(put=None) if q else None
    end = ctx.choose("end_rays", [False, True])
    idx = []
    made = []
    if anyw:
        def rng(*a):
            if len(a) != 1:
                raise Unsupported("range of another form")
            ctx.check("a task for every worker", ctx.eq(a[0], workers))
            out = []
            for j in range(2):
                i = ctx.int(f"worker{j}", lo=0)
                ctx.assume(i < workers)
                if j:
                    ctx.assume(ctx.not_(ctx.eq(i, out[0])))
                out.append(i)
            idx[:] = out
            return out
        ctx.stub(sc, "range", rng)
        def repeat(base, m):
            if len(base) != 1:
                raise Unsupported("list of another form")
            s = SymList(ctx, base[0], m)
            made.append(s)
            return s

        ctx.stub(sc, "np", seeds_np(ctx))
        core.LIST_REPEAT = repeat
    elif ctx.sym:
        ctx.stub(sc, "np", seeds_np(ctx))
    try:
        out = scene.simulate(n, workers=workers, queue=queue, end_rays=end)
    finally:
        core.LIST_REPEAT = None
    fn = w.queued if q else w.one
    if w.direct:
        ctx.cover("in this process")
        ctx.check("run once, here", len(w.direct) == 1 and not w.tasks)
        kind, a = w.direct[0]
        ctx.check("all rays", a[0] is scene and ctx.eq(a[1], n))
        ctx.check("by the queue exactly when there is one", kind == ("queued" if q else "one"))
        if q:
            ctx.check("options passed on", a[3] is queue and a[4] is end)
        else:
            ctx.check("its histories are returned", out == ["direct"])
        return
    ctx.cover("in worker processes")
    m = 2 if anyw else workers
    ctx.check("a task for every worker", len(w.tasks) == m and len(w.pools) == 1)
    b = [task_args(w, t, queue, end) for t in w.tasks]
    ctx.check("the right task", all(t[0] is fn for t in w.tasks) and all(x["scene"] is scene for x in b))
    if q:
        ctx.check("options passed on", all(x["queue"] is queue and x["end_rays"] is end for x in b))
    for x in b:
        ctx.check("a share is not negative", x["num_rays"] >= 0)
    if anyw:
        if len(made) != 1:
            raise Unsupported("shares of another form")
        ctx.check("one share for every worker", ctx.eq(made[0].n, workers))
        ctx.check("shares come from the list", all(any(x["num_rays"] is v for v in [made[0].base] + [o for _, o in made[0].over]) for x in b))
        qd, rm = n // workers, n % workers
        ctx.lemma("division", ctx.eq(qd * workers + rm, n))
        ctx.check("shares sum to the rays", ctx.eq(made[0].total(), n))
    else:
        t = 0
        for x in b:
            t = t + x["num_rays"]
        ctx.check("shares sum to the rays", ctx.eq(t, n))
    for u in range(m):
        ctx.check("a seed numpy accepts", ctx.and_(b[u]["seed"] >= 0, b[u]["seed"] < 2 ** 32) if not anyw else b[u]["seed"] >= 0)
        for v in range(u):
            ctx.check("a seed of its own", ctx.not_(ctx.eq(b[u]["seed"], b[v]["seed"])) if ctx.sym else b[u]["seed"] != b[v]["seed"])
    if ctx.conc:
        ctx.check("the pool has workers", w.pools[0] is None or w.pools[0] >= 1)
    ctx.check("every task is waited for once", sorted(w.gets) == list(range(m)))
    if not q:
        ctx.check("every history is returned, in order", out == [f"history {i}.{j}" for i in range(m) for j in (0, 1)])


def _unsup():
    raise Unsupported("seeds drawn in another form")


@harness("C13", [S + "Scene.simulate"], params=[2, 5], conc=30)
def split_seeded(ctx, workers):
    """one given seed for several processes would repeat rays: it is refused or not used by two of them"""
    w = Obj(cpus=8)
    stand_ins(w)
    scene = Scene(Node(name="world"))
    watch_simulate(ctx, w)
    n, seed = ctx.int("n", lo=0, hi=1000), ctx.int("seed", lo=0, hi=1000)
    try:
        scene.simulate(n, workers=workers, seed=seed)
    except ValueError:
        ctx.check("not refused needlessly", n >= workers)
        ctx.check("nothing was started", not w.tasks and not w.direct)
        ctx.cover("refused")
        return
    ctx.cover("one process")
    ctx.check("only one process", len(w.direct) == 1 and not w.tasks)
    ctx.check("with the seed", ctx.and_(ctx.eq(w.direct[0][1][1], n), ctx.eq(w.direct[0][1][2], seed)))


@harness("C13", [S + "Scene.simulate"], conc=30)
def split_default(ctx):
    """workers=None: half the processors, at least one"""
    w = Obj(cpus=ctx.choose("cpus", [1, 2, 3, 5, 8, 64]))
    stand_ins(w)
    scene = Scene(Node(name="world"))
    watch_simulate(ctx, w)
    n = ctx.int("n", lo=0, hi=1000)
    if ctx.sym:
        ctx.stub(sc, "np", seeds_np(ctx))
    scene.simulate(n)
    if w.direct:
        ctx.check("all rays here", ctx.eq(w.direct[0][1][1], n))
    else:
        ctx.check("half the processors", len(w.tasks) == max(1, w.cpus // 2))
        t = 0
        for x in w.tasks:
            t = t + task_args(w, x, None, False)["num_rays"]
        ctx.check("shares sum to the rays", ctx.eq(t, n))


class AnyScene:
    """emits k rays however many are asked for (the count asked for is recorded)"""

    def __init__(self, k):
        self.k, self.asked = k, []

    def emit(self, n):
        self.asked.append(n)
        return [f"ray {i}" for i in range(self.k)]


@harness("C13", [S + "do_simulation"], params=[0, 1, 3], conc=20)
def worker(ctx, k):
    """a worker reseeds, asks for its share, and returns one history per ray in order"""
    log = []
    scene = AnyScene(k)
    n = ctx.int("n", lo=0)
    seed = ctx.choose("seed", [None, "some"]) and ctx.int("seed", lo=0)
    ctx.stub(sc, "photon_tracer", Obj(follow=lambda s, r, *a, **kw: log.append((s, r)) or ["history of " + r]))
    ctx.stub(sc, "np", Obj(random=Obj(seed=lambda s: log.append(("seed", s)))))
    out = sc.do_simulation(scene, n, seed)
    ctx.check("asks for its share", len(scene.asked) == 1 and ctx.eq(scene.asked[0], n))
    if seed is not None:
        ctx.check("seeds first, with its own seed", log[0][0] == "seed" and ctx.eq(log[0][1], seed))
        log = log[1:]
    ctx.check("each ray traced once, in order", log == [(scene, f"ray {i}") for i in range(k)])
    ctx.check("a history for each", out == [[f"history of ray {i}"] for i in range(k)])


@harness("C13", [S + "do_simulation_add_to_queue"], params=[(k, s) for k in (0, 1, 3) for s in (0, 1, 2)], conc=20)
def worker_queue(ctx, p):
    """the queueing worker: every event of every ray (or every end event) with its ray's number"""
    k, steps = p
    log, got = [], []
    scene = AnyScene(k)
    n = ctx.int("n", lo=0)
    end = ctx.choose("end", [False, True])
    seed = ctx.choose("seed", [None, "some"]) and ctx.int("seed", lo=0)

    def step_forward(s, r, *a, **kw):
        for j in range(steps):
            yield (r + f"@{j}", f"event {j}", {"of": r, "j": j})
    ctx.stub(sc, "photon_tracer", Obj(step_forward=step_forward))
    ctx.stub(sc, "np", Obj(random=Obj(seed=lambda s: log.append(s))))
    ctx.stub(sc, "os", Obj(getpid=lambda: 77))
    ctx.stub(sc, "is_end_ray", lambda e, m: m["j"] == 1)
    sc.do_simulation_add_to_queue(scene, n, seed, Obj(put=got.append), end)
    ctx.check("asks for its share", len(scene.asked) == 1 and ctx.eq(scene.asked[0], n))
    if seed is not None:
        ctx.check("seeds with its own seed", len(log) == 1 and ctx.eq(log[0], seed))
    keep = [j for j in range(steps) if not end or j == 1]
    want = [(f"ray {i}@{j}", f"event {j}", f"ray {i}", j) for i in range(k) for j in keep]
    ctx.check("every event, in order", [(g[-3], g[-2], g[-1]["of"], g[-1]["j"]) for g in got] == want)
    keys = [tuple(g[:-3]) for g in got]
    ctx.check("events of one ray share a key, others do not",
              all((keys[a] == keys[b]) == (want[a][2] == want[b][2]) for a in range(len(keys)) for b in range(len(keys))))


# ------------------------------------------------------------- the compiled engine

@harness(["C13", "C22"], [A + "simulate"], params=["given", "defaults"], conc=40)
def engine_simulate(ctx, form):
    """the engine emits the rays asked for and passes its arguments to the kernel, each in its place"""
    scene, _ = lit_scene(ctx, 1)
    n = ctx.int("n", lo=0)
    seed, steps, cap, workers, every = (ctx.int(k, lo=0) for k in ("seed", "maxsteps", "max_events", "workers", "record_every"))
    first = ctx.int("first", lo=0)
    method = ctx.choose("emit_method", sorted(api.EMIT_METHODS))
    log = Obj(emit=[], trace=[])
    has_first = "first_ray" in inspect.signature(api.simulate).parameters
    arrays = ("POS", "DIR", "WAV", ["src"])

    def emit(s, m, *a, **kw):
        log.emit.append((s, m, a, kw))
        return arrays

    def trace(*a, **kw):
        names = "compiled positions directions wavelengths seed maxsteps max_events emit_method num_threads record_every".split()
        d = dict(zip(names, a))
        d.update(kw)
        log.trace.append(d)
        return {"counts": []}
    draw = ctx.int("drawn", lo=0)
    ctx.stub(api, "compile_scene", lambda s: ("compiled", s))
    ctx.stub(em, "emit_bundle", emit)
    import sys
    import types
    fake = types.ModuleType("pvtrace.engine._kernel")
    fake.trace_bundle = trace
    ctx.stub(pvtrace.engine, "_kernel", fake)
    old = sys.modules.get("pvtrace.engine._kernel")
    sys.modules["pvtrace.engine._kernel"] = fake
    cpus = ctx.int("cpus", lo=1)
    ctx.stub(api, "multiprocessing", Obj(cpu_count=lambda: cpus))
    ctx.stub(api, "time", Obj(perf_counter=lambda: 0.0))
    bounds = []
    ctx.stub(api, "np", Obj(random=Obj(randint=lambda *a: bounds.append(a) or draw)))
    try:
        if form == "given":
            kw = {"first_ray": first} if has_first else {}
            r = api.simulate(scene, n, seed=seed, workers=workers, maxsteps=steps, max_events=cap, emit_method=method, record_every=every, **kw)
        else:
            r = api.simulate(scene, n)
            seed, steps, cap, method, every = draw, 1000, 128, "kT", 1
    finally:
        if old is None:
            sys.modules.pop("pvtrace.engine._kernel", None)
        else:
            sys.modules["pvtrace.engine._kernel"] = old
    ctx.check("emits the rays asked for", len(log.emit) == 1 and log.emit[0][0] is scene and ctx.eq(log.emit[0][1], n))
    if has_first and form == "given":
        rest = log.emit[0][2] + tuple(log.emit[0][3].values())
        ctx.check("lights keep their turn", len(rest) == 1 and ctx.eq(rest[0], first))
    d = log.trace
    ctx.check("traced once", len(d) == 1)
    d = d[0]
    ctx.check("the rays and the scene", d["compiled"] == ("compiled", scene) and (d["positions"], d["directions"], d["wavelengths"]) == arrays[:3])
    ctx.check("arguments in their places", ctx.and_(ctx.eq(d["seed"], seed), ctx.eq(d["maxsteps"], steps), ctx.eq(d["max_events"], cap), ctx.eq(d["record_every"], every)))
    ctx.check("emission method", d["emit_method"] == {"kT": 0, "redshift": 1, "full": 2}.get(method, api.EMIT_METHODS[method]))
    if form == "given":
        ctx.check("workers", ctx.eq(d["num_threads"], workers))
    else:
        ctx.check("half the processors, at least one", ctx.and_(d["num_threads"] >= 1, d["num_threads"] <= cpus))
    ctx.check("the result describes the call", ctx.and_(ctx.eq(r.max_events, cap), ctx.eq(r.record_every, every)) if ctx.sym else (r.max_events == cap and r.record_every == every))
    ctx.check("sources kept", r.sources is arrays[3])


@harness("C13", [A + "simulate_stream"], conc=60, params=["loop", "default seed"], budget=40, note="any number of rays and bundle size")
def stream(ctx, form):
    """bundles sum to the rays, none larger than the bundle size, seeds follow on"""
    calls = []
    has_first = "first_ray" in inspect.signature(api.simulate).parameters

    def sim(scene, m, seed=None, first_ray=0, **kw):
        calls.append((scene, m, seed, first_ray, kw))
        return f"result {len(calls)}"
    ctx.stub(api, "simulate", sim)
    drawn = ctx.int("drawn", lo=0, hi=2 ** 31 - 2)
    if ctx.sym or form == "default seed":
        ctx.stub(api, "np", Obj(random=Obj(randint=lambda *a: drawn)))
    seed = ctx.int("seed", lo=0, hi=2 ** 31) if form == "loop" else None
    if ctx.conc:
        n, b = ctx.int("n", lo=0, hi=60), ctx.int("bundle", lo=1, hi=25)
        got = list(api.simulate_stream("scene", n, bundle=b, seed=seed, workers=3))
        s0 = drawn if seed is None else seed
        ctx.check("bundles sum to the rays", sum(c[1] for c in calls) == n)
        ctx.check("none empty or too large", all(1 <= c[1] <= b for c in calls))
        t = 0
        for c, g in zip(calls, got):
            ctx.check("seeds follow on", c[2] == s0 + t)
            ctx.check("lights keep their turn", not has_first or c[3] == t)
            t += c[1]
            ctx.check("progress", g[1] == t)
            ctx.check("options passed on", c[0] == "scene" and c[4] == {"workers": 3})
        ctx.check("one result for each bundle, in order", [g[0] for g in got] == [f"result {i + 1}" for i in range(len(calls))])
        return
    n, b = ctx.int("n", lo=0), ctx.int("bundle", lo=1)
    L = Loop(api.simulate_stream)
    ys, env, ret = L.prefix("scene", n, bundle=b, seed=seed, workers=3)
    ctx.check("nothing before the loop", ys == [] and env is not None)
    s0 = drawn if seed is None else seed
    state = sorted(set(env) - {"scene", "num_rays", "bundle", "seed", "kwargs"})
    if L.is_for or state != ["traced"]:
        raise Unsupported("loop of another form")
    ctx.check("nothing traced at the start", ctx.eq(env["traced"], 0))
    ctx.check("seed settled", ctx.eq(env["seed"], s0))
    t = ctx.int("t", lo=0)
    ctx.assume(t <= n)
    env["traced"] = t
    go = bool(L.test(env))
    if not go:
        ctx.check("it stops when all are traced", ctx.eq(t, n))
        ys, e, r = L.suffix(env)
        ctx.check("nothing after the loop", ys == [] and not calls)
        ctx.cover("stops")
        return
    ctx.cover("a bundle")
    ys, e, ret = L.body(env)
    ctx.check("the loop goes on", e is not None and e["__flow__"] == "next")
    ctx.check("one bundle traced and reported", len(calls) == 1 and len(ys) == 1)
    scene, m, sd, first, kw = calls[0]
    ctx.check("not empty, not too large", ctx.and_(m >= 1, m <= b))
    ctx.check("the rays so far, never too many", ctx.and_(ctx.eq(e["traced"], t + m), e["traced"] <= n))
    ctx.check("progress", ys[0][0] == "result 1" and ctx.eq(ys[0][1], t + m))
    ctx.check("seeds follow on", ctx.eq(sd, s0 + t))
    if has_first:
        ctx.check("lights keep their turn", ctx.eq(first, t))
    ctx.check("options passed on", scene == "scene" and kw == {"workers": 3})
    ctx.check("nothing else changes", set(L.changed(env, e)) <= {"traced", "n", "result"})


import props.whole  # noqa: E402 executed contracts over whole histories
