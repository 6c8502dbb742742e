"""C24 the studio's live runs: what is shown is what the engine computed, for the run in progress.

The websocket handler is the real coroutine, driven by hand: every point where it waits
(a message to come, a message being sent, a bundle being traced) is a scheduling point, and
the scheduler's choices - which task goes on, when a command arrives, when the document is
replaced - are split into cases.  compile_scene and simulate_stream are replaced by their
contracts; the tallies a bundle brings are symbolic."""
import builtins
import inspect
import json

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
from props.kern import same_index
import pvtrace.studio.server as S
from pvtrace.engine.recorder import Heatmap, Histogram, Recorder
from pvtrace.scene.node import Node
from pvtrace.scene.scene import Scene
from pvtrace.light.light import Light

P = "pvtrace.studio.server."
meta("C24", assumptions=["asyncio: a task runs until it waits; cancelling a task raises CancelledError where it waits, before it runs any further",
                         "the browser draws what it is sent (the JavaScript is not covered)"],
     trusted=["asyncio, FastAPI / starlette (the handler is driven by a stand-in loop with the same contract)", "numpy's slicing, zeros, round, linspace"])


def num(x, *a):
    return x if isinstance(x, core.SNum) else int(x, *a)


def flt(x=0.0):
    return x if isinstance(x, core.SNum) else float(x)


class Np:
    """numpy with zeros of object cells, so that they can hold symbolic tallies; rounding by its contract"""

    def __init__(self, ctx):
        self.ctx, self.rounded = ctx, {}

    def __getattr__(self, n):
        return getattr(np, n)

    def zeros(self, shape, dtype=float):
        z = np.zeros(shape, dtype=object)
        z[...] = 0
        return z

    def round(self, a, digits=0):
        out = np.array(a, dtype=object)
        for i in np.ndindex(*out.shape):
            r = self.ctx.real("rounded")
            d = r - out[i]
            h = 0.5 * 10.0 ** -digits
            self.ctx.assume(self.ctx.and_(d <= h, d >= 0.0 - h))
            out[i] = r
        return out

    around = round


def symbolic_numpy(ctx):
    if ctx.sym:
        ctx.stub(S, "np", Np(ctx))
        ctx.stub(S, "int", num)
        ctx.stub(S, "float", flt)


def private(name, *params):
    """a helper of the server with the parameters it had (it may be reorganised: runs as a whole are judged in `sums`)"""
    f = getattr(S, name, None)
    if f is None or tuple(inspect.signature(f).parameters) != params:
        raise Unsupported(f"{name} has changed its parameters")
    return f


# ---------------------------------------------------------------- scenes with recorders

H = [lambda: Histogram("wavelength", 300, 900, 3), lambda: Heatmap("x", "y", (-1, 1, 2), (0, 4, 3)), lambda: Histogram("angle", 0.0, 1.5, 2)]
LAYOUTS = {"none": [], "one": [[0]], "two": [[1, 0], [2]], "bare": [[], [0, 1]]}


class Compiled:
    """what compile_scene returns, as far as runs are concerned"""

    def __init__(self, layout, tag=""):
        self.recorder_specs = [Recorder(f"rec{i}{tag}", "escaping", histograms=[H[h]() for h in hs]) for i, hs in enumerate(LAYOUTS[layout])]
        self.recorder_names = [r.name for r in self.recorder_specs]
        self.node_names = ["W", "A", "B"]
        self.rec_node = np.array([(i + 1) % 3 for i in range(len(self.recorder_specs))], dtype=np.int32)
        # tables in an order of their own: only the offsets say where things are
        sizes, self.rec_hist_start, k = [], [], 0
        for r in self.recorder_specs:
            self.rec_hist_start.append(k)
            for h in r.histograms:
                sizes.append(h.a.bins * h.b.bins if isinstance(h, Heatmap) else h.bins)
                k += 1
        self.rec_hist_start = np.array(self.rec_hist_start, dtype=np.int32)
        off = 0
        self.hist_offset = []
        for s in sizes:
            self.hist_offset.append(off)
            off += s
        self.hist_offset = np.array(self.hist_offset, dtype=np.int64)
        self.total_bins = off


def tallies(ctx, c, name):
    n = len(c.recorder_specs)
    t = object if ctx.sym else np.int64
    f = object if ctx.sym else float
    def arr(shape, make, dt):
        a = np.zeros(shape, dtype=dt)
        for i in np.ndindex(*a.shape):
            a[i] = make()
        return a
    i = lambda: ctx.int(name, lo=0, hi=1000)
    return {"rec_distinct": arr(n, i, t), "rec_crossings": arr(n, i, t), "rec_sums": arr((n, 4, 2), lambda: ctx.real(name, lo=0, hi=1000), f), "rec_bins": arr(c.total_bins, i, t)}


def expected_payload(ctx, c, got, d):
    """the payload says of every recorder what the tallies say of it"""
    ok = ctx.check
    ok("one entry per recorder", list(got) == [r.name for r in c.recorder_specs])
    off = 0
    for k, r in enumerate(c.recorder_specs):
        e = got[r.name]
        ok("rays", ctx.eq(e["rays"], d["rec_distinct"][k]))
        ok("crossings", ctx.eq(e["crossings"], d["rec_crossings"][k]))
        n = d["rec_distinct"][k]
        n = n if bool(n >= 1) else 1
        ok("mean wavelength", ctx.eq(e["mean_wavelength"] * n, d["rec_sums"][k][0][0], 1e-6))
        ok("mean angle", ctx.eq(e["mean_angle"] * n, d["rec_sums"][k][1][0], 1e-6))
        ok("one entry per histogram", len(e["histograms"]) == len(r.histograms))
        for h, x in zip(r.histograms, e["histograms"]):
            m = isinstance(h, Heatmap)
            size = h.a.bins * h.b.bins if m else h.bins
            ok("bins of that histogram", len(x["values"]) == size and all(bool(ctx.eq(v, d["rec_bins"][off + j])) for j, v in enumerate(x["values"])))
            ok("its shape", list(x["shape"]) == [h.a.bins, h.b.bins] if m else "shape" not in x)
            off += size


@harness("C24", [P + "_recorder_payload"], params=list(LAYOUTS), conc=30, bound="up to two recorders of up to two histograms")
def payload(ctx, layout):
    """tallies are shown under the recorder and histogram they belong to"""
    symbolic_numpy(ctx)
    c = Compiled(layout)
    d = tallies(ctx, c, "n")
    expected_payload(ctx, c, private("_recorder_payload", "compiled", "distinct", "crossings", "sums", "bins")(c, d["rec_distinct"], d["rec_crossings"], d["rec_sums"], d["rec_bins"]), d)
    ctx.cover("shown")


@harness("C24", [P + "_histogram_meta"], params=list(LAYOUTS), conc=1, bound="up to two recorders of up to two histograms")
def axes(ctx, layout):
    """the axes announced are those of the histograms"""
    c = Compiled(layout)
    got = private("_histogram_meta", "compiled")(c)
    ctx.check("one entry per recorder", list(got) == [r.name for r in c.recorder_specs])
    for k, r in enumerate(c.recorder_specs):
        e = got[r.name]
        ctx.check("event and node", e["event"] == r.event and e["node"] == c.node_names[c.rec_node[k]])
        ctx.check("one entry per histogram", len(e["histograms"]) == len(r.histograms))
        for j, (h, x) in enumerate(zip(r.histograms, e["histograms"])):
            edges = lambda a: [a.start + i * (a.stop - a.start) / a.bins for i in range(a.bins + 1)]
            ctx.check("place in the bins", x["offset"] == c.hist_offset[c.rec_hist_start[k] + j])
            if isinstance(h, Heatmap):
                ctx.check("axes of a heatmap", x["kind"] == "heatmap" and (x["prop_a"], x["prop_b"]) == (h.a.prop, h.b.prop)
                          and np.allclose(x["edges_a"], edges(h.a)) and len(x["edges_a"]) == h.a.bins + 1 and np.allclose(x["edges_b"], edges(h.b)) and len(x["edges_b"]) == h.b.bins + 1)
            else:
                ctx.check("axis of a histogram", x["kind"] == "hist" and x["prop"] == h.prop and len(x["edges"]) == h.bins + 1 and np.allclose(x["edges"], edges(h)))
    json.dumps(got)
    ctx.cover("announced")


# ---------------------------------------------------------------- any number of recorders, histograms and bins

class Many:
    """a sequence of any length, visited at one arbitrary place"""

    def __init__(self, ctx, name, item):
        self.item, self.at = item, ctx.int("which " + name)
        ctx.assume(self.at >= 0)

    def __iter__(self):
        yield self.item

    def __len__(self):
        raise Unsupported("recorders or histograms visited in another way")

    def __getitem__(self, i):
        raise Unsupported("recorders or histograms visited in another way")


def visit(seq, start=0):
    if isinstance(seq, Many):
        return iter([(seq.at + start, seq.item)])
    return builtins.enumerate(seq, start)


class Column:
    """a table read at symbolic places"""

    def __init__(self, ctx, name, make):
        self.ctx, self.name, self.make, self.seen = ctx, name, make, []

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Slice(self, i.start, i.stop, i.step)
        i = i if isinstance(i, tuple) else (i,)
        for j, v in self.seen:
            if len(i) == len(j) and all(same_index(a, b) for a, b in zip(i, j)):
                return v
        v = self.make()
        self.seen.append((i, v))
        return v

    def __len__(self):
        raise Unsupported("length of a table of any size")


class Slice:
    def __init__(self, of, lo, hi, step):
        self.of, self.lo, self.hi, self.step = of, lo, hi, step

    def tolist(self):
        return self


@harness("C24", [P + "_recorder_payload", P + "_histogram_meta"], params=["hist", "heatmap"], conc=0,
         note="any number of recorders, histograms and bins: one arbitrary pass of both loops; entries under different names do not disturb each other")
def any_recorder(ctx, kind):
    """any recorder's entry shows that recorder's tallies, and any histogram's that histogram's bins"""
    if not ctx.sym:
        return
    for n, f in (("enumerate", visit), ("int", num), ("float", flt)):
        ctx.stub(S, n, f)
    if kind == "hist":
        h = Histogram("wavelength", 300, 900, 3)
        h.bins = ctx.int("bins", lo=1, hi=10 ** 6)
        size = h.bins
    else:
        h = Heatmap("x", "y", (-1, 1, 2), (0, 4, 3))
        h.a.bins, h.b.bins = ctx.int("rows", lo=1, hi=10 ** 4), ctx.int("columns", lo=1, hi=10 ** 4)
        size = h.a.bins * h.b.bins
    r = Recorder("rec", "escaping")
    r.histograms = Many(ctx, "histogram", h)
    i = lambda n: Column(ctx, n, lambda: ctx.int(n, lo=0, hi=10 ** 9))
    c = Obj(recorder_specs=Many(ctx, "recorder", r), rec_hist_start=i("start"), hist_offset=i("offset"), rec_node=Column(ctx, "rec_node", lambda: 1), node_names=["W", "A"])
    t = dict(distinct=i("distinct"), crossings=i("crossings"), sums=Column(ctx, "sums", lambda: ctx.real("sum", lo=0)), bins=i("bins"))
    k, q = c.recorder_specs.at, r.histograms.at
    off = c.hist_offset[c.rec_hist_start[k] + q]
    got = private("_recorder_payload", "compiled", "distinct", "crossings", "sums", "bins")(c, **t)
    ctx.check("one entry, under its name", list(got) == ["rec"])
    e = got["rec"]
    n = t["distinct"][k]
    ctx.check("rays", ctx.eq(e["rays"], n))
    ctx.check("crossings", ctx.eq(e["crossings"], t["crossings"][k]))
    n = n if bool(n >= 1) else 1
    ctx.check("mean wavelength", ctx.eq(e["mean_wavelength"] * n, t["sums"][k, 0, 0], 1e-6))
    ctx.check("mean angle", ctx.eq(e["mean_angle"] * n, t["sums"][k, 1, 0], 1e-6))
    ctx.check("one entry per histogram", len(e["histograms"]) == 1)
    v = e["histograms"][0]["values"]
    if not isinstance(v, Slice):
        raise Unsupported("bins taken in another way")
    ctx.check("bins of that histogram", ctx.and_(v.of is t["bins"], v.step is None, ctx.eq(v.lo, off), ctx.eq(v.hi, off + size)))
    if kind == "heatmap":
        ctx.check("its shape", ctx.and_(*[ctx.eq(a, b) for a, b in zip(e["histograms"][0]["shape"], (h.a.bins, h.b.bins))]))
    # the axes announced
    class Edges:
        def __init__(s, *a):
            s.a = a

        def tolist(s):
            return s
    ctx.stub(S, "np", Obj(linspace=Edges))
    m = private("_histogram_meta", "compiled")(c)
    ctx.check("one entry, under its name (axes)", list(m) == ["rec"] and len(m["rec"]["histograms"]) == 1)
    x = m["rec"]["histograms"][0]
    ctx.check("event and node", m["rec"]["event"] == "escaping" and m["rec"]["node"] == "A")
    ctx.check("place in the bins", ctx.eq(x["offset"], off))
    def edges(e, a):
        return ctx.and_(*[ctx.eq(p, w) for p, w in zip(e.a, (a.start, a.stop, a.bins + 1))], len(e.a) == 3)
    if kind == "heatmap":
        ctx.check("axes", ctx.and_(x["kind"] == "heatmap", x["prop_a"] == "x", x["prop_b"] == "y", edges(x["edges_a"], h.a), edges(x["edges_b"], h.b)))
    else:
        ctx.check("axes", ctx.and_(x["kind"] == "hist", x["prop"] == "wavelength", edges(x["edges"], h)))
    ctx.cover(kind)


class Result:
    """an EngineResult with recorded rays: cap rows per ray, counts[j] of them filled in"""

    def __init__(self, ctx, counts, cap=4, data=None):
        self.max_events, self.num_recorded = cap, len(counts)
        rows = cap * len(counts)
        f = object if ctx.sym else float
        pos = np.zeros((rows, 3), dtype=f)
        nm = np.zeros(rows, dtype=f)
        for r in range(rows):
            for k in range(3):
                pos[r, k] = ctx.real("x", lo=-10, hi=10)
            nm[r] = ctx.real("nm", lo=300, hi=900)
        self.data = {"counts": np.array(counts, dtype=np.int32), "position": pos, "wavelength": nm, **(data or {})}


def within(ctx, a, b, tol):
    return ctx.and_(a - b <= tol, b - a <= tol)


def check_paths(ctx, paths, result, limit):
    """each path is one recorded history, in order; no more than the limit"""
    d, cap = result.data, result.max_events
    ctx.check("no more than asked for", len(paths) <= max(limit, 0))
    drawn = [j for j in range(result.num_recorded) if d["counts"][j] >= 2]
    want = drawn[:max(limit, 0)]
    if result.num_recorded <= limit:
        ctx.check("every history that moves", len(paths) == len(want))
    for p, j in zip(paths, want):
        n = int(d["counts"][j])
        ctx.check("a vertex per event", len(p["points"]) == n and len(p["wavelengths"]) == n)
        for k in range(n):
            for q in range(3):
                ctx.check("where it happened", within(ctx, p["points"][k][q], d["position"][j * cap + k][q], 1e-5))
            ctx.check("at its wavelength", within(ctx, p["wavelengths"][k], d["wavelength"][j * cap + k], 0.02))


@harness("C24", [P + "_extract_paths"], params=[(), (2,), (1,), (3, 2), (2, 1, 4), (1, 1, 2)], conc=20, bound="up to three recorded rays of up to four events")
def paths(ctx, counts):
    """the paths drawn are recorded histories"""
    symbolic_numpy(ctx)
    r = Result(ctx, counts)
    limit = ctx.choose("limit", [0, 1, 2, 5])
    check_paths(ctx, private("_extract_paths", "result", "limit")(r, limit), r, limit)
    ctx.cover("drawn")


# ---------------------------------------------------------------- runs

class Wait:
    """one scheduling point"""

    def __init__(self, what):
        self.what = what

    def __await__(self):
        r = yield self
        return r() if callable(r) else r


class Task:
    def __init__(self, coro, world):
        self.coro, self.world, self.at, self.finished, self.killed, self.error = coro, world, None, False, False, None

    def cancel(self, *a):
        if self.finished:
            return False
        self.killed = True
        return True

    def done(self):
        return self.finished

    def cancelled(self):
        return self.finished and self.killed

    def step(self, value=None):
        try:
            if self.killed:
                self.killed = False
                self.at = self.coro.throw(self.world.CancelledError())
            else:
                self.at = self.coro.send(value)
        except StopIteration:
            self.finished = True
        except self.world.CancelledError:
            self.finished = self.killed = True
        except S.WebSocketDisconnect:
            self.finished = True
        if not self.finished and not isinstance(self.at, Wait):
            raise Unsupported("waits for something unknown")


class World:
    """event loop, socket and engine, each by its contract"""

    class CancelledError(BaseException):
        pass

    def __init__(self, ctx, script, bundles, layout="one", record=()):
        self.ctx, self.script, self.bundles, self.record = ctx, list(script), bundles, record
        self.tasks, self.sent, self.begun, self.runs = [], [], [], []
        self.layout = layout
        self.n = 0
        st = self.studio = Obj(scene=None, document="", spec=None)
        self.open("s0")
        ctx.stub(S, "Studio", lambda *a: st)
        for n in ("engine", "asyncio"):
            if not hasattr(S, n):
                raise Unsupported(f"the server does not use {n} as a module")
        ctx.stub(S, "engine", Obj(compile_scene=self.compile_scene, simulate_stream=self.simulate_stream))
        ctx.stub(S, "asyncio", self)
        routes = [r for r in S.create_app(None).routes if getattr(r, "path", "") == "/ws"]
        if len(routes) != 1:
            raise Unsupported("no websocket route")
        self.main = Task(routes[0].endpoint(self), self)

    def open(self, name):
        # another document may have other recorders
        self.studio.scene = Obj(name=name, compiled=Compiled(self.layout if name == "s0" else "two", "" if name == "s0" else name))

    # -- asyncio
    def get_running_loop(self):
        return self

    get_event_loop = get_running_loop

    def create_task(self, coro, **k):
        t = Task(coro, self)
        t.born = self.n
        self.tasks.append(t)
        return t

    ensure_future = create_task

    def run_in_executor(self, pool, f, *a):
        return Wait(("work", lambda: f(*a)))

    def to_thread(self, f, *a):
        return Wait(("work", lambda: f(*a)))

    def sleep(self, *a):
        return Wait(("sleep", None))

    # -- socket
    async def accept(self):
        pass

    def receive_json(self):
        return Wait(("receive", None))

    def send_json(self, m):
        self.sent.append((self.n, m, self.current))
        return Wait(("send", None))

    # -- engine
    def compile_scene(self, scene):
        self.runs.append(Obj(scene=scene, streams=[], task=self.current))
        return scene.compiled

    def simulate_stream(self, scene, num_rays, bundle=50000, seed=None, **k):
        r = next((r for r in self.runs if r.task is self.current), None)
        if r is None:
            raise Unsupported("runs are started in another way")
        r.streams.append(Obj(scene=scene, n=num_rays, bundle=bundle, seed=seed, more=k, given=[]))
        s = r.streams[-1]

        def gen():
            traced = 0
            for b in range(self.bundles):
                traced = num_rays * (b + 1) // self.bundles
                res = Result(self.ctx, self.record, data=tallies(self.ctx, scene.compiled, f"t{b}"))
                s.given.append((res, traced))
                yield res, traced
        return gen()

    # -- scheduler
    def play(self, free=True):
        """every order of events, or (not free) the handler as soon as a command arrives"""
        ctx, self.current, self.handled = self.ctx, self.main, []
        self.main.step()
        steps = 0
        while True:
            steps += 1
            if steps > 60:
                raise Unsupported("schedule too long")
            alive = [t for t in self.tasks if not t.finished]
            opts = [("task", t) for t in alive]
            if not self.main.finished:
                if self.main.at.what[0] == "receive":
                    if self.script:
                        opts.append(("command", None))
                else:
                    opts.append(("main", None))
            if not opts:
                break
            # a task told to end, or one not yet started, goes before anything that happens later
            first = [o for o in opts if o[0] == "main"] or [o for o in opts if o[0] == "task" and o[1].killed]
            opts = first[:1] or opts
            kind, t = opts[0] if len(opts) == 1 else opts[ctx.choose("next", list(range(len(opts))))]
            self.n += 1
            if kind == "task":
                self.current = t
                at = t.at
                t.step(at.what[1] if at is not None and at.what[0] == "work" else None)
                continue
            self.current = self.main
            if kind == "main":
                self.main.step()
                continue
            c = self.script.pop(0)
            self.handled.append((self.n, c))
            if c == "open":
                self.open(f"s{self.n}")
            elif c == "gone":
                self.main.at = None
                self.leave()
            else:
                self.main.step(dict(cmd=c, **(self.ask if c == "run" else {})))
        return self

    def leave(self):
        m = self.main
        try:
            m.at = m.coro.throw(S.WebSocketDisconnect())
        except (StopIteration, S.WebSocketDisconnect):
            m.finished = True
        except self.CancelledError:
            m.finished = True


SCRIPTS = {"run": ["run"], "stop": ["run", "stop"], "again": ["run", "run"], "stop, run": ["run", "stop", "run"], "edit": ["run", "open"], "edit, run": ["run", "open", "run"],
           "gone": ["run", "gone"], "again, gone": ["run", "stop", "run", "gone"]}


def segments(w):
    """messages between one 'started' and the next"""
    out = []
    for n, m, task in w.sent:
        if m["type"] == "started":
            out.append([])
        if out:
            out[-1].append((n, m, task))
        else:
            w.ctx.check("nothing before a run starts", m["type"] == "error")
    return out


def judge(ctx, w, limit):
    runs = {id(r.task): r for r in w.runs}
    for seg in segments(w):
        task = seg[0][2]
        ctx.check("only the run that started last is shown", all(t is task for _, _, t in seg))
        r = runs.get(id(task))
        if r is None:
            raise Unsupported("runs are started in another way")
        c = r.scene.compiled
        ctx.check("the scene described is the scene traced", len(r.streams) <= 1 and all(s.scene is r.scene for s in r.streams))
        ctx.check("axes of that scene", list(seg[0][1]["histograms"]) == c.recorder_names)
        ctx.check("as many rays as asked for", seg[0][1]["total"] == w.ask["rays"])
        bundles = [m for _, m, _ in seg if m["type"] == "bundle"]
        s = r.streams[0] if r.streams else None
        if s is not None:
            ctx.check("rays, bundle size and seed as asked for", (s.n, s.bundle, s.seed) == (w.ask["rays"], w.ask["bundle"], w.ask["seed"]))
            ctx.check("every so many rays recorded", s.more.get("record_every") == w.ask["record_every"])
        sums, shown = None, 0
        for k, m in enumerate(bundles):
            res, traced = s.given[k]
            d = {x: res.data[x] for x in ("rec_distinct", "rec_crossings", "rec_sums", "rec_bins")}
            sums = d if sums is None else {x: sums[x] + d[x] for x in d}
            ctx.check("rays traced so far", m["traced"] == traced and m["total"] == w.ask["rays"])
            expected_payload(ctx, c, m["recorders"], sums)
            check_paths(ctx, m["paths"], res, limit - shown)
            shown += len(m["paths"])
        ctx.check("no more paths than asked for", shown <= limit)
        done = [n for n, m, _ in seg if m["type"] == "done"]
        ctx.check("at most one end, and it comes last", len(done) <= 1 and (not done or seg[-1][1]["type"] == "done"))
        ended = [n for n, cmd in w.handled if cmd in ("stop", "run", "gone") and n > task.born]
        if not ended:
            ctx.check("every bundle is shown", s is not None and len(bundles) == w.bundles)
            ctx.check("and the end", len(done) == 1)
        else:
            late = [n for n, m, _ in seg if m["type"] == "bundle" and n > ended[0]]
            ctx.check("nothing more after a stop", not late)
    gone = [n for n, cmd in w.handled if cmd == "gone"]
    if gone:
        ctx.check("nothing is sent to a browser that left", all(n <= gone[0] for n, _, _ in w.sent))
        ctx.check("and no run goes on", all(t.finished for t in w.tasks))


@harness("C24", [P + "create_app"], params=[(k, b) for k in SCRIPTS for b in (1, 2)], conc=40, bound="runs of one or two bundles, up to four commands, every schedule of them",
         assumes=["Engine.simulate_stream: bundles and the rays traced so far (C13)"])
def schedules(ctx, param):
    """a run shows its own scene and tallies only, ends when stopped or superseded, in every order of events"""
    script, n = param
    symbolic_numpy(ctx)
    w = World(ctx, SCRIPTS[script], n, layout="none" if script != "run" else "one")
    w.ask = dict(rays=1000, bundle=500, seed=7, record_every=10, max_paths=3)
    w.play()
    judge(ctx, w, 3)
    ctx.cover("played")


@harness("C24", [P + "create_app"], params=[(l, b, r) for l in ("one", "two", "bare") for b in (0, 1, 3) for r in ((), (2, 3))], conc=10, bound="runs of up to three bundles",
         assumes=["Engine.simulate_stream: bundles and the rays traced so far (C13)"])
def sums(ctx, param):
    """tallies shown are the sums over the bundles so far"""
    layout, n, rec = param
    symbolic_numpy(ctx)
    w = World(ctx, ["run"], n, layout=layout, record=rec)
    w.ask = dict(rays=1000, bundle=500, seed=7, record_every=10, max_paths=3)
    w.play()
    judge(ctx, w, 3)
    ctx.cover("played")


@harness("C24", [P + "create_app"], conc=4)
def no_scene(ctx):
    """without a scene a run is refused,"""
    w = World(ctx, ["stop", "run"], 1, layout="none")
    w.ask = dict(rays=10, bundle=5, seed=1, record_every=0, max_paths=0)
    w.studio.scene = None
    w.play()
    ctx.check("an error is shown", [m["type"] for _, m, _ in w.sent] == ["error"])
    ctx.check("nothing runs", not w.tasks)
    ctx.cover("refused")


# ---------------------------------------------------------------- the viewport

@harness("C24", [P + "Studio.scene_payload"], params=["plain", "spec", "no spec"], conc=20, bound="scenes of three nodes")
def viewport(ctx, case):
    """the scene sent to the viewport is the compiled scene: names, shapes, sizes, poses, lights, recorders"""
    if ctx.sym:
        ctx.stub(S, "float", flt)
        ctx.stub(S, "int", num)
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    from pvtrace.engine.recorder import Recorder
    W = Node(name="W", geometry=Sphere(10.0, material=Material(1.0)))
    A = Node(name="A", geometry=Sphere(1.0, material=Material(1.5)), parent=W)
    L = Node(name="L", light=Light(), parent=A)
    A.location = (1.0, 2.0, 3.0)
    L.location = (0.0, 0.0, 5.0)
    A.rotate(0.5 * np.pi, (0, 0, 1))
    A.recorders = [Recorder("mine", "escaping", facet=(0, 0, 1), histograms=[H[0](), H[1]()]), Recorder("A-lost", "lost")]
    f = object if ctx.sym else float
    def arr(*shape):
        a = np.zeros(shape, dtype=f)
        for i in np.ndindex(*shape):
            a[i] = ctx.real("v", lo=-10, hi=10)
        return a
    root = ctx.choose("root", [0, 1])
    c = Obj(node_names=["W", "A"], geom_type=np.array([1, ctx.choose("kind", [0, 1, 2])]), geom_params=arr(2, 4), local_to_world=arr(2, 4, 4), root_id=root, refractive_index=arr(2))
    spec = {"plain": {}, "spec": {"nodes": {"A": {"record": ["lost"]}, "L": {"light": {"wavelength": 555}}}, "recorders": {"mine": {"node": "A"}}}, "no spec": {"nodes": {}, "recorders": None}}[case]
    st = S.Studio("")
    got = st.scene_payload(c, Scene(W), spec)
    ctx.check("one entry per node", [n["name"] for n in got["nodes"]] == c.node_names)
    for i, n in enumerate(got["nodes"]):
        ctx.check("shape", n["type"] == {0: "box", 1: "sphere", 2: "cylinder"}[int(c.geom_type[i])])
        ctx.check("sizes", len(n["params"]) == 4 and all(bool(ctx.eq(a, b)) for a, b in zip(n["params"], c.geom_params[i])))
        ctx.check("pose, column by column", len(n["matrix"]) == 16 and all(bool(ctx.eq(n["matrix"][4 * q + p], c.local_to_world[i][p][q])) for p in range(4) for q in range(4)))
        ctx.check("root", n["root"] == (i == root))
        ctx.check("refractive index", ctx.eq(n["refractive_index"], c.refractive_index[i]))
        ctx.check("as the document says", n["spec"] == (spec.get("nodes") or {}).get(n["name"], {}))
    ctx.check("lights", [x["name"] for x in got["lights"]] == ["L"])
    m = np.array(got["lights"][0]["matrix"], dtype=float).reshape(4, 4).T
    ctx.check("where the light is", np.allclose(m[:3, 3], (1.0, 2.0, 8.0)) and np.allclose(m[:3, :3], [[0, -1, 0], [1, 0, 0], [0, 0, 1]]))
    r = got["recorders"]
    ctx.check("recorders", [(x["name"], x["node"], x["event"]) for x in r] == [("mine", "A", "escaping"), ("A-lost", "A", "lost")])
    ctx.check("facets", list(r[0]["facet"]) == [0, 0, 1] and r[1]["facet"] is None)
    h = r[0]["histograms"]
    ctx.check("histograms", len(h) == 2 and h[0] == {"kind": "hist", "prop": "wavelength", "range": [300, 900, 3]}
              and h[1] == {"kind": "heatmap", "prop_a": "x", "prop_b": "y", "range_a": [-1, 1, 2], "range_b": [0, 4, 3]} and r[1]["histograms"] == [])
    ctx.check("the document's specification", got["spec"] is spec)
    ctx.cover("described")
