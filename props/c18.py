"""C18 storing a simulation: rows, throw identifiers, end rays."""
import contextlib
import inspect
import io
import os
import queue as queues
import random
import re
import shutil
import sqlite3
import tempfile
import threading

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from vf.cut import Loop
from props.common import *
import props.c13 as c13
import props.c17 as c17
import pvtrace.cli.main as cm
import pvtrace.scene.scene as sc
from pvtrace.light.event import Event
from pvtrace.light.ray import Ray

M = "pvtrace.cli.main."
S = "pvtrace.scene.scene."
meta("C18", assumptions=["one monitor thread per database; the queue delivers each item once (multiprocessing manager)"],
     trusted=["sqlite3: INSERT adds exactly the row given and lastrowid identifies it (cross-checked by executions)", "the manager's queue; threading.Event"])

RAY = ["throw_id", "x", "y", "z", "i", "j", "k", "wavelength", "source", "travelled", "duration"]
EVENT = ["ray_id", "kind", "component", "hit", "container", "adjacent", "facet", "ni", "nj", "nk"]


def flat(x):
    if isinstance(x, tuple):
        return [z for y in x for z in flat(y)]
    return [x]


def insert(text, values):
    """INSERT INTO t [(columns)] VALUES (?, ...) -> table, {column: value}"""
    m = re.fullmatch(r"\s*INSERT\s+INTO\s+(\w+)\s*(?:\(([\w\s,]*)\))?\s*VALUES\s*\(([?\s,:\w]*)\)\s*;?\s*", text, re.I)
    if not m:
        raise Unsupported(f"statement {text[:40]!r}")
    t = m.group(1).lower()
    table = c17.columns().get(t)
    if table is None:
        raise Unsupported(f"table {t}")
    cols = [c.strip().lower() for c in m.group(2).split(",")] if m.group(2) else list(table)
    marks = [c.strip() for c in m.group(3).split(",")]
    if isinstance(values, dict):
        vals = [values[k[1:]] for k in marks]
    else:
        if any(k != "?" for k in marks):
            raise Unsupported("placeholders of another form")
        vals = list(values)
        if len(vals) != len(marks):
            raise ValueError("wrong number of bound values")
    if len(cols) != len(vals) or any(c not in table for c in cols):
        raise ValueError("wrong number of values for the table")
    d = {c: None for c in table}
    d.update(zip(cols, vals))
    return t, d


class Db:
    """records inserted rows; each ray row gets a row id of its own"""

    def __init__(self, ctx):
        self.ctx, self.rays, self.events, self.order, self.commits = ctx, [], [], [], []
        self.lastrowid = None

    def cursor(self):
        return self

    def execute(self, text, values=()):
        t, d = insert(text, values)
        self.order.append(t)
        if t == "ray":
            self.lastrowid = self.ctx.int("rowid", lo=1)
            for r in self.rays:
                self.ctx.assume(self.ctx.not_(self.ctx.eq(r["rowid"], self.lastrowid)))
            d["rowid"] = self.lastrowid
            self.rays.append(d)
        elif t == "event":
            self.events.append(d)
            self.lastrowid = self.ctx.int("rowid", lo=1)
        else:
            raise Unsupported("another table")
        return self

    def commit(self):
        self.commits.append(len(self.order))

    def close(self):
        self.commits.append("closed")


def memory():
    con = sqlite3.connect(":memory:")
    con.executescript(open(cm.SCHEMA).read())
    return con


def fetch(con):
    con.row_factory = sqlite3.Row
    rays = [dict(r) for r in con.execute("SELECT rowid, * FROM ray ORDER BY rowid")]
    evs = [dict(r) for r in con.execute("SELECT * FROM event ORDER BY rowid")]
    return rays, evs


def any_ray(ctx):
    return Ray(position=ctx.vec("p"), direction=ctx.vec("d"), wavelength=ctx.real("wl", lo=1), source=ctx.choose("source", [None, "light", ""]),
               travelled=ctx.real("travelled", lo=0), duration=ctx.real("duration", lo=0))


def is_same(ctx, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return ctx.eq(a, b, 1e-12)


def check_ray(ctx, d, ray, tid):
    want = [tid, *ray.position, *ray.direction, ray.wavelength, ray.source, ray.travelled, ray.duration]
    for c, v in zip(RAY, want):
        ctx.check(f"ray.{c}", is_same(ctx, d[c], v))


def any_metadata(ctx):
    k = ctx.choose("metadata", ["none", "empty", "some"])
    if k == "none":
        return None
    m = {}
    if k == "some":
        if ctx.flag("component given"):
            m["component"] = ctx.choose("component", ["dye", None])
        form = ctx.choose("names", ["neither", "container", "all"])
        if form != "neither":
            m["container"] = "box'"
        if form == "all":
            m["hit"] = "wall"
            m["adjacent"] = ctx.choose("adjacent", ["world", None])
        if ctx.flag("facet given"):
            m["facet"] = "top"
        if ctx.flag("normal given"):
            m["normal"] = ctx.vec("n")
        if ctx.flag("other things given"):
            m["maxsteps"] = 3
            m["emit_method"] = "kT"
    return m


def check_event(ctx, d, event, meta, ray_id):
    meta = meta or {}
    normal = meta.get("normal") or (None, None, None)
    want = dict(kind=event.name, **{k: meta.get(k) for k in ("component", "hit", "container", "adjacent", "facet")}, ni=normal[0], nj=normal[1], nk=normal[2])
    ctx.check("event.ray_id", is_same(ctx, d["ray_id"], ray_id))
    for c, v in want.items():
        ctx.check(f"event.{c}", is_same(ctx, d[c], v))


@harness("C18", [M + "write_ray"], conc=60)
def ray_row(ctx):
    """one ray row, every field in its own column, and its row id returned"""
    ray, tid = any_ray(ctx), ctx.int("throw", lo=0, hi=10 ** 6)
    if ctx.sym:
        db = Db(ctx)
        out = cm.write_ray(db, ray, tid)
        ctx.check("one row", db.order == ["ray"])
        check_ray(ctx, db.rays[0], ray, tid)
        ctx.check("its row id", ctx.eq(out, db.rays[0]["rowid"]))
        return
    con = memory()
    cur = con.cursor()
    out = cm.write_ray(cur, ray, tid)
    rays, evs = fetch(con)
    ctx.check("one row", len(rays) == 1 and not evs)
    check_ray(ctx, rays[0], ray, tid)
    ctx.check("its row id", out == rays[0]["rowid"])


@harness("C18", [M + "write_event"], conc=150)
def event_row(ctx):
    """one event row linked to the ray row given, absent metadata null"""
    ev, m = ctx.choose("event", list(Event)), any_metadata(ctx)
    rid = ctx.int("ray row", lo=1, hi=10 ** 6)
    if ctx.sym:
        db = Db(ctx)
        cm.write_event(db, ev, m, rid)
        ctx.check("one row", db.order == ["event"])
        check_event(ctx, db.events[0], ev, m, rid)
        return
    con = memory()
    cm.write_event(con.cursor(), ev, m, rid)
    rays, evs = fetch(con)
    ctx.check("one row", len(evs) == 1 and not rays)
    check_event(ctx, evs[0], ev, m, rid)


# ---------------------------------------------------------------- the monitor's loop

class Ids:
    """an arbitrary one-to-one map from n throws onto 0..n-1, asked about one throw"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = ctx.int("known throws", lo=0)
        self.has, self.id, self.set, self.key = None, None, [], None

    def _key(self, k):
        if self.key is None:
            self.key = k
        elif flat(k) != flat(self.key):
            raise Unsupported("asked about another throw")

    def __contains__(self, k):
        self._key(k)
        if self.set:
            return True
        if self.has is None:
            self.has = self.ctx.flag("seen before")
            if self.has:
                self.id = self.ctx.int("its id", lo=0)
                self.ctx.assume(self.id < self.n)
        return self.has

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.set[-1] if self.set else self.id

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def __setitem__(self, k, v):
        k in self
        self.set.append(v)

    def size(self):
        return self.n + (1 if self.set and not self.has else 0)

    def __getattr__(self, k):
        raise Unsupported(f"ids.{k}")


def any_counts(ctx, key):
    """events of other shares were counted before; this one perhaps"""
    n = ctx.int("others", lo=0)
    d = {"another": n}
    if ctx.flag("share counted"):
        d[key] = ctx.int("counted", lo=1)
    return d


class OneItem:
    def __init__(self, item):
        self.item = item

    def get(self, *a, **k):
        if self.item is None:
            raise queues.Empty()
        i, self.item = self.item, None
        return i

    get_nowait = get

    def empty(self):
        return self.item is None

    def qsize(self):
        return 0 if self.item is None else 1


def monitor_args(db, q, stop, renderer=False):
    return dict(dbfilepath="/nowhere", queue=q, stop=stop, progress=Obj(update=lambda n=1: None), scene_obj="scene", zmq="tcp://x" if renderer else None,
                wireframe=True, skip=None, max_histories=1)


class FakeRenderer:
    def __init__(self, **k):
        self.vis = Obj(open=lambda: None)

    def remove(self, s):
        pass

    render = add_history = remove


def prepared(ctx, item, stop, skip, renderer=False):
    """the monitor's loop, in an arbitrary state"""
    if not ctx.sym:
        raise Unsupported("loop contract")
    L = Loop(cm.monitor_queue)
    db = Db(ctx)
    ctx.stub(cm, "sqlite3", Obj(connect=lambda *a, **k: db))
    ctx.stub(cm, "MeshcatRenderer", FakeRenderer)
    a = monitor_args(db, OneItem(item), stop, renderer)
    a["skip"] = skip
    ys, env, ret = L.prefix(**a)
    if env is None or L.is_for:
        raise Unsupported("monitor of another form")
    return L, db, env


@harness("C18", [M + "monitor_queue"], params=["unseen", "rendered"], note="loop contract: one arbitrary item, any number of throws seen before", conc=0)
def monitor_item(ctx, how):
    """one item: one ray row, one event row, linked and committed; the throw keeps its id, a new throw gets an unused one"""
    key = (7, 0)
    throw = ctx.int("throw", lo=0)
    ray, ev = any_ray(ctx), ctx.choose("event", [Event.GENERATE, Event.TRANSMIT])
    m = {"hit": "wall", "container": "box", "adjacent": "world", "normal": ctx.vec("n")} if ev is Event.TRANSMIT else None
    item = (key, throw, ray, ev, m)
    stop = Obj(is_set=lambda: ctx.choose("stop", [False, True]))
    skip = ctx.int("skip", lo=1) if how == "rendered" else 10
    L, db, env = prepared(ctx, item, stop, skip, how == "rendered")
    dicts = {k: v for k, v in env.items() if type(v) is dict}
    if set(dicts) != {"counts", "global_ids", "history"} or any(dicts.values()) or any(type(v) in (list, set) for v in env.values()):
        raise Unsupported("monitor with another state")
    ids = Ids(ctx)
    env["global_ids"], env["counts"] = ids, any_counts(ctx, key)
    env["history"] = {key: [("r", "e")] * ctx.choose("drawn so far", [1, 2])} if ctx.flag("drawn") else {}
    env["global_completed"] = ctx.int("completed", lo=0)
    ctx.stub(cm, "len", lambda x: x.size() if isinstance(x, Ids) else len(x))
    ctx.check("the loop goes on", bool(L.test(env)))
    ys, after, ret = L.body(env)
    if ret is not None:
        ctx.check("no item is left", False)
        return
    ctx.check("still in the loop", after["__flow__"] == "next")
    ctx.check("one ray row and one event row", db.order == ["ray", "event"])
    ctx.check("committed", db.commits and db.commits[-1] == 2)
    if ids.key is None:
        raise Unsupported("throws identified in another way")
    ctx.check("the throw is known by its share and number", flat(ids.key) == flat((key, throw)) or all(bool(ctx.eq(a, b)) for a, b in zip(flat(ids.key), flat((key, throw)))))
    tid = db.rays[0]["throw_id"]
    if ids.has:
        ctx.check("a known throw keeps its id", ctx.and_(ctx.eq(tid, ids.id), *[ctx.eq(v, ids.id) for v in ids.set]))
        ctx.cover("known throw")
    else:
        ctx.check("a new throw gets an unused id", ctx.eq(tid, ids.n))
        ctx.check("which is remembered", bool(ids.set) and ctx.eq(ids.set[-1], tid))
        ctx.cover("new throw")
    check_ray(ctx, db.rays[0], ray, tid)
    check_event(ctx, db.events[0], ev, m, db.rays[0]["rowid"])
    ctx.check("the map is kept", after["global_ids"] is ids)


@harness("C18", [M + "monitor_queue"], note="loop contract: leaving the loop", conc=0)
def monitor_stop(ctx):
    """the monitor leaves only when it is told to and nothing is left; an empty queue changes nothing"""
    told = ctx.choose("stop", [False, True])
    L, db, env = prepared(ctx, None, Obj(is_set=lambda: told), 10)
    ctx.check("the loop goes on", bool(L.test(env)))
    before = {k: dict(v) for k, v in env.items() if type(v) is dict}
    ys, after, ret = L.body(env)
    left = ret is not None or (after or {}).get("__flow__") == "break"
    ctx.check("leaves exactly when told to and nothing is left", left == told)
    ctx.check("nothing stored", not db.order)
    if not left:
        ctx.check("state unchanged", all(after[k] == v for k, v in before.items()))
    ctx.cover("left" if left else "waiting")


# ---------------------------------------------------------------- histories, executed

class Script:
    """delivers the items given, sometimes claiming to be empty; stop is set at the end"""

    def __init__(self, items, rng):
        self.items, self.rng, self.late = list(items), rng, rng.random() < 0.5
        self.stopped = False

    def get(self, *a, **k):
        if not self.items or self.rng.random() < 0.1:
            raise queues.Empty()
        i = self.items.pop(0)
        return i

    def empty(self):
        return not self.items

    def is_set(self):
        # with items left only after every producer is done
        if not self.items or (self.late and len(self.items) < 3):
            self.stopped = True
        return self.stopped


def rows_of(path):
    con = sqlite3.connect(path)
    try:
        return fetch(con)
    finally:
        con.close()


def run_monitor(items, rng, skip):
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "s.sqlite3")
        cm.prepare_database(path)
        s = Script(items, rng)
        a = monitor_args(None, s, s)
        a.update(dbfilepath=path, skip=skip)
        t = threading.Thread(target=cm.monitor_queue, kwargs=a, daemon=True)
        t.start()
        t.join(20)
        return rows_of(path), t.is_alive()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_stored(ctx, items, rays, evs):
    """items: (throw identity, ray, event, metadata) in the order delivered"""
    ctx.check("one ray row and one event row each", len(rays) == len(items) and len(evs) == len(items))
    if len(rays) != len(items) or len(evs) != len(items):
        return
    by = {e["ray_id"]: e for e in evs}
    ctx.check("each event row has a ray row of its own", len(by) == len(evs) and set(by) == {r["rowid"] for r in rays})
    if set(by) != {r["rowid"] for r in rays}:
        return
    tid = {}
    for (who, ray, ev, m), r in zip(items, rays):
        check_ray(ctx, r, ray, r["throw_id"])
        check_event(ctx, by[r["rowid"]], ev, m, r["rowid"])
        tid.setdefault(who, set()).add(r["throw_id"])
    ctx.check("events of one throw share an id", all(len(v) == 1 for v in tid.values()))
    ctx.check("events of different throws never do", len({x for v in tid.values() for x in v}) == len(tid) or any(len(v) != 1 for v in tid.values()))


@harness("C18", [M + "monitor_queue", M + "write_ray", M + "write_event", S + "do_simulation_add_to_queue"], conc=40, executed=True,
         bound="random interleavings of up to four shares in one or more processes, three throws each", note="the real worker and the real monitor with a real database")
def interleaved(ctx):
    """shares of several workers, in any interleaving, stored by the real monitor"""
    if ctx.sym:
        raise Unsupported("threads")
    rng = random.Random(ctx.int("seed", lo=0, hi=10 ** 6, small=10 ** 6))
    shares = []
    nw = ctx.choose("workers", [1, 2, 3, 4])
    for w in range(nw):
        got = []
        shares.append(got)

        def step_forward(s, ray, *a, **k):
            for j in range(rng.randrange(1, 4)):
                yield (ray, rng.choice([Event.GENERATE, Event.TRANSMIT, Event.NONRADIATIVE]),
                       rng.choice([None, {"hit": "h", "container": "c", "adjacent": "h", "normal": (0.0, 0.5, 1.0)}, {"component": "dye", "container": "c"}]))
        rays = [Ray((float(w), float(i), rng.random()), (0.0, 0.0, 1.0), rng.choice([500.0, np.float64(555.5)]), source=rng.choice(["l", None])) for i in range(3)]
        ctx.stub(sc, "photon_tracer", Obj(step_forward=step_forward))
        pid = rng.choice([1, 1, 2])
        ctx.stub(sc, "os", Obj(getpid=lambda: pid))
        ctx.stub(sc, "is_end_ray", lambda e, m: True)
        t = captured_tasks(ctx, nw)[w] if nw > 1 else None
        scene = Obj(emit=lambda n: iter(rays))
        qq = Obj(put=lambda info: got.append(info))
        if t is None:
            sc.do_simulation_add_to_queue(scene, 3, None, qq, False)
        else:
            b = c13.SIG_QUEUED.bind(*t[1], **t[2]).arguments
            b.update(scene=scene, queue=qq, end_rays=False, seed=None)
            c13.sc.do_simulation_add_to_queue(**b)
    items = []
    pend = [(w, list(g)) for w, g in enumerate(shares)]
    while any(g for _, g in pend):
        w, g = rng.choice([p for p in pend if p[1]])
        items.append((w, g.pop(0)))
    (rays, evs), stuck = run_monitor([i for _, i in items], rng, rng.choice([1, 2, 10]))
    ctx.check("the monitor ends", not stuck)
    check_stored(ctx, [((w, i[-3].position[:2]), i[-3], i[-2], i[-1]) for w, i in items], rays, evs)
    ctx.cover(f"{nw} workers")


def captured_tasks(ctx, workers):
    """the tasks Scene.simulate submits for so many workers"""
    real = sc.do_simulation_add_to_queue
    w = Obj(cpus=8)
    c13.stand_ins(w)
    keep = {k: getattr(sc, k) for k in ("multiprocessing", "do_simulation", "do_simulation_add_to_queue")}
    had = "print" in vars(sc)
    w.pools, w.tasks, w.gets, w.direct = [], [], [], []
    sc.multiprocessing = Obj(Pool=lambda processes=None, **k: c13.FakePool(w, processes), cpu_count=lambda: 8)
    sc.do_simulation, sc.do_simulation_add_to_queue = w.one, w.queued
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sc.Scene(sc.Node(name="world")).simulate(3 * workers, workers=workers, queue=Obj(put=None))
    finally:
        for k, v in keep.items():
            setattr(sc, k, v)
    return w.tasks


@harness("C18", [S + "Scene.simulate", S + "do_simulation_add_to_queue"], conc=20, note="any number of workers: two arbitrary shares, run by one process or by two")
def share_keys(ctx):
    """throws of different shares, and different throws of one share, are told apart"""
    w = Obj(cpus=8)
    real = sc.do_simulation_add_to_queue
    c13.stand_ins(w)
    c13.watch_simulate(ctx, w)
    workers = ctx.int("workers", lo=2, hi=None if ctx.sym else 40)
    n = ctx.int("n", lo=0) if ctx.sym else ctx.int("n", lo=workers, hi=workers + 200)
    if ctx.sym:
        ctx.assume(n >= workers)
        pair = []

        def rng(*a):
            if len(a) != 1:
                raise Unsupported("range of another form")
            for j in range(2):
                i = ctx.int(f"worker{j}", lo=0)
                ctx.assume(i < a[0])
                if j:
                    ctx.assume(ctx.not_(ctx.eq(i, pair[0])))
                pair.append(i)
            return pair
        ctx.stub(sc, "range", rng)
        ctx.stub(core, "LIST_REPEAT", lambda base, m: c13.SymList(ctx, base[0], m) if len(base) == 1 else c13._unsup())
        ctx.stub(sc, "np", c13.seeds_np(ctx))
    sc.Scene(sc.Node(name="world")).simulate(n, workers=workers, queue=Obj(put=None))
    ctx.assume(len(w.tasks) >= 2)
    tasks = w.tasks if ctx.sym else [ctx.rng.choice(w.tasks[:-1]), w.tasks[-1]]
    one = ctx.choose("one process", [True, False])
    keys = []
    ctx.stub(sc, "photon_tracer", Obj(step_forward=lambda s, r, *a, **k: iter([(r, Event.GENERATE, None)])))
    ctx.stub(sc, "np", Obj(random=Obj(seed=lambda s: None)))
    for t in range(2):
        ctx.stub(sc, "os", Obj(getpid=lambda: 77 if one or not t else 78))
        b = c13.SIG_QUEUED.bind(*tasks[t][1], **tasks[t][2]).arguments
        b.update(scene=Obj(emit=lambda k: iter(["ray 0", "ray 1"])), queue=Obj(put=lambda info: keys.append((t, info))))
        real(**b)
    ctx.check("every event is delivered", len(keys) == 4)
    for a in range(len(keys)):
        for c in range(a):
            # the monitor's key: share and number
            u, v = flat(tuple(keys[a][1][:2])), flat(tuple(keys[c][1][:2]))
            same = len(u) == len(v) and ctx.and_(*[ctx.eq(x, y) for x, y in zip(u, v)])
            ctx.check("different throws differ" if keys[a][0] == keys[c][0] else "throws of different shares differ", ctx.not_(same))
    ctx.cover("one process" if one else "two processes")


PATTERNS = [(h, c, a) for h in "ABC" for c in "ABC" for a in ("A", "B", "C", None)]


@harness("C18", [S + "is_end_ray"], params=list(Event), note="all patterns of equal and different names")
def end_rays(ctx, ev):
    """exactly generation, terminal, entering, escaping and externally reflected events"""
    if ev in (Event.REFLECT, Event.TRANSMIT):
        h, c, a = ctx.choose("names", PATTERNS)
        ctx.assume(h == c or h == a)
        ctx.assume(c != a)
        m = {"hit": h, "container": c, "adjacent": a, "normal": (0.0, 0.0, 1.0)}
        want = h == a if ev is Event.REFLECT else True
        ctx.cover(f"{'outside' if h == a else 'inside'}")
    else:
        m = ctx.choose("metadata", [None, {}, {"container": "A"}, {"container": "A", "component": "B"}, {"hit": "A", "container": "B", "adjacent": "A"}])
        want = ev not in (Event.ABSORB, Event.EMIT, Event.SCATTER)
    ctx.check("kept exactly when an end ray", bool(sc.is_end_ray(ev, m)) == want)


@harness("C18", [M + "simulate"], conc=6, executed=True, bound="stand-in scenes with up to 40 events", note="the whole command with a real queue and database")
def command(ctx):
    """the command waits until everything is stored, also when the simulation fails"""
    if ctx.sym:
        raise Unsupported("threads")
    seed = ctx.int("seed", lo=0, hi=10 ** 6, small=10 ** 6)
    rng = random.Random(seed)
    fails = ctx.choose("fails", [False, False, True])
    end = ctx.choose("end", [False, True])
    items = []
    for t in range(rng.randrange(1, 8)):
        for j in range(rng.randrange(1, 6)):
            items.append(((1, 0), t, Ray((float(t), 0.0, float(j)), (0.0, 0.0, 1.0), 555.0), Event.GENERATE, None))
    asked = []

    def simulate(rays, workers=None, seed=None, queue=None, end_rays=None):
        asked.append((rays, workers, seed, end_rays))
        for i in items:
            queue.put(i)
        if fails:
            raise RuntimeError("failed on purpose")
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "s.yml")
        open(path, "w").write("x")
        q = queues.Queue()
        ctx.stub(cm, "parse", lambda p: Obj(simulate=simulate))
        ctx.stub(cm, "multiprocessing", Obj(Manager=lambda: Obj(Queue=lambda maxsize=0: q)))
        ctx.stub(cm, "pytime", Obj(sleep=lambda t: __import__("time").sleep(0.005)))
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                cm.simulate(scene=path, rays=17, workers=3, end_rays=end, seed=None, overwrite=True, zmq=None, wireframe=True, render_every=10, render_max=1)
                ctx.check("failures are not hidden", not fails)
            except RuntimeError:
                ctx.check("failures are not hidden", fails)
        ctx.check("options passed on", asked == [(17, 3, None, end)])
        rays, evs = rows_of(os.path.join(d, "s.sqlite3"))
        check_stored(ctx, [(i[1], i[2], i[3], i[4]) for i in items], rays, evs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
