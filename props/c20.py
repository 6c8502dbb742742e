"""C20 the studio: rejected edits change nothing, accepted ones change what they say.

`_patch` runs on documents held as mappings (the round trip through text is executed in
`histories`): its structure is split into cases and its numbers are symbolic.  `apply`
runs with its callees replaced by contracts that return or raise."""
import asyncio
import contextlib
import copy
import io
import logging
import os
import random
import shutil
import tempfile

import numpy as np

from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from vf.cut import Loop
from props.common import *
from props.c08 import applyT, rot, shim_mat
from props.c19 import random_document
import pvtrace.studio.server as S
from pvtrace.scene.node import Node

P = "pvtrace.studio.server."
meta("C20", assumptions=["mapping keys are compared as given; documents share nothing between nodes through YAML anchors (known finding otherwise)",
                         "rounding of a moved node's location to six digits is allowed"],
     trusted=["ruamel.yaml's round trip, yaml.safe_load, FastAPI (executed in `histories` and `uploads`)"])

INTERNAL = (core.Unsupported, core.Infeasible, core.PathLimit, core.Reject)


# ------------------------------------------------------------------ structured edits

class Mapping:
    """the round-trip loader with the text left out: documents are mappings"""

    def __init__(self, data):
        self.data, self.out = data, None

    def load(self, stream, *a, **k):
        return self.data

    def dump(self, data, stream=None, *a, **k):
        self.out = data
        if stream is not None:
            stream.write("the new text")


def same(ctx, a, b):
    """equality of two documents, numbers compared as reals"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return ctx.and_(True, *[same(ctx, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return ctx.and_(True, *[same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return type(a) is type(b) and a == b
    return ctx.eq(a, b, 1e-9)


def clone(d):
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [clone(v) for v in d]
    return d


def document(ctx, recorders=True, components=True):
    size = list(ctx.vec("size", lo=0.01, hi=20))
    mat = {"refractive-index": 1.5}
    use = ctx.choose("uses", [None, [], ["dye"], ["dye", "absorber-1"], ["absorber-1", "dye", "dye"]]) if components else None
    if use is not None:
        mat["components"] = list(use)
    d = {"version": "1.0", "nodes": {
        "world": {"sphere": {"radius": 10.0, "material": {"refractive-index": 1.0, "components": ["absorber-1"]}}},
        "slab": {"location": list(ctx.vec("at")), "box": {"size": size, "material": mat}},
        "ball": {"parent": "slab", "sphere": {"radius": 0.5, "material": clone(mat)}},
        "box-1": {"cylinder": {"length": 1.0, "radius": 1.0, "material": {"refractive-index": 1.5}}},
        "box-3": {"mesh": {"file": "a.stl", "material": clone(mat)}},
        "light-1": {"light": {"wavelength": 555}}}}
    if components and ctx.flag("has components"):
        d["components"] = {"dye": {"absorber": {"coefficient": 2.0}}, "absorber-1": {"scatterer": {"coefficient": 1.0}}}
    r = ctx.choose("recorders", ["absent", "empty", "some"]) if recorders else "absent"
    if r == "empty":
        d["recorders"] = {}
    elif r == "some":
        d["recorders"] = {"slab-escaping-1": {"node": "ball", "event": "entering"}, "mine": {"node": "slab", "event": "escaping", "facet": [0, 0, 1], "atol": 1e-3},
                          "slab-top": {"node": "slab", "event": "lost"}, "slab-east": {"node": "world", "event": "escaping"}, "light-1": {"node": "ball", "event": "escaping"}}
    return d


def studio_for(ctx, scene=None, spec=None):
    st = S.Studio("the text")
    st.scene, st.spec = scene, spec
    return st


def edit(ctx, d, scene=None, **payload):
    """(the edited document or None when the edit raises)"""
    y = Mapping(clone(d))
    ctx.stub(S, "_round_trip_yaml", lambda: y)
    st = studio_for(ctx, scene, d)
    before = (st.document, st.scene, st.spec, clone(d))
    try:
        text = S._patch(st, payload)
    except INTERNAL:
        raise
    except Exception:
        text = None
    ctx.check("the studio itself is not touched", st.document is before[0] and st.scene is before[1] and st.spec is before[2])
    ctx.check("nor its specification", same(ctx, d, before[3]))
    if text is None:
        return None
    ctx.check("the new text", text == "the new text")
    return y.out


def rejected(ctx, got, when=True):
    ctx.check("refused" if when else "accepted", (got is None) == bool(when))
    return got is None


@harness("C20", [P + "_patch"], conc=40, bound="the twelve paths listed")
def edit_set(ctx):
    """set: the entry named, and the mappings above it, and nothing else"""
    d = document(ctx)
    path = ctx.choose("path", [("nodes", "slab", "location"), ("nodes", "slab", "direction"), ("nodes", "ball", "parent"), ("nodes", "world", "sphere", "radius"),
                               ("nodes", "slab", "box", "size"), ("nodes", "light-1", "light", "mask", "position", "cube"), ("components", "dye", "absorber", "coefficient"),
                               ("components", "new", "absorber", "coefficient"), ("recorders", "mine", "event"), ("recorders", "mine", "histograms", "wavelength"), ("version",),
                               ("nodes", "slab", "box", "material", "components")])
    value = ctx.choose("value", ["list", "number", "text", None, True, "nested"])
    value = {"list": list(ctx.vec("v")), "number": ctx.real("w"), "text": "slab", "nested": ["x", [ctx.real("a"), ctx.real("b"), 3]]}.get(value, value)
    want = clone(d)
    t = want
    for k in path[:-1]:
        t = t.setdefault(k, {})
    t[path[-1]] = clone(value)
    got = edit(ctx, d, op="set", path=list(path), value=clone(value))
    if not rejected(ctx, got, False):
        ctx.check("only that entry", same(ctx, got, want))
        ctx.check("order of the nodes", list(got["nodes"]) == list(d["nodes"]))


@harness("C20", [P + "_patch"], params=["flat", "nested", "root", "unknown"], conc=40)
def edit_move(ctx, case):
    """move: the node ends at the given world position; nothing else changes"""
    d = document(ctx, recorders=False, components=False)
    located = ctx.flag("has a location")
    root = Node(name="world")
    # the light keeps its own rotation; the parent is turned and displaced
    slab = Node(name="slab", parent=root)
    ball = Node(name="ball", parent=slab)
    other = Node(name="box-1", parent=root)
    R, t = rot(ctx.quat("r")), ctx.vec("t")
    R2 = rot(ctx.quat("q"))
    slab.pose = shim_mat(ctx, R, t)
    ball.pose = shim_mat(ctx, R2, ctx.vec("u"))
    world = ctx.vec("to")
    name = {"flat": "slab", "nested": "ball", "root": "world", "unknown": "nothing"}[case]
    if not located:
        d["nodes"].get(name, {}).pop("location", None)
    got = edit(ctx, d, scene=Obj(root=root), op="move", node=name, world_position=list(world))
    if case in ("root", "unknown"):
        rejected(ctx, got)
        return
    if rejected(ctx, got, False):
        return
    loc = got["nodes"][name].pop("location", None)
    ok = isinstance(loc, list) and len(loc) == 3
    ctx.check("a location", ok)
    if not ok:
        return
    want = applyT(R, t, world) if case == "nested" else world
    for a, b in zip(loc, want):
        ctx.check("at the world position", ctx.and_(ctx.le(a, b + 0.6e-6, 1e-9), ctx.le(b - 0.6e-6, a, 1e-9)))
    d["nodes"][name].pop("location", None)
    ctx.check("nothing else", same(ctx, got, d))


@harness("C20", [P + "_patch", P + "_unique_name"], params=["node", "recorder", "component"], conc=40)
def edit_add(ctx, what):
    """additions: one new entry of its own name; nothing else"""
    d = document(ctx)
    if what == "node":
        kind = ctx.choose("kind", ["box", "sphere", "cylinder", "light", "mesh", "", "world"])
        good, section, payload = kind in ("box", "sphere", "cylinder", "light"), "nodes", dict(op="add-node", kind=kind)
    elif what == "recorder":
        node = ctx.choose("node", ["slab", "ball", "world", "nothing"])
        good, section, payload = node in d["nodes"], "recorders", dict(op="add-recorder", node=node)
    else:
        good, section, payload = True, "components", dict(op="add-component")
    got = edit(ctx, d, **payload)
    if rejected(ctx, got, not good):
        return
    old = d.get(section, {})
    new = [k for k in got[section] if k not in old]
    ctx.check("one new entry", len(new) == 1 and len(got[section]) == len(old) + 1)
    if len(new) != 1:
        return
    e = got[section].pop(new[0])
    if section not in d:
        d[section] = {}
    ctx.check("nothing else", same(ctx, got, d))
    if what == "node":
        ctx.check("of its kind", kind in e and not any(k in e for k in ("box", "sphere", "cylinder", "light", "mesh") if k != kind) and e.get("parent") is None)
        ctx.check("the template is kept", e is not S.SNIPPETS[kind] if hasattr(S, "SNIPPETS") else True)
    elif what == "recorder":
        ctx.check("of its node", e["node"] == node)
    else:
        ctx.check("a component", set(e) <= {"absorber", "scatterer", "luminophore"} and len(e) == 1)


class Asked:
    """an arbitrary set of names: membership is any answer"""

    def __init__(self, ctx):
        self.ctx, self.log = ctx, []

    def __contains__(self, k):
        r = bool(self.ctx.sbool(f"taken {len(self.log)}"))
        self.log.append((k, r))
        return r


class Index:
    """an arbitrary number, known by its digits only"""

    def __init__(self, s="K"):
        self.s = s

    def __format__(self, f):
        return self.s

    __str__ = lambda self: self.s

    def __add__(self, k):
        return Index(f"{self.s}+{k}")

    __radd__ = __iadd__ = __add__


@harness("C20", [P + "_unique_name"])
def unique_name(ctx):
    """for any set of names and any number tried: the name returned was asked about and is free"""
    if ctx.conc:
        n = ctx.int("taken", lo=0, hi=30, small=30)
        taken = {f"box-{i + 1}": None for i in range(n)}
        for i in range(n):
            if ctx.flag(f"free {i}"):
                taken.pop(f"box-{i + 1}")
        name = S._unique_name(taken, "box")
        ctx.check("free", name not in taken and name.startswith("box"))
        return
    L = Loop(S._unique_name)
    s = Asked(ctx)
    _, env, ret = L.prefix(s, "box")
    if env is None or L.is_for or any(type(v) in (list, dict, set) for v in env.values()):
        raise Unsupported("names chosen another way")
    for k in list(env):
        if isinstance(env[k], int):
            env[k] = Index()
    if not L.test(env):
        _, _, r = L.suffix(env)
        ctx.check("free", bool(s.log) and r is not None and s.log[-1] == (r[0], False))
        ctx.cover("free")
    else:
        _, after, r = L.body(env)
        ctx.check("goes on or returns a free name", r is None or s.log[-1] == (r[0], False))
        ctx.cover("taken")


@harness("C20", [P + "_patch"], params=["slab", "ball", "world", "nothing"], conc=40)
def edit_faces(ctx, node):
    """face recorders: one per face of the box, over the whole face; existing ones are kept"""
    d = document(ctx, components=False)
    got = edit(ctx, d, op="add-face-recorders", node=node)
    if rejected(ctx, got, node != "slab"):
        return
    old = d.get("recorders", {})
    rec = got.pop("recorders")
    for k in old:
        ctx.check("existing recorders are kept", k in rec and same(ctx, rec[k], old[k]))
    new = {k: v for k, v in rec.items() if k not in old}
    ctx.check("no more than the faces", len(new) == 6 - len([k for k in ("slab-top", "slab-east") if k in old]))
    half = [0.5 * v for v in d["nodes"]["slab"]["box"]["size"]]
    seen = set()
    for v in new.values():
        f = tuple(int(x) for x in v["facet"])
        ctx.check("a face", sorted(map(abs, f)) == [0, 0, 1] and f not in seen)
        seen.add(f)
        k = [i for i in range(3) if f[i]][0]
        ctx.check("of the node", v["node"] == node and v["event"] == "escaping")
        a, b, ra, rb = v["histograms"]["position"]
        ctx.check("over the face", {a, b} == set("xyz") - {"xyz"[k]})
        for ax, (lo, hi, bins) in ((a, ra), (b, rb)):
            h = half["xyz".index(ax)]
            ctx.check("the whole face", ctx.and_(ctx.eq(lo, -h, 1e-9), ctx.eq(hi, h, 1e-9)))
            ctx.check("some bins", ctx.le(1, bins))
    d.pop("recorders", None)
    ctx.check("nothing else", same(ctx, got, d))


GEOMS = ("box", "sphere", "cylinder", "mesh")


@harness("C20", [P + "_patch"], conc=40, bound="documents of six nodes")
def edit_delete_component(ctx):
    """delete-component: the component and every reference to it"""
    d = document(ctx)
    name = ctx.choose("name", ["dye", "absorber-1", "nothing"])
    got = edit(ctx, d, op="delete-component", component=name)
    if rejected(ctx, got, name not in d.get("components", {})):
        return
    want = clone(d)
    del want["components"][name]
    for v in want["nodes"].values():
        for g in GEOMS:
            m = v.get(g, {}).get("material", {})
            if name in m.get("components", []):
                m["components"] = [c for c in m["components"] if c != name]
    ctx.check("the component and its references only", same(ctx, got, want))


@harness("C20", [P + "_patch"], conc=40, bound="documents of six nodes and up to five recorders")
def edit_delete_node(ctx):
    """delete-node: the node and its recorders"""
    d = document(ctx)
    name = ctx.choose("name", ["slab", "ball", "light-1", "box-1", "nothing"])
    got = edit(ctx, d, op="delete-node", node=name)
    if rejected(ctx, got, name not in d["nodes"]):
        return
    want = clone(d)
    del want["nodes"][name]
    if "recorders" in want:
        want["recorders"] = {k: v for k, v in want["recorders"].items() if v["node"] != name}
    elif "recorders" in got:
        ctx.check("no recorders appear", not got.pop("recorders"))
    ctx.check("the node and its recorders only", same(ctx, got, want))


@harness("C20", [P + "_patch"], conc=40, bound="documents of up to five recorders")
def edit_delete_recorder(ctx):
    """delete-recorder: that recorder"""
    d = document(ctx)
    name = ctx.choose("name", ["mine", "slab-top", "light-1", "slab-bottom"])
    got = edit(ctx, d, op="delete-recorder", recorder=name)
    if rejected(ctx, got, name not in d.get("recorders", {})):
        return
    want = clone(d)
    del want["recorders"][name]
    ctx.check("that recorder only", same(ctx, got, want))


@harness("C20", [P + "_patch", P + "_recorder_to_spec"], params=["explicit", "automatic", "unknown"], conc=40)
def edit_update_recorder(ctx, case):
    """update-recorder: the keys given; an automatic recorder enters the document as it is first"""
    from pvtrace.engine.recorder import Recorder, Heatmap, Histogram
    d = document(ctx, components=False)
    root = Node(name="world")
    slab = Node(name="slab", parent=root)
    lo, w = ctx.real("lo"), ctx.pos("w")
    facet = ctx.choose("facet", [None, (0.0, 0.0, 1.0)])
    hists = ctx.choose("histograms", ["none", "plain", "both"])
    hs = {"none": [], "plain": [Histogram("wavelength", lo, lo + w, 12)],
          "both": [Histogram("wavelength", lo, lo + w, 12), Heatmap("x", "z", (lo, lo + w, 5), (0.0, 1.0, 7))]}[hists]
    auto = Recorder("slab-south", "escaping", facet=facet, histograms=hs)
    slab.recorders = [Recorder("slab-west", "lost"), auto]
    name = {"explicit": "mine", "automatic": "slab-south", "unknown": "nothing"}[case]
    changes = ctx.choose("changes", [(), ("event",), ("facet", "atol"), ("atol", "event"), ("node",), ("event", "histograms")])
    values = {"event": "entering", "facet": [0, 1, 0], "atol": ctx.pos("atol"), "node": "ball", "histograms": {}}
    got = edit(ctx, d, scene=Obj(root=root), op="update-recorder", recorder=name, changes={k: clone(values[k]) for k in changes})
    there = name in d.get("recorders", {})
    bad = any(k not in ("event", "facet", "atol") for k in changes)
    if rejected(ctx, got, bad or not (there or case == "automatic")):
        return
    want = clone(d)
    rec = want.setdefault("recorders", {})
    if not there:
        rec[name] = {"node": "slab", "event": "escaping", "histograms": {}}
        if facet is not None:
            rec[name]["facet"] = list(facet)
        if hists != "none":
            rec[name]["histograms"]["wavelength"] = [lo, lo + w, 12]
        if hists == "both":
            rec[name]["histograms"]["position"] = ["x", "z", [lo, lo + w, 5], [0.0, 1.0, 7]]
    for k in changes:
        rec[name][k] = clone(values[k])
    ctx.check("those keys only", same(ctx, got, want))


@harness("C20", [P + "_patch"], conc=10)
def edit_unknown(ctx):
    """an operation not known is refused"""
    d = document(ctx)
    op = ctx.choose("op", ["", "rename", "Move", "delete", None])
    rejected(ctx, edit(ctx, d, op=op, node="slab", name="slab", world_position=[0, 0, 0]))


# ------------------------------------------------------------------ apply

class Failure(Exception):
    pass


class Compiled:
    """a compiled scene of the nodes named; reading one of its fields may fail"""

    def __init__(self, fail):
        self._fail = fail
        self.node_names = ["world"]
        self.root_id = 0
        self.geom_type = np.array([1])
        self.geom_params = np.zeros((1, 4))
        self.local_to_world = np.eye(4)[None]
        self.refractive_index = np.ones(1)

    def __getattribute__(self, k):
        if not k.startswith("_") and object.__getattribute__(self, "_fail") == k:
            raise Failure(k)
        return object.__getattribute__(self, k)


STAGES = [None, "parse", "compile", "node_names", "geom_type", "geom_params", "local_to_world", "refractive_index", "payload", "unlink"]
TEXTS = ["version: '1.0'\nnodes: {world: {sphere: {radius: 1.0, material: {refractive-index: 1.0}}}}\n", "a: [1, 2", "- 1\n- 2\n", "", "just text", "a: .nan\n", "a: .inf\n",
         "a: &a [*a]\n", "a: !!python/object/apply:os.getcwd []\n", 'a: "\\ud800"\n']
GOOD = 1


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@harness("C20", [P + "Studio.apply", P + "Studio.scene_payload"], params=["first", "later"], conc=30)
def apply(ctx, when):
    """a document is taken over entirely or, when any step fails, not at all"""
    stage = ctx.choose("fails at", STAGES)
    text = ctx.choose("text", TEXTS)
    st = S.Studio("the open text")
    if when == "later":
        st.scene, st.spec = object(), {"open": 1}
    before = (st.document, st.scene, st.spec)
    scene = Obj(root=Node(name="world"))
    calls = []

    def parse(path):
        calls.append(open(path).read())
        if stage == "parse":
            raise Failure(stage)
        return scene

    def compile_scene(s, *a, **k):
        if stage == "compile" or s is not scene:
            raise Failure("compile")
        return Compiled(stage)
    ctx.stub(S, "parse_scene_file", parse)
    ctx.stub(S.engine, "compile_scene", compile_scene)
    if stage == "payload":
        def fail(*a, **k):
            raise Failure(stage)
        ctx.stub(S.Studio, "scene_payload", fail)
    if stage == "unlink":
        def fail(*a, **k):
            raise OSError(stage)
        ctx.stub(os, "unlink", fail)
    with scratch():
        try:
            got = st.apply(text)
        except INTERNAL:
            raise
        except Exception:
            ctx.check("rejected: the document is kept", st.document == before[0])
            ctx.check("rejected: the scene is kept", st.scene is before[1])
            ctx.check("rejected: the specification is kept", st.spec is before[2])
            ctx.check("only with a reason", stage is not None or text is not TEXTS[0])
            ctx.cover("rejected")
            return
    ctx.check("accepted: the document", st.document == text)
    ctx.check("accepted: the scene of that document", st.scene is scene and calls == [text])
    import yaml
    ctx.check("accepted: its specification", same(ctx, st.spec, yaml.safe_load(text)))
    ctx.check("the answer shows it", isinstance(got, dict) and same(ctx, got.get("spec"), st.spec))
    from starlette.responses import JSONResponse
    try:
        JSONResponse(got)
        ok = True
    except (ValueError, TypeError, RecursionError):
        ok = False
    ctx.check("and can be sent", ok)
    ctx.cover("accepted")


# ------------------------------------------------------------------ through HTTP, executed

class Client:
    """the app's routes, called as a browser would, without threads"""

    def __init__(self, ctx, path):
        self.studio = None
        me = self
        real = S.Studio

        class Watched(real):
            def __init__(self, *a, **k):
                real.__init__(self, *a, **k)
                me.studio = self
        ctx.stub(S, "Studio", Watched)
        import httpx
        with contextlib.redirect_stdout(io.StringIO()):
            self.app = S.create_app(path)
        self.transport = httpx.ASGITransport(app=self.app, raise_app_exceptions=False)
        self.httpx = httpx

    def __call__(self, method, url, body=None):
        async def go():
            async with self.httpx.AsyncClient(transport=self.transport, base_url="http://studio") as c:
                return await c.request(method, url, json=body)
        logging.disable(logging.CRITICAL)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return asyncio.run(go())
        finally:
            logging.disable(logging.NOTSET)


def world_positions(scene):
    out = {}

    def walk(n):
        out[n.name] = np.asarray(n.point_to_node((0.0, 0.0, 0.0), scene.root))
        for c in n.children:
            walk(c)
    walk(scene.root)
    return out


def odd_numbers(rng, text):
    """the same document with some numbers spelled another way, and comments"""
    import re
    spell = {"1": ["1", "+1", "0x1", "1"], "0.5": [".5", "0.50", "5.0e-1", "0.5"], "2.25": ["2.25", "+2.25", "2.2500"], "1.5": ["1.5", "15.0e-1", "1.5"], "-2.5": ["-2.5", "-2.50"]}
    out = []
    for line in text.split("\n"):
        m = re.match(r"^(\s*(?:- )?(?:[a-z-]+: )?)(-?[0-9.]+)$", line)
        if m and m.group(2) in spell and "version" not in line:
            line = m.group(1) + rng.choice(spell[m.group(2)])
        if line and rng.random() < 0.2 and not line.endswith("|"):
            line += "  # note"
        out.append(line)
        if rng.random() < 0.1:
            out.append("# a line")
    return "\n".join(out) + "\n"


def predicted(spec, scene, op, tmpl):
    """what the edit says the specification becomes: a dictionary, None (refused) or a predicate"""
    w = copy.deepcopy(spec)
    k = op["op"]
    if k == "set":
        t = w
        for x in op["path"][:-1]:
            t = t.setdefault(x, {})
        t[op["path"][-1]] = op["value"]
        return w
    if k == "move":
        return None if op["node"] == "world" or op["node"] not in w["nodes"] else ("moved", w)
    if k == "add-node":
        return ("added", "nodes") if op["kind"] in tmpl else None
    if k == "add-recorder":
        return ("added", "recorders") if op["node"] in w["nodes"] else None
    if k == "add-component":
        return ("added", "components")
    if k == "delete-component":
        if op["component"] not in w.get("components", {}):
            return None
        del w["components"][op["component"]]
        for v in w["nodes"].values():
            for g in GEOMS:
                m = v.get(g, {}).get("material", {})
                if op["component"] in m.get("components", []):
                    m["components"] = [c for c in m["components"] if c != op["component"]]
        return w
    if k == "delete-node":
        if op["node"] not in w["nodes"]:
            return None
        del w["nodes"][op["node"]]
        if "recorders" in w:
            w["recorders"] = {a: b for a, b in w["recorders"].items() if b["node"] != op["node"]}
        return w
    if k == "delete-recorder":
        if op["recorder"] not in w.get("recorders", {}):
            return None
        del w["recorders"][op["recorder"]]
        return w
    return None


def random_edit(rng, spec):
    nodes, comps, recs = list(spec["nodes"]), list(spec.get("components", {})), list(spec.get("recorders", {}))
    any_of = lambda l: rng.choice(l + ["nothing"])
    pos = [rng.choice([0, 1, -0.5, 1e-7, 123456.5, rng.uniform(-3, 3)]) for _ in range(3)]
    n = any_of(nodes)
    return rng.choice([
        lambda: dict(op="move", node=n, world_position=pos), lambda: dict(op="move", node=n, world_position=pos),
        lambda: dict(op="set", path=["nodes", n, "location"], value=pos),
        lambda: dict(op="set", path=["nodes", n, "direction"], value=rng.choice([[0, 0, 1], [1, 2, -2.5], [0, 0, 0], "up"])),
        lambda: dict(op="set", path=["nodes", n, "parent"], value=rng.choice(nodes + [None, "nothing", n])),
        lambda: dict(op="set", path=["nodes", n, rng.choice(["box", "sphere"]), "material", "refractive-index"], value=rng.choice([1, 1.25, "x", -1])),
        lambda: dict(op="set", path=["nodes", n, "record"], value=rng.choice([True, False, 3])),
        lambda: dict(op="set", path=rng.choice([["nodes"], ["version"], [], ["nodes", "world"]]), value=rng.choice([None, "2.0", {}])),
        lambda: dict(op="add-node", kind=rng.choice(["box", "sphere", "cylinder", "light", "cone"])),
        lambda: dict(op="add-recorder", node=n), lambda: dict(op="add-recorder", node=n),
        lambda: dict(op="add-component"),
        lambda: dict(op="delete-component", component=any_of(comps)),
        lambda: dict(op="delete-node", node=n),
        lambda: dict(op="delete-recorder", recorder=any_of(recs)),
        lambda: dict(op="nonsense"), lambda: {}])()


@harness("C20", [P + "create_app", P + "Studio.apply", P + "_patch"], conc=12, executed=True, bound="random histories of ten requests on random documents", note="real text, schema, parser and compiler")
def histories(ctx):
    """random documents and edits over HTTP: refused ones change nothing, accepted ones what they say"""
    if ctx.sym:
        raise Unsupported("executed only")
    import yaml
    rng = random.Random(ctx.int("seed", lo=0, hi=10 ** 6, small=10 ** 6))
    with scratch() as d:
        good = odd_numbers(rng, yaml.safe_dump(random_document(rng, d)[0], sort_keys=False))
        path = os.path.join(d, "scene.yml")
        open(path, "w").write(good)
        c = Client(ctx, path)
        st = c.studio
        ctx.check("the document opened", st.document == good)
        for _ in range(10):
            before = (st.document, st.scene, st.spec, copy.deepcopy(st.spec), None if st.scene is None else world_positions(st.scene))
            files = sorted(os.listdir(d))
            if before[1] is None or rng.random() < 0.25:
                text = odd_numbers(rng, yaml.safe_dump(random_document(rng, d)[0], sort_keys=False))
                files = sorted(os.listdir(d))
                how = rng.choice(["good", "good", "nan", "broken", "schema", "parent", "extra"])
                if how == "nan":
                    text += "extra: .nan\n"
                elif how == "broken":
                    text += "a: [1\n"
                elif how == "schema":
                    text = text.replace("version", "vision")
                elif how == "parent":
                    text = text.replace("nodes:", "nodes:\n  orphan: {parent: nobody, light: {}}\n", 1)
                elif how == "extra":
                    text += "extra: 2020-01-01\n"
                r = c("PUT", "/api/document", {"text": text})
                want = {"good": True, "extra": True}.get(how, False)
                # documents the engine does not take are refused as well
                ctx.check("bad documents are refused", want or r.status_code != 200)
                if r.status_code == 200:
                    ctx.check("the document is the new one", st.document == text)
                    ctx.check("the specification is the new one", st.spec == yaml.safe_load(text))
                    ctx.check("the answer shows it", {n["name"] for n in r.json()["scene"]["nodes"]} <= set(st.spec["nodes"]))
            else:
                op = random_edit(rng, st.spec)
                want = predicted(st.spec, st.scene, op, S.SNIPPETS) if op and op != {"op": "nonsense"} and op.get("path") != [] else None
                r = c("POST", "/api/patch", op)
                if want is None:
                    ctx.check("refused", r.status_code != 200)
                if r.status_code == 200:
                    ctx.check("answered with the new text", r.json()["text"] == st.document)
                    ctx.check("the specification is that of the text", st.spec == yaml.safe_load(st.document))
                    if isinstance(want, dict):
                        a, b = dict(want), dict(st.spec)
                        for x in (a, b):
                            if not x.get("recorders", 1):
                                del x["recorders"]
                        ctx.check("changed what it says", a == b)
                    elif want and want[0] == "moved":
                        a, b = copy.deepcopy(before[3]), copy.deepcopy(st.spec)
                        a["nodes"][op["node"]].pop("location", None)
                        b["nodes"][op["node"]].pop("location", None)
                        ctx.check("moved only", a == b)
                        ctx.check("to the place given", np.allclose(world_positions(st.scene)[op["node"]], op["world_position"], atol=2e-6, rtol=1e-9))
                    elif want:
                        a, b = copy.deepcopy(before[3]), copy.deepcopy(st.spec)
                        a, b = a, b
                        old, new = a.pop(want[1], {}), b.pop(want[1], {})
                        ctx.check("added only", a == b and len(new) == len(old) + 1 and all(new.get(k) == v for k, v in old.items()))
            ctx.check("no files are left behind", sorted(os.listdir(d)) == files)
            if r.status_code != 200:
                ctx.check("the document is unchanged", st.document == before[0])
                ctx.check("the scene is unchanged", st.scene is before[1] and (before[4] is None or {k: v.tolist() for k, v in world_positions(st.scene).items()} == {k: v.tolist() for k, v in before[4].items()}))
                ctx.check("the specification is unchanged", st.spec is before[2] and st.spec == before[3])
            else:
                names = set(world_positions(st.scene))
                ctx.check("the scene is that of the specification", names == set(st.spec["nodes"]) and all(
                    np.allclose(n.location, st.spec["nodes"][n.name].get("location", (0, 0, 0)), rtol=0, atol=1e-12) for n in [st.scene.root] + list(st.scene.root.descendants)))
            ctx.check("the document served", c("GET", "/api/document").json()["text"] == st.document)
            ctx.check("the file is not written", open(path).read() == good)
        r = c("POST", "/api/save")
        ctx.check("saving writes the open document", r.status_code == 200 and open(path).read() == st.document and sorted(os.listdir(d)) == files)


def snapshot(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, top)] = open(p).read()
    return out


STEMS = ["dye", "", ".", "..", "a.b", "dye.csv", "scene", "~", "a b", "x\\y"]
ENDS = [".csv", ".txt", ".CSV", ".Txt", ".yml", ".py", "", ".csv.yml", ".csv/", ".txt ", ".csvx", "csv"]
FOLDERS = ["", "../", "../../", "sub/", "/", "./", "none/", "../sub/../", "//"]


@harness("C20", [P + "create_app"], params=["opened", "no file"], conc=60, executed=True, bound="names built from the listed folders, stems and endings")
def uploads(ctx, case):
    """an upload is written beside the document, under its base name, with an allowed ending, or not at all"""
    if ctx.sym:
        raise Unsupported("executed only")
    with scratch() as d:
        home = os.path.join(d, "a", "b", "c")
        os.makedirs(os.path.join(home, "sub"))
        os.makedirs(os.path.join(d, "a", "sub"))
        path = os.path.join(home, "scene.yml")
        open(path, "w").write("version: '1.0'\nnodes: {world: {sphere: {radius: 1.0, material: {refractive-index: 1.0}}}}\n")
        os.chdir(os.path.join(d, "a"))
        c = Client(ctx, path if case == "opened" else None)
        for _ in range(4):
            folder = ctx.choose("folder", FOLDERS)
            if folder == "/":
                folder = os.path.join(d, ctx.choose("root", ["", "a/", "a/b/c/sub/"]))
            name = folder + ctx.choose("stem", STEMS) + ctx.choose("ending", ENDS)
            content = ctx.choose("content", ["1,2,3\n", "", "other"])
            before = snapshot(d)
            kept = (c.studio.document, c.studio.scene, c.studio.spec)
            r = c("POST", "/api/upload", {"name": name, "content": content})
            after = snapshot(d)
            base = os.path.basename(name)
            allowed = case == "opened" and base.lower().endswith((".csv", ".txt"))
            if allowed:
                ctx.check("accepted", r.status_code == 200 and r.json() == {"saved": base})
                before[os.path.join("a", "b", "c", base)] = content
            else:
                ctx.check("refused", r.status_code != 200)
            ctx.check("written beside the document under its base name, or not at all", after == before)
            ctx.check("the open document is kept", c.studio.document == kept[0] and c.studio.scene is kept[1] and c.studio.spec is kept[2])
