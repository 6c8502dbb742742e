"""C17 database queries: the text each function builds is parsed and given its SQL meaning
over one arbitrary (ray, event) pair; it must select exactly the pairs described."""
import contextlib
import io
import json
import os
import sqlite3
import tempfile

from vf import sql
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
import pvtrace.cli.db as db
import pvtrace.cli.count as c_count
import pvtrace.cli.spectrum as c_spectrum
import pvtrace.cli.time as c_time

D = "pvtrace.cli.db."
meta("C17", assumptions=["names are text, normals and tolerances finite numbers (SQLite compares them as reals)",
                         "the columns have the types of pvtrace/data/schema.sql, which is read on every run"],
     trusted=["the SQL semantics in vf/sql.py (three-valued conditions over one row pair, DISTINCT, COUNT), cross-checked against sqlite3 on random databases on every run",
              "sqlite3 executes the text with each placeholder bound in order"])

SCHEMA = os.path.join(os.path.dirname(db.__file__), "..", "data", "schema.sql")
BOUNDARY = {"reflected_from": ("REFLECT", "adjacent"), "entering_into": ("TRANSMIT", "adjacent"), "escaping_from": ("TRANSMIT", "container")}
VOLUME = {"nonradiative_loss_in": "NONRADIATIVE", "reacted_in": "REACT", "killed_in": "KILL"}
QUANT = {"count": None, "spectrum": "wavelength", "time": "duration"}
FUNCS = [(q, w) for q in QUANT for w in list(BOUNDARY) + list(VOLUME)]
NAMES = ["a", "b", "a'; DROP TABLE ray; --", 'a"b', "", " a", "a ", "A", "REFLECT", "?", "throw_id", "%", "a' OR '1'='1", "1", "é", "NULL"]


class Name(str):
    """any non-empty name: only passed on, never looked into"""

    def _no(self, *a, **k):
        raise Unsupported("a query that looks into a name")

    def __bool__(self):
        return True

    __hash__ = str.__hash__

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, str) and str.__eq__(o, ""):
            return False
        if not isinstance(o, str):
            return False
        self._no()

    def __ne__(self, o):
        return not self.__eq__(o)


for _m in dir(str):
    if callable(getattr(str, _m)) and (not _m.startswith("__") or _m in ("__add__", "__getitem__", "__contains__", "__mod__", "__mul__", "__lt__", "__le__", "__gt__", "__ge__", "__iter__", "__len__")):
        setattr(Name, _m, Name._no)

MARK = {"node": "\u00a7node' --", "facet": "\u00a7facet' --", "source": "\u00a7source' --"}


def columns():
    """table -> {column: kind} of the schema"""
    con = sqlite3.connect(":memory:")
    con.executescript(open(SCHEMA).read())
    out = {}
    for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
        out[t] = {}
        for r in con.execute(f"PRAGMA table_info({t})").fetchall():
            k = r[2].upper()
            out[t][r[1].lower()] = ("text" if "TEXT" in k else "int" if "INT" in k or not k else "real", bool(r[3]))
    con.close()
    return out


def function(q, w):
    return getattr(db, f"sql_{q}_{w}_node")


def combo(ctx, w):
    """which filters are given: -> keyword arguments, and the spec's filters"""
    def text(name):
        k = ctx.choose(name + " filter", ["omitted", "empty", "name"])
        if k == "omitted":
            return None
        if k == "empty":
            return ""
        return Name(MARK[name]) if ctx.sym else ctx.choose(name, [n for n in NAMES if n])
    kw, spec = {}, {}
    node = Name(MARK["node"]) if ctx.sym else ctx.choose("node", NAMES)
    if w in BOUNDARY:
        for n, col in (("nx", "ni"), ("ny", "nj"), ("nz", "nk")):
            if ctx.flag(n + " given"):
                kw[n] = ctx.real(n, special=(0.0, 1.0, -1.0, 0.5))
                spec[col] = kw[n]
        f = text("facet")
        if f is not None:
            kw["facet"] = spec["facet"] = f
        if ctx.flag("tolerance given"):
            kw["atol"] = ctx.real("atol", lo=0, hi=2, special=(0.0, 0.5, 1e-6))
    s = text("source")
    if s is not None:
        kw["source"] = spec["source"] = s
    return node, kw, spec


def build(ctx, q, w, node, kw):
    r = function(q, w)(node, **kw)
    ctx.check("a text and its values", isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str))
    return r


def rows(ctx, cols):
    out = {}
    for t, cs in cols.items():
        out[t] = {}
        for c, (kind, notnull) in cs.items():
            null = False if notnull else ctx.sbool(f"{t}.{c} null")
            val = ctx.int(f"{t}.{c}") if kind in ("int", "text") else ctx.real(f"{t}.{c}")
            out[t][c] = sql.V(kind, null, val)
    out["ray"]["rowid"] = sql.V("int", False, ctx.int("ray.rowid"))
    out["event"]["rowid"] = sql.V("int", False, ctx.int("event.rowid"))
    return out


def query(ctx, q, w):
    node, kw, spec = combo(ctx, w)
    text, params = build(ctx, q, w, node, kw)
    if not ctx.sym:
        return concrete(ctx, q, w, node, kw, spec, text, params)
    ctx.check("no name enters the text of the query", not any(m[:3] in text for m in MARK.values()))
    if any(m[:3] in text for m in MARK.values()):
        return
    ids = {}
    texts = {}

    def value(x):
        if isinstance(x, str):
            raw = str.__str__(x)
            for n, m in MARK.items():
                if raw == m:
                    if n not in ids:
                        ids[n] = ctx.int("id of " + n)
                        # not the empty text
                        ctx.assume(ctx.not_(ctx.eq(ids[n], 0)))
                    return sql.V("text", False, ids[n])
            return sql.V("text", False, texts.setdefault(raw, len(texts) if raw else 0))
        if x is None:
            return sql.V("null", True, 0)
        return sql.V("real", False, x)
    texts[""] = 0
    T = rows(ctx, columns())
    r = sql.meaning(ctx, text, params, T, value)
    ray, ev = T["ray"], T["event"]

    def same(v, x):
        x = value(x)
        return ctx.and_(ctx.not_(v.null), ctx.eq(v.val, x.val))
    kind, side = BOUNDARY[w] if w in BOUNDARY else (VOLUME[w], None)
    want = [ctx.eq(ray["rowid"].val, ev["ray_id"].val), same(ev["kind"], kind)]
    if side:
        want += [same(ev["hit"], node), same(ev[side], node)]
    else:
        want.append(same(ev["container"], node))
    atol = kw.get("atol", 1e-6)
    for c, x in spec.items():
        if c in ("ni", "nj", "nk"):
            v = ev[c]
            want.append(ctx.and_(ctx.not_(v.null), ctx.le(x - v.val, atol), ctx.le(v.val - x, atol)))
        else:
            want.append(same(ev[c] if c == "facet" else ray[c], x))
    ctx.check("selects exactly the events described", ctx.iff(r.present, ctx.and_(*want)))
    if QUANT[q] is None:
        ctx.check("counts distinct throws", r.distinct == "count distinct throw_id")
    else:
        ctx.check("lists each throw with its quantity", r.distinct is True and list(r.cols) == ["throw_id", QUANT[q]])
    ctx.cover("decided")


def database(rng_choice, n=14, path=":memory:"):
    """random rows over few values -> connection and the rows"""
    con = sqlite3.connect(path)
    con.executescript(open(SCHEMA).read())
    data = []
    for k in range(n):
        t = rng_choice("throw", list(range(4)))
        wl = rng_choice("wavelength", [400.0, 500.5, None])
        src = rng_choice("src", NAMES[:4] + ["", None])
        dur = rng_choice("duration", [0.0, 1.5])
        cur = con.cursor()
        cur.execute("INSERT INTO ray VALUES (?,?,?,?,?,?,?,?,?,?,?)", (t, 0., 0., 0., 0., 0., 1., wl, src, 0., dur))
        rid = cur.lastrowid
        for _ in range(rng_choice("events", [1, 1, 1, 0, 2])):
            e = dict(kind=rng_choice("kind", ["REFLECT", "TRANSMIT", "NONRADIATIVE", "REACT", "KILL", "EXIT"]),
                     hit=rng_choice("hit", NAMES[:4] + [None]), container=rng_choice("container", NAMES[:4] + [None]),
                     adjacent=rng_choice("adjacent", NAMES[:4] + [None]), facet=rng_choice("fct", NAMES[:3] + ["", None]))
            for c in ("ni", "nj", "nk"):
                e[c] = rng_choice(c, [0.0, 1.0, -1.0, 0.5, 1e-7, None])
            cur.execute("INSERT INTO event VALUES (?,?,?,?,?,?,?,?,?,?)", (rid, e["kind"], "c", e["hit"], e["container"], e["adjacent"], e["facet"], e["ni"], e["nj"], e["nk"]))
            data.append(dict(e, throw_id=t, wavelength=wl, source=src, duration=dur))
    con.commit()
    return con, data


def oracle(data, q, w, node, spec, atol):
    kind, side = BOUNDARY[w] if w in BOUNDARY else (VOLUME[w], None)
    out = set()
    for e in data:
        ok = e["kind"] == kind and (e["hit"] == node and e[side] == node if side else e["container"] == node)
        for c, x in spec.items():
            if c in ("ni", "nj", "nk"):
                ok = ok and e[c] is not None and abs(x - e[c]) <= atol
            else:
                ok = ok and e[c] == x
        if ok:
            out.add((e["throw_id"],) if QUANT[q] is None else (e["throw_id"], e[QUANT[q]]))
    return out


def concrete(ctx, q, w, node, kw, spec, text, params):
    kind, side = BOUNDARY[w] if w in BOUNDARY else (VOLUME[w], None)

    def choice(name, options):
        aim = {"kind": kind, "hit": node, "container": node if side in (None, "container") else None, "adjacent": node if side == "adjacent" else None,
               "src": spec.get("source"), "fct": spec.get("facet"), "ni": spec.get("ni"), "nj": spec.get("nj"), "nk": spec.get("nk")}.get(name)
        if aim is not None and ctx.rng.random() < 0.85:
            return aim
        return ctx.rng.choice(options)
    seed = ctx.int("database", lo=0, hi=10 ** 6, small=10 ** 6)
    keep, ctx.rng = ctx.rng, __import__("random").Random(seed)
    try:
        con, data = database(choice)
    finally:
        ctx.rng = keep
    before = con.total_changes
    try:
        got = con.execute(text, params).fetchall()
        ctx.check("the query runs", True)
    except Exception as e:
        ctx.check("the query runs", False)
        return
    want = oracle(data, q, w, node, spec, kw.get("atol", 1e-6))
    if QUANT[q] is None:
        ctx.check("counts distinct throws", len(got) == 1 and got[0][0] == len(want))
    else:
        ctx.check("lists each throw with its quantity", len(got) == len(want) and set(got) == want)
    ctx.check("selects exactly the events described", (len(want) == got[0][0]) if QUANT[q] is None else set(got) == want)
    ctx.check("no name enters the text of the query", con.total_changes == before)
    ctx.cover("selected something" if want else "nothing selected")


@harness("C17", [D + f"sql_{q}_{w}_node" for q, w in FUNCS] + [D + "_boundary_query", D + "_volume_query", D + "_normal_clauses"], params=FUNCS, conc=150,
         note="all filter combinations, all rows and values")
def queries(ctx, fn):
    """the query selects exactly the events described, once per throw, with every value bound"""
    query(ctx, *fn)


COMMANDS = {"reflected_from": "reflected", "entering_into": "entering", "escaping_from": "escaping", "nonradiative_loss_in": "lost", "reacted_in": "reacted", "killed_in": "killed"}


@harness("C17", ["pvtrace.cli." + m + "." + c for m in ("count", "spectrum", "time") for c in COMMANDS.values()] + ["pvtrace.cli.spectrum.handle_output", "pvtrace.cli.time.handle_output"],
         params=FUNCS, conc=25, executed=True, bound="random databases of 14 rays; outputs csv and json, plots only for not failing", note="the commands print what the queries select")
def commands(ctx, fn):
    """each command runs its own query with every option passed on, and prints its result"""
    q, w = fn
    if ctx.sym:
        raise Unsupported("command line")
    node, kw, spec = combo(ctx, w)
    kind, side = BOUNDARY[w] if w in BOUNDARY else (VOLUME[w], None)

    def choice(name, options):
        aim = {"kind": kind, "hit": node, "container": node if side in (None, "container") else None, "adjacent": node if side == "adjacent" else None,
               "src": spec.get("source"), "fct": spec.get("facet"), "ni": spec.get("ni"), "nj": spec.get("nj"), "nk": spec.get("nk")}.get(name)
        if name == "wavelength":
            return ctx.rng.choice([400.0, 500.5, 612.25])
        if aim is not None and ctx.rng.random() < 0.85:
            return aim
        return ctx.rng.choice(options)
    import random
    seed = ctx.int("database", lo=0, hi=10 ** 6, small=10 ** 6)
    output = ctx.choose("output", ["csv", "csv", "json", "plot"]) if q != "count" else None
    keep, ctx.rng = ctx.rng, random.Random(seed)
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "s.sqlite3")
        con, data = database(choice, path=path)
        con.close()
        ctx.rng = keep
        want = oracle(data, q, w, node, spec, kw.get("atol", 1e-6))
        cmd = getattr({"count": c_count, "spectrum": c_spectrum, "time": c_time}[q], COMMANDS[w])
        import inspect
        names = set(inspect.signature(cmd).parameters)
        a = dict(node=node, database=path)
        for k in ("nx", "ny", "nz", "facet", "source"):
            if k in names:
                a[k] = kw.get(k)
        if "atol" in names:
            a["atol"] = kw.get("atol", 1e-6)
        if q != "count":
            a["output"] = getattr({"spectrum": c_spectrum, "time": c_time}[q], "OutputChoice")(output)
            if "vertical" in names:
                a["vertical"] = False
        if any(k not in names for k in kw if k != "atol" or w in BOUNDARY):
            ctx.check("every filter is an option of the command", False)
            return
        repeated = len({r[0] for r in want}) != len(want)
        buf = io.StringIO()
        label = "the command succeeds"
        shell = ctx.flag("typed at a shell")
        try:
            if shell:
                # the options as a user types them; defaults are the command's own
                from typer.testing import CliRunner
                line = [COMMANDS[w]]
                for k in ("nx", "ny", "nz", "facet", "source", "atol"):
                    if kw.get(k) is not None and k in names:
                        line.append(f"--{k}={kw[k]!r}" if isinstance(kw[k], float) else f"--{k}={kw[k]}")
                if output is not None:
                    line.append("--output=" + output)
                r = CliRunner().invoke({"count": c_count, "spectrum": c_spectrum, "time": c_time}[q].app, line + ["--", node, path])
                if r.exception is not None and not isinstance(r.exception, SystemExit):
                    raise r.exception
                ctx.check("the command line is understood", r.exit_code == 0)
                buf.write(r.stdout)
            else:
                with contextlib.redirect_stdout(buf):
                    cmd(**a)
            ctx.check(label, True)
        except Exception as e:
            # the known finding: json output of a listing with a repeated throw
            ctx.check(label, output == "json" and repeated and isinstance(e, ValueError) and "index must be unique" in str(e))
            return
        text = buf.getvalue()
        if q == "count":
            ctx.check("prints the count", text.strip() == str(len(want)))
        elif not want:
            pass
        elif output == "csv":
            got = []
            for line in text.split("\n")[1:]:
                if line.strip():
                    i, v = line.strip().split(",")
                    got.append((int(i), float(v)))
            ctx.check("prints each selected row", sorted(got) == sorted(want))
        elif output == "json":
            got = json.loads(text)
            inner = list(got.values())[0]
            ctx.check("prints each selected row", sorted((int(k), float(v)) for k, v in inner.items()) == sorted(want))
    finally:
        ctx.rng = keep
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
