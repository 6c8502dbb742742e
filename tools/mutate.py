"""Mutation campaign (authoring helper; no check reads it).

mutate.py list FILE            number the mutants of a file
mutate.py run OUT SEED N [FILE...]  N random mutants: those that pass the tests
                               are given to the checks of their file; results
                               are appended to OUT as JSON lines.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
PY = "/opt/venv/bin/python"
MAP = {
    "algorithm/photon_tracer.py": "C01 C02 C07 C03 C09 C10",
    "engine/_kernel.pyx": "C14 C01 C02 C07 C15 C10 C12 C03 C04 C06 C09 C22 C05",
    "engine/compiler.py": "C16", "engine/emit.py": "C13 C12", "engine/tally.py": "C15", "engine/recorder.py": "C16 C15 C19", "engine/api.py": "C13 C15 C22",
    "geometry/sphere.py": "C06 C05 C16", "geometry/cylinder.py": "C06 C05 C16", "geometry/box.py": "C06 C05 C07", "geometry/mesh.py": "C05 C06 C07", "geometry/utils.py": "C06 C03 C07 C04 C08 C05",
    "geometry/intersection.py": "C07", "geometry/geometry.py": "C06", "geometry/transformable.py": "C08",
    "material/material.py": "C09", "material/utils.py": "C12 C03 C04", "material/distribution.py": "C11 C10", "material/surface.py": "C03 C04 C16", "material/component.py": "C10 C09 C02 C16",
    "light/utils.py": "C23", "light/ray.py": "C02", "light/light.py": "C12 C13", "scene/node.py": "C08 C07 C13", "scene/scene.py": "C07 C13",
    "cli/count.py": "C17", "cli/db.py": "C17 C18", "cli/spectrum.py": "C17", "cli/time.py": "C17", "cli/main.py": "C18 C17", "cli/parse.py": "C19", "studio/server.py": "C20 C24", "device/lsc.py": "C21",
}
SKIP = {"__repr__", "__str__", "show", "report", "test1", "test2", "render", "main", "progress"}


def py_mutants(path, text):
    tree = ast.parse(text)
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()
    out = []

    def seg(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(a, b, new, why):
        old = raw[a:b].decode()
        if old != new:
            out.append((a, b, new, why, raw[:a].count(b"\n") + 1))

    def src(n):
        a, b = seg(n)
        return raw[a:b].decode()

    def between(l, r, table, why):
        a, b = seg(l)[1], seg(r)[0]
        mid = raw[a:b].decode()
        for o, new in table:
            k = re.search(r"(?<![<>=!*/])" + re.escape(o) + r"(?![=*/])", mid) if not o.isalpha() else re.search(r"\b" + o + r"\b", mid)
            if k:
                put(a, b, mid[:k.start()] + new + mid[k.end():], why)
                return

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
            fn = n.name
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = {ast.Lt: [("<", "<=")], ast.LtE: [("<=", "<")], ast.Gt: [(">", ">=")], ast.GtE: [(">=", ">")], ast.Eq: [("==", "!=")], ast.NotEq: [("!=", "==")],
                     ast.In: [("in", "not in")], ast.Is: [("is", "is not")], ast.IsNot: [("is not", "is")]}.get(type(n.ops[0]))
                if t:
                    between(n.left, n.comparators[0], t, "comparison")
            if isinstance(n, ast.BinOp):
                t = {ast.Add: [("+", "-")], ast.Sub: [("-", "+")], ast.Mult: [("*", "/")], ast.Div: [("/", "*")]}.get(type(n.op))
                if t and not isinstance(n.left, (ast.Constant,)) or t and not isinstance(getattr(n.left, "value", 0), str):
                    between(n.left, n.right, t, "arithmetic")
            if isinstance(n, ast.BoolOp):
                between(n.values[0], n.values[1], [("and", "or")] if isinstance(n.op, ast.And) else [("or", "and")], "boolean")
            if isinstance(n, ast.UnaryOp):
                a, b = seg(n)
                put(a, b, src(n.operand), "unary dropped")
            if isinstance(n, (ast.If, ast.IfExp)):
                a, b = seg(n.test)
                put(a, b, "True", "condition true")
                put(a, b, "False", "condition false")
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                a, b = seg(n)
                v = n.value
                put(a, b, repr({0: 1, 1: 2, -1: 1}.get(v, v + 1 if isinstance(v, int) else v * 1.5)), "constant")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                a, b = seg(n)
                put(a, b, str(not n.value), "flag")
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 1 and re.fullmatch(r"[\w-]+", n.value):
                a, b = seg(n)
                put(a, b, repr(n.value + "_"), "string")
            if isinstance(n, ast.Call) and len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    if isinstance(x, ast.Starred) or isinstance(y, ast.Starred):
                        continue
                    a, b = seg(x)[0], seg(y)[1]
                    put(a, b, src(y) + raw[seg(x)[1]:seg(y)[0]].decode() + src(x), "arguments swapped")
            if isinstance(n, ast.Call) and len(n.keywords) >= 1:
                for k in n.keywords:
                    if k.arg and not isinstance(k.value, ast.Constant):
                        a, b = seg(k.value)
                        put(a, b, "None", "keyword none")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and (not isinstance(n, ast.Assign) or not isinstance(n.targets[0], ast.Name)):
                a, b = seg(n)
                if isinstance(n, ast.AugAssign):
                    put(a, b, src(n).replace("+=", "=", 1), "augmented")
                put(a, b, "pass", "statement dropped")
            if isinstance(n, ast.Break):
                put(*seg(n), "pass", "break dropped")
            if isinstance(n, ast.Continue):
                put(*seg(n), "pass", "continue dropped")
            if isinstance(n, ast.Return) and n.value is not None:
                a, b = seg(n.value)
                if not isinstance(n.value, ast.Constant):
                    put(a, b, "None", "return none")
            if isinstance(n, ast.Name) and n.id in ("min", "max"):
                put(*seg(n), {"min": "max", "max": "min"}[n.id], "min/max")
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, None)
    return [(a, b, new, why, ln) for a, b, new, why, ln in out]


TOK = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>])<(?![<>=])(?!\w+\*?>)", "<="), (r"(?<![<>\-])>(?![<>=])", ">="), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\+= ", "= "), (r"\bbreak\b", "pass"), (r"\bcontinue\b", "pass"), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"\bcontainer\b", "hit"), (r"\bhit\b", "container"), (r"\badjacent\b", "container"),
       (r"\bnrm_flipped\b", "nrm"), (r"\bt0\b", "depth"), (r"\bn1\b", "n2"), (r"\bn2\b", "n1"), (r"\bl2w\b", "w2l"), (r"\bw2l\b", "l2w"), (r"\bpos\b", "direction"), (r"(?<![\w.\]])0(?![\w.\]])", "1"), (r"(?<![\w.])1(?![\w.])", "2"),
       (r"(?<![\w])0\.0", "1.0"), (r"(?<![\w])1\.0", "0.5"), (r"(?<![\w])2\.0", "3.0"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"), (r"\[2\]", "[1]"), (r"range\(3\)", "range(2)"), (r"range\(1, ", "range(0, "),
       (r"= -", "= "), (r"fabs\(", "("), (r"\bcomp\b", "cbase"), (r"ems_x", "ems_cdf"), (r"comp_tau_rad", "comp_tau_nr"), (r"REC_ESCAPING", "REC_ENTERING"), (r"\blocal_p\b", "pos")]


def pyx_mutants(path, text):
    out, pos, on, doc = [], 0, False, False
    raw = text.encode()
    for ln, line in enumerate(text.split("\n"), 1):
        s = line.strip()
        q = line.count('"""')
        if q == 1:
            doc = not doc
        if re.match(r"(cdef (inline )?\w[\w ]*\**\s*\w+\(|def )", line):
            on = True
        code = line.split("#")[0]
        if on and not doc and q == 0 and s and not s.startswith(("#", "cdef", "def", ")")) and ".data" not in line and not s.endswith("noexcept nogil:") and "np." not in code:
            for pat, new in TOK:
                for m in re.finditer(pat, code):
                    out.append((pos + len(line[:m.start()].encode()), pos + len(line[:m.end()].encode()), new, "token " + pat, ln))
            if re.match(r"[\w\[\]., *+]+ (\+|-)?= ", s) and s.count("(") == s.count(")"):
                a = pos + len(line) - len(line.lstrip())
                out.append((a, pos + len(line.encode()), "pass", "statement dropped", ln))
        pos += len(line.encode()) + 1
    return out


def mutants(rel):
    path = os.path.join(REPO, "pvtrace", rel)
    text = open(path).read()
    return (pyx_mutants if rel.endswith("pyx") else py_mutants)(path, text), text.encode()


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def trial(rel, m, raw, work):
    a, b, new, why, ln = m
    path = os.path.join(work, "pvtrace", rel)
    orig = open(path, "rb").read()
    line0 = raw.split(b"\n")[ln - 1].decode()
    mutated = raw[:a] + new.encode() + raw[b:]
    res = {"file": rel, "line": ln, "why": why, "old": line0.strip()[:150], "at": raw[a:b].decode()[:60], "new": new[:60]}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=work, VERIF_REPO=work, MPLBACKEND="Agg", VERIF_SEED="1", OMP_WAIT_POLICY="passive")
    try:
        open(path, "wb").write(mutated)
        if rel.endswith(".pyx"):
            for f in os.listdir(os.path.join(work, "pvtrace/engine")):
                if f.endswith(".so") or f == "_kernel.c":
                    os.remove(os.path.join(work, "pvtrace/engine", f))
            rc, o = run([PY, "-m", "pvtrace.engine.build"], work, env, 200)
            if not any(f.endswith(".so") for f in os.listdir(os.path.join(work, "pvtrace/engine"))):
                return dict(res, result="no build")
        else:
            try:
                compile(mutated, path, "exec")
            except SyntaxError:
                return dict(res, result="no build")
        rc, o = run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], work, env, 120)
        if rc != 0:
            return dict(res, result="tests")
        log = []
        for c in MAP[rel].split():
            rc, o = run(["./check", c], os.environ.get("MUT_V", "/tmp/mut/v"), env, 880)
            last = o.strip().split("\n")[-1] if o.strip() else ""
            if rc == 1 and "VIOLATION" in o:
                v = [l for l in o.split("\n") if l.startswith("VIOLATION")][0]
                return dict(res, result="caught", by=c, how="no input" if "no-failing" in v else "replayed", fails=[l[:160] for l in o.split("\n") if "FAIL" in l][:2], log=log)
            fb = re.search(r"(\d+) fallbacks", last)
            log.append(f"{c} rc={rc} fb={fb.group(1) if fb else '?'}")
        return dict(res, result="SURVIVED", log=log)
    finally:
        open(path, "wb").write(orig)


def main():
    if sys.argv[1] == "list":
        ms, raw = mutants(sys.argv[2])
        for i, m in enumerate(ms):
            print(i, m[4], m[3], repr(raw[m[0]:m[1]].decode()[:40]), "->", repr(m[2][:40]))
        return
    out, seed, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or list(MAP)
    r = random.Random(seed)
    pool = {f: mutants(f) for f in files}
    jobs = []
    for f in files:
        ms, raw = pool[f]
        seen = set()
        r.shuffle(ms)
        k = max(1, round(n * len(ms) / sum(len(x[0]) for x in pool.values())))
        for m in ms:
            if len(seen) < k:
                seen.add(m[:3])
                jobs.append((f, m, raw))
    r.shuffle(jobs)
    os.makedirs("/tmp/mut", exist_ok=True)
    work = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        base = os.path.join(work, "r")
        shutil.copytree(REPO, base, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        pyx = [j for j in jobs if j[0].endswith("pyx")]
        rest = [j for j in jobs if not j[0].endswith("pyx")]
        for f, m, raw in rest + pyx:
            res = trial(f, m, raw, base)
            with open(out, "a") as h:
                h.write(json.dumps(res) + "\n")
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
