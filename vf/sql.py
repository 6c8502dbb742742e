"""A logic for the SELECT statements of the simulation database: the text is parsed on
every run and given SQLite's meaning over one arbitrary (ray, event) pair, with
three-valued conditions.  Anything outside the grammar raises Unsupported."""
import re

from vf.core import Unsupported

TOKEN = re.compile(r"\s*(?:--[^\n]*\n|(\?\d*)|([:@$][A-Za-z_]\w*)|('(?:[^']|'')*')|(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|([A-Za-z_]\w*|\"[^\"]*\")|(<=|>=|<>|!=|==|\|\||[-+*/()=<>,.;]))")
KEY = {"select", "distinct", "from", "inner", "left", "cross", "join", "on", "where", "and", "or", "not", "as", "is", "null", "between", "in", "group", "order", "by", "limit",
       "having", "union", "exists", "case", "using", "natural", "outer", "like", "glob", "except", "intersect", "all", "asc", "desc", "with", "over", "offset", "collate"}


def tokens(text):
    out, i = [], 0
    text = text.strip() + " "
    while i < len(text) and text[i:].strip():
        m = TOKEN.match(text, i)
        if not m:
            raise Unsupported(f"SQL near {text[i:i + 20]!r}")
        i = m.end()
        for kind, v in zip(("param", "named", "str", "num", "word", "op"), m.groups()):
            if v is not None:
                if kind == "word" and v[0] != '"' and v.lower() in KEY:
                    out.append(("key", v.lower()))
                elif kind == "word" and v[0] == '"':
                    raise Unsupported("quoted identifier")
                else:
                    out.append((kind, v))
    return out


class Parser:
    def __init__(self, text):
        self.t, self.i, self.n = tokens(text), 0, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def key(self, w):
        if self.peek() == ("key", w):
            self.i += 1
            return True
        return False

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            raise Unsupported(f"SQL: expected {what} at {self.peek()}")

    def statement(self):
        q = self.select()
        self.op(";")
        self.need(self.peek()[0] == "end", "end of statement")
        return q

    def select(self):
        self.need(self.key("select"), "SELECT")
        distinct = self.key("distinct")
        items = [self.item()]
        while self.op(","):
            items.append(self.item())
        self.need(self.key("from"), "FROM")
        srcs, conds = [self.source()], []
        while True:
            if self.op(","):
                srcs.append(self.source())
                continue
            if self.key("inner") or self.key("cross"):
                self.need(self.key("join"), "JOIN")
            elif not self.key("join"):
                break
            srcs.append(self.source())
            if self.key("on"):
                conds.append(self.expr())
        if self.key("where"):
            conds.append(self.expr())
        if self.key("order"):
            self.need(self.key("by"), "BY")
            self.expr()
            self.key("asc") or self.key("desc")
            while self.op(","):
                self.expr()
                self.key("asc") or self.key("desc")
        return {"distinct": distinct, "items": items, "from": srcs, "where": conds}

    def item(self):
        if self.op("*"):
            return ("*", None)
        e = self.expr()
        alias = None
        if self.key("as"):
            alias = self.word()
        return (e, alias)

    def word(self):
        k, v = self.peek()
        self.need(k == "word", "a name")
        self.i += 1
        return v.lower()

    def source(self):
        if self.op("("):
            q = self.select()
            self.need(self.op(")"), ")")
        else:
            q = self.word()
        alias = None
        if self.key("as") or self.peek()[0] == "word":
            alias = self.word()
        return (q, alias)

    def expr(self):
        e = self.conj()
        while self.key("or"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.key("and"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        if self.key("not"):
            return ("not", self.neg())
        return self.comparison()

    def comparison(self):
        e = self.additive()
        while True:
            if self.key("is"):
                n = self.key("not")
                if self.key("null"):
                    r = ("isnull", e)
                else:
                    r = ("is", e, self.additive())
                e = ("not", r) if n else r
                continue
            n = self.peek() == ("key", "not") and self.peek(1)[1] in ("between", "in")
            if n:
                self.i += 1
            if self.key("between"):
                a = self.additive()
                self.need(self.key("and"), "AND")
                r = ("and", ("cmp", ">=", e, a), ("cmp", "<=", e, self.additive()))
            elif self.key("in"):
                self.need(self.op("("), "(")
                r = ("cmp", "=", e, self.additive())
                while self.op(","):
                    r = ("or", r, ("cmp", "=", e, self.additive()))
                self.need(self.op(")"), ")")
            else:
                k, v = self.peek()
                if k == "op" and v in ("=", "==", "<", ">", "<=", ">=", "<>", "!="):
                    self.i += 1
                    e = ("cmp", {"==": "=", "!=": "<>"}.get(v, v), e, self.additive())
                    continue
                return e
            e = ("not", r) if n else r

    def additive(self):
        e = self.term()
        while self.peek() in (("op", "+"), ("op", "-")):
            o = self.peek()[1]
            self.i += 1
            e = ("arith", o, e, self.term())
        return e

    def term(self):
        e = self.factor()
        while self.peek() == ("op", "*"):
            self.i += 1
            e = ("arith", "*", e, self.factor())
        return e

    def factor(self):
        if self.op("-"):
            return ("arith", "-", ("num", "0"), self.factor())
        if self.op("+"):
            return self.factor()
        if self.op("("):
            e = self.expr()
            self.need(self.op(")"), ")")
            return e
        k, v = self.peek()
        self.i += 1
        if k == "param":
            if v == "?":
                self.n += 1
                return ("param", self.n - 1)
            self.n = max(self.n, int(v[1:]))
            return ("param", int(v[1:]) - 1)
        if k == "named":
            return ("named", v[1:])
        if k == "str":
            return ("str", v[1:-1].replace("''", "'"))
        if k == "num":
            return ("num", v)
        if (k, v) == ("key", "null"):
            return ("null",)
        if k == "word":
            name = v.lower()
            if self.op("("):
                args = []
                d = self.key("distinct")
                if self.op("*"):
                    args.append(("*",))
                elif self.peek() != ("op", ")"):
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                self.need(self.op(")"), ")")
                return ("call", name, d, args)
            if self.op("."):
                return ("col", name, self.word())
            return ("col", None, name)
        raise Unsupported(f"SQL: {v!r}")


class V:
    """a value: whether it is null, and its content of kind text, real or int"""

    def __init__(self, kind, null, val):
        self.kind, self.null, self.val = kind, null, val


class Relation:
    """rows over one (ray, event) pair: each row is `cols` when `present`; `distinct`: a set over those columns"""

    def __init__(self, cols, present, distinct):
        self.cols, self.present, self.distinct = cols, present, distinct


class Meaning:
    """tables: name -> {column: V}, of one arbitrary row each; `param(x)` -> V"""

    def __init__(self, ctx, tables, params, value):
        self.ctx, self.tables, self.value = ctx, tables, value
        self.params = params
        self.used = set()

    # conditions are pairs (is true, is false)
    def cond(self, e, env):
        c = self.ctx
        k = e[0]
        if k == "and":
            a, b = self.cond(e[1], env), self.cond(e[2], env)
            return c.and_(a[0], b[0]), c.or_(a[1], b[1])
        if k == "or":
            a, b = self.cond(e[1], env), self.cond(e[2], env)
            return c.or_(a[0], b[0]), c.and_(a[1], b[1])
        if k == "not":
            a = self.cond(e[1], env)
            return a[1], a[0]
        if k == "isnull":
            v = self.val(e[1], env)
            return v.null, c.not_(v.null)
        if k in ("cmp", "is"):
            a, b = self.val(e[-2], env), self.val(e[-1], env)
            op = e[1] if k == "cmp" else "="
            t = self.compare(op, a, b)
            if k == "is":
                both = c.and_(a.null, b.null)
                some = c.and_(c.not_(a.null), c.not_(b.null))
                r = c.or_(both, c.and_(some, t))
                return r, c.not_(r)
            ok = c.and_(c.not_(a.null), c.not_(b.null))
            return c.and_(ok, t), c.and_(ok, c.not_(t))
        if k == "num":
            t = float(e[1]) != 0
            return t, not t
        raise Unsupported(f"SQL condition {k}")

    def compare(self, op, a, b):
        c = self.ctx
        if "null" in (a.kind, b.kind):
            return False
        if (a.kind == "text") != (b.kind == "text"):
            raise Unsupported("comparison of text with a number")
        if a.kind == "text" and op not in ("=", "<>"):
            raise Unsupported("ordering of texts")
        x, y = a.val, b.val
        if op == "=":
            return c.eq(x, y, None)
        if op == "<>":
            return c.not_(c.eq(x, y, None))
        return {"<": c.lt, ">": c.gt, "<=": c.le, ">=": c.ge}[op](x, y)

    def val(self, e, env):
        c = self.ctx
        k = e[0]
        if k in ("param", "named"):
            try:
                v = self.params[e[1]]
            except (IndexError, KeyError, TypeError):
                raise Unsupported("placeholder without a value")
            self.used.add(e[1])
            return self.value(v)
        if k == "str":
            return self.value(e[1])
        if k == "num":
            return V("real", False, float(e[1]))
        if k == "null":
            return V("null", True, 0)
        if k == "col":
            hits = [cols[e[2]] for al, cols in env if (e[1] is None or al == e[1]) and e[2] in cols]
            if len(hits) != 1:
                raise Unsupported(f"column {e[1]}.{e[2]}")
            return hits[0]
        if k == "arith":
            a, b = self.val(e[2], env), self.val(e[3], env)
            if "null" in (a.kind, b.kind):
                return V("null", True, 0)
            if "text" in (a.kind, b.kind):
                raise Unsupported("arithmetic on text")
            r = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[e[1]](a.val, b.val)
            return V("real", c.or_(a.null, b.null), r)
        if k == "call" and not e[2]:
            if e[1] == "abs" and len(e[3]) == 1:
                a = self.val(e[3][0], env)
                if a.kind not in ("real", "int"):
                    raise Unsupported("abs of " + a.kind)
                return V("real", a.null, c.ite(c.ge(a.val, 0), a.val, -a.val))
            if e[1] in ("ifnull", "coalesce") and len(e[3]) == 2:
                a, b = self.val(e[3][0], env), self.val(e[3][1], env)
                if a.kind != b.kind:
                    raise Unsupported("coalesce of kinds")
                return V(a.kind, c.and_(a.null, b.null), c.ite(a.null, b.val, a.val))
        raise Unsupported(f"SQL expression {k} {e[1] if len(e) > 1 else ''}")

    def source(self, s):
        q, alias = s
        if isinstance(q, str):
            if q not in self.tables:
                raise Unsupported(f"table {q}")
            return alias or q, self.tables[q], True, None
        r = self.select(q)
        if not isinstance(r, Relation):
            raise Unsupported("nested aggregate")
        return alias or "", r.cols, r.present, r.distinct

    def select(self, q):
        c = self.ctx
        src = [self.source(s) for s in q["from"]]
        names = [s[0] for s in src]
        if len(src) > 1 and (len(set(names)) != len(names) or any(s[3] is not None for s in src)):
            raise Unsupported("joins other than of the two tables")
        env = [(s[0], s[1]) for s in src]
        present = c.and_(*[s[2] for s in src], *[self.cond(w, env)[0] for w in q["where"]])
        inner = src[0][3] if len(src) == 1 else False
        inner = list(src[0][1]) if inner else None
        items = q["items"]
        if len(items) == 1 and items[0][0] != "*" and items[0][0][0] == "call" and items[0][0][1] == "count":
            _, _, dist, args = items[0][0]
            a = args[0]
            if dist:
                if a[0] != "col":
                    raise Unsupported("COUNT(DISTINCT expression)")
                v = self.val(a, env)
                return Relation({"count": v}, c.and_(present, c.not_(v.null)), "count distinct " + a[2])
            if a[0] != "*":
                v = self.val(a, env)
                present = c.and_(present, c.not_(v.null))
            if inner is None:
                return Relation({"count": None}, present, "count rows")
            return Relation({"count": None}, present, "count distinct " + ",".join(inner))
        cols = {}
        for e, alias in items:
            if e == "*":
                for _, cs in env:
                    cols.update(cs)
                continue
            if e[0] != "col":
                raise Unsupported("listing of an expression")
            cols[alias or e[2]] = self.val(e, env)
            if alias and alias != e[2]:
                raise Unsupported("renamed column")
        distinct = q["distinct"]
        if inner is not None:
            if not distinct and list(cols) != inner:
                raise Unsupported("projection of a set")
            distinct = True
        return Relation(cols, present, distinct)


def meaning(ctx, text, params, tables, value):
    p = Parser(text)
    q = p.statement()
    m = Meaning(ctx, tables, params, value)
    r = m.select(q)
    if not isinstance(params, dict) and m.used != set(range(len(params))):
        raise Unsupported("values without a placeholder")
    return r
