"""Back end for polynomial identities: rewrites a goal equality to a normal form
modulo the equational hypotheses (definitions of quotients, square roots, dot
products, unit vectors, sines and cosines).  Sound: every rewriting step replaces
equals by equals, denominators are non-zero on the path that introduced them.
Goal proved iff the normal form is the zero polynomial."""
import time
from fractions import Fraction

import z3

LIMIT = 30000


class Give(Exception):
    pass


# polynomial: dict {monomial: Fraction}, monomial: tuple of (var index, exponent) sorted
def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 20:
        raise Give()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise Give()
    return r


def ppow(p, k):
    r = {(): Fraction(1)}
    for _ in range(k):
        r = pmul(r, p)
    return r


class Ring:
    def __init__(self):
        self.idx = {}
        self.names = []
        self.rules = []     # (kind, var, ...)
        self.ruled = set()
        self.cache = {}

    def var(self, name):
        i = self.idx.get(name)
        if i is None:
            i = self.idx[name] = len(self.names)
            self.names.append(name)
        return i

    def poly(self, e):
        hit = self.cache.get(e.get_id())
        if hit is not None:
            return hit[0]
        r = self._poly(e)
        self.cache[e.get_id()] = (r, e)
        return r

    def _poly(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): f} if f else {}
        if z3.is_int_value(e):
            return {(): Fraction(e.as_long())} if e.as_long() else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = padd(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            cs = e.children()
            r = self.poly(cs[0])
            for c in cs[1:]:
                r = padd(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self.poly(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = pmul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)):
            d = e.arg(1)
            f = Fraction(d.numerator_as_long(), d.denominator_as_long())
            if f:
                return padd({}, self.poly(e.arg(0)), 1 / f)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            f = Fraction(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long())
            if f.denominator == 1 and 0 <= f <= 12:
                return ppow(self.poly(e.arg(0)), int(f))
        if z3.is_const(e):
            return {((self.var(e.decl().name()), 1),): Fraction(1)}
        return {((self.var("@%d" % e.get_id()), 1),): Fraction(1)}

    def coeffs(self, p, v):
        """p as {power of v: poly without v}"""
        out = {}
        for m, c in p.items():
            k = 0
            rest = m
            for t in m:
                if t[0] == v:
                    k = t[1]
                    rest = tuple(x for x in m if x[0] != v)
                    break
            out.setdefault(k, {})[rest] = c
        return out

    def back(self, p, mk):
        """polynomial -> z3 term"""
        ts = []
        for m, c in sorted(p.items()):
            t = z3.RealVal(f"{c.numerator}/{c.denominator}")
            fs = []
            for v, k in m:
                fs += [mk(self.names[v])] * k
            if fs:
                pr = fs[0]
                for f in fs[1:]:
                    pr = pr * f
                t = pr if c == 1 else t * pr
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def reduce(self, p, frac=True):
        for _ in range(12):
            changed = False
            for r in reversed(self.rules):
                if not p:
                    return p
                if r[0] == "frac" and not frac:
                    continue
                v = r[1]
                cs = self.coeffs(p, v)
                top = max(cs)
                if r[0] == "frac":
                    if top == 0:
                        continue
                    a, b = r[2], r[3]
                    n = {}
                    for k, c in cs.items():
                        n = padd(n, pmul(pmul(c, ppow(a, k)), ppow(b, top - k)))
                    p, changed = n, True
                else:
                    deg, rest = r[2], r[3]
                    if top < deg:
                        continue
                    n = {}
                    for k, c in cs.items():
                        t = pmul(c, ppow(rest, k // deg))
                        if k % deg:
                            t = pmul(t, {((v, k % deg),): Fraction(1)})
                        n = padd(n, t)
                    p, changed = n, True
            if not changed:
                return p
        raise Give()

    def add_eq(self, lhs, rhs, defs=True):
        if not defs:
            # keep named terms folded
            for a in (lhs, rhs):
                if z3.is_const(a) and a.decl().name().startswith("t!"):
                    return
        # quotient definition q * b == a
        for a, b in ((lhs, rhs), (rhs, lhs)):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2:
                for q, d in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                    if z3.is_const(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.decl().name().startswith("q!"):
                        v = self.var(q.decl().name())
                        if v not in self.ruled:
                            self.rules.append(("frac", v, self.reduce(self.poly(b)), self.reduce(self.poly(d))))
                            self.ruled.add(v)
                            return
        p0 = padd(self.poly(lhs), self.poly(rhs), -1)
        if not self._rule(self.reduce(p0, frac=False)):
            self._rule(self.reduce(p0))

    def _rule(self, p):
        if not p:
            return True
        best = None
        vs = {v for m in p for v, _ in m}
        for v in vs:
            if v in self.ruled:
                continue
            cs = self.coeffs(p, v)
            deg = max(cs)
            if deg not in (1, 2) or set(cs) - {0, deg}:
                continue
            lead = cs[deg]
            if set(lead) != {()}:
                continue
            nm = self.names[v]
            score = ("t!" in nm and deg == 1, "!" in nm, -deg, v)
            if best is None or score > best[0]:
                rest = padd({}, cs.get(0, {}), -1 / lead[()])
                best = (score, v, deg, rest)
        if best:
            self.rules.append(("pow", best[1], best[2], best[3]))
            self.ruled.add(best[1])
            return True
        return False

    def zero(self, e1, e2):
        return not self.reduce(padd(self.poly(e1), self.poly(e2), -1))


def _is_real_eq(e):
    return z3.is_eq(e) and z3.is_arith(e.arg(0))


def prove(hyps, goal, tmax=10.0):
    """True when goal is an identity modulo the equations in hyps."""
    t0 = time.time()
    goals, extra = [], []

    def split(g):
        if z3.is_and(g):
            return all(split(c) for c in g.children())
        if _is_real_eq(g):
            goals.append((g, []))
            return True
        if z3.is_or(g):
            eqs, hy = [], []
            for c in g.children():
                if z3.is_not(c):
                    s = c.arg(0)
                    hy += [x for x in (s.children() if z3.is_and(s) else [s]) if _is_real_eq(x)]
                elif _is_real_eq(c):
                    eqs.append(c)
                elif z3.is_and(c) and all(_is_real_eq(x) for x in c.children()):
                    eqs.append(c)
            if not eqs:
                return False
            goals.append((eqs[0], hy) if len(eqs) == 1 else (eqs, hy))
            return True
        return False
    if not split(goal):
        return False
    base = []
    for h in hyps:
        for c in (h.children() if z3.is_and(h) else [h]):
            if _is_real_eq(c):
                base.append(c)
    try:
        for g, hy in goals:
            r = Ring()
            for h in hy + base:
                if time.time() - t0 > tmax:
                    return False
                try:
                    r.add_eq(h.arg(0), h.arg(1))
                except Give:
                    pass
            cands = g if isinstance(g, list) else [g]
            ok = False
            for c in cands:
                parts = c.children() if z3.is_and(c) else [c]
                if all(r.zero(x.arg(0), x.arg(1)) for x in parts):
                    ok = True
                    break
            if not ok:
                return False
        return True
    except (Give, RecursionError):
        return False
