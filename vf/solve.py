"""Obligation discharge: a portfolio of z3 (default, nlsat) and cvc5, with
cone-of-influence slicing of the hypotheses."""
import time
from fractions import Fraction
import z3

from . import ring

_VARS = {}


def _collect(e, seen, out):
    todo = [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            out.add(t.decl().name())
            todo.extend(t.children())
        elif z3.is_quantifier(t):
            todo.append(t.body())
        else:
            todo.extend(t.children())


def vars_of(e):
    i = e.get_id()
    hit = _VARS.get(i)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out = set()
    _collect(e, set(), out)
    out = frozenset(out)
    _VARS[i] = (e, out)
    return out


def cone(hyps, goal_vars):
    """Hypotheses sharing variables, transitively, with goal_vars."""
    cur = set(goal_vars)
    left = [(h, vars_of(h)) for h in hyps]
    used = []
    changed = True
    while changed:
        changed = False
        rest = []
        for h, vs in left:
            if vs & cur or not vs:
                used.append(h)
                if not vs <= cur:
                    cur |= vs
                changed = True
            else:
                rest.append((h, vs))
        left = rest
    ids = {u.get_id() for u in used}
    return [h for h in hyps if h.get_id() in ids]


def num(v):
    """z3 numeral / algebraic value -> float"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        r = v.approx(20)
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_bv_value(v):
        return v.as_long()
    return None


def model_dict(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = num(m[d])
            if v is not None:
                out[d.name()] = v
    return out


STATS = {}


def _note(backend, dt, res):
    s = STATS.setdefault(backend, {"calls": 0, "unsat": 0, "sat": 0, "unknown": 0, "seconds": 0.0})
    s["calls"] += 1
    s[res] += 1
    s["seconds"] += dt


def _z3(fs, timeout, tactic=None):
    t = time.time()
    if tactic is None:
        s = z3.Solver()
    else:
        s = z3.Tactic(tactic).solver()
    s.set("timeout", int(timeout * 1000))
    try:
        s.add(*fs)
        r = s.check()
    except z3.Z3Exception:
        _note("z3-" + (tactic or "smt"), time.time() - t, "unknown")
        return "unknown", None
    r = str(r)
    _note("z3-" + (tactic or "smt"), time.time() - t, r)
    m = None
    if r == "sat":
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return r, m


def _cvc5(fs, timeout):
    import cvc5
    t = time.time()
    s = z3.Solver()
    s.add(*fs)
    text = s.to_smt2().replace("(check-sat)", "")
    res = "unknown"
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setOption("nl-cov", "true") if False else None
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "o")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        res = "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception:
        res = "unknown"
    _note("cvc5", time.time() - t, res)
    return res


_NL = {}


def is_nonlinear(fs):
    for f in fs:
        hit = _NL.get(f.get_id())
        if hit is None or not hit[0].eq(f):
            hit = _NL[f.get_id()] = (f, _nonlinear([f]))
        if hit[1]:
            return True
    return False


def _nonlinear(fs):
    seen = set()
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(1 for c in t.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1:
                    return True
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                return True
        todo.extend(t.children())
    return False


def pure_real(fs):
    seen = set()
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not (z3.is_real(t) or z3.is_bool(t)):
            return False
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            return False
        todo.extend(t.children())
    return True


_LIN = {}
_MONO = {}


def _mono(key):
    v = _MONO.get(key)
    if v is None:
        v = _MONO[key] = z3.Real("mono!%d" % len(_MONO))
    return v


def _lin_term(e, rules, R):
    p = R.poly(e)
    out = {}
    for m, c in p.items():
        if len(m) > 1 and rules:
            d = dict(m)
            for (q, x), k in rules.items():
                q, x = R.idx.get(q), R.idx.get(x)
                while q in d and x in d:
                    c = c * k
                    for y in (q, x):
                        d[y] -= 1
                        if not d[y]:
                            del d[y]
            m = tuple(sorted(d.items()))
        out[m] = out.get(m, 0) + c
    ts = []
    for m, c in out.items():
        if not c:
            continue
        k = z3.RealVal(f"{c.numerator}/{c.denominator}")
        if not m:
            ts.append(k)
            continue
        if len(m) == 1 and m[0][1] == 1:
            v = z3.Real(R.names[m[0][0]])
        else:
            v = _mono(tuple(sorted((R.names[a], b) for a, b in m)))
        ts.append(k * v)
    return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


def _ite(e):
    """an if-term of e (innermost first), when it has few of them"""
    seen, todo, found = set(), [e], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if len(seen) > 400:
            return None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_real(t):
            found.append(t)
        todo.extend(t.children())
    return found[-1] if 0 < len(found) <= 3 else None


def _lin(e, rules, R):
    """linear abstraction: nonlinear monomials become unknowns; None: no information"""
    if z3.is_true(e) or z3.is_false(e) or (z3.is_const(e) and z3.is_bool(e)):
        return e
    k = e.decl().kind() if z3.is_app(e) else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (k == z3.Z3_OP_EQ and z3.is_arith(e.arg(0))):
        if not (z3.is_real(e.arg(0)) and z3.is_real(e.arg(1))):
            raise ring.Give()
        it = _ite(e)
        if it is not None:
            c, a, b = it.children()
            ta, tb = z3.substitute(e, (it, a)), z3.substitute(e, (it, b))
            return z3.Or(z3.And(_lin(c, rules, R), _lin(ta, rules, R)),
                         z3.And(_lin(z3.simplify(z3.Not(c)), rules, R), _lin(tb, rules, R)))
        t = _lin_term(e.arg(0) - e.arg(1), rules, R)
        return {z3.Z3_OP_LE: t <= 0, z3.Z3_OP_GE: t >= 0, z3.Z3_OP_LT: t < 0, z3.Z3_OP_GT: t > 0, z3.Z3_OP_EQ: t == 0}[k]
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or k == z3.Z3_OP_EQ or (k == z3.Z3_OP_ITE and z3.is_bool(e)):
        cs = [_lin(c, rules, R) for c in e.children()]
        return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies,
                z3.Z3_OP_ITE: z3.If, z3.Z3_OP_EQ: lambda a, b: a == b}[k](*cs)
    raise ring.Give()


def linabs(fs):
    """the formulas with every nonlinear monomial replaced by an unknown (weaker:
    unsat of the result is unsat of fs); reciprocals are cancelled first"""
    rules = {}
    for h in fs:
        if z3.is_eq(h) and z3.is_arith(h.arg(0)):
            for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                if z3.is_rational_value(a) and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MUL and b.num_args() == 2 \
                        and all(z3.is_const(c) and not z3.is_rational_value(c) for c in b.children()):
                    rules[tuple(c.decl().name() for c in b.children())] = Fraction(a.numerator_as_long(), a.denominator_as_long())
    rk = tuple(sorted(rules.items()))
    out = []
    R = None
    for h in fs:
        key = (h.get_id(), rk)
        hit = _LIN.get(key)
        if hit is None or not hit[0].eq(h):
            if R is None:
                R = ring.Ring()
            try:
                r = _lin(h, rules, R)
            except (ring.Give, KeyError, RecursionError):
                r = None
            hit = _LIN[key] = (h, r)
        if hit[1] is not None:
            out.append(hit[1])
    return out


class _Reduced:
    """ring with the equational hypotheses as rewriting rules (no quotient rules)"""

    def __init__(self, R):
        self.R, self.idx, self.names = R, R.idx, R.names

    def poly(self, e):
        return self.R.reduce(self.R.poly(e), frac=False)


_RED = {}


def linabs_ring(fs, tmax=2.0):
    """as linabs, over normal forms modulo the equational hypotheses"""
    t0 = time.time()
    eqs = [c for h in fs for c in (h.children() if z3.is_and(h) else [h]) if ring._is_real_eq(c)]
    key = tuple(c.get_id() for c in eqs)
    hit = _RED.get(key)
    if hit is None or not all(a.eq(b) for a, b in zip(hit[0], eqs)):
        R = ring.Ring()
        for c in eqs:
            try:
                R.add_eq(c.arg(0), c.arg(1))
            except ring.Give:
                pass
            if time.time() - t0 > tmax:
                break
        hit = _RED[key] = (eqs, _Reduced(R), {})
    R, memo = hit[1], hit[2]
    out = []
    for h in fs:
        if time.time() - t0 > tmax:
            break
        m = memo.get(h.get_id())
        if m is None or not m[0].eq(h):
            try:
                r = _lin(h, {}, R)
            except (ring.Give, KeyError, RecursionError):
                r = None
            m = memo[h.get_id()] = (h, r)
        if m[1] is not None:
            out.append(m[1])
    return out


def feasible(hyps, extra, timeout=1.0):
    """True / False / None(unknown), and a model when there is one."""
    gv = vars_of(extra)
    fs = cone(hyps, gv) + [extra]
    if len(fs) > 6:
        h0 = [h for h in hyps if vars_of(h) and vars_of(h) <= gv]
        if h0 and len(h0) < len(fs) - 1:
            r, m = _z3(h0 + [extra], min(timeout, 0.5))
            if r == "unsat":
                return False, None
        if not is_nonlinear([extra]) and is_nonlinear(fs):
            lin = [h for h in fs[:-1] if not is_nonlinear([h])]
            r, m = _z3(lin + [extra], min(timeout, 0.5))
            if r == "unsat":
                return False, None
    if is_nonlinear(fs):
        r, m = _z3(linabs(fs), 0.3)
        if r == "unsat":
            return False, None
    r, m = _z3(fs, timeout)
    if r == "unknown" and is_nonlinear(fs):
        r, _ = _z3(linabs_ring(fs), 0.5)
        if r == "unsat":
            return False, None
        r = "unknown"
    if r == "unknown" and timeout >= 0.1 and is_nonlinear(fs) and pure_real(fs):
        r, m = _z3(fs, timeout, "qfnra-nlsat")
    if r == "sat":
        return True, m
    if r == "unsat":
        return False, None
    return None, None


def _disjunct(hyps, goal):
    """one alternative of a disjunctive goal whose equations hold identically and
    whose remaining parts follow linearly"""
    for d in goal.children():
        parts = d.children() if z3.is_and(d) else [d]
        eqs = [c for c in parts if ring._is_real_eq(c)]
        rest = [c for c in parts if not ring._is_real_eq(c)]
        if not eqs or not rest or not all(ring.prove(hyps, c, 2.0) for c in eqs):
            continue
        for c in rest:
            fs = cone(hyps, vars_of(c)) + [z3.Not(c)]
            r, _ = _z3(linabs(fs), 1.0)
            if r != "unsat":
                r, _ = _z3(linabs_ring(fs), 1.0)
            if r != "unsat":
                break
        else:
            return "ring+z3-linear"
    return None


def prove(hyps, goal, budget=20.0, slim=None):
    """Try to show hyps |= goal.  Returns (status, backend, seconds, model)."""
    t0 = time.time()
    neg = z3.Not(goal)
    tr = time.time()
    if ring.prove(hyps, goal):
        _note("ring", time.time() - tr, "unsat")
        return "proved", "ring", time.time() - t0, None
    if time.time() - tr > 0.01:
        _note("ring", time.time() - tr, "unknown")
    if z3.is_or(goal):
        b = _disjunct(hyps, goal)
        if b:
            return "proved", b, time.time() - t0, None
    fs = cone(hyps, vars_of(goal)) + [neg]
    attempts = []
    if slim is not None:
        attempts.append(("z3-smt", slim + [neg], None, min(5.0, budget)))
        attempts.append(("z3-nlsat", slim + [neg], "qfnra-nlsat", min(10.0, budget)))
    nl = is_nonlinear(fs)
    if nl:
        attempts.append(("z3-linear", linabs(fs), None, 1.0))
    if nl and len(fs) > 8:
        gv = vars_of(goal)
        h0 = [h for h in hyps if vars_of(h) and vars_of(h) <= gv]
        near = set(gv)
        for h in h0:
            near |= vars_of(h)
        h1 = [h for h in hyps if vars_of(h) & gv and len(vars_of(h) - gv) <= 2]
        if h0:
            attempts.append(("z3-smt", h0 + [neg], None, 0.7))
        lin = [h for h in fs[:-1] if not is_nonlinear([h])]
        if lin:
            attempts.append(("z3-smt", lin + [neg], None, 1.0))
        if len(h1) > len(h0):
            attempts.append(("z3-smt", h1 + [neg], None, 1.0))
    if not nl:
        attempts.append(("z3-smt", fs, None, budget))
    else:
        pr = pure_real(fs)
        attempts.append(("z3-smt", fs, None, min(1.0, budget)))
        attempts.append(("ring+z3-linear", lambda: linabs_ring(fs), None, 1.0))
        attempts.append(("z3-smt", fs, None, min(3.0, budget)))
        if pr:
            attempts.append(("z3-nlsat", fs, "qfnra-nlsat", min(6.0, budget)))
        attempts.append(("cvc5", fs, "cvc5", min(8.0, budget)))
        attempts.append(("z3-smt", fs, None, budget))
        if pr:
            attempts.append(("z3-nlsat", fs, "qfnra-nlsat", budget))
    for name, f, tac, to in attempts:
        if callable(f):
            f = f()
        if tac == "cvc5":
            r, m = _cvc5(f, to), None
            if r == "sat":
                continue
        else:
            r, m = _z3(f, to, tac)
        if r == "unsat":
            return "proved", name, time.time() - t0, None
        if r == "sat" and f is fs:
            return "failed", name, time.time() - t0, m
    return "unknown", "-", time.time() - t0, None
