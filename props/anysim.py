"""ktrace.Sim for scenes of any number of nodes and media of any number of components.

The nodes of a step - the one hit, its container, its neighbour - and the
component that absorbs have symbolic indices into tables of symbolic length;
the loops over nodes, hits and components are replaced by what their
invariants give at exit (proved in C07 kernel_any_nodes and C09
kernel_any_components).  What the step does with them is then the same code,
checked by the same contracts."""
import ast

from vf import core, kernel
from vf.core import Unsupported
from props import kern, ktrace, nodes
from props.kern import K
from props.ktrace import Sim, PLACES, HIT, MEDIUM, ADJ

COMP_SHAPES = {"total": {"k", "comp", "alpha"}, "choice": {"k", "running", "comp"}}
NOTE = "any number of nodes and of components in a medium: node and component loops by their invariants (C07 kernel_any_nodes, C09 kernel_any_components)"


def shapes():
    out = {}
    for k, names in nodes.loops().items():
        for s, want in {**nodes.SHAPES, **COMP_SHAPES}.items():
            if names == want:
                out[k] = s
    if set(out.values()) != set(nodes.SHAPES) | set(COMP_SHAPES):
        raise Unsupported("the loops of trace_one have another shape")
    return out


class Keyed:
    """rows of a table known at some symbolic indices: width values per row"""

    def __init__(self, ctx, ptr, keys, width=1, off=0):
        self.ctx, self.ptr, self.keys, self.width, self.off = ctx, ptr, keys, width, off
        self.arr = ptr.arr

    def __add__(self, k):
        return Keyed(self.ctx, self.ptr, self.keys, self.width, self.off + k)

    def row(self, i):
        import z3
        i = self.off + i
        e = i.e if hasattr(i, "e") else z3.IntVal(int(i))
        for sym, rep in self.keys:
            d = z3.simplify(e - sym.e * self.width, som=True)
            if z3.is_int_value(d) and 0 <= d.as_long() < self.width:
                return rep * self.width + d.as_long()
        self.ctx.check(f"{self.arr.name}: row of a node or component of this step", False)
        raise core.Infeasible()

    def __getitem__(self, i):
        return self.ptr[self.row(i)]

    def __setitem__(self, i, v):
        self.ctx.check("the scene is only read", False)


class Hits:
    def __init__(self, v):
        self.v = v
        self.arr = self

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise Unsupported("hits read in another way")
        return self.v[i]


class AnySim(Sim):
    def __init__(self, ctx, comps=("luminophore", "absorber"), zero=True, **k):
        if not ctx.sym:
            raise Unsupported("symbolic only")
        self.kindof = shapes()
        self.zero, self.tot, self.low, self.picked = zero, {}, {}, None
        super().__init__(ctx, comps=comps, zero=zero, **k)
        S = self.S
        self.N = ctx.int("n_nodes", lo=1, hi=K.MAX_NODES)
        self.nid = {x: ctx.int("node_" + x) for x in "WAB"}
        for x, i in self.nid.items():
            ctx.assume(ctx.and_(i >= 0, i < self.N))
        for a, b in ("WA", "WB", "AB"):
            ctx.assume(ctx.not_(ctx.eq(self.nid[a], self.nid[b])))
        S.n_nodes, S.root = self.N, self.nid["W"]
        nk = [(self.nid[x], self.ids[x]) for x in "WAB"]
        for t, w in (("l2w", 16), ("w2l", 16), ("nidx", 1), ("surf_type", 1), ("geom_type", 1), ("geom_params", 4)):
            setattr(S, t, Keyed(ctx, getattr(S, t), nk, w))
        # a medium's components: a run of rows of any length; one of them may absorb
        self.start, self.count = {}, {}
        self.cid = {}
        for x in "WAB":
            self.start[x] = ctx.int("first_component_" + x, lo=0, hi=10000)
            if self.of[x]:
                self.count[x] = ctx.int("components_" + x, lo=1, hi=10000)
                for c in self.of[x]:
                    j = ctx.int(f"place{c}")
                    ctx.assume(ctx.and_(j >= 0, j < self.count[x]))
                    self.cid[c] = (j, self.start[x] + j)
            else:
                self.count[x] = 0
        order = [self.name[i] for i in range(3)]
        S.comp_start = Keyed(ctx, self.raw([self.start[x] for x in order], "comp_start"), nk)
        S.comp_count = Keyed(ctx, self.raw([self.count[x] for x in order], "comp_count"), nk)
        ck = [(i, c) for c, (_, i) in self.cid.items()]
        for t in ("comp_type", "comp_qy", "comp_tau_rad", "comp_tau_nr", "comp_phase_type", "comp_phase_param", "abs_start", "abs_n", "ems_start", "ems_n"):
            setattr(S, t, Keyed(ctx, getattr(S, t), ck))

    @staticmethod
    def raw(values, name):
        return kernel.Ptr(kernel.Arr("int", list(values), name))

    # ----------------------------------------------------------- symbolic indices back to their names
    def rep(self, i, keys, strange):
        if not isinstance(i, core.SNum):
            return i
        for sym, r in keys:
            if kern.same_index(sym, i):
                return r
        return strange

    def node(self, i):
        return self.rep(i, [(self.nid[x], self.ids[x]) for x in "WAB"], -99)

    def comp(self, i, strange=-99):
        return self.rep(i, [(s, c) for c, (_, s) in self.cid.items()], strange)

    def s_record(self, elog, base, count, kind, hit, container, adjacent, component, source, *a):
        return super().s_record(elog, base, count, kind, self.node(hit), self.node(container), self.node(adjacent), self.comp(component), self.comp(source, source), *a)

    def s_tally(self, S, AB, tid, sel, node, *a):
        return super().s_tally(S, AB, tid, sel, self.node(node), *a)

    def s_local_normal(self, S, node, p, out):
        n = self.node(node)
        if n not in self.name:
            self.ctx.check("normal of a node of this step", False)
            raise core.Infeasible()
        return super().s_local_normal(S, n, p, out)

    def s_intersect_node(self, *a):
        raise Unsupported("nodes asked outside their loop")

    def state(self, F):
        st = super().state(F)
        st.source = self.comp(st.source, st.source)
        return st

    # ----------------------------------------------------------- coefficients
    def total(self, med):
        if med not in self.tot:
            ctx = self.ctx
            if not self.of[med]:
                self.tot[med] = 0.0
            elif self.zero and ctx.flag("clear medium"):
                self.tot[med] = 0.0
                for c in self.of[med]:
                    ctx.assume(self.coef[c] == 0.0)
            else:
                self.tot[med] = ctx.pos("total_" + med, lo=0.01, hi=50)
                ctx.assume(self.tot[med] > 1e-6)
        return self.tot[med]

    def below(self, c):
        if c not in self.low:
            ctx = self.ctx
            med = next(x for x in "WAB" if c in self.of[x])
            self.low[c] = ctx.real("below", lo=0)
            ctx.assume(self.low[c] + self.coef[c] <= self.total(med))
        return self.low[c]

    # ----------------------------------------------------------- loops by their invariants
    def on_for(self, F, key, *a):
        k = self.kindof.get(key[1]) if key[0] == "trace_one" else None
        if k is None:
            if any(isinstance(x, core.SNum) for x in a):
                raise Unsupported("unknown loop over a symbolic range")
            return None
        if k in nodes.SHAPES:
            p = self.plans[-1] if self.plans else None
            if k == "collect":
                p = self.plan()
                seq = PLACES[p.where]
                ids = [self.nid[x] for x in seq]
                ts = [p.dist] + [None] * len(seq)
                F.hit_t, F.hit_node = Hits(ts), Hits(ids)
                F.node_hits = F.node_min_t = Hits({})
                F.nhits = len(seq) if len(seq) < 2 else self.many()
                self.forget(F, "node", "k", "nlocal")
            elif k == "nearest":
                F.first = 0
                self.forget(F, "i")
            elif k == "second":
                F.second = 1 if len(PLACES[p.where]) > 1 else -1
                self.forget(F, "i")
            else:
                setattr(F, k, self.nid[(MEDIUM if k == "container" else ADJ)[p.where]])
                self.forget(F, "node", "best")
            return iter(())
        med = MEDIUM[self.plans[-1].where]
        if not set(COMP_SHAPES[k]) - {"k", "comp"} <= set(F.__dict__) or k == "choice" and "target" not in F.__dict__:
            raise Unsupported("variables of the component loops renamed")
        return self.l_total(F, med, *a) if k == "total" else self.l_choice(F, med, *a)

    def l_total(self, F, med, *a):
        F.alpha = self.total(med)
        self.forget(F, "k", "comp")
        return iter(())

    def l_choice(self, F, med, *a):
        if not self.of[med]:
            raise core.Infeasible()     # nothing absorbs there
        # a pass of the selection that stops: all before it stayed below the target
        c = self.ctx.choose("absorbing", self.of[med])
        F.running = self.below(c)
        self.ctx.assume(F.target >= F.running)
        yield self.cid[c][0]
        raise core.Infeasible()     # it does not stop here: another pass does

    # ----------------------------------------------------------- helpers
    def many(self):
        m = self.ctx.int("nhits", lo=2, hi=K.MAX_HITS)
        return m

    def forget(self, F, *names):
        for n in names:
            F.__dict__.pop(n, None)

    def run_any(self):
        kernel.LOG["for"] = self.on_for
        try:
            return super().run_any()
        finally:
            kernel.LOG.clear()


class Components(AnySim):
    """the two loops over a medium's components: any pass of either, and their ends"""

    def __init__(self, ctx, phase, **k):
        self.stage = phase
        super().__init__(ctx, **k)

    def total(self, med):
        if med not in self.tot:
            # sum of all coefficients, as the first loop leaves it
            self.tot[med] = self.ctx.real("total_" + med, lo=0, hi=50) if self.of[med] else 0.0
            self.ctx.assume(self.ctx.or_(self.tot[med] == 0, self.tot[med] > 1e-6))
        return self.tot[med]

    def range(self, med, a):
        ctx = self.ctx
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            raise Unsupported("loop with a step")
        # another range may be as good: left to the bounded contract (kernel_depth)
        if not isinstance(lo, int) or lo != 0 or not kern.same_index(hi, self.count[med]):
            raise Unsupported("components visited in another way")

    def l_total(self, F, med, *a):
        ctx = self.ctx
        self.range(med, a)
        ctx.check("the sum starts at nothing", ctx.eq(F.alpha, 0))
        if self.stage == "total" and self.of[med]:
            c = self.of[med][0]
            s = F.alpha = ctx.real("sum so far", lo=0, hi=50)
            self.forget(F, "comp")
            yield self.cid[c][0]
            ctx.check("each pass adds the component's coefficient", ctx.eq(F.alpha, s + self.coef[c]))
            ctx.cover("pass")
            raise Over()
        F.alpha = self.total(med)
        self.forget(F, "k", "comp")

    def l_choice(self, F, med, *a):
        ctx = self.ctx
        self.range(med, a)
        if not self.of[med]:
            ctx.check("no choice in a clear medium", False)
        ctx.check("the running sum starts at nothing", ctx.and_(ctx.eq(F.running, 0), F.target >= 0))
        if self.stage == "choice":
            c = self.of[med][0]
            lo = F.running = self.below(c)
            t = self.target = F.target
            ctx.assume(t >= lo)
            yield self.cid[c][0]
            ctx.check("each pass adds the component's coefficient", ctx.eq(F.running, lo + self.coef[c]))
            ctx.check("passed over only when the target lies beyond", t >= lo + self.coef[c])
            ctx.cover("passed over")
            raise Over()
        F.running = self.total(med)
        ctx.assume(F.target >= F.running)
        ctx.check("the selection always stops at a component", False)
        raise core.Infeasible()


class Over(Exception):
    """the pass under study has ended"""
