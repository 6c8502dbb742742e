"""Registry of contracts (harnesses)."""
import importlib

REG = {}
META = {}


class H:
    def __init__(self, prop, fn, functions, params, budget, replace, note, max_paths, conc, tier, feas, max_depth, deadline, bound=None, executed=False):
        self.prop, self.fn, self.name = prop, fn, fn.__name__
        self.functions = list(functions)
        self.params = params
        self.budget = budget
        self.note = note
        self.assumes = list(replace)
        self.max_paths = max_paths
        self.conc = conc
        self.tier = tier
        self.feas = feas
        self.max_depth = max_depth
        self.deadline = deadline
        self.bound = bound
        self.executed = executed


def harness(prop, functions=(), params=(None,), budget=20.0, assumes=(), note="", max_paths=4000, conc=None, tier="quick", feas=1.0, max_depth=400, deadline=None, bound=None, executed=False):
    """Declare a contract check.

    functions  dotted names of the repository functions executed (under contract)
    params     case split: the harness is run once per value
    assumes    contracts assumed in place of callees / trusted facts used here
    bound      stated bound when the harness covers inputs only up to a size (never counted as proved)
    executed   the contract is only checked while the real code runs (needs bound; never counted as proved)
    conc       number of concrete executions (None: default per tier; 0: none)
    """
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            h = H(p, fn, functions, list(params), budget, assumes, note, max_paths, conc, tier, feas, max_depth, deadline, bound, executed)
            REG.setdefault(p, {})[fn.__name__] = h
        return fn
    return deco


def meta(prop, **k):
    META.setdefault(prop, {}).update(k)


def load(prop):
    importlib.import_module("props." + prop.lower())
    return REG.get(prop, {})
