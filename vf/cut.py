"""Loop contracts for Python functions: the real source, cut at the head of its one loop.

`Loop(fn)` parses the current source of fn and makes three functions of it - what runs
before the loop, one pass of its body, what runs after - each executed in fn's own
globals.  Nothing else is dropped: a check runs the first part, then one pass from an
arbitrary state satisfying the invariant, then the last part."""
import ast
import inspect
import textwrap

from vf.core import Unsupported


class Ret(Exception):
    pass


def _loops(stmts):
    return [i for i, s in enumerate(stmts) if isinstance(s, (ast.For, ast.While))]


class Loop:
    def __init__(self, fn, which=None):
        try:
            src = textwrap.dedent(inspect.getsource(fn))
            tree = ast.parse(src).body[0]
        except (OSError, TypeError, SyntaxError, IndexError) as e:
            raise Unsupported(f"no source: {e}")
        if not isinstance(tree, ast.FunctionDef):
            raise Unsupported("not a plain function")
        body = tree.body
        at = _loops(body)
        if not at or (which is None and len(at) != 1):
            raise Unsupported(f"{fn.__qualname__} has {len(at)} outer loops")
        at = at[0 if which is None else which]
        self.loop = loop = body[at]
        if loop.orelse:
            raise Unsupported("loop with else")
        self.generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(tree))
        self.fn, self.args = fn, tree.args
        self.names = sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                            {a.arg for a in tree.args.args + tree.args.kwonlyargs} |
                            ({tree.args.kwarg.arg} if tree.args.kwarg else set()) | ({tree.args.vararg.arg} if tree.args.vararg else set()))
        self.is_for = isinstance(loop, ast.For)
        self._prefix = self._make("__prefix__", body[:at], tree.args)
        self._suffix = self._env_fn("__suffix__", body[at + 1:])
        inner = list(loop.body)
        once = ast.For(target=ast.Name("__once__", ast.Store()), iter=ast.Tuple([ast.Constant(1)], ast.Load()), body=inner,
                       orelse=ast.parse("__flow__ = 'next'").body)
        head = ast.parse("__flow__ = 'break'").body
        if self.is_for:
            head.append(ast.Assign(targets=[loop.target], value=ast.Name("__item__", ast.Load())))
            self._iter = self._expr("__iter__", loop.iter)
        else:
            self._test = self._expr("__test__", loop.test)
        self._body = self._env_fn("__body__", head + [once])

    def _compile(self, fdef, name):
        mod = ast.Module([fdef], [])
        ast.fix_missing_locations(mod)
        out = {}
        exec(compile(mod, f"<{self.fn.__qualname__}: {name}>", "exec"), self.fn.__globals__, out)
        return out[name]

    def _locals(self):
        return ast.parse("return ('__env__', dict(locals()))").body

    def _make(self, name, stmts, args):
        gen = ast.parse("if 0: yield").body
        f = ast.FunctionDef(name=name, args=args, body=gen + list(stmts) + self._locals(), decorator_list=[], type_params=[])
        g = self._compile(f, name)
        g.__defaults__, g.__kwdefaults__ = self.fn.__defaults__, self.fn.__kwdefaults__
        return g

    def _env_fn(self, name, stmts, extra=()):
        # the environment arrives as keyword arguments; names not yet bound stay unbound
        pre = []
        for n in self.names + ["__item__"]:
            pre += ast.parse(f"if {n!r} in __e__: {n} = __e__[{n!r}]").body
        a = ast.arguments(posonlyargs=[], args=[ast.arg("__e__")], kwonlyargs=[], kw_defaults=[], defaults=[])
        gen = ast.parse("if 0: yield").body
        return self._compile(ast.FunctionDef(name=name, args=a, body=gen + pre + list(stmts) + self._locals(), decorator_list=[], type_params=[]), name)

    def _expr(self, name, e):
        return self._env_fn(name, [ast.Return(ast.Tuple([ast.Constant("__val__"), e], ast.Load()))])

    @staticmethod
    def _drive(g):
        ys = []
        try:
            while True:
                ys.append(next(g))
        except StopIteration as s:
            return ys, s.value

    def _run(self, g):
        ys, v = self._drive(g)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "__env__":
            env = {k: x for k, x in v[1].items() if k in self.names or k == "__flow__"}
            return ys, env, None
        return ys, None, (v,)

    def prefix(self, *a, **k):
        """-> yields, env (None when it returned), returned (1-tuple or None)"""
        return self._run(self._prefix(*a, **k))

    def body(self, env, item=None):
        """one pass -> yields, env after (with __flow__ 'next' or 'break'), returned"""
        e = dict(env)
        e["__item__"] = item
        return self._run(self._body(e))

    def suffix(self, env):
        return self._run(self._suffix({k: v for k, v in env.items() if k != "__flow__"}))

    def test(self, env):
        return self._drive(self._test(dict(env)))[1][1]

    def iter(self, env):
        return self._drive(self._iter(dict(env)))[1][1]

    def changed(self, before, after):
        """names bound before the loop that a pass rebinds (the state it carries)"""
        return sorted(k for k in before if k in after and after[k] is not before[k] and k != "__flow__")
