"""The compiled kernel under contract.

`/repo/pvtrace/engine/_kernel.pyx` is parsed on every run with Cython's own
parser and every cdef function is translated, node by node, into Python with C
semantics (frames, pointers with bounds, uninitialised variables, C integer
division and casts, IEEE division).  The result runs in the same engine as the
Python code.  Nothing is dropped except declarations without effect
(`inline`, `noexcept nogil`, directives) and docstrings.

The translation itself is validated on every run: the current pyx is compiled
in a scratch directory and both are executed on the same inputs
(`validate()`), including whole traces with the real random generator.
"""
import importlib.util
import math
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np

from . import core
from .core import SNum, SInt, SReal, SBool, Unsupported

PYX = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pvtrace/engine/_kernel.pyx")
U64MAX = (1 << 64) - 1


class Uninit(Exception):
    pass


class OutOfBounds(Exception):
    pass


class NullDeref(Exception):
    pass


# ------------------------------------------------------------------ values

class Frame:
    """the C locals of one call; reading a name that was never set is an error"""

    def __init__(self, fn):
        self.__dict__["_fn"] = fn

    def __getattr__(self, k):
        raise Uninit(f"{self.__dict__['_fn']}: read of unset variable")


class Struct:
    def __init__(self, kind, **k):
        self.__dict__["_kind"] = kind
        self.__dict__.update(k)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Uninit(f"read of unset field of {self.__dict__['_kind']}")


_UNSET = object()


class Arr:
    """an allocation: elements of one C type, fixed length"""

    def __init__(self, ctype, data, name):
        self.ctype, self.data, self.name = ctype, data, name

    def __len__(self):
        return len(self.data)


class Ptr:
    __slots__ = ("arr", "off")

    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off

    def __add__(self, k):
        return Ptr(self.arr, self.off + k)

    def __sub__(self, k):
        return Ptr(self.arr, self.off - k)

    def _ix(self, i, write):
        j = self.off + i
        n = len(self.arr)
        if isinstance(j, SInt):
            ctx = core.cur()
            ok = ctx.and_(j >= 0, j < n)
            ctx.check(f"access within {self.arr.name}", ok)
            ctx.assume(ok)
            j = ctx.concretise(j)
        elif isinstance(j, SNum):
            raise Unsupported("array index is not an integer")
        j = int(j)
        if not 0 <= j < n:
            raise OutOfBounds(f"{'write' if write else 'read'} at {j} of {self.arr.name}[{n}]")
        hook = LOG.get("access")
        if hook is not None:
            hook.add(self.arr.name)
        return j

    def __getitem__(self, i):
        j = self._ix(i, False)
        v = self.arr.data[j]
        if v is _UNSET:
            raise Uninit(f"read of unset element of {self.arr.name}")
        return v

    def __setitem__(self, i, v):
        j = self._ix(i, True)
        self.arr.data[j] = coerce(v, self.arr.ctype)
        hook = LOG.get("write")
        if hook is not None:
            hook.append((self.arr.name, j))

    def list(self, n=None):
        d = self.arr.data[self.off:] if n is None else self.arr.data[self.off:self.off + n]
        return list(d)


LOG = {}


class FieldPtr:
    """&x for a scalar local"""
    __slots__ = ("obj", "name", "ctype")

    def __init__(self, obj, name, ctype):
        self.obj, self.name, self.ctype = obj, name, ctype

    def __getitem__(self, i):
        if i != 0:
            raise OutOfBounds(f"offset {i} from &{self.name}")
        return getattr(self.obj, self.name)

    def __setitem__(self, i, v):
        if i != 0:
            raise OutOfBounds(f"offset {i} from &{self.name}")
        setattr(self.obj, self.name, coerce(v, self.ctype))


def alloc(ctype, n, name):
    return Ptr(Arr(ctype, [_UNSET] * n, name))


def arr(ctype, values, name):
    """a table handed to the kernel"""
    return Ptr(Arr(ctype, [coerce(v, ctype) for v in values], name))


def D(x):
    """as a C double"""
    if isinstance(x, SNum):
        return core.toR(x).nps()
    if isinstance(x, SBool):
        return core.toR(x.asint()).nps()
    if isinstance(x, (U64, UInt)):
        return x.todouble()
    return float(x)


def coerce(v, t):
    if t == "double":
        return D(v)
    if t == "ull":
        return ull(v)
    if t in ("int", "long", "llong", "bint"):
        if isinstance(v, SBool):
            return v.asint()
        if isinstance(v, (bool, np.integer)):
            return int(v)
        if isinstance(v, (U64, UInt)):
            raise Unsupported("narrowing of an unsigned value")
        if isinstance(v, (float, SReal)):
            raise Unsupported("implicit conversion of a double to an integer")
        return v
    if t == "uchar":
        if isinstance(v, int):
            return v & 255
        return v
    return v


class UInt(int):
    """concrete unsigned long long"""

    def _w(f):
        def g(self, o):
            return UInt(getattr(int, f)(int(self), int(o)) & U64MAX)
        return g
    __add__ = __radd__ = _w("__add__")
    __xor__ = __rxor__ = _w("__xor__")
    __or__ = __ror__ = _w("__or__")
    __and__ = __rand__ = _w("__and__")
    __lshift__ = _w("__lshift__")
    __rshift__ = _w("__rshift__")
    __sub__ = _w("__sub__")

    def __mul__(self, o):
        if isinstance(o, float):
            return float(int(self)) * o
        return UInt((int(self) * int(o)) & U64MAX)
    __rmul__ = __mul__

    def todouble(self):
        return float(int(self))


class U64:
    """symbolic unsigned long long (a z3 bit-vector)"""

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        import z3
        return o.e if isinstance(o, U64) else z3.BitVecVal(int(o), 64)

    def __add__(self, o):
        return U64(self.e + self._o(o))
    __radd__ = __add__

    def __xor__(self, o):
        return U64(self.e ^ self._o(o))

    def __or__(self, o):
        return U64(self.e | self._o(o))

    def __lshift__(self, o):
        return U64(self.e << self._o(o))

    def __rshift__(self, o):
        import z3
        return U64(z3.LShR(self.e, self._o(o)))

    def __mul__(self, o):
        if isinstance(o, float):
            return U64Scaled(self.e, o)
        return U64(self.e * self._o(o))
    __rmul__ = __mul__

    def todouble(self):
        return U64Scaled(self.e, 1.0)


class U64Scaled:
    """(double)u * scale, kept exact for the contract of the generator"""

    def __init__(self, e, scale):
        self.e, self.scale = e, scale

    def __mul__(self, o):
        return U64Scaled(self.e, self.scale * o)


def ull(v):
    if isinstance(v, (U64, UInt)):
        return v
    if isinstance(v, SNum):
        return v          # only passed on (seed + i); not interpreted
    return UInt(int(v) & U64MAX)


# ------------------------------------------------------------------ operators

def div(a, b):
    """double division"""
    if isinstance(a, SNum) or isinstance(b, SNum):
        return core.div(np.float64(a) if not isinstance(a, SNum) else a, np.float64(b) if not isinstance(b, SNum) else b)
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def surely(a, lo):
    """a >= lo follows from what is known of its own variables"""
    if not isinstance(a, SInt):
        return a >= lo
    import z3

    def vs(e):
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        return out
    own = vs(a.e)
    s = z3.Solver()
    s.set("timeout", 2000)
    todo = list(core.cur().pc)
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo.extend(c.children())
        elif vs(c) <= own:
            s.add(c)
    s.add(a.e < lo)
    return s.check() == z3.unsat


def idiv(a, b):
    """C integer division (truncates)"""
    if isinstance(a, SInt) or isinstance(b, SInt):
        if bool(b == 0):
            raise Undefined("integer division by zero")
        if (surely(a, 0) or bool(a >= 0)) and (surely(b, 1) or bool(b > 0)):
            return a // b
        raise Unsupported("C division of negative symbolic integers")
    if b == 0:
        raise Undefined("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def imod(a, b):
    return a - idiv(a, b) * b


class Undefined(Exception):
    """C undefined behaviour"""


def d2i(x, t="int"):
    """cast of a double to an integer type: truncation; undefined outside its range"""
    lim = {"int": 31, "long": 63, "llong": 63, "uchar": 8}.get(t, 31)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        ctx = core.cur()
        ok = ctx.and_(x > -float(2 ** lim) - 1, x < float(2 ** lim))
        ctx.check("conversion of a number to an integer stays in range", ok)
        ctx.assume(ok)
        return core.f_trunc(x.py())
    if isinstance(x, float):
        if x != x or not -float(2 ** lim) - 1 < x < float(2 ** lim):
            raise Undefined(f"conversion of {x} to {t}")
        return int(x)
    return int(x)


def pow_(a, k):
    if isinstance(a, SNum):
        return core.f_pow(a, k)
    with np.errstate(all="ignore"):
        return float(np.float64(a) ** k)


def _np1(f):
    def g(x):
        with np.errstate(all="ignore"):
            return float(f(np.float64(x)))
    return g


def sqrt(x):
    return core.f_sqrt(D(x)) if isinstance(x, SNum) else _np1(np.sqrt)(x)


def sin(x):
    return core.f_trig(x)[0] if isinstance(x, SNum) else math.sin(x) if math.isfinite(x) else math.nan


def cos(x):
    return core.f_trig(x)[1] if isinstance(x, SNum) else math.cos(x) if math.isfinite(x) else math.nan


def asin(x):
    return core.f_arcsin(D(x)) if isinstance(x, SNum) else _np1(np.arcsin)(x)


def acos(x):
    return core.f_arccos(D(x)) if isinstance(x, SNum) else _np1(np.arccos)(x)


def log(x):
    return core.f_log(D(x)) if isinstance(x, SNum) else _np1(np.log)(x)


def exp(x):
    return core.f_exp(D(x)) if isinstance(x, SNum) else _np1(np.exp)(x)


def floor(x):
    return D(core.f_floor(x)) if isinstance(x, SNum) else (float(math.floor(x)) if math.isfinite(x) else x)


def fabs(x):
    return core.f_abs(x) if isinstance(x, SNum) else abs(x)


def fmin(a, b):
    return a if bool(a <= b) else b


def fmax(a, b):
    return a if bool(a >= b) else b


LIBM = {"sqrt": sqrt, "sin": sin, "cos": cos, "asin": asin, "acos": acos, "log": log, "fabs": fabs, "exp": exp, "floor": floor, "fmin": fmin, "fmax": fmax}
CONST = {"INFINITY": math.inf, "M_PI": math.pi, "NAN": math.nan}


def crange(F, key, *a):
    h = LOG.get("for")
    if h is not None:
        g = h(F, key, *a)
        if g is not None:
            return g
    h = LOG.get("range")
    if h is not None:
        g = h(*a)
        if g is not None:
            return g
    a = [core.cur().concretise(x) if isinstance(x, SInt) else int(x) for x in a]
    return range(*a)


class Stop(Exception):
    """end of a path at a loop head (the invariant has been re-established)"""


def head(F, key):
    h = LOG.get("head")
    if h is not None:
        return h(F, key)
    return True


# ------------------------------------------------------------------ translation

TYPES = {("int", 1, 0): "int", ("int", 1, 1): "long", ("int", 1, 2): "llong", ("int", 0, 2): "ull", ("int", 0, 0): "uint",
         ("char", 0, 0): "uchar", ("char", 1, 0): "char", ("double", 1, 0): "double", ("void", 1, 0): "void", ("bint", 1, 0): "bint",
         ("long", 1, 0): "long"}
RANK = {"bint": 0, "uchar": 0, "char": 0, "int": 1, "long": 2, "llong": 3, "ull": 4, "double": 5}


class Untranslatable(Exception):
    pass


def base_type(n, structs):
    if type(n).__name__ == "TemplatedTypeNode":
        return "obj"
    key = (n.name, n.signed, n.longness)
    if key in TYPES:
        return TYPES[key]
    if n.name in structs:
        return "struct " + n.name
    return "obj"


def declare(d, t):
    """declarator + base type -> (name, ctype, default node, size node)"""
    k = type(d).__name__
    if k == "CNameDeclaratorNode":
        return d.name, t, d.default, None
    if k == "CPtrDeclaratorNode":
        nm, tt, df, sz = declare(d.base, t + "*")
        return nm, tt, df if df is not None else getattr(d, "default", None), sz
    if k == "CArrayDeclaratorNode":
        nm, tt, df, _ = declare(d.base, t)
        return nm, tt + "[]", df, d.dimension
    raise Untranslatable("declarator " + k)


class Fn:
    """translator for one function"""

    def __init__(self, mod, node):
        self.mod, self.node = mod, node
        self.lines = []
        self.ind = 1
        self.types = {}
        self.loops = 0
        self.fors = 0

    def emit(self, s):
        self.lines.append("    " * self.ind + s)

    # -- expressions: (code, ctype)
    def ex(self, n):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Untranslatable("expression " + k)
        return m(n)

    def e_NameNode(self, n):
        if n.name in self.types:
            return f"F.{n.name}", self.types[n.name]
        if n.name in self.mod.globals:
            return f"G.{n.name}", self.mod.globals[n.name]
        if n.name in CONST:
            return f"K.CONST[{n.name!r}]", "double"
        if n.name in self.mod.funcs:
            return f"G.{n.name}", "fn"
        if n.name in ("True", "False"):
            return n.name, "int"
        raise Untranslatable("name " + n.name)

    def e_IntNode(self, n):
        return str(int(n.value, 0)), "int"

    def e_BoolNode(self, n):
        return ("1" if n.value else "0"), "int"

    def e_FloatNode(self, n):
        return repr(float(n.value)), "double"

    def e_NullNode(self, n):
        return "None", "null"

    def e_AttributeNode(self, n):
        o, t = self.ex(n.obj)
        s = t.replace("struct ", "").rstrip("*")
        if s in self.mod.structs:
            f = self.mod.structs[s]
            if n.attribute not in f:
                raise Untranslatable("field " + n.attribute)
            return f"{o}.{n.attribute}", f[n.attribute]
        raise Untranslatable("attribute " + n.attribute)

    def e_IndexNode(self, n):
        b, t = self.ex(n.base)
        i, it = self.ex(n.index)
        el = t[:-2] if t.endswith("[]") else t[:-1] if t.endswith("*") else None
        if el is None:
            raise Untranslatable("indexing " + t)
        return f"{b}[{i}]", el

    def binary(self, n, op):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        if ta.endswith(("*", "[]")) or tb.endswith(("*", "[]")):
            pt = ta if ta.endswith(("*", "[]")) else tb
            if op not in ("+", "-") or (ta.endswith(("*", "[]")) and tb.endswith(("*", "[]"))):
                raise Untranslatable("pointer arithmetic")
            if pt is tb and not ta.endswith(("*", "[]")):
                a, b = b, a
            return f"({a} {op} {b})", pt.replace("[]", "*")
        if ta not in RANK or tb not in RANK:
            raise Untranslatable(f"operands {ta} {tb}")
        t = ta if RANK[ta] >= RANK[tb] else tb
        if t in ("bint", "uchar", "char"):
            t = "int"
        if t == "double":
            a, b = self.conv(a, ta, "double"), self.conv(b, tb, "double")
        elif t == "ull":
            a = f"K.ull({a})" if ta != "ull" else a
            b = f"K.ull({b})" if tb != "ull" and op not in ("<<", ">>") else b
        return f"({a} {op} {b})", t

    def conv(self, c, t, to):
        if t == to:
            return c
        if to == "double":
            return f"K.D({c})"
        return c

    def e_AddNode(self, n):
        return self.binary(n, "+")

    def e_SubNode(self, n):
        return self.binary(n, "-")

    def e_MulNode(self, n):
        return self.binary(n, "*")

    def e_DivNode(self, n):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        if "double" in (ta, tb):
            return f"K.div({self.conv(a, ta, 'double')}, {self.conv(b, tb, 'double')})", "double"
        if n.operator == "/":      # language_level=3: true division of C integers
            return f"K.div(K.D({a}), K.D({b}))", "double"
        t = ta if RANK[ta] >= RANK[tb] else tb
        return f"K.idiv({a}, {b})", t

    def e_ModNode(self, n):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        if "double" in (ta, tb):
            raise Untranslatable("fmod")
        return f"K.imod({a}, {b})", ta if RANK[ta] >= RANK[tb] else tb

    def e_PowNode(self, n):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        if tb != "int" or ta != "double":
            raise Untranslatable("power")
        return f"K.pow_({a}, {b})", "double"

    def e_IntBinopNode(self, n):
        return self.binary(n, n.operator)

    def e_BitwiseOrNode(self, n):
        return self.binary(n, "|")

    def e_UnaryMinusNode(self, n):
        a, t = self.ex(n.operand)
        return f"(-{a})", "int" if t in ("bint", "uchar") else t

    def e_UnaryPlusNode(self, n):
        return self.ex(n.operand)

    def e_NotNode(self, n):
        a, t = self.ex(n.operand)
        return f"(not {self.truth(a, t)})", "bint"

    def truth(self, a, t):
        if t.endswith(("*", "[]")):
            return f"({a} is not None)"
        return f"bool({a} != 0)" if t == "ull" else a

    def e_PrimaryCmpNode(self, n):
        out = []
        a, ta = self.ex(n.operand1)
        cur = n
        while cur is not None:
            b, tb = self.ex(cur.operand2)
            op = cur.operator
            if ta == "null" or tb == "null":
                if op not in ("==", "!="):
                    raise Untranslatable("null comparison")
                p = a if tb == "null" else b
                out.append(f"({p} is {'not ' if op == '!=' else ''}None)")
            else:
                if op not in ("==", "!=", "<", "<=", ">", ">="):
                    raise Untranslatable("comparison " + op)
                out.append(f"({a} {op} {b})")
            a, ta = b, tb
            cur = cur.cascade
        return "(" + " and ".join(out) + ")", "bint"

    def e_BoolBinopNode(self, n):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        return f"({self.truth(a, ta)} {n.operator} {self.truth(b, tb)})", "bint"

    def e_CondExprNode(self, n):
        c, tc = self.ex(getattr(n, "condition", None) or n.test)
        a, ta = self.ex(n.true_val)
        b, tb = self.ex(n.false_val)
        t = ta if RANK.get(ta, 9) >= RANK.get(tb, 9) else tb
        if t == "double":
            a, b = self.conv(a, ta, t), self.conv(b, tb, t)
        return f"({a} if {self.truth(c, tc)} else {b})", t

    def e_TypecastNode(self, n):
        nm, t, _, _ = declare(n.declarator, base_type(n.base_type, self.mod.structs))
        a, ta = self.ex(n.operand)
        return self.cast(a, ta, t), t

    def cast(self, a, ta, t):
        if t == ta:
            return a
        if t == "double":
            return f"K.D({a})"
        if t == "ull":
            return f"K.ull({a})"
        if t in ("int", "long", "llong", "uchar"):
            if ta == "double":
                return f"K.d2i({a}, {t!r})"
            if t == "uchar":
                return f"K.coerce({a}, 'uchar')"
            return a
        raise Untranslatable(f"cast {ta} to {t}")

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == "NameNode":
            t = self.types[o.name]
            if t.startswith("struct ") and "*" not in t:
                return f"F.{o.name}", t + "*"
            return f"K.FieldPtr(F, {o.name!r}, {t!r})", t + "*"
        if type(o).__name__ == "IndexNode":
            b, t = self.ex(o.base)
            i, _ = self.ex(o.index)
            return f"({b} + {i})", t.replace("[]", "*")
        if type(o).__name__ == "AttributeNode":
            s, _ = self.ex(o.obj)
            _, t = self.ex(o)
            return f"K.FieldPtr({s}, {o.attribute!r}, {t!r})", t + "*"
        raise Untranslatable("address of")

    def e_SimpleCallNode(self, n):
        if type(n.function).__name__ != "NameNode":
            raise Untranslatable("call")
        nm = n.function.name
        args = [self.ex(a) for a in n.args]
        if nm in LIBM:
            return f"K.LIBM[{nm!r}]({', '.join(self.conv(c, t, 'double') for c, t in args)})", "double"
        if nm in self.mod.sigs:
            ret, ats = self.mod.sigs[nm]
            cs = []
            for (c, t), (_, want) in zip(args, ats):
                cs.append(self.store(c, t, want))
            return f"G.{nm}({', '.join(cs)})", ret
        if nm in ("abs",):
            return f"abs({args[0][0]})", args[0][1]
        if nm in ("min", "max") and len(args) == 2:
            (a, ta), (b, tb) = args
            t = ta if RANK[ta] >= RANK[tb] else tb
            op = "<=" if nm == "min" else ">="
            return f"({a} if ({a}) {op} ({b}) else {b})", t
        raise Untranslatable("call of " + nm)

    def store(self, c, t, want):
        if want == t:
            return c
        if want == "double":
            return f"K.D({c})"
        if want == "ull":
            return f"K.ull({c})"
        if want in ("int", "long", "llong", "bint", "uchar") and t == "double":
            return f"K.d2i({c}, {want!r})"
        if want in ("uchar", "bint", "int", "long", "llong"):
            return f"K.coerce({c}, {want!r})"
        return c

    # -- statements
    def st(self, n):
        k = type(n).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Untranslatable("statement " + k)
        m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.st(s)

    def s_PassStatNode(self, n):
        self.emit("pass")

    def s_CVarDefNode(self, n):
        bt = base_type(n.base_type, self.mod.structs)
        for d in n.declarators:
            nm, t, df, sz = declare(d, bt)
            self.types[nm] = t
            if sz is not None:
                c, _ = self.ex(sz)
                self.emit(f"F.{nm} = K.alloc({t[:-2]!r}, {c}, {self.name + '.' + nm!r})")
            elif df is not None:
                c, ct = self.ex(df)
                self.emit(f"F.{nm} = {self.store(c, ct, t)}")
            elif t.startswith("struct ") and "*" not in t:
                self.emit(f"F.{nm} = K.Struct({t[7:]!r})")

    def assign(self, lhs, c, t):
        k = type(lhs).__name__
        if k == "NameNode":
            if lhs.name not in self.types:
                raise Untranslatable("assignment to " + lhs.name)
            self.emit(f"F.{lhs.name} = {self.store(c, t, self.types[lhs.name])}")
        elif k in ("AttributeNode", "IndexNode"):
            l, lt = self.ex(lhs)
            self.emit(f"{l} = {self.store(c, t, lt)}")
        else:
            raise Untranslatable("assignment target " + k)

    def s_SingleAssignmentNode(self, n):
        c, t = self.ex(n.rhs)
        self.assign(n.lhs, c, t)

    def s_CascadedAssignmentNode(self, n):
        c, t = self.ex(n.rhs)
        for l in n.lhs_list:
            self.assign(l, c, t)

    def s_ParallelAssignmentNode(self, n):
        tmp = []
        for i, s in enumerate(n.stats):
            c, t = self.ex(s.rhs)
            self.emit(f"_p{i} = {c}")
            tmp.append((s.lhs, f"_p{i}", t))
        for l, c, t in tmp:
            self.assign(l, c, t)

    def s_InPlaceAssignmentNode(self, n):
        class B:
            pass
        b = B()
        b.operand1, b.operand2, b.operator = n.lhs, n.rhs, n.operator
        if n.operator in ("/", "//"):
            c, t = self.e_DivNode(b)
        elif n.operator == "%":
            c, t = self.e_ModNode(b)
        else:
            c, t = self.binary(b, n.operator)
        self.assign(n.lhs, c, t)

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ("UnicodeNode", "BytesNode", "StringNode"):
            return
        c, _ = self.ex(n.expr)
        self.emit(c)

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.emit("return")
        else:
            c, t = self.ex(n.value)
            self.emit(f"return {self.store(c, t, self.ret)}")

    def block(self, b):
        self.ind += 1
        k = len(self.lines)
        self.st(b)
        if len(self.lines) == k:
            self.emit("pass")
        self.ind -= 1

    def s_IfStatNode(self, n):
        for i, cl in enumerate(n.if_clauses):
            c, t = self.ex(cl.condition)
            self.emit(f"{'if' if i == 0 else 'elif'} {self.truth(c, t)}:")
            self.block(cl.body)
        if n.else_clause is not None:
            self.emit("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        c, t = self.ex(n.condition)
        self.loops += 1
        self.emit(f"while K.head(F, {(self.name, self.loops)!r}) and {self.truth(c, t)}:")
        self.block(n.body)
        if n.else_clause is not None:
            raise Untranslatable("while-else")

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        if type(it).__name__ != "SimpleCallNode" or type(it.function).__name__ != "NameNode" or it.function.name != "range" or n.else_clause is not None:
            raise Untranslatable("for loop")
        args = ", ".join(self.ex(a)[0] for a in it.args)
        if type(n.target).__name__ != "NameNode" or n.target.name not in self.types:
            raise Untranslatable("loop variable")
        self.fors += 1
        self.emit(f"for F.{n.target.name} in K.crange(F, {(self.name, self.fors)!r}, {args}):")
        self.block(n.body)

    def s_BreakStatNode(self, n):
        self.emit("break")

    def s_ContinueStatNode(self, n):
        self.emit("continue")

    def translate(self):
        n = self.node
        d = n.declarator
        bt = base_type(n.base_type, self.mod.structs)
        while type(d).__name__ == "CPtrDeclaratorNode":
            bt += "*"
            d = d.base
        self.name = d.base.name
        self.ret = bt
        names = []
        for a in d.args:
            nm, t, _, _ = declare(a.declarator, base_type(a.base_type, self.mod.structs))
            self.types[nm] = t.replace("[]", "*")
            names.append(nm)
        self.emit(f"F = K.Frame({self.name!r})")
        for nm in names:
            t = self.types[nm]
            self.emit(f"F.{nm} = " + (f"K.coerce(a_{nm}, {t!r})" if t in RANK else f"a_{nm}"))
        self.st(n.body)
        return f"def {self.name}({', '.join('a_' + x for x in names)}):\n" + "\n".join(self.lines) + "\n"


NPTYPE = {"float64_t": "double", "int32_t": "int", "uint8_t": "uchar", "int64_t": "llong"}


class DefFn(Fn):
    """translator for the Python entry point: untyped expressions stay Python"""

    def nd(self, t):
        """cnp.ndarray[cnp.T, ndim=k] -> (ctype, ndim)"""
        el = NPTYPE[t.positional_args[0].attribute]
        kw = {i.key.value: int(i.value.value) for i in (t.keyword_args.key_value_pairs if t.keyword_args else [])}
        return el, kw.get("ndim", 1)

    def e_NameNode(self, n):
        try:
            return super().e_NameNode(n)
        except Untranslatable:
            return f"PY.{n.name}" if n.name == "np" else n.name, "obj"

    def e_AttributeNode(self, n):
        o, t = self.ex(n.obj)
        if t == "obj":
            return f"{o}.{n.attribute}", "shape" if n.attribute == "shape" else "obj"
        return super().e_AttributeNode(n)

    def e_IndexNode(self, n):
        b, t = self.ex(n.base)
        if t == "shape":
            return f"{b}[{self.ex(n.index)[0]}]", "long"
        if t == "obj":
            return f"{b}[{self.ex(n.index)[0]}]", "obj"
        return super().e_IndexNode(n)

    def e_SliceIndexNode(self, n):
        b, _ = self.ex(n.base)
        f = lambda x: self.ex(x)[0] if x is not None else ""
        return f"{b}[{f(n.start)}:{f(n.stop)}]", "obj"

    def binary(self, n, op):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        if "obj" in (ta, tb):
            return f"({a} {op} {b})", "obj"
        return super().binary(n, op)

    def e_SimpleCallNode(self, n):
        if type(n.function).__name__ == "NameNode" and (n.function.name in LIBM or n.function.name in self.mod.sigs):
            return super().e_SimpleCallNode(n)
        if type(n.function).__name__ == "NameNode" and n.function.name in ("max", "min"):
            return super().e_SimpleCallNode(n)
        if type(n.function).__name__ == "NameNode" and n.function.name == "threadid":
            return "K.threadid(F)", "int"
        f, _ = self.ex(n.function)
        return f"{f}({', '.join(self.ex(a)[0] for a in n.args)})", "obj"

    def e_GeneralCallNode(self, n):
        f, _ = self.ex(n.function)
        args = [self.ex(a)[0] for a in n.positional_args.args]
        args += [f"{i.key.value}={self.ex(i.value)[0]}" for i in n.keyword_args.key_value_pairs]
        return f"{f}({', '.join(args)})", "obj"

    def e_TupleNode(self, n):
        return "(" + ", ".join(self.ex(a)[0] for a in n.args) + ",)", "obj"

    def e_DictNode(self, n):
        return "{" + ", ".join(f"{self.ex(i.key)[0]}: {self.ex(i.value)[0]}" for i in n.key_value_pairs) + "}", "obj"

    def e_UnicodeNode(self, n):
        return repr(str(n.value)), "obj"

    e_IdentifierStringNode = e_UnicodeNode

    def e_JoinedStrNode(self, n):
        return repr("message"), "obj"

    def e_TypecastNode(self, n):
        nm, t, _, _ = declare(n.declarator, base_type(n.base_type, self.mod.structs))
        if t.endswith("*") and type(n.operand).__name__ == "AttributeNode" and n.operand.attribute == "data":
            o, _ = self.ex(n.operand.obj)
            return f"K.nd_ptr({o}, {t[:-1]!r}, {getattr(n.operand.obj, 'name', 'array')!r})", t
        a, ta = self.ex(n.operand)
        if ta == "obj":
            return f"K.coerce({a}, {t!r})", t
        return self.cast(a, ta, t), t

    def s_CVarDefNode(self, n):
        if type(n.base_type).__name__ == "TemplatedTypeNode":
            el, nd = self.nd(n.base_type)
            for d in n.declarators:
                self.types[d.name] = "obj"
                if d.default is not None:
                    self.emit(f"F.{d.name} = K.nd_check({self.ex(d.default)[0]}, {el!r}, {nd}, {d.name!r})")
            return
        super().s_CVarDefNode(n)

    def s_RaiseStatNode(self, n):
        self.emit(f"raise {self.ex(n.exc_type)[0]}")

    def s_GILStatNode(self, n):
        self.st(n.body)

    def s_ReturnStatNode(self, n):
        self.emit(f"return {self.ex(n.value)[0]}")

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        f = getattr(it, "function", None)
        if f is not None and getattr(f, "name", "") == "prange":
            pos = it.positional_args.args if type(it).__name__ == "GeneralCallNode" else it.args
            kw = it.keyword_args.key_value_pairs if type(it).__name__ == "GeneralCallNode" else []
            kws = [f"{i.key.value}={self.ex(i.value)[0]}" for i in kw if i.key.value == "num_threads"]
            self.emit(f"for F.{n.target.name} in K.prange(F, {", ".join([self.ex(a)[0] for a in pos] + kws)}):")
            self.block(n.body)
            return
        super().s_ForInStatNode(n)

    def translate(self):
        n = self.node
        self.name, self.ret = n.name, "obj"
        names = []
        self.checks = []
        for a in n.args:
            nm = a.declarator.name
            names.append(nm)
            if type(a.base_type).__name__ == "TemplatedTypeNode":
                el, nd = self.nd(a.base_type)
                self.types[nm] = "obj"
                self.emit_arg = f"K.nd_check(a_{nm}, {el!r}, {nd}, {nm!r})"
                self.checks.append((nm, self.emit_arg))
            else:
                t = "obj" if a.base_type.name is None else base_type(a.base_type, self.mod.structs)
                self.types[nm] = t
                self.checks.append((nm, f"K.coerce(a_{nm}, {t!r})" if t in RANK else f"a_{nm}"))
        self.emit(f"F = K.Frame({self.name!r})")
        for nm, c in self.checks:
            self.emit(f"F.{nm} = {c}")
        self.st(n.body)
        return f"def {self.name}({', '.join('a_' + x for x in names)}):\n" + "\n".join(self.lines) + "\n"


class _PY:
    np = np


PY = _PY()


class NdData:
    """the flat contents of a C-contiguous numpy array"""

    def __init__(self, a):
        self.a = a.reshape(-1)

    def __len__(self):
        return self.a.shape[0]

    def __getitem__(self, i):
        v = self.a[i]
        return v.item() if isinstance(v, np.generic) else v

    def __setitem__(self, i, v):
        self.a[i] = v


_DT = {"double": np.float64, "int": np.int32, "uchar": np.uint8, "llong": np.int64}


def nd_check(a, ctype, ndim, name):
    if hasattr(a, "vf_check"):
        return a.vf_check(ctype, ndim, name)
    if not isinstance(a, np.ndarray) or a.dtype != _DT[ctype] or a.ndim != ndim:
        raise ValueError(f"Buffer mismatch for {name}")
    return a


def nd_ptr(a, ctype, name):
    if hasattr(a, "vf_ptr"):
        return a.vf_ptr(ctype, name)
    if a.dtype != _DT[ctype]:
        raise Undefined(f"{name} is read as {ctype} but holds {a.dtype}")
    if not a.flags.c_contiguous:
        raise Undefined(f"{name} is not contiguous")
    p = Ptr(Arr(ctype, None, name))
    p.arr.data = NdData(a)
    return p


def prange(F, n, **k):
    h = LOG.get("prange")
    if h is not None:
        return h(F, n, **k)
    return range(n)


def threadid(F):
    h = LOG.get("threadid")
    return h(F) if h is not None else 0


class Module:
    """the translated kernel: functions as attributes"""

    def __init__(self, path=PYX):
        self.globals, self.structs, self.funcs, self.sigs = {}, {}, {}, {}
        self.errors = {}
        self.path = path
        self.source = {}
        code = open(path).read()
        from Cython.Compiler.TreeFragment import parse_from_strings
        tree = parse_from_strings("kernel", code)
        self.ns = {}
        self.defs = []
        pend = []
        for s in self._stats(tree.body):
            k = type(s).__name__
            if k == "CVarDefNode":
                bt = base_type(s.base_type, self.structs)
                for d in s.declarators:
                    nm, t, df, sz = declare(d, bt)
                    if df is not None and sz is None:
                        pend.append((nm, t, df))
                        self.globals[nm] = t
            elif k == "CEnumDefNode":
                v = 0
                for it in s.items:
                    if it.value is not None:
                        v = int(it.value.value, 0)
                    setattr(self, it.name, v)
                    self.globals[it.name] = "int"
                    v += 1
            elif k == "CStructOrUnionDefNode":
                f = {}
                self.structs[s.name] = f
                for a in s.attributes:
                    bt = base_type(a.base_type, self.structs)
                    for d in a.declarators:
                        nm, t, _, _ = declare(d, bt)
                        f[nm] = t
            elif k == "CFuncDefNode":
                d, bt = s.declarator, base_type(s.base_type, self.structs)
                while type(d).__name__ == "CPtrDeclaratorNode":
                    bt += "*"
                    d = d.base
                ats = []
                for a in d.args:
                    nm, t, _, _ = declare(a.declarator, base_type(a.base_type, self.structs))
                    ats.append((nm, t.replace("[]", "*")))
                self.sigs[d.base.name] = (bt, ats)
                self.funcs[d.base.name] = s
            elif k == "DefNode":
                self.defs.append(s)
        glob = {"K": sys.modules[__name__], "G": self}
        for nm, t, df in pend:
            f = Fn(self, None)
            f.name = nm
            c, ct = f.ex(df)
            setattr(self, nm, eval(f.store(c, ct, t), glob))
        for nm, s in self.funcs.items():
            try:
                src = Fn(self, s).translate()
                self.source[nm] = src
                ns = dict(glob)
                exec(compile(src, f"<kernel {nm}>", "exec"), ns)
                setattr(self, nm, ns[nm])
            except Exception as e:
                self.errors[nm] = f"{type(e).__name__}: {e}"

                def bad(*a, _nm=nm, _e=e):
                    raise Unsupported(f"kernel function {_nm} could not be translated: {_e}")
                setattr(self, nm, bad)
        for s in self.defs:
            try:
                src = DefFn(self, s).translate()
                self.source[s.name] = src
                ns = dict(glob)
                ns["PY"] = PY
                exec(compile(src, f"<kernel {s.name}>", "exec"), ns)
                setattr(self, s.name, ns[s.name])
            except Exception as e:
                self.errors[s.name] = f"{type(e).__name__}: {e}"

                def bad(*a, _nm=s.name, _e=e):
                    raise Unsupported(f"kernel function {_nm} could not be translated: {_e}")
                setattr(self, s.name, bad)

    def _stats(self, b):
        for s in getattr(b, "stats", [b]):
            if type(s).__name__ == "StatListNode":
                yield from self._stats(s)
            else:
                yield s


_M = None


def load():
    global _M
    if _M is None:
        _M = Module()
    return _M


# ------------------------------------------------------------------ compiled code

WRAP = {"double": "double", "int": "int", "long": "long", "double*": "double[::1]", "int*": "int[::1]"}


def compiled():
    """The current pyx compiled in a scratch directory, with a Python wrapper
    `_w_<f>` appended for every cdef function over plain numbers and arrays."""
    global _C
    if _C is not None:
        return _C
    m = load()
    tmp = tempfile.mkdtemp(prefix="vfk")
    try:
        src = open(m.path).read()
        out = [src, ""]
        for nm, (ret, args) in m.sigs.items():
            if ret not in ("double", "int", "void") or not all(t in WRAP for _, t in args):
                continue
            ps = ", ".join(f"{WRAP[t]} {a}" for a, t in args)
            cs = ", ".join(f"&{a}[0]" if t.endswith("*") else a for a, t in args)
            out.append(f"def _w_{nm}({ps}):\n    {'return ' if ret != 'void' else ''}{nm}({cs})\n")
        f = os.path.join(tmp, "vf_kernel_scratch.pyx")
        open(f, "w").write("\n".join(out))
        r = subprocess.run([sys.executable, "-B", "-c",
                            "import sys\nfrom Cython.Compiler.Main import compile, CompilationOptions\nr = compile(sys.argv[1], CompilationOptions(language_level=3))\nsys.exit(1 if r.num_errors else 0)", f],
                           capture_output=True, text=True, timeout=240)
        if r.returncode:
            raise RuntimeError("the kernel does not compile: " + r.stderr[-2000:])
        so = os.path.join(tmp, "vf_kernel_scratch" + sysconfig.get_config_var("EXT_SUFFIX"))
        r = subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-fopenmp", "-ffp-contract=off", "-I" + sysconfig.get_path("include"), "-I" + np.get_include(),
                            f[:-3] + "c", "-o", so, "-lm"], capture_output=True, text=True, timeout=240)
        if r.returncode:
            raise RuntimeError("the kernel does not compile: " + r.stderr[-2000:])
        spec = importlib.util.spec_from_file_location("vf_kernel_scratch", so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _C = mod
        return mod
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_C = None


def call(ctx, name, *args):
    """Call a kernel function: the translation when symbolic, the compiled
    function itself when concrete and callable with plain numbers and arrays."""
    m = load()
    if ctx.sym or _C is None or not hasattr(_C, "_w_" + name):
        return getattr(m, name)(*args)
    conv, back = [], []
    for a in args:
        if isinstance(a, Ptr):
            dt = np.float64 if a.arr.ctype == "double" else np.int32
            v = np.array([0 if x is _UNSET else x for x in a.arr.data], dtype=dt)
            keep = v.copy()
            sub_ = v[a.off:]
            if len(sub_) == 0:
                return getattr(m, name)(*args)
            conv.append(np.ascontiguousarray(sub_))
            back.append((a, conv[-1], keep))
        else:
            conv.append(a)
    r = getattr(_C, "_w_" + name)(*conv)
    for a, new, keep in back:
        for i in range(len(new)):
            j = a.off + i
            if a.arr.data[j] is not _UNSET or new[i] != keep[j]:
                a.arr.data[j] = new[i].item()
            elif a.arr.data[j] is _UNSET and new[i] == 0:
                a.arr.data[j] = 0.0 if a.arr.ctype == "double" else 0
    return r
