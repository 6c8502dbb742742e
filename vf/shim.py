"""Stand-ins for numpy / math / a few builtins, active only while a harness runs.

Symbolic mode: every ``pvtrace`` module sees NP in place of numpy.  A call whose
arguments hold no symbolic value goes to the real numpy; otherwise it goes to a
definition below (the *numpy contract*, listed as trusted in the evidence and
cross-checked against the real numpy by the concrete runs) or the path is
declared unsupported.
"""
import builtins
import contextlib
import math
import sys

import numpy as np
import z3

from . import core
from .core import (Proxy, SBool, SInt, SNum, SReal, Unsupported, as_np, be, cur,
                   f_abs, f_arccos, f_arcsin, f_exp, f_floor, f_log, f_sqrt, f_trig,
                   f_trunc, is_num, sb_and, sb_not, sb_or, toR, mk, num_e)

USED = set()          # numpy functions used on symbolic values (trusted contracts)


# ------------------------------------------------------------------ arrays

def norm_el(x):
    if isinstance(x, (SReal, SInt)):
        return x.nps()
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, int):
        return np.int64(x) if abs(x) < 2**62 else x
    return x


class SA(np.ndarray):
    """object array of numbers and proxies behaving like a float array"""
    __array_priority__ = 3000

    def tolist(self):
        if self.ndim == 0:
            return topy(self.item0())
        return [topy(v) for v in self] if self.ndim == 1 else [v.tolist() for v in self]

    def item0(self):
        return np.ndarray.item(self)

    def item(self, *a):
        return topy(np.ndarray.item(self, *a))

    def _map(self, f):
        out = np.empty(self.shape, dtype=object)
        fo, fi = out.reshape(-1), np.ndarray.reshape(self, -1)
        for i in range(fi.size):
            fo[i] = norm_el(f(np.ndarray.__getitem__(fi, i)))
        return out.view(SA)

    def _cmp(self, o, f):
        return zipmap(f, self, o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)
    __hash__ = None

    def __add__(self, o):
        return zipmap(lambda a, b: a + b, self, o)

    def __radd__(self, o):
        return zipmap(lambda a, b: b + a, self, o)

    def __sub__(self, o):
        return zipmap(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return zipmap(lambda a, b: b - a, self, o)

    def __mul__(self, o):
        return zipmap(lambda a, b: a * b, self, o)

    def __rmul__(self, o):
        return zipmap(lambda a, b: b * a, self, o)

    def __truediv__(self, o):
        return zipmap(_div, self, o)

    def __rtruediv__(self, o):
        return zipmap(lambda a, b: _div(b, a), self, o)

    def __floordiv__(self, o):
        return zipmap(lambda a, b: a // b, self, o)

    def __mod__(self, o):
        return zipmap(lambda a, b: a % b, self, o)

    def __pow__(self, o):
        return zipmap(lambda a, b: core.f_pow(a, b) if isinstance(a, Proxy) else a ** b, self, o)

    def __neg__(self):
        return self._map(lambda a: -a)

    def __abs__(self):
        return self._map(lambda a: abs(a))

    def __invert__(self):
        return self._map(sb_not)

    def __and__(self, o):
        return zipmap(lambda a, b: sb_and(a, b), self, o)

    def __or__(self, o):
        return zipmap(lambda a, b: sb_or(a, b), self, o)

    def __iadd__(self, o):
        self[...] = self + o
        return self

    def __isub__(self, o):
        self[...] = self - o
        return self

    def __imul__(self, o):
        self[...] = self * o
        return self

    def __itruediv__(self, o):
        self[...] = self / o
        return self

    def __matmul__(self, o):
        return n_dot(self, o)

    def __rmatmul__(self, o):
        return n_dot(o, self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(np.ndarray.reshape(self, -1)[0])

    def __getitem__(self, k):
        if isinstance(k, (SInt,)):
            k = index_of(k, self.shape[0])
        elif isinstance(k, SA):
            if k.dtype == object and k.size and isinstance(np.ndarray.reshape(k, -1).view(np.ndarray)[0], (SBool, bool, np.bool_)):
                k = np.array([bool(v) for v in np.ndarray.reshape(k, -1).view(np.ndarray)]).reshape(k.shape)
            else:
                k = np.array([int(v) if not isinstance(v, SInt) else index_of(v, self.shape[0]) for v in k.view(np.ndarray)], dtype=int)
        elif isinstance(k, SReal):
            raise IndexError("only integers, slices...")
        elif isinstance(k, tuple):
            k = tuple(index_of(j, self.shape[i]) if isinstance(j, SInt) else j for i, j in enumerate(k))
        return np.ndarray.__getitem__(self, k)

    def __setitem__(self, k, v):
        if isinstance(k, SInt):
            k = index_of(k, self.shape[0])
        if isinstance(k, SA):
            k = np.array([bool(b) for b in k.view(np.ndarray)])
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            v = n_array(v)
        else:
            v = norm_el(v)
        np.ndarray.__setitem__(self, k, v)

    def dot(self, o):
        return n_dot(self, o)

    def sum(self, axis=None, **k):
        return n_sum(self, axis=axis)

    def any(self, *a, **k):
        return n_any(self)

    def all(self, *a, **k):
        return n_all(self)

    def min(self, *a, **k):
        return n_min(self)

    def max(self, *a, **k):
        return n_max(self)

    def mean(self, *a, **k):
        return n_sum(self) / self.size

    def copy(self, *a, **k):
        return np.ndarray.copy(self).view(SA)

    def astype(self, dt, *a, **k):
        dt = unshim(dt)
        if dt in (float, np.float64):
            return self._map(lambda v: as_np(toR(v)))
        if dt in (int, np.int64, np.int32, np.intp):
            return self._map(f_trunc)
        if dt in (bool, np.bool_):
            return self._map(lambda v: v != 0)
        raise Unsupported(f"astype {dt}")


def index_of(k, n):
    return k.__index__()


def topy(v):
    if isinstance(v, (SReal, SInt)):
        return v.py()
    if isinstance(v, np.generic):
        return v.item()
    return v


def _div(a, b):
    if isinstance(a, Proxy) or isinstance(b, Proxy):
        return a / b if isinstance(a, Proxy) else b.__rtruediv__(a)
    with np.errstate(all="ignore"):
        return np.float64(a) / np.float64(b)


def sym(x, depth=0):
    """does x hold a symbolic value?"""
    if isinstance(x, Proxy):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(sym(v) for v in x.reshape(-1).view(np.ndarray))
        return False
    if depth < 4 and isinstance(x, (tuple, list)):
        return any(sym(v, depth + 1) for v in x)
    if depth < 4 and type(x).__name__ in ("map", "generator", "zip", "filter"):
        return False
    return False


def unshim(x):
    if x is SymFloat:
        return float
    if x is SymInt:
        return int
    return x


def desym(x):
    """drop the SA wrapper of an all-concrete argument"""
    if isinstance(x, SA):
        b = x.view(np.ndarray)
        try:
            return np.array(b.tolist())
        except Exception:
            return b
    if isinstance(x, list):
        return [desym(v) for v in x]
    if type(x) is tuple:
        return tuple(desym(v) for v in x)
    return unshim(x)


def resym(x):
    """results that may later be filled with symbolic values"""
    if isinstance(x, np.ndarray) and type(x) is np.ndarray and x.dtype == np.float64 and x.size <= 4096:
        return x.astype(object)._sa() if False else _to_sa(x)
    return x


def _to_sa(x):
    out = np.empty(x.shape, dtype=object)
    fo, fi = out.reshape(-1), x.reshape(-1)
    for i in range(fi.size):
        fo[i] = norm_el(fi[i])
    return out.view(SA)


def n_array(a, dtype=None, copy=None, **k):
    dtype = unshim(dtype)
    if isinstance(a, SNum) or isinstance(a, SBool):
        out = np.empty((), dtype=object)
        out[()] = norm_el(a)
        return out.view(SA)
    if isinstance(a, SA):
        r = a.copy()
    else:
        if isinstance(a, (tuple, list)):
            a = [x.tolist0() if False else x for x in a]
        shp = _shape(a)
        out = np.empty(shp, dtype=object)
        _fill(out, a)
        r = out.view(SA)
    if dtype in (float, np.float64):
        return r.astype(float)
    if dtype in (int, np.int64, np.int32, np.uint64):
        return r.astype(int)
    if any(isinstance(v, (SReal, float, np.floating)) for v in r.reshape(-1).view(np.ndarray)):
        return r._map(lambda v: as_np(toR(v)) if isinstance(v, (SInt, int, np.integer)) and not isinstance(v, (bool, np.bool_)) else v)
    return r


def _shape(a):
    if isinstance(a, np.ndarray):
        return a.shape
    if isinstance(a, (tuple, list)):
        if not a:
            return (0,)
        s = [_shape(v) for v in a]
        if any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(a),) + s[0]
    return ()


def _fill(out, a):
    if out.ndim == 0:
        v = a
        if isinstance(a, np.ndarray):
            v = a.reshape(-1).view(np.ndarray)[0]
        out[()] = norm_el(v)
        return
    for i in range(out.shape[0]):
        v = a[i]
        if out.ndim == 1:
            if isinstance(v, np.ndarray):
                v = v.reshape(-1).view(np.ndarray)[0]
            out[i] = norm_el(v)
        else:
            _fill(out[i], v)


def arr(a):
    return a if isinstance(a, SA) else n_array(a)


def out1(r):
    """0-d -> scalar"""
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.view(np.ndarray)[()]
    return r


def zipmap(f, a, b):
    A, B = arr(a), arr(b)
    A0, B0 = A.view(np.ndarray), B.view(np.ndarray)
    bc = np.broadcast(A0, B0)
    out = np.empty(bc.shape, dtype=object)
    fo = out.reshape(-1)
    Ab = np.broadcast_to(A0, bc.shape).reshape(-1)
    Bb = np.broadcast_to(B0, bc.shape).reshape(-1)
    with np.errstate(all="ignore"):
        for i in range(fo.size):
            fo[i] = norm_el(f(Ab[i], Bb[i]))
    return out1(out.view(SA))


def elementwise(f):
    def g(x, *a, **k):
        if k.get("out") is not None:
            raise Unsupported("out=")
        if isinstance(x, (SNum, SBool)):
            return norm_el(f(x))
        if is_num(x):
            return norm_el(f(x))
        return out1(arr(x)._map(f))
    return g


def binary(f):
    def g(a, b, *r, **k):
        if isinstance(a, (SNum, SBool)) and (isinstance(b, (SNum, SBool)) or is_num(b)) or is_num(a) and isinstance(b, (SNum, SBool)):
            return norm_el(f(a, b))
        return zipmap(f, a, b)
    return g


def n_dot(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return out1(a * b)
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError("shapes not aligned")
        return cur().define(_sum([x * y for x, y in zip(A, B)]))
    if A.ndim == 2 and B.ndim == 1:
        if A.shape[1] != B.shape[0]:
            raise ValueError("shapes not aligned")
        return n_array([_sum([x * y for x, y in zip(row, B)]) for row in A])
    if A.ndim == 1 and B.ndim == 2:
        return n_array([_sum([x * y for x, y in zip(A, B[:, j])]) for j in range(B.shape[1])])
    if A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError("shapes not aligned")
        return n_array([[_sum([x * y for x, y in zip(row, B[:, j])]) for j in range(B.shape[1])] for row in A])
    raise Unsupported("dot of higher rank")


def _sum(vs):
    r = np.float64(0.0)
    for v in vs:
        r = r + v
    return norm_el(r)


def n_sum(a, axis=None, **k):
    a = arr(a)
    if axis is None:
        return _sum([v.asint() if isinstance(v, SBool) else v for v in np.ndarray.reshape(a, -1).view(np.ndarray)])
    if a.ndim == 1 and axis in (0, -1):
        return n_sum(a)
    if a.ndim == 2:
        A = a.view(np.ndarray)
        if axis in (0,):
            return n_array([_sum(list(A[:, j])) for j in range(A.shape[1])])
        return n_array([_sum(list(r)) for r in A])
    raise Unsupported("sum axis")


def n_any(a, *r, **k):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return a != 0 if isinstance(a, SNum) else a
    return _b(sb_or(*[x if isinstance(x, (SBool, bool, np.bool_)) else x != 0 for x in np.ndarray.reshape(arr(a), -1).view(np.ndarray)]))


def n_all(a, *r, **k):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return a != 0 if isinstance(a, SNum) else a
    return _b(sb_and(*[x if isinstance(x, (SBool, bool, np.bool_)) else x != 0 for x in np.ndarray.reshape(arr(a), -1).view(np.ndarray)]))


def _b(x):
    return np.bool_(x) if isinstance(x, bool) else x


def n_norm(v, ord=None, axis=None, **k):
    if ord is not None:
        raise Unsupported("norm ord")
    a = arr(v)
    if axis is None:
        vs = list(np.ndarray.reshape(a, -1).view(np.ndarray))
        return f_sqrt(cur().define(as_np(toR(_sum([x * x for x in vs])))))
    if a.ndim == 2 and axis in (1, -1):
        r = n_array([f_sqrt(as_np(toR(_sum([x * x for x in row])))) for row in a.view(np.ndarray)])
        return r.reshape(-1, 1) if k.get("keepdims") else r
    raise Unsupported("norm axis")


def n_isclose1(a, b, rtol=1e-5, atol=1e-8):
    if is_num(a) and is_num(b):
        return np.bool_(np.isclose(a, b, rtol, atol))
    for x, y in ((a, b), (b, a)):
        if is_num(x) and not math.isfinite(x):
            return np.bool_(False)
    d = a - b
    if not isinstance(d, Proxy):
        d = float(d)
    if is_num(b):
        tol = atol + rtol * abs(float(b))
    else:
        tol = atol + rtol * f_abs(b)
    return sb_and(d <= tol, -d <= tol)


def n_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return binary(lambda x, y: n_isclose1(x, y, rtol, atol))(a, b)


def n_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return n_all(zipmap(lambda x, y: n_isclose1(x, y, rtol, atol), a, b))


def n_where(c, *xy):
    if not xy:
        a = arr(c)
        if a.ndim != 1:
            raise Unsupported("where nd")
        return (np.array([i for i, v in enumerate(a.view(np.ndarray)) if bool(v if isinstance(v, (SBool, bool, np.bool_)) else v != 0)], dtype=int),)
    x, y = xy
    if isinstance(c, (SBool, bool, np.bool_)) and not isinstance(x, (np.ndarray, list, tuple)) and not isinstance(y, (np.ndarray, list, tuple)):
        return norm_el(cur().ite(c, x, y))
    C = arr(c)
    n = max(C.size, arr(x).size, arr(y).size)
    if C.ndim > 1 or arr(x).ndim > 1:
        raise Unsupported("where nd")
    X, Y, CC = [np.broadcast_to(arr(v).view(np.ndarray), (n,)) for v in (x, y, c)]
    return n_array([cur().ite(CC[i], X[i], Y[i]) for i in range(n)])


def n_min(a, b=None, **k):
    vs = list(np.ndarray.reshape(arr(a), -1).view(np.ndarray))
    m = vs[0]
    for v in vs[1:]:
        m = v if bool(v < m) else m
    return m


def n_max(a, b=None, **k):
    vs = list(np.ndarray.reshape(arr(a), -1).view(np.ndarray))
    m = vs[0]
    for v in vs[1:]:
        m = v if bool(v > m) else m
    return m


def n_argmin(a, **k):
    vs = list(np.ndarray.reshape(arr(a), -1).view(np.ndarray))
    j = 0
    for i, v in enumerate(vs):
        if bool(v < vs[j]):
            j = i
    return np.int64(j)


def n_argmax(a, **k):
    vs = list(np.ndarray.reshape(arr(a), -1).view(np.ndarray))
    j = 0
    for i, v in enumerate(vs):
        if bool(v > vs[j]):
            j = i
    return np.int64(j)


def n_sort(a, **k):
    vs = list(arr(a).view(np.ndarray))
    return n_array(_isort(vs, lambda x: x))


def n_argsort(a, **k):
    vs = list(enumerate(arr(a).view(np.ndarray)))
    return np.array([i for i, _ in _isort(vs, lambda p: p[1])], dtype=int)


def _isort(vs, key):
    out = []
    for v in vs:
        i = len(out)
        while i > 0 and bool(key(v) < key(out[i - 1])):
            i -= 1
        out.insert(i, v)
    return out


def n_cumsum(a, **k):
    r, out = None, []
    for v in arr(a).view(np.ndarray):
        r = v if r is None else r + v
        out.append(r)
    return n_array(out)


def n_diff(a, **k):
    v = arr(a).view(np.ndarray)
    return n_array([v[i + 1] - v[i] for i in range(len(v) - 1)])


def n_hstack(xs, **k):
    out = []
    for x in xs:
        if isinstance(x, np.ndarray) and x.ndim == 1 or isinstance(x, (list, tuple)):
            out.extend(list(arr(x).view(np.ndarray)))
        elif isinstance(x, np.ndarray) and x.ndim == 0:
            out.append(out1(x))
        elif isinstance(x, np.ndarray):
            raise Unsupported("hstack nd")
        else:
            out.append(x)
    return n_array(out)


def n_column_stack(xs, **k):
    cols = []
    for x in xs:
        a = arr(x)
        if a.ndim == 0:
            a = a.reshape(1)
        cols.append(a.view(np.ndarray))
    if cols[0].ndim == 1:
        return n_array([[c[i] for c in cols] for i in range(len(cols[0]))])
    raise Unsupported("column_stack 2d")


def n_stack(xs, axis=0, **k):
    if axis == 0:
        return n_array([arr(x) for x in xs])
    if axis in (1, -1):
        return n_column_stack(xs)
    raise Unsupported("stack axis")


def n_cross(a, b, **k):
    a, b = arr(a).view(np.ndarray), arr(b).view(np.ndarray)
    return n_array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def n_interp1(x, xp, fp, left, right):
    n = len(xp)
    if bool(x < xp[0]):
        return fp[0] if left is None else left
    if bool(x > xp[n - 1]):
        return fp[n - 1] if right is None else right
    if n == 1:
        return fp[0]
    j = 0
    # largest j with xp[j] <= x  (numpy's binary search)
    while j < n - 1 and bool(x >= xp[j + 1]):
        j += 1
    if j == n - 1:
        return fp[n - 1]
    if bool(x == xp[j]):
        return fp[j]
    slope = _div(fp[j + 1] - fp[j], xp[j + 1] - xp[j])
    return slope * (x - xp[j]) + fp[j]


def n_interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = list(arr(xp).view(np.ndarray)), list(arr(fp).view(np.ndarray))
    return elementwise(lambda v: n_interp1(v, xp, fp, left, right))(x)


def n_searchsorted(a, v, side="left", **k):
    A = list(arr(a).view(np.ndarray))

    def one(x):
        j = 0
        while j < len(A) and bool((A[j] < x) if side == "left" else (A[j] <= x)):
            j += 1
        return np.int64(j)
    if isinstance(v, (np.ndarray, list, tuple)):
        return np.array([one(x) for x in arr(v).view(np.ndarray)], dtype=int)
    return one(v)


def n_roots(p):
    """numpy.roots for degree <= 2: leading and trailing zeros stripped.

    Contract: the returned values are exactly the (real) zeros, a double zero
    being returned twice; complex pairs are flagged as not real."""
    p = list(arr(p).view(np.ndarray))
    z = len(p)
    nz = [i for i in range(z) if not bool(p[i] == 0)]
    if not nz:
        return n_array([])
    trail = z - nz[-1] - 1
    q = p[nz[0]:nz[-1] + 1]
    zeros = [np.float64(0.0)] * trail
    if len(q) == 1:
        return n_array(zeros)
    if len(q) == 2:
        return n_array([_div(-q[1], q[0])] + zeros)
    if len(q) == 3:
        a, b, c = q
        disc = b * b - 4 * a * c
        if bool(disc < 0):
            out = np.empty(2, dtype=object)
            out[0], out[1] = CPX, CPX
            return out.view(SA)
        return n_array(list(cur().roots2(a, b, c)))
    raise Unsupported("roots of degree > 2")


class _Cpx:
    """a root with non-zero imaginary part"""
    def __repr__(self):
        return "<complex>"

    def __ge__(self, o):
        raise TypeError("'>=' not supported between complex and float")
    __lt__ = __le__ = __gt__ = __ge__


CPX = _Cpx()


def n_isreal(x):
    return elementwise(lambda v: v is not CPX)(x) if not x is CPX else np.bool_(False)


def n_isfinite1(v):
    if v is CPX or isinstance(v, Proxy):
        return np.bool_(True)
    return np.bool_(np.isfinite(v))


def n_inv(m):
    M = arr(m)
    n = M.shape[0]
    A = M.view(np.ndarray)
    hit = cur().memo.get(("inv", tuple(str(v.e) if isinstance(v, SNum) else repr(float(v)) for v in A.reshape(-1))))
    if hit is not None:
        return hit
    # adjugate / determinant, exploiting concrete zeros and ones
    if n == 4 and all(not isinstance(v, Proxy) and v == w for v, w in zip(A[3], (0, 0, 0, 1))):
        # affine: inverse of the linear part, then the translation
        L = n_inv(n_array([list(r[:3]) for r in A[:3]])).view(np.ndarray)
        T = [-_sum([L[i][k] * A[k][3] for k in range(3)]) for i in range(3)]
        return n_array([list(L[i]) + [T[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])
    det = _norm(_det([list(r) for r in A]))
    if not isinstance(det, Proxy):
        if det == 0:
            raise np.linalg.LinAlgError("Singular matrix")
    elif bool(det == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[A[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            v = _det(minor)
            if (i + j) % 2:
                v = -v
            out[i][j] = _div(_norm(v), det)
    r = n_array(out)
    return r


def n_diag(a):
    A = arr(a).view(np.ndarray)
    if A.ndim == 2:
        return n_array([A[i, i] for i in range(min(A.shape))])
    n = A.shape[0]
    return n_array([[A[i] if i == j else np.float64(0.0) for j in range(n)] for i in range(n)])


def _norm(v):
    """normal form modulo the equations known on the path"""
    if not isinstance(v, SReal):
        return v
    nf = cur().normal(v.e)
    return core.mk(nf, v.npf) if nf is not None else v


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = np.float64(0.0)
    # expand along the row with most concrete zeros
    k = max(range(n), key=lambda i: sum(1 for v in m[i] if not isinstance(v, Proxy) and v == 0))
    for j in range(n):
        v = m[k][j]
        if not isinstance(v, Proxy) and v == 0:
            continue
        minor = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != k]
        t = v * _det(minor)
        r = r + (t if (k + j) % 2 == 0 else -t)
    return r


def n_multi_dot(ms, **k):
    r = ms[0]
    for m in ms[1:]:
        r = n_dot(r, m)
    return r


def n_uniform(low=0.0, high=1.0, size=None):
    c = cur()
    if size is None:
        if isinstance(low, (np.ndarray, list, tuple)) or isinstance(high, (np.ndarray, list, tuple)):
            return zipmap(lambda a, b: c.uniform(a, b), low, high)
        r = c.uniform(low, high)
        return r.py() if isinstance(r, SNum) else r
    n = size if isinstance(size, int) else None
    if isinstance(size, tuple):
        tot = 1
        for s in size:
            tot *= s
        return n_array([c.uniform(low, high) for _ in range(tot)]).reshape(size)
    if isinstance(size, SInt):
        size = size.__index__()
    return n_array([c.uniform(low, high) for _ in range(int(size))])


def n_clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))

    def f(v):
        c = cur()
        if lo is not None:
            v = c.ite(v < lo, lo, v)
        if hi is not None:
            v = c.ite(v > hi, hi, v)
        return v
    return elementwise(f)(a)


def n_heaviside(x, h):
    def f(v, w):
        if bool(v < 0):
            return 0.0
        if bool(v == 0):
            return w
        return 1.0
    return binary(f)(x, h)


def n_sign(v):
    if bool(v > 0):
        return 1.0
    if bool(v < 0):
        return -1.0
    return 0.0


def n_round(x, decimals=0, **k):
    if decimals:
        raise Unsupported("round decimals")
    return elementwise(lambda v: toR(f_floor(v + 0.5)))(x)


def n_array_equal(a, b, **k):
    A, B = arr(a), arr(b)
    if A.shape != B.shape:
        return False
    return n_all(A == B)


SHIM = {
    "array": n_array, "asarray": n_array, "ascontiguousarray": n_array, "copy": n_array, "atleast_1d": lambda a: arr(a) if arr(a).ndim else arr(a).reshape(1),
    "dot": n_dot, "matmul": n_dot, "inner": n_dot, "sum": n_sum, "sqrt": elementwise(f_sqrt),
    "sin": elementwise(lambda v: f_trig(v)[0]), "cos": elementwise(lambda v: f_trig(v)[1]),
    "tan": elementwise(lambda v: (v.tan() if isinstance(v, SNum) else np.tan(v))),
    "arctan2": binary(core.f_atan2), "outer": lambda a, b: n_array([[x * y for y in arr(b).view(np.ndarray)] for x in arr(a).view(np.ndarray)]),
    "diag": lambda a: n_diag(a), "trace": lambda a: _sum([arr(a).view(np.ndarray)[i, i] for i in range(arr(a).shape[0])]),
    "arcsin": elementwise(f_arcsin), "arccos": elementwise(f_arccos),
    "abs": elementwise(f_abs), "absolute": elementwise(f_abs), "fabs": elementwise(f_abs),
    "log": elementwise(f_log), "exp": elementwise(f_exp), "floor": elementwise(lambda v: toR(f_floor(v))),
    "square": elementwise(lambda v: v * v), "negative": elementwise(lambda v: -v),
    "isfinite": elementwise(n_isfinite1), "isnan": elementwise(lambda v: not isinstance(v, Proxy) and np.isnan(v)),
    "isinf": elementwise(lambda v: not isinstance(v, Proxy) and np.isinf(v)),
    "isreal": n_isreal, "isclose": n_isclose, "allclose": n_allclose, "any": n_any, "all": n_all,
    "where": n_where, "logical_or": binary(lambda a, b: sb_or(a, b)), "logical_and": binary(lambda a, b: sb_and(a, b)),
    "logical_not": elementwise(sb_not), "sort": n_sort, "argsort": n_argsort, "max": n_max, "amax": n_max, "min": n_min, "amin": n_min,
    "argmin": n_argmin, "argmax": n_argmax,
    "maximum": binary(lambda a, b: a if bool(a >= b) else b), "minimum": binary(lambda a, b: a if bool(a <= b) else b),
    "cumsum": n_cumsum, "diff": n_diff, "hstack": n_hstack, "concatenate": n_hstack, "column_stack": n_column_stack, "stack": n_stack,
    "vstack": lambda xs: n_stack(xs, 0),
    "cross": n_cross, "interp": n_interp, "searchsorted": n_searchsorted, "roots": n_roots,
    "clip": n_clip, "heaviside": n_heaviside, "sign": elementwise(n_sign),
    "add": binary(lambda a, b: a + b), "subtract": binary(lambda a, b: a - b), "multiply": binary(lambda a, b: a * b),
    "divide": binary(_div), "true_divide": binary(_div), "power": binary(lambda a, b: a ** b),
    "radians": elementwise(lambda v: v * (math.pi / 180)), "deg2rad": elementwise(lambda v: v * (math.pi / 180)),
    "degrees": elementwise(lambda v: v * (180 / math.pi)), "rad2deg": elementwise(lambda v: v * (180 / math.pi)),
    "round": n_round, "rint": n_round, "around": n_round, "array_equal": n_array_equal, "float64": lambda v: as_np(toR(v)),
    "size": lambda a: arr(a).size, "ndim": lambda a: arr(a).ndim, "shape": lambda a: arr(a).shape,
    "real": lambda a: a, "insert": lambda a, i, v: n_array(list(arr(a).view(np.ndarray))[:i] + [v] + list(arr(a).view(np.ndarray))[i:]),
    "mean": lambda a, **k: n_sum(a) / arr(a).size, "transpose": lambda a: arr(a).T, "ravel": lambda a: arr(a).reshape(-1),
    "hypot": binary(lambda a, b: f_sqrt(as_np(toR(a * a + b * b)))),
}
LIN = {"norm": n_norm, "inv": n_inv, "multi_dot": n_multi_dot, "det": lambda m: _det([list(r) for r in arr(m).view(np.ndarray)])}
LIN["solve"] = lambda a, b: n_dot(n_inv(a), b)
CREATE = {"array", "asarray", "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "identity", "eye", "copy", "linspace", "arange", "tile",
          "dot", "column_stack", "hstack", "cumsum", "interp", "diff", "insert", "outer", "stack", "repeat"}


class Mod:
    def __init__(self, real, table, name, extra=None):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["_name"] = name
        self.__dict__["_extra"] = extra or {}

    def __getattr__(self, name):
        ex = self._extra
        if name in ex:
            return ex[name]
        r = getattr(self._real, name)
        if not callable(r) or (isinstance(r, type) and name not in self._table):
            return r
        tab = self._table
        full = f"{self._name}.{name}"

        def f(*a, **k):
            if sym(a) or any(sym(v) for v in k.values()):
                g = tab.get(name)
                if g is None:
                    raise Unsupported(f"{full} on a symbolic value")
                USED.add(full)
                return g(*a, **k)
            a2 = [desym(v) for v in a]
            k2 = {n: getattr(v, "_real", v) if n == "dtype" else desym(v) for n, v in k.items()}
            a2 = [v._real if hasattr(v, "_real") and callable(v) else v for v in a2]
            if any(v is CPX for v in a2):
                return tab[name](*a, **k)
            res = r(*a2, **k2)
            if name in ("sin", "cos", "tan") and isinstance(res, float) and abs(res) < 1e-15:
                res = type(res)(0.0)   # math.pi stands for pi
            return resym(res) if name in CREATE or (isinstance(res, np.ndarray) and res.dtype.kind == "f") else res
        f.__name__ = name
        if isinstance(r, type):
            f._real = r
        v = self.__dict__.setdefault("_cache", {})
        f2 = v.get(name)
        if f2 is None:
            if isinstance(r, np.ufunc) and False:
                pass
            v[name] = f
            f2 = f
        return f2


class Rand(Mod):
    pass


NPRAND = Mod(np.random, {}, "np.random", {"uniform": n_uniform, "random": lambda size=None: n_uniform(0, 1, size), "rand": lambda *s: n_uniform(0, 1, s[0] if s else None), "random_sample": lambda size=None: n_uniform(0, 1, size)})
NPLIN = Mod(np.linalg, LIN, "np.linalg", {"LinAlgError": np.linalg.LinAlgError})


def _m(f, strict=True):
    return f


MATHTAB = {
    "sqrt": lambda x: f_sqrt(x, True).py() if isinstance(x, SNum) else math.sqrt(x),
    "sin": lambda x: topy(f_trig(x)[0]), "cos": lambda x: topy(f_trig(x)[1]),
    "atan2": lambda y, x: topy(core.f_atan2(y, x, True)), "acos": lambda x: topy(f_arccos(x, True)), "asin": lambda x: topy(f_arcsin(x, True)),
    "log": lambda x: topy(f_log(x, True)), "exp": lambda x: topy(f_exp(x)), "floor": f_floor, "fabs": f_abs, "trunc": f_trunc,
    "ceil": lambda x: -f_floor(-x),
    "isfinite": lambda x: True, "isnan": lambda x: False, "isinf": lambda x: False,
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: sb_or(f_abs(a - b) <= abs_tol, f_abs(a - b) <= rel_tol * f_abs(a), f_abs(a - b) <= rel_tol * f_abs(b)),
    "radians": lambda v: v * (math.pi / 180), "degrees": lambda v: v * (180 / math.pi),
    "hypot": lambda *v: f_sqrt(sum(x * x for x in v), True), "pow": lambda a, b: core.f_pow(a, b), "fsum": lambda v: sum(v),
    "dist": lambda p, q: f_sqrt(sum((a - b) * (a - b) for a, b in zip(p, q)), True),
}
MATH = Mod(math, MATHTAB, "math")
NP = Mod(np, SHIM, "np", {"random": NPRAND, "linalg": NPLIN})


# ------------------------------------------------------------------ builtins

class _MF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, SReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_MF):
    def __new__(cls, x=0.0):
        if isinstance(x, SA):
            x = out1(x.reshape(-1)[0]) if x.size == 1 else x
        if isinstance(x, SNum):
            return toR(x).py()
        if isinstance(x, SBool):
            return toR(x.asint())
        return float(x)


class _MI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SInt) and not x.npf) or isinstance(x, SBool)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class SymInt(int, metaclass=_MI):
    def __new__(cls, x=0, *a):
        if isinstance(x, SA):
            x = out1(x.reshape(-1)[0]) if x.size == 1 else x
        if isinstance(x, (SNum, SBool)):
            r = f_trunc(x)
            return r.py() if isinstance(r, SNum) else r
        return int(x, *a)


class _MB(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SBool))

    def __eq__(cls, o):
        return o is bool or o is cls

    def __hash__(cls):
        return hash(bool)


class SymBool(int, metaclass=_MB):
    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            r = x != 0
            return r
        return bool(x)


def s_range(*a):
    if not any(isinstance(v, SInt) for v in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a

    def gen():
        i = lo
        n = 0
        while (i < hi) if st > 0 else (i > hi):
            yield i
            i = i + st
            n += 1
            if n > 64:
                raise core.PathLimit("loop bound")
    return gen()


def s_round(x, n=None):
    if isinstance(x, SNum):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def s_isinstance(x, t):
    return isinstance(x, t)


BUILTINS = {"float": SymFloat, "int": SymInt, "range": s_range, "bool": SymBool}


def fake_uniform(ctx):
    def uniform(low=0.0, high=1.0, size=None):
        if size is None:
            if np.ndim(low) or np.ndim(high):
                l, h = np.broadcast_arrays(low, high)
                return np.array([ctx.uniform(a, b) for a, b in zip(l, h)])
            return float(ctx.uniform(low, high))
        if isinstance(size, tuple):
            n = int(np.prod(size))
            return np.array([ctx.uniform(low, high) for _ in range(n)]).reshape(size)
        return np.array([ctx.uniform(low, high) for _ in range(int(size))])
    return uniform


def pv_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "pvtrace" or n.startswith("pvtrace.")) and m is not None
            and getattr(m, "__file__", "") and m.__file__.endswith(".py")]


@contextlib.contextmanager
def patcher(ctx):
    """Install the shims for one run of a harness."""
    undo = []

    def setattr_(mod, name, val):
        d = mod.__dict__
        undo.append((mod, name, d.get(name, _MISSING) if isinstance(mod, type(sys)) else mod.__dict__.get(name, _MISSING)))
        setattr(mod, name, val)

    def stub(obj, name, val):
        """replace obj.name for the duration of this run (contract in place of a callee)"""
        setattr_(obj, name, val)
    ctx.stub = stub
    try:
        if ctx.sym:
            for m in pv_modules():
                for k, v in list(vars(m).items()):
                    if v is np:
                        setattr_(m, k, NP)
                    elif v is math:
                        setattr_(m, k, MATH)
                    elif v is np.random:
                        setattr_(m, k, NPRAND)
                    elif v is np.linalg:
                        setattr_(m, k, NPLIN)
                    elif isinstance(v, np.ufunc) and getattr(np, v.__name__, None) is v:
                        setattr_(m, k, getattr(NP, v.__name__))
                    elif callable(v) and getattr(v, "__module__", None) in ("numpy", "math") and not isinstance(v, type):
                        base = NP if v.__module__ == "numpy" else MATH
                        if hasattr(base._real, v.__name__):
                            setattr_(m, k, getattr(base, v.__name__))
                for k, v in BUILTINS.items():
                    if k not in vars(m):
                        setattr_(m, k, v)
        else:
            setattr_(np.random, "uniform", fake_uniform(ctx))
            setattr_(np.random, "random", lambda size=None: fake_uniform(ctx)(0, 1, size))
            setattr_(np.random, "rand", lambda *s: fake_uniform(ctx)(0, 1, s[0] if s else None))
        with np.errstate(all="ignore"):
            yield
    finally:
        for mod, name, val in reversed(undo):
            if val is _MISSING:
                try:
                    delattr(mod, name)
                except AttributeError:
                    pass
            else:
                setattr(mod, name, val)


_MISSING = object()
