"""Shared pieces of the specifications."""
import math

from vf import core


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def dot(a, b):
    return core.cur().dot(a, b)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def mul(k, a):
    return tuple(k * x for x in a)


def sq(a):
    return dot(a, a)


def medium(n, **k):
    """a node filled with refractive index n"""
    return Obj(geometry=Obj(material=Obj(refractive_index=n, **k)))


def is_unit(ctx, v):
    return ctx.eq(dot(v, v), 1.0)


def unit_dot(ctx, d, n, name="unit dot"):
    """d.n for unit vectors, with Cauchy-Schwarz established as a lemma"""
    dn = dot(d, n)
    m = sum(ctx.square(x - y) for x, y in zip(d, n))
    p = sum(ctx.square(x + y) for x, y in zip(d, n))
    ctx.lemma(name + " (difference)", ctx.eq(m, 2 - 2 * dn))
    ctx.lemma(name + " (sum)", ctx.eq(p, 2 + 2 * dn))
    ctx.lemma(name + " bounds", ctx.and_(ctx.le(dn, 1.0), ctx.ge(dn, -1.0)))
    return dn


def array(ctx, xs):
    """a numpy array of the given (possibly symbolic) numbers"""
    if ctx.sym:
        import vf.shim as shim
        return shim.n_array(list(xs))
    import numpy as np
    return np.array(list(xs), dtype=float)


def table(ctx, n, name="t", lo=300.0, ylo=0.0, ascending=True, zeros=True):
    """n strictly ascending positions and n non-negative values (not all zero)"""
    xs = [ctx.real(name + "_x0", lo=lo, hi=lo + 100)]
    for i in range(1, n):
        xs.append(xs[-1] + ctx.pos(f"{name}_dx{i}", lo=0.5, hi=100))
    ys = [ctx.real(f"{name}_y{i}", lo=0, hi=10, special=(0,) if zeros else ()) for i in range(n)]
    return xs, ys
