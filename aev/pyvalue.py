"""Symbolic numbers for code that computes with numpy instead of building graphs.

P wraps a value of the encoding: arithmetic stays symbolic, a comparison that
Python needs the truth of is decided by the path explorer.  float(P) gives a
tag, a huge number that stands for the value until somebody looks it up.
"""
from fractions import Fraction

import numpy as np

from . import core
from .core import Unsupported

TAG = 1e190
_tags = {}


class B:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if isinstance(self.c, (bool, np.bool_)):
            return bool(self.c)
        fork = core._CURRENT[0].fork
        if fork is None:
            raise Unsupported("a branch on a symbolic value outside a path")
        return fork.decide(self.c)

    def __and__(self, o):
        return B(core.b_and(self.c, o.c if isinstance(o, B) else bool(o)))

    def __or__(self, o):
        return B(core.b_or(self.c, o.c if isinstance(o, B) else bool(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return B(core.b_not(self.c))

    logical_not = __invert__


def raw(x):
    if isinstance(x, P):
        return x.v
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f in _tags:
            return _tags[f]
        if f != f or abs(f) == float("inf"):
            return f
        if abs(f) > TAG:
            raise Unsupported("arithmetic on a converted symbolic value")
        return Fraction(f)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return raw(x.item())
    if isinstance(x, (Fraction, core.V)):
        return x
    raise Unsupported(f"a symbolic number meets a {type(x).__name__}")


def _op(f):
    def g(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return P(f(self.v, raw(o)))

    return g


def _cmp(op):
    def g(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return B(core.cmp(self.v, raw(o), op))

    return g


class P:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    __add__ = __radd__ = _op(lambda a, b: a + b)
    __mul__ = __rmul__ = _op(lambda a, b: a * b)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)
    __truediv__ = _op(lambda a, b: a / b)
    __rtruediv__ = _op(lambda a, b: b / a)
    __lt__, __le__, __gt__, __ge__ = map(_cmp, ("lt", "le", "gt", "ge"))
    __eq__, __ne__ = map(_cmp, ("eq", "ne"))
    __hash__ = object.__hash__

    def __pow__(self, k):
        k = raw(k)
        if not isinstance(k, Fraction) or k.denominator != 1:
            raise Unsupported("a symbolic power")
        return P(self.v ** int(k))

    def __neg__(self):
        return P(self.v * Fraction(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def sqrt(self):
        return P(core.vsqrt(self.v))

    def exp(self):
        return P(core.vexp(self.v))

    def log(self):
        return P(core.vlog(self.v))

    def conjugate(self):
        return self

    def __float__(self):
        for f, v in _tags.items():
            if v is self.v:
                return f
        f = TAG * (2 + len(_tags) / 7)
        _tags[f] = self.v
        return f

    def __repr__(self):
        return f"P({self.v})"


def lift(x):
    """An object array of P for an array of values of the encoding."""
    x = np.asarray(x, dtype=object)
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        o[i] = P(x[i])
    return o


def lower(x):
    return raw(x)
