"""XF: the numbers of a harness in a concrete run.  They are floats for the
code under test, but the harness' own arithmetic on them (the oracle) is exact,
so that the oracle is not subject to float rounding."""
import math
from fractions import Fraction as F

import numpy as np


def snap(x):
    """the decimal a float stands for (see core.snap)"""
    f = F(repr(x))
    s = F(f'{x:.14g}')
    if s != f and abs(s - f) <= 4 * F(math.ulp(x)):
        return s
    return f


def q_of(x):
    """exact value of a number, or None for nan/inf"""
    if type(x) is XF:
        return x.q
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return F(int(x))
    if isinstance(x, F):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return snap(x) if math.isfinite(x) else None
    return NotImplemented


def mk(q):
    try:
        r = float.__new__(XF, float(q))
    except OverflowError:
        return math.inf if q > 0 else -math.inf
    r.q = q
    return r


def _bin(op, fop):
    def f(a, b):
        if isinstance(b, np.ndarray):
            return NotImplemented
        y = q_of(b)
        if y is NotImplemented:
            return NotImplemented
        if y is None:
            with np.errstate(all='ignore'):
                return float(fop(np.float64(float(a)), np.float64(float(b))))
        return op(a.q, y)
    return f


def _div(x, y):
    if y == 0:
        return math.nan if x == 0 else (math.inf if x > 0 else -math.inf)
    return mk(x / y)


def _pow(x, y):
    if y.denominator == 1 and abs(y) <= 64 and not (x == 0 and y < 0):
        return mk(x ** int(y))
    return mk(snap(float(x) ** float(y)))


class XF(float):
    __slots__ = ('q',)

    def __new__(cls, x):
        return mk(F(x) if not isinstance(x, float) else snap(x))

    __add__ = _bin(lambda x, y: mk(x + y), np.add)
    __radd__ = __add__
    __sub__ = _bin(lambda x, y: mk(x - y), np.subtract)
    __rsub__ = _bin(lambda x, y: mk(y - x), lambda a, b: b - a)
    __mul__ = _bin(lambda x, y: mk(x * y), np.multiply)
    __rmul__ = __mul__
    __truediv__ = _bin(_div, np.divide)
    __rtruediv__ = _bin(lambda x, y: _div(y, x), lambda a, b: b / a)
    __pow__ = _bin(_pow, np.power)
    __rpow__ = _bin(lambda x, y: _pow(y, x), lambda a, b: b ** a)
    __floordiv__ = _bin(lambda x, y: mk(F(math.floor(x / y))),
                        np.floor_divide)
    __mod__ = _bin(lambda x, y: mk(x - y * math.floor(x / y)), np.mod)
    __lt__ = _bin(lambda x, y: x < y, np.less)
    __le__ = _bin(lambda x, y: x <= y, np.less_equal)
    __gt__ = _bin(lambda x, y: x > y, np.greater)
    __ge__ = _bin(lambda x, y: x >= y, np.greater_equal)
    __eq__ = _bin(lambda x, y: x == y, np.equal)
    __ne__ = _bin(lambda x, y: x != y, np.not_equal)

    def __hash__(self):
        return hash(float(self))

    def __neg__(self):
        return mk(-self.q)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(abs(self.q))

    def __floor__(self):
        return math.floor(self.q)

    def __ceil__(self):
        return math.ceil(self.q)

    def __float__(self):
        return float.__float__(self)

    def __reduce__(self):
        return (float, (float(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self
