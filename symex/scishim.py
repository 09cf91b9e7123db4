"""scipy / pandas entry points used by /repo, on symbolic numbers."""
from __future__ import annotations

import types
from fractions import Fraction as F

import numpy as np
import pandas as pd
import scipy.stats as st

from . import core
from .core import R, lift
from .npshim import SA, base, to_sa, symbolic, _out


class _Proxy(types.ModuleType):
    def __init__(self, mod, **over):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_mod'], n)


def _vec(f, *xs):
    if any(isinstance(x, np.ndarray) for x in xs):
        return _out(np.frompyfunc(f, len(xs), 1)(
            *[base(to_sa(x)) if isinstance(x, np.ndarray) else x
              for x in xs]))
    return f(*xs)


class _Norm:
    """standard normal distribution: uninterpreted, strictly monotone cdf"""

    def cdf(self, x, loc=0, scale=1):
        def f(v):
            v = (v - loc) / scale
            return core.uf('normcdf', v) if type(v) is R and not v.is_const() \
                else lift(float(st.norm.cdf(float(v))))
        if symbolic(x) or symbolic(loc) or symbolic(scale):
            return _vec(f, x)
        return st.norm.cdf(x, loc, scale)

    def sf(self, x, loc=0, scale=1):
        if symbolic(x) or symbolic(loc) or symbolic(scale):
            return 1 - self.cdf(x, loc, scale)
        return st.norm.sf(x, loc, scale)

    def ppf(self, q, loc=0, scale=1):
        def f(v):
            r = core.uf('normppf', v) if type(v) is R and not v.is_const() \
                else lift(float(st.norm.ppf(float(v))))
            return r * scale + loc
        if symbolic(q) or symbolic(loc) or symbolic(scale):
            return _vec(f, q)
        return st.norm.ppf(q, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        def f(v):
            v = (v - loc) / scale
            return core.uf('normpdf', v) / scale
        if symbolic(x) or symbolic(loc) or symbolic(scale):
            return _vec(f, x)
        return st.norm.pdf(x, loc, scale)

    def __call__(self, loc=0, scale=1):
        return _Frozen(self, loc, scale)

    def __getattr__(self, n):
        return getattr(st.norm, n)


class _Frozen:
    def __init__(self, norm, loc, scale):
        self.n, self.a = norm, (loc, scale)

    def cdf(self, x):
        return self.n.cdf(x, *self.a)

    def sf(self, x):
        return self.n.sf(x, *self.a)

    def ppf(self, q):
        return self.n.ppf(q, *self.a)

    def pdf(self, x):
        return self.n.pdf(x, *self.a)


core.UF_EVAL['normcdf'] = st.norm.cdf
core.UF_EVAL['normppf'] = st.norm.ppf
core.UF_EVAL['normpdf'] = st.norm.pdf
NORM = _Norm()


def _cdf_axioms(a, prev):
    import z3
    q = core.poly_z(a.args[0].p)
    out = [a.z > 0, a.z < 1,
           z3.Implies(q > 0, a.z > z3.Q(1, 2)),
           z3.Implies(q < 0, a.z < z3.Q(1, 2)),
           z3.Implies(q == 0, a.z == z3.Q(1, 2))]
    for b in prev:
        qb = core.poly_z(b.args[0].p)
        out.append(z3.Implies(q < qb, a.z < b.z))
        out.append(z3.Implies(q > qb, a.z > b.z))
        out.append(z3.Implies(q == -qb, a.z == 1 - b.z))
    return out


core.UF_AXIOMS['normcdf'] = _cdf_axioms


def _to_numeric(arg, errors='raise', **k):
    if isinstance(arg, str) and core.untext(arg) is not None:
        return core.untext(arg)
    if isinstance(arg, pd.Series) and arg.dtype == object and any(
            type(v) is R or core.untext(v) is not None for v in arg):
        def one(v):
            if type(v) is R:
                return v
            r = core.untext(v)
            if r is not None:
                return r
            r = pd.to_numeric(v, errors=errors)
            return core.NAN if r is None else r
        return pd.Series([one(v) for v in arg], index=arg.index,
                         name=arg.name, dtype=object)
    if symbolic(arg):
        return arg
    return pd.to_numeric(arg, errors=errors, **k)


def _plain(x):
    """array of symbolic-engine constants as plain floats"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        b = [float(v) for v in base(x).ravel()]
        return np.array(b, dtype=float).reshape(x.shape)
    return x


def _cut(x, bins, *a, **k):
    return pd.cut(_plain(x), _plain(bins), *a, **k)


_UNITS = dict(weeks=604800, days=86400, hours=3600, minutes=60, seconds=1,
              milliseconds=F(1, 10 ** 3), microseconds=F(1, 10 ** 6),
              nanoseconds=F(1, 10 ** 9))


class SymDelta:
    """a pandas Timedelta of a symbolic number of seconds"""
    __array_ufunc__ = None

    def __init__(self, sec):
        self.sec = sec

    def total_seconds(self):
        return self.sec

    def __neg__(self):
        return SymDelta(-self.sec)

    def __abs__(self):
        return SymDelta(abs(self.sec))

    def __mul__(self, k):
        return SymDelta(self.sec * lift(k))
    __rmul__ = __mul__

    def __truediv__(self, k):
        return SymDelta(self.sec / lift(k))

    def _cmp(self, o, f):
        if isinstance(o, SymDelta):
            return f(self.sec, o.sec)
        if isinstance(o, np.ndarray):
            r = np.empty(o.shape, dtype=bool)
            for i in np.ndindex(o.shape):
                r[i] = bool(self._cmp(o[i], f))
            return r
        if isinstance(o, pd.Series):
            return pd.Series([bool(self._cmp(v, f)) for v in o], index=o.index)
        if pd.isna(o):
            return False
        if isinstance(o, np.timedelta64):
            # beyond the range of pandas
            unit, k = np.datetime_data(o.dtype)
            if unit in ('s', 'ms', 'us', 'ns'):
                return f(self.sec, lift(F(int(o.astype(int)) * k, {
                    's': 1, 'ms': 10 ** 3, 'us': 10 ** 6,
                    'ns': 10 ** 9}[unit])))
        ns = int(pd.Timedelta(o).value)
        return f(self.sec, lift(F(ns, 10 ** 9)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def _timedelta(*a, **k):
    if any(type(x) is R and not x.is_const() for x in k.values()) or (
            a and type(a[0]) is R and not a[0].is_const()):
        if a:
            unit = a[1] if len(a) > 1 else k.get('unit', 'ns')
            per = {'D': 86400, 'd': 86400, 'h': 3600, 's': 1,
                   'ns': F(1, 10 ** 9)}[unit]
            return SymDelta(a[0] * lift(per))
        sec = lift(0)
        for u, x in k.items():
            sec = sec + lift(x) * lift(_UNITS[u])
        return SymDelta(sec)
    a = [float(x) if type(x) is R else x for x in a]
    return pd.Timedelta(*a, **{
        u: float(x) if type(x) is R else x for u, x in k.items()})


def overrides():
    return {
        'scipy.stats': _Proxy(st, norm=NORM),
        'scipy': _Proxy(__import__('scipy'), stats=_Proxy(st, norm=NORM)),
        'pandas': _Proxy(pd, to_numeric=_to_numeric, cut=_cut,
                         Timedelta=_timedelta),
    }


def _pandas_reductions():
    """mean, median, var and std of a column of symbolic numbers"""
    from pandas.core import nanops
    from . import npshim

    def red(name, f):
        native = getattr(nanops, name)

        def g(values, *, axis=None, skipna=True, **k):
            if not (getattr(values, 'dtype', None) == object
                    and symbolic(values)):
                return native(values, axis=axis, skipna=skipna, **k)
            k = {n: v for n, v in k.items() if n == 'ddof'}

            def h(xs):
                ys = npshim.nn(xs)
                if len(ys) < len(xs) and not skipna:
                    return np.nan
                return f(ys, **k) if ys else np.nan
            return npshim._along(h, to_sa(values), axis)
        setattr(nanops, name, g)
    red('nanmean', npshim._mean)
    red('nanmedian', lambda xs: npshim._quantile(xs, 0.5))
    red('nanvar', lambda xs, ddof=1: npshim._var(xs, ddof))
    red('nanstd', lambda xs, ddof=1: npshim._std1(xs, ddof))

    def method(name, f):
        native = getattr(pd.Series, name)

        def g(self, *a, **k):
            if self.dtype == object and symbolic(self):
                return f(self, *a, **k)
            return native(self, *a, **k)
        setattr(pd.Series, name, g)

    def no(name):
        def f(*a, **k):
            raise core.Unsupported(f'Series.{name}')
        method(name, f)
    for n in ('rank', 'nlargest', 'nsmallest', 'quantile', 'describe',
              'interpolate', 'skew', 'corr'):
        no(n)
    method('round', lambda s, decimals=0: s.map(
        lambda x: core.round_half_even(lift(x), decimals)
        if not npshim.isnan1(x) else x))

    frame_round = pd.DataFrame.round

    def fround(self, decimals=0, *a, **k):
        cols = [j for j in range(self.shape[1])
                if self.dtypes.iloc[j] == object
                and symbolic(self.iloc[:, j])]
        if not cols:
            return frame_round(self, decimals, *a, **k)
        if not isinstance(decimals, int):
            raise core.Unsupported('DataFrame.round by column')
        out = frame_round(self, decimals)
        for j in cols:
            out.isetitem(j, self.iloc[:, j].round(decimals))
        return out
    pd.DataFrame.round = fround

    from pandas.core.dtypes import astype as pda
    native_as = pda._astype_nansafe

    def astype(arr, dtype, *a, **k):
        if arr.dtype == object and np.dtype(dtype).kind == 'f' \
                and symbolic(arr):
            return base(to_sa(arr))
        return native_as(arr, dtype, *a, **k)
    pda._astype_nansafe = astype


_pandas_reductions()
