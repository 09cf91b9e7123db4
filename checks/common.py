"""shared harness pieces (used in both symbolic and concrete runs)"""
import math

import numpy as np

LN10 = float(np.log(10))

# (bin size, grid of the completeness magnitude): decimal bins with mc on the
# grid, dyadic bins with mc on half bins (boundary ties are exact in floats),
# continuous magnitudes
CONF = {
    'dec': ('0.1', '0.1'),
    'cent': ('0.01', '0.01'),
    'milli': ('0.001', '0.001'),
    'two': ('0.2', '0.2'),
    'dy': ('0.25', '0.125'),
    'cont': ('0', None),
}


def B():
    from seismostats.analysis.bvalue import (
        ClassicBValueEstimator, UtsuBValueEstimator, BPositiveBValueEstimator,
        BMorePositiveBValueEstimator)
    return dict(b=ClassicBValueEstimator, utsu=UtsuBValueEstimator,
                bpos=BPositiveBValueEstimator,
                bmore=BMorePositiveBValueEstimator)


def A():
    from seismostats.analysis.avalue import (
        ClassicAValueEstimator, APositiveAValueEstimator,
        AMorePositiveAValueEstimator)
    return dict(a=ClassicAValueEstimator, apos=APositiveAValueEstimator,
                amore=AMorePositiveAValueEstimator)


def step(ctx, s):
    return ctx.const(s)


class Mags:
    """n magnitudes, the bin size and the completeness magnitude"""

    def __init__(self, ctx, n, conf, lo=-2, hi=9, name='m', mc=True,
                 free=None):
        d, g = CONF[conf]
        self.conf = conf
        self.delta = ctx.const(d)
        self.dstr = d
        if free is not None:
            self._long(ctx, n, d, g, lo, hi, name, mc, free)
            return
        if d == '0':
            self.m = ctx.reals(name, n, lo, hi)
            self.mc = ctx.real('mc', lo, hi) if mc else None
        else:
            from fractions import Fraction as F
            lo_k, hi_k = int(lo / F(d)), int(hi / F(d))
            k = ctx.ints('k' + name, n, lo_k, hi_k)
            self.m = [ctx.grid(x, d) for x in k]
            if mc:
                kc = ctx.int('kmc', int(lo / F(g)), int(hi / F(g)))
                self.mc = ctx.grid(kc, g)


    def _long(self, ctx, n, d, g, lo, hi, name, mc, free):
        """a long list of given magnitudes, symbolic only at some places"""
        from fractions import Fraction as F
        ks = pattern(n)
        if d == '0':
            self.m = [ctx.real(f'{name}{i}', lo, hi) if i in free
                      else ctx.const(str(F(137 * k + i % 3, 1000)))
                      for i, k in enumerate(ks)]
            if mc:
                self.mc = ctx.const(ctx.pick('mc', ('-2', '13/10', '26/10')))
        else:
            self.m = [ctx.grid(ctx.int(f'k{name}{i}', int(lo / F(d)),
                                       int(hi / F(d))) if i in free else k, d)
                      for i, k in enumerate(ks)]
            if mc:
                two = int(F(d) / F(g))
                self.mc = ctx.grid(ctx.pick(
                    'kmc', (-1, 9 * two + two // 2, 18 * two)), g)


def pattern(n, top=25, seed=11):
    """n given integers from 0 to top without visible order"""
    out, x = [], seed
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2**31
        out.append((x >> 16) % (top + 1))
    return out


def dmc_value(ctx, conf, name='dmc', few=False):
    """a positive cutoff compatible with the configuration"""
    d, g = CONF[conf]
    if few:
        k = ctx.pick('k' + name, (0, 5))
        return ctx.grid(k, g) if g else ctx.const(f'{k * 7}/53')
    if d == '0':
        return ctx.real(name, 0, 3)
    k = ctx.int('k' + name, 0, 12)
    return ctx.grid(k, g)


def _xf(x):
    from symex import exact
    x = float(x)
    return exact.XF(x) if np.isfinite(x) else x


def log(ctx, x):
    if ctx.symbolic:
        from symex import core
        return core.ln(core.lift(x))
    with np.errstate(all='ignore'):
        return _xf(np.log(float(x)))


def log10(ctx, x):
    if ctx.symbolic:
        from symex import core
        r = core.ln(core.lift(x))
        return r / core.R({core.ONE: core.LN10}) \
            if type(r) is core.R else r
    with np.errstate(all='ignore'):
        return _xf(np.log10(float(x)))


def exp(ctx, x):
    if ctx.symbolic:
        from symex import core
        return core.exp(core.lift(x))
    with np.errstate(all='ignore'):
        return _xf(np.exp(float(x)))


def pow10(ctx, x):
    if ctx.symbolic:
        from symex import core
        return core.power(core.const(10), core.lift(x))
    with np.errstate(all='ignore'):
        return _xf(10.0 ** float(x))


def sqrt(ctx, x):
    if ctx.symbolic:
        from symex import core
        return core.sqrt(core.lift(x))
    with np.errstate(all='ignore'):
        return _xf(np.sqrt(float(x)))


def trig(ctx, name, x):
    """sin, cos, tan, arcsin, arccos, arctan of x (radians)"""
    if ctx.symbolic:
        from symex import core
        return core.uf(name, core.lift(x))
    return _xf(getattr(np, name)(float(x)))


def div(ctx, a, b):
    """IEEE division (exact)"""
    if ctx.symbolic:
        from symex import core
        return core.lift(a) / core.lift(b)
    from symex import exact
    if type(a) is not exact.XF:
        a = _xf(a)
    if type(a) is exact.XF:
        return a / b
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def isnan(x):
    from symex.npshim import isnan1
    return isnan1(x)


def distinct_times(ctx, n, name='t', lo=0, hi=1000):
    """n pairwise distinct event times in an arbitrary order: a permutation
    (explicit fork) of n increasing symbolic reals"""
    import itertools
    perm = ctx.pick('perm', list(itertools.permutations(range(n))))
    t = increasing(ctx, n, name, lo, hi)
    return [t[p] for p in perm], list(perm)


def increasing(ctx, n, name='t', lo=0, hi=1000):
    t = ctx.reals(name, n, lo, hi)
    for a, b in zip(t, t[1:]):
        ctx.assume_lt(a, b)
    return t


def set_warnings(on):
    from seismostats.utils import _config
    _config.set_option('warnings', on)


LN10D = '2.302585092994046'


def ssum(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def mean(ctx, xs, ws=None):
    """(weighted) mean with IEEE division"""
    if ws is None:
        return div(ctx, ssum(xs), len(xs))
    return div(ctx, ssum([x * w for x, w in zip(xs, ws)]), ssum(ws))


def gr_mle(ctx, xs, delta, ws=None):
    """b-value of exponential excesses xs in bins of width delta"""
    if not xs:
        return ctx.nan
    mu = mean(ctx, xs, ws)
    if bool(delta == 0):
        beta = div(ctx, 1, mu)
    else:
        beta = log(ctx, 1 + div(ctx, delta, mu)) / delta
    return beta / ctx.const(LN10D)


def by_time(perm):
    """input positions in time order, for distinct_times' permutation"""
    order = [0] * len(perm)
    for i, p in enumerate(perm):
        order[p] = i
    return order


def snapshot(x):
    if x is None:
        return None
    return list(x)


class Times:
    """event times of n events, optional, in any order"""

    def __init__(self, ctx, n, kind):
        self.kind = kind
        self.perm = None
        if kind is None:
            self.t, self.order = None, list(range(n))
        elif kind == 'sorted':
            self.t, self.order = increasing(ctx, n), list(range(n))
        elif kind == 'long':
            # given times in a given order
            ks = pattern(n, 5, 3)
            s = next(s for s in range(n // 3 + 2, 3 * n)
                     if math.gcd(n, s) == 1)
            self.order = [(i * s + 2) % n for i in range(n)]
            self.t = [None] * n
            for r, i in enumerate(self.order):
                self.t[i] = ctx.const(str(7 * r + ks[r]))
        else:
            self.t, self.perm = distinct_times(ctx, n)
            self.order = by_time(self.perm)


class Draws:
    """stand-in for numpy's global random draws: arbitrary numbers

    ``todo``: prepared values of the exponential law of rate 1, else fresh
    ones; all uniform ones derive from numbers in [0, 1)."""

    def __init__(self, ctx, exponential=None):
        import numpy.random as r
        self.ctx, self.todo = ctx, exponential
        self.e, self.u = [], []
        self.calls = []
        for k in ('exponential', 'standard_exponential', 'uniform'):
            ctx.patch(r, k, getattr(self, k))
        for k in ('random', 'random_sample', 'ranf', 'sample'):
            if hasattr(r, k):
                ctx.patch(r, k, self.random)
        ctx.patch(r, 'rand', lambda *d: self.random(d or None))

    @staticmethod
    def _n(size):
        if size is None:
            return 1
        if isinstance(size, (tuple, list)):
            n = 1
            for s in size:
                n *= int(s)
            return n
        return int(size)

    def standard_exponential(self, size=None, dtype=None, method=None):
        n = self._n(size)
        if self.todo is not None:
            e = [self.todo.pop(0) for _ in range(n)]
        else:
            e = [self.ctx.real(f'e{len(self.e) + i}', 0, 30)
                 for i in range(n)]
        self.e += e
        self.calls.append(('e', size))
        r = self.ctx.array(e)
        return r if size is not None else r[0]

    def exponential(self, scale=1.0, size=None):
        return scale * self.standard_exponential(size)

    def random(self, size=None):
        from fractions import Fraction
        n = self._n(size)
        u = [self.ctx.real(f'u{len(self.u) + i}', 0, Fraction(999, 1000))
             for i in range(n)]
        self.u += u
        self.calls.append(('u', size))
        r = self.ctx.array(u)
        return r if size is not None else r[0]

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)
