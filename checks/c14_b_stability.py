"""C14  completeness by b-value stability"""
import contextlib
import io
from fractions import Fraction as F

from checks.common import isnan, set_warnings

PROP = 'C14'
WITNESS = ['passed', 'not passed', 'best of several', 'stopped', 'nan',
           'given mcs', 'too short', 'mc 0', 'catalog', 'one step',
           'warnings off', 'not binned', 'large sample', 'range off the grid',
           'empty bins']
ASSUMPTIONS = [
    'the estimator class is a stand-in with arbitrary b-values in [1/4, 3] '
    'and standard deviations in [1/16, 4], or NaN, for every mc (the real '
    'ones are decided in C02-C05)',
]
BOUNDS = dict(
    quick='magnitudes on 4-7 bins above any of 12 smallest values, with '
          'floats as they are; or 3 arbitrary magnitudes on a grid of 5 '
          'values; 1-3 tested mcs; stability ranges of 1-5 bins; bins 0.1, '
          '0.2, 0.05, 1',
    thorough='up to 4 tested mcs, 71 smallest values, 4 arbitrary magnitudes')
BUDGET = dict(quick=200, thorough=3000)
OUTSIDE = 'more tested mcs; standard deviations of 0; NaN magnitudes'


class Stub:
    """a b-value estimator class with arbitrary results"""

    def __init__(self, ctx, d, lo, hi, nan, pos):
        self.ctx, self.d, self.lo, self.hi = ctx, F(d), lo, hi
        self.nan, self.pos = nan, pos
        self.b, self.s, self.calls = {}, {}, []

    def at(self, p):
        if p not in self.b:
            if p == self.nan:
                self.b[p] = self.s[p] = self.ctx.nan
            else:
                self.b[p] = self.ctx.real(f'b{p}', '1/4', 3)
                self.s[p] = self.ctx.real(f's{p}', '1/16', 4)
        return self.b[p], self.s[p]

    def __call__(self):
        return Est(self)


class Est:
    def __init__(self, stub):
        self.stub = stub

    def calculate(self, magnitudes, mc, delta_m, **kw):
        st = self.stub
        ctx = st.ctx
        for p in range(st.lo, st.hi + 1):
            e = (mc - float(p * st.d)) / float(st.d)
            if bool(e < 0.01) and bool(e > -0.01):
                break
        else:
            ctx.true(False, 'tested mcs are on the grid')
        ctx.eq(delta_m, ctx.const(st.d), 'bin size passed on')
        ctx.true(kw == {'foo': 7}, 'keyword arguments passed on')
        want = [q for q in st.pos if bool(q >= p)]
        ctx.true(len(magnitudes) == len(want), 'the complete sample')
        ctx.eqs(list(magnitudes), [q * ctx.const(st.d) for q in want],
                'the complete sample in order')
        b, s = st.at(p)
        self.b_value, self.std = ctx.f(b), ctx.f(s)
        self.value = self.b_value
        return self.b_value


def _oracle(ctx, stub, tested, steps, stop):
    diffs, bs, best = [], [], None
    for p in tested:
        b, s = stub.at(p)
        avg = stub.at(p)[0]
        for j in range(1, steps):
            avg = avg + stub.at(p + j)[0]
        avg = avg / steps
        d = abs(avg - b) / s
        if isnan(b) or isnan(avg):
            d = ctx.nan
            ctx.reach('nan')
        bs.append(b)
        diffs.append(d)
        if not isnan(d) and bool(d <= 1):
            if best is None or bool(d < best[1]):
                if best is not None:
                    ctx.reach('best of several')
                best = (p, d, b)
            if stop:
                ctx.reach('stopped')
                break
    return diffs, bs, best


def _check(ctx, arg, pos, d, steps, sr, given, stop, nan=None, catalog=False,
           warn=True):
    import warnings
    lo = int(min(pos)) if all(type(p) is int for p in pos) else 0
    lo, hi = (lo, max(pos)) if type(lo) is int and all(
        type(p) is int for p in pos) else (0, 7)
    stub = Stub(ctx, d, lo, hi, nan, pos)
    kmin, kmax = pos[0], pos[0]
    for p in pos[1:]:
        kmin = p if bool(p < kmin) else kmin
        kmax = p if bool(p > kmax) else kmax
    for p in range(lo, hi + 1):
        if bool(kmin == p):
            kmin = p
        if bool(kmax == p):
            kmax = p
    kw = dict(b_method=stub, stability_range=float(sr), foo=7,
              stop_when_passed=stop)
    if given is None:
        tested = list(range(kmin, kmax))
        short = len(tested) <= steps
        tested = tested[:len(tested) - steps + 1]
    else:
        tested = [g for g in given if g * F(d) + F(sr) <= kmax * F(d)]
        short = not tested
        kw['mcs_test'] = [float(g * F(d)) for g in given]
        ctx.reach('given mcs')
    delta = float(d)
    if catalog:
        from seismostats import Catalog
        cat = Catalog(dict(magnitude=arg), mc=7.,
                      delta_m=delta if catalog == 'attr' else None)
        if catalog == 'arg':
            kw['delta_m'] = delta
        call = lambda: cat.estimate_mc_b_stability(**kw)  # noqa
        ctx.reach('catalog')
    else:
        from seismostats.analysis import estimate_mc_b_stability
        call = lambda: estimate_mc_b_stability(arg, delta, **kw)  # noqa
    if short:
        ctx.raises(ValueError, call, 'range shorter than the stability range')
        ctx.reach('too short')
        return
    with warnings.catch_warnings(record=True) as w, \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('always')
        set_warnings(warn)
        try:
            mc, info = call()
        finally:
            set_warnings(True)
    few = len([p for p in pos if bool(p >= tested[-1])]) < 30
    if not warn:
        ctx.true(not [x for x in w if 'less than 30' in str(x.message)],
                 'no warning with the option off')
        ctx.reach('warnings off')
    elif given is None and not stop:
        ctx.true(bool([x for x in w if 'less than 30' in str(x.message)])
                 == few, 'warning about few events')
        if not few:
            ctx.reach('large sample')
    ctx.true(not [x for x in w if 'not binned' in str(x.message)],
             'no warning about binned mcs')
    diffs, bs, best = _oracle(ctx, stub, tested, steps, stop)
    ctx.true(len(info['diff_bs']) == len(diffs), 'number of tested mcs')
    ctx.eqs(info['diff_bs'], diffs, 'diff_bs')
    ctx.eqs(info['b_values_tested'], bs, 'b-values')
    ctx.eqs(info['mcs_tested'], [ctx.const(p * F(d))
                                 for p in tested[:len(diffs)]], 'mcs_tested')
    if best is None:
        ctx.true(mc is None and info['best_b_value'] is None,
                 'no mc when none is stable')
        ctx.reach('not passed')
    else:
        ctx.true(mc is not None and info['best_b_value'] is not None,
                 'an mc when one is stable')
        # ties: any mc with the smallest difference
        ties = [i for i, x in enumerate(diffs)
                if not isnan(x) and bool(x == best[1])]
        ok = [i for i in ties
              if bool(abs(mc - float(tested[i] * F(d))) < delta / 100)]
        ctx.true(len(ok) == 1, 'the stable mc with the smallest difference')
        ctx.eq(info['best_b_value'], bs[ok[0]], 'b-value of the best mc')
        ctx.reach('passed')
        if tested[ok[0]] == 0:
            ctx.reach('mc 0')
    if catalog:
        ctx.true(cat.mc is None if mc is None else bool(cat.mc == mc),
                 'mc attribute')
    if steps == 1:
        ctx.reach('one step')


def floats(ctx, d, base, span, steps, stop, given=None, nan=None, dup=(),
           catalog=False, warn=True, copies=1,
           less=None, gap=False):
    """magnitudes as the floats a user has"""
    import numpy as np
    pos = [base + i for i in range(span + 1)] * copies
    if gap:
        # few bins hold magnitudes
        pos = [base, base + span]
        ctx.reach('empty bins')
    pos = pos[1::2] + pos[::2] + [base + j for j in dup]
    arg = np.array([float(p * F(d)) for p in pos])
    sr = F(d) * steps
    if less is not None:
        # a range between two multiples of the bin size
        sr -= F(less) * F(d)
        ctx.reach('range off the grid')
    g = None if given is None else [base + j for j in given]
    _check(ctx, arg, pos, d, steps, sr, g, stop,
           None if nan is None else base + nan, catalog, warn)


def grid(ctx, d, n, steps, stop):
    """arbitrary magnitudes on a grid"""
    k = ctx.ints('k', n, 0, 4)
    x = [kk * ctx.const(d) for kk in k]
    _check(ctx, ctx.array(x), k, d, steps, F(d) * steps, None, stop)


def not_binned(ctx):
    import numpy as np
    from seismostats.analysis import estimate_mc_b_stability
    from seismostats import Catalog
    x = np.arange(10, 30) / 10
    f = ctx.real('f', '1/100', '9/100')
    y = ctx.array([ctx.const(str(v)) for v in x] + [ctx.const(2) + f])
    ctx.raises(ValueError, lambda: estimate_mc_b_stability(y, 0.1),
               'not binned')
    ctx.raises(ValueError, lambda: Catalog(
        dict(magnitude=x)).estimate_mc_b_stability(), 'no bin size')
    ctx.reach('not binned')


def jobs(tier):
    q = tier == 'quick'
    out = [('not_binned', {})]
    bases = (-8, -1, 0, 1, 2, 6, 12, 17, 23, 31, 39, 45) if q else \
        range(-10, 61)
    for d in ('0.1', '0.2', '0.05'):
        for base in bases:
            out.append(('floats', dict(d=d, base=base, span=6, steps=5,
                                       stop=True)))
            out.append(('floats', dict(d=d, base=base, span=4, steps=2,
                                       stop=False)))
            out.append(('floats', dict(d=d, base=base, span=4, steps=2,
                                       stop=False, given=(0, 2, 3))))
    for base in (-2, 0):
        for stop in (False, True):
            out.append(('floats', dict(d='0.1', base=base, span=5, steps=3,
                                       stop=stop)))
            out.append(('floats', dict(d='0.1', base=base, span=3, steps=1,
                                       stop=stop)))
            for nan in (0, 1, 3):
                out.append(('floats', dict(d='0.1', base=base, span=5,
                                           steps=3, stop=stop, nan=nan)))
        out.append(('floats', dict(d='0.1', base=base, span=5, steps=3,
                                   stop=True, given=(2, 0, 1, 4))))
        out.append(('floats', dict(d='0.1', base=base, span=5, steps=5,
                                   stop=True)))
        out.append(('floats', dict(d='0.1', base=base, span=5, steps=5,
                                   stop=True, given=(1,))))
        for cat in ('attr', 'arg'):
            out.append(('floats', dict(d='0.1', base=base, span=5, steps=3,
                                       stop=True, catalog=cat)))
        out.append(('floats', dict(d='0.1', base=base, span=4, steps=2,
                                   stop=False, warn=False)))
        out.append(('floats', dict(d='0.1', base=base, span=4, steps=2,
                                   stop=False, copies=20)))
        for steps, given in ((4, None), (3, (2, 1, 0)), (1, None)):
            out.append(('floats', dict(d='0.1', base=base, span=5, gap=True,
                                       steps=steps, stop=False, given=given)))
        for less in ('1/2', '1/4', '3/4'):
            for given in (None, (3, 0, 2, 1)):
                out.append(('floats', dict(d='0.1', base=base, span=4,
                                           steps=3, stop=False, less=less,
                                           given=given)))
    for d, steps in (('1', 1), ('0.5', 2)):
        out.append(('grid', dict(d=d, n=3 if q else 4, steps=steps,
                                 stop=True)))
    return out
