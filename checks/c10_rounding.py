"""C10  rounding magnitudes to bins"""
from fractions import Fraction as F

from checks.common import isnan

PROP = 'C10'
WITNESS = ['rounded', 'tie', 'negative', 'clean floats',
           'catalog', 'bad bin', 'nan', 'integers']
ASSUMPTIONS = [
    'values within 1e-9 bins below a rounding tie are excluded (ties included)',
    'float claims: doubles nearest to decimal values up to +-10',
]
BOUNDS = dict(
    quick='1-3 values in [-20, 20] x bin size, bin sizes 0.01, 0.05, 0.1, '
          '0.125, 0.2, 0.25, 0.5, 1, 1.5, 2, 2.5, 10, 12.5 (and in the function below 1e-12, including '
          'negative); 4 triples of integers, bins 0.1-3; with float rounding errors, bit for bit: the doubles '
          'nearest to multiples of 1/20 bin in [-10, 10], bins 0.05, 0.1, '
          '0.2, 0.5, 1, 2.5 (0.01: [-2, 2])',
    thorough='1-4 values, the same domains, bin 0.01 in [-10, 10]')
OUTSIDE = 'other bin sizes; non-decimal floats adjacent to ties; infinities'


def b2p():
    from seismostats.utils import bin_to_precision
    return bin_to_precision


def _values(ctx, n, d, lim=20):
    """values in an arbitrary position of their bin, and the bin centers"""
    k = ctx.ints('k', n, -lim, lim)
    f = ctx.reals('f', n, '-1/2', F(1, 2) - F(1, 10**9))
    delta = ctx.const(d)
    return [(kk + ff) * delta for kk, ff in zip(k, f)], \
        [kk * delta for kk in k], f


def nearest_bin(ctx, d, n, kind, nan=False):
    x, ref, f = _values(ctx, n, d)
    delta = ctx.const(d)
    if nan:
        x = [ctx.nan] + x[1:]
    if kind == 'list':
        arg = [x_ if x_ is ctx.nan else ctx.f(x_) for x_ in x]
    elif kind == 'series':
        import pandas as pd
        arg = pd.Series([ctx.f(x_) for x_ in x])
    else:
        arg = ctx.array(x)
    before = list(arg)
    r = b2p()(arg, ctx.f(delta) if kind != 'plain' else float(d))
    ctx.out('r', r)
    r = list(r)
    ctx.true(len(r) == n, 'one value per value')
    for i in range(n):
        if nan and i == 0:
            ctx.true(isnan(r[0]), 'NaN stays NaN')
            ctx.reach('nan')
            continue
        ctx.eq(r[i], ref[i], 'the nearest multiple, ties upwards')
        if f[i] == F(-1, 2):
            ctx.reach('tie')
        if x[i] < 0:
            ctx.reach('negative')
    for a, b in zip(list(arg), before):
        ctx.true(isnan(a) and isnan(b) or a is b or bool(a == b),
                 'the argument is not modified')
    # binning binned values changes nothing
    r2 = list(b2p()(ctx.array([y for y in r]), ctx.f(delta)))
    for i in range(1 if nan else 0, n):
        ctx.eq(r2[i], ref[i], 'idempotent')
    ctx.reach('rounded')


def integers(ctx, d, kind):
    """values of an integer type"""
    import numpy as np
    import pandas as pd
    x = ctx.pick('x', ((3, -4, 7), (0, 1, 2), (-1, 20, 13), (11, 11, -8)))
    arg = list(x) if kind == 'list' else np.array(
        x, dtype=kind if kind != 'series' else None)
    if kind == 'series':
        arg = pd.Series(arg, index=[5, 2, 9])
    r = list(b2p()(arg, float(d)))
    half = F(1, 2)
    for a, b in zip(r, x):
        ctx.eq(ctx.const(float(a)), ctx.const(
            (F(b) / F(d) + half).__floor__() * F(d)), 'the nearest multiple')
    ctx.true(list(arg) == list(x), 'the argument is not modified')
    ctx.reach('integers')


def bad_bin(ctx):
    x = ctx.reals('x', 2, -5, 5)
    d = ctx.real('d', -3, F(1, 10**13))
    ctx.raises(ValueError, lambda: b2p()(ctx.array(x), ctx.f(d)),
               'bin size not positive')
    ctx.raises(ValueError, lambda: b2p()(None, 0.1), 'no values')
    ctx.reach('bad bin')


def clean_float(ctx, d, lim):
    """the result is bit for bit the float of the decimal number"""
    n = int(lim / F(d))
    j = ctx.pick('j', sorted(range(-n, n + 1), key=abs))
    r = ctx.int('r', -10, 9)
    x = ctx.nearest((j + r * ctx.const('1/20')) * ctx.const(d))
    with ctx.floats():
        y = list(b2p()(ctx.array([x]), float(d)))[0]
        ctx.true(bool(y == float(j * F(d))), 'the float of the decimal value')
    ctx.reach('clean floats')


def catalog(ctx, d, src, inplace):
    from seismostats import Catalog
    x, ref, _ = _values(ctx, 2, d)
    other = ctx.f(ctx.const('0.5'))
    delta = ctx.f(ctx.const(d))
    kw = dict(delta_m=delta if src == 'attr' else
              (other if src == 'arg' else None))
    cat = Catalog(dict(magnitude=ctx.list(x), depth=[1., 2.]), index=[7, 3],
                  mc=ctx.f(ctx.const('1')), **kw)
    args = dict(delta_m=delta) if src == 'arg' else {}
    if src == 'none':
        ctx.raises(ValueError, lambda: cat.bin_magnitudes(inplace=inplace),
                   'no bin size')
        return
    res = cat.bin_magnitudes(inplace=inplace, **args)
    if inplace:
        ctx.true(res is None, 'nothing returned in place')
        res = cat
    else:
        ctx.eqs(list(cat['magnitude']), x, 'catalog not modified')
        ctx.eq(cat.delta_m, kw['delta_m'], 'bin size not modified')
        ctx.true(isinstance(res, Catalog), 'a catalog')
    ctx.eqs(list(res['magnitude']), ref, 'binned column')
    ctx.eq(res.delta_m, ctx.const(d), 'bin size attribute')
    ctx.true(list(res.index) == [7, 3] and list(res['depth']) == [1., 2.],
             'other columns and labels kept')
    ctx.eq(res.mc, ctx.const('1'), 'mc kept')
    ctx.reach('catalog')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for d in ('0.01', '0.05', '0.1', '0.2', '0.25', '0.5', '1', '2', '10',
              '1.5', '2.5', '0.125', '12.5'):
        out.append(('nearest_bin', dict(d=d, n=2 if q else 4, kind='array')))
        out.append(('nearest_bin', dict(d=d, n=2, kind='plain')))
    for d in ('0.1', '0.2'):
        for kind in ('list', 'series'):
            out.append(('nearest_bin', dict(d=d, n=3, kind=kind)))
        out.append(('nearest_bin', dict(d=d, n=3, kind='array', nan=True)))
        for src in ('attr', 'arg', 'none'):
            for inp in (False, True):
                out.append(('catalog', dict(d=d, src=src, inplace=inp)))
    for d in ('0.1', '0.3', '0.7', '1', '2.5', '3', '0.15'):
        for kind in ('int64', 'int32', 'list', 'series'):
            out.append(('integers', dict(d=d, kind=kind)))
    out.append(('bad_bin', {}))
    for d in ('0.01', '0.05', '0.1', '0.2', '0.5', '1.0',
              '2.5'):
        lim = 2 if F(d) < F(1, 20) and q else 10
        out.append(('clean_float', dict(d=d, lim=lim)))
    return out
