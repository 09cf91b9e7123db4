"""C13  completeness by maximum curvature"""
from fractions import Fraction as F

from checks.common import pattern

PROP = 'C13'
WITNESS = ['tie', 'nan', 'clear maximum', 'catalog', 'default correction',
           'long']
ASSUMPTIONS = [
    'values within 1e-9 bins below a rounding tie are excluded (ties included)']
BOUNDS = dict(
    quick='1-4 magnitudes (and up to two NaN) in any order anywhere in their '
          'bins, at most 3 bins apart; 25 and 60 magnitudes in 9 and 31 bins of '
          'which two and one are anywhere; bins 0.01-1; any correction',
    thorough='1-5 magnitudes, at most 4 bins apart')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'larger samples'


def maxc(ctx, d, n, nan=0, span=3, catalog=False, series=False, top=20,
         free=None):
    delta = ctx.const(d)
    if free is not None:
        ctx.reach('long')
        return _maxc(ctx, *_long(ctx, delta, n, top, free), n, delta, catalog)
    k0 = ctx.int('k0', -20, 20)
    dk = ctx.ints('k', n - 1, -span, span)
    f = ctx.reals('f', n, '-1/2', F(1, 2) - F(1, 10**9))
    k = [k0] + [k0 + j for j in dk]
    for i in range(n):
        for j in range(i):
            ctx.assume(bool(k[i] - k[j] <= span))
            ctx.assume(bool(k[j] - k[i] <= span))
    x = [(kk + ff) * delta for kk, ff in zip(k, f)]
    for i in range(nan):
        p = ctx.pick(f'p{i}', range(len(x) + 1))
        x = x[:p] + [ctx.nan] + x[p:]
        ctx.reach('nan')
    _maxc(ctx, k, x, n, delta, catalog, series)


def _long(ctx, delta, n, top, free):
    """magnitudes in at most top bins, those in free anywhere in them"""
    k = [ctx.const(b - 7) for b in pattern(n, top, 5)]
    f = [ctx.const(F(b * 7 % 16 - 8, 17)) for b in range(n)]
    for i in free:
        k[i] = ctx.int(f'k{i}', -9, top - 7)
        f[i] = ctx.real(f'f{i}', '-1/2', F(1, 2) - F(1, 10**9))
    k = [int(ctx.f(i)) for i in k]
    return k, [(kk + ff) * delta for kk, ff in zip(k, f)]


def _maxc(ctx, k, x, n, delta, catalog=False, series=False):
    default = ctx.flag('default')
    corr = ctx.const('0.2') if default else ctx.real('corr', -2, 2)
    kw = {} if default else dict(correction_factor=ctx.f(corr))
    if default:
        ctx.reach('default correction')
    if catalog:
        from seismostats import Catalog
        cat = Catalog(dict(magnitude=ctx.list(x)), delta_m=0.1,
                      b_value=1.)
        mc, info = cat.estimate_mc_maxc(fmd_bin=ctx.f(delta), **kw)
        ctx.eq(cat.mc, mc, 'mc attribute')
        ctx.true(len(cat) == len(x) and cat.delta_m == 0.1
                 and cat.b_value == 1., 'rest unchanged')
        ctx.reach('catalog')
    else:
        from seismostats.analysis import estimate_mc_maxc
        arg = ctx.array(x)
        if series:
            import pandas as pd
            arg = pd.Series(ctx.list(x), index=list(range(len(x), 0, -1)))
        mc, info = estimate_mc_maxc(arg, ctx.f(delta), **kw)
    ctx.eq(info['correction_factor'], corr, 'correction reported')
    best, nb = None, -1
    for kk in k:
        c = sum(bool(o == kk) for o in k)
        if c > nb or (c == nb and bool(kk < best)):
            if c == nb:
                ctx.reach('tie')
            best, nb = kk, c
    if nb > 1 and n > 2:
        ctx.reach('clear maximum')
    ctx.eq(mc, best * delta + corr,
           'lowest of the fullest bins plus the correction')
    ctx.out('mc', mc)


def jobs(tier):
    q = tier == 'quick'
    out = []
    for d in ('0.01', '0.1', '0.25', '0.5', '1'):
        out.append(('maxc', dict(d=d, n=3, nan=1)))
    out.append(('maxc', dict(d='0.1', n=4, span=2)))
    if not q:
        out.append(('maxc', dict(d='0.1', n=5, span=2)))
        out.append(('maxc', dict(d='0.1', n=4, span=4, nan=1)))
    out.append(('maxc', dict(d='0.1', n=3, series=True, nan=1)))
    for d in ('0.1', '0.2'):
        out.append(('maxc', dict(d=d, n=3, catalog=True)))
        out.append(('maxc', dict(d=d, n=2, nan=1, catalog=True)))
        out.append(('maxc', dict(d=d, n=1)))
        out.append(('maxc', dict(d=d, n=25, top=8, free=(4, 17))))
        out.append(('maxc', dict(d=d, n=60, top=30, free=(11,),
                                 catalog=d == '0.1')))
        out.append(('maxc', dict(d=d, n=2, nan=2)))
    return out
