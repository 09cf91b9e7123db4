"""C16  simulated and dithered magnitudes"""
from fractions import Fraction as F

from checks.common import Draws, LN10D, exp, log

PROP = 'C16'
WITNESS = ['untruncated', 'truncated', 'binned', 'b array', 'dithered',
           'mag_max 0', 'mag_max is mc', 'mc between bins', 'larger binning', 'offset', 'refused', 'empty']
ASSUMPTIONS = [
    'numpy.random.exponential/uniform return arbitrary numbers '
    '(exponential >= 0, uniform in [0, 1))',
]
BOUNDS = dict(
    quick='0-3 magnitudes, any beta in [1/2, 8] (or one per magnitude), any '
          'mc and mag_max, bins 0.1, 0.5, 1; dither: 1-3 magnitudes within '
          '5 bins from one of 5 smallest, 3 offsets',
    thorough='4 magnitudes')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'quality of the random numbers; dithering keeps the magnitudes ' \
    'of a sample, not their order'


def _beta(ctx, n, arr):
    if arr:
        ctx.reach('b array')
        return ctx.reals('beta', n, '1/2', 8)
    return [ctx.real('beta', '1/2', 8)] * max(n, 1)


def _truncated(ctx, x, u, beta, lo, hi, label):
    """x is the u-quantile of the exponential law between lo and hi"""
    elo, ehi = exp(ctx, -beta * lo), exp(ctx, -beta * hi)
    ctx.eq(exp(ctx, -beta * x), elo - u * (elo - ehi), label)


def _exponential(ctx, d, n, x, beta):
    if d.e or not n:
        ctx.true(len(d.e) == n, 'one draw per magnitude')
        for xx, e, bb in zip(x, d.e, beta):
            ctx.eq(xx * bb, e, 'exponential with rate beta above mc')
    else:
        # inverse of the distribution function
        ctx.true(len(d.u) == n, 'one draw per magnitude')
        for xx, u, bb in zip(x, d.u, beta):
            ctx.eq(exp(ctx, -bb * xx), 1 - u,
                   'exponential with rate beta above mc')


def continuous(ctx, n, arr, trunc):
    from seismostats.utils import simulate_magnitudes
    d = Draws(ctx)
    beta = _beta(ctx, n, arr)
    mc = ctx.real('mc', -3, 3)
    b = ctx.array(beta) if arr else ctx.f(beta[0])
    if trunc is None:
        x = list(simulate_magnitudes(n, b, ctx.f(mc)))
        ctx.true(len(x) == n, 'as many as asked for')
        _exponential(ctx, d, n, [xx - mc for xx in x], beta)
        ctx.reach('untruncated')
    else:
        if trunc == 'zero':
            top = ctx.const('0')
            ctx.reach('mag_max 0')
        elif trunc == 'point':
            # all the mass in one point
            top = mc
            ctx.reach('mag_max is mc')
        else:
            top = ctx.real('max', -3, 4)
        if trunc != 'point':
            ctx.assume(bool(top >= mc + F(1, 10)))
        arg = 0 if trunc == 'zero' else ctx.f(top)
        x = list(simulate_magnitudes(n, b, ctx.f(mc), arg))
        ctx.true(len(x) == n and len(d.u) == n, 'as many as asked for')
        for xx, u, bb in zip(x, d.u, beta):
            _truncated(ctx, xx, u, bb, mc, top,
                       'exponential law between mc and mag_max')
        ctx.reach('truncated')
    ctx.out('x', x)
    if n == 0:
        ctx.reach('empty')


def binned(ctx, d, n, par, arr=False, trunc=False, off=False):
    """binned magnitudes start half a bin below mc"""
    from seismostats.utils import simulate_magnitudes_binned
    dr = Draws(ctx)
    beta = _beta(ctx, n, arr)
    delta = ctx.const(d)
    kmc = ctx.int('kmc', -20, 20)
    mc = kmc * delta
    if off:
        # completeness between the multiples of the bin size
        mc = mc + ctx.real('off', '1/1000', '999/1000') * delta
        ctx.reach('mc between bins')
    b = beta if par == 'beta' else [bb / ctx.const(LN10D) for bb in beta]
    b = ctx.array(b) if arr else ctx.f(b[0])
    args = (n, b, ctx.f(mc), ctx.f(delta) if d != '0' else 0)
    kw = {} if par is None else dict(b_parameter=par)
    top = None
    if trunc:
        top = mc + ctx.int('kmax', 1, 10) * (delta if d != '0' else 1)
        kw['mag_max'] = ctx.f(top)
    x = list(simulate_magnitudes_binned(*args, **kw))
    ctx.out('x', x)
    ctx.true(len(x) == n, 'as many as asked for')
    for i in range(n):
        lo = mc - delta / 2
        if trunc:
            if d == '0':
                _truncated(ctx, x[i], dr.u[i], beta[i], lo, top,
                           'truncated law')
                continue
            elo, ehi = exp(ctx, -beta[i] * lo), exp(ctx, -beta[i] * top)
            y = -log(ctx, elo - dr.u[i] * (elo - ehi)) / beta[i]
        else:
            y = lo + dr.e[i] / beta[i]
            if d == '0':
                ctx.eq(x[i], y, 'continuous for bin size 0')
                continue
        eps = delta * F(1, 10**9)
        ctx.le(x[i] - y, delta / 2 + eps, 'nearest bin')
        ctx.le(y - x[i], delta / 2 + eps, 'nearest bin')
        k = x[i] / delta
        ctx.true(bool(abs(k - _floor(k + F(1, 2))) < F(1, 10**6)),
                 'multiples of the bin size')
        if not trunc and not off:
            ctx.le(mc, x[i], 'no magnitude below mc')
    ctx.reach('binned')


def _floor(x):
    import math
    from symex import core
    return core.floor(x) if type(x) is core.R else math.floor(x)


def bad(ctx):
    from seismostats.utils import simulate_magnitudes_binned
    Draws(ctx)
    ctx.raises(ValueError, lambda: simulate_magnitudes_binned(
        2, 1., 0., 0.1, b_parameter='b'), 'unknown b_parameter')


def dither(ctx, d, n, off, kind='array', base=None):
    from seismostats.utils.simulate_distributions import dither_magnitudes
    dr = Draws(ctx)
    b = ctx.real('b', '1/2', 2)
    delta = ctx.const(d)
    if base is None:
        base = ctx.int('k0', -20, 20)
        k = [base]
    else:
        k = [ctx.const(base)] + [ctx.const(base + ctx.pick(
            f'j{i}', (-2, -1, 0, 1, 2))) for i in range(1, n)]
    o = ctx.const(off) * delta
    m = [kk * delta + o for kk in k]
    arg = ctx.array(m) if kind == 'array' else ctx.list(m)
    x = list(dither_magnitudes(arg, ctx.f(delta), ctx.f(b)))
    ctx.out('x', x)
    ctx.true(len(x) == n and len(dr.u) == n, 'as many as given')
    # the bins in ascending order
    s = list(m)
    for i in range(1, n):
        j = i
        while j > 0 and bool(s[j] < s[j - 1]):
            s[j], s[j - 1] = s[j - 1], s[j]
            j -= 1
    beta = b * ctx.const(LN10D)
    for y, c, u in zip(x, s, dr.u):
        _truncated(ctx, y, u, beta, c - delta / 2, c + delta / 2,
                   'exponential law within the bin')
    ctx.reach('dithered')
    if off != '0':
        ctx.reach('offset')
    if n == 1:
        ctx.reach('larger binning')


def dither_bad(ctx, d):
    from seismostats.utils.simulate_distributions import dither_magnitudes
    Draws(ctx)
    delta = ctx.const(d)
    f = ctx.real('f', '1/100', '99/100')
    m = [ctx.const('1'), ctx.const('1') + delta * (3 + f)]
    ctx.raises(ValueError, lambda: dither_magnitudes(
        ctx.array(m), ctx.f(delta), 1.), 'not binned')
    ctx.reach('refused')


def jobs(tier):
    q = tier == 'quick'
    n = 2 if q else 3
    out = [('bad', {}), ('dither_bad', dict(d='0.1'))]
    for trunc in (None, 'any', 'zero', 'point'):
        for arr in (False, True):
            out.append(('continuous', dict(n=n, arr=arr, trunc=trunc)))
        out.append(('continuous', dict(n=0, arr=False, trunc=trunc)))
    for d in ('0', '0.1', '0.5', '1'):
        for par in (None, 'b_value', 'beta'):
            out.append(('binned', dict(d=d, n=1 if par else n, par=par)))
            out.append(('binned', dict(d=d, n=1, par=par, trunc=True)))
        out.append(('binned', dict(d=d, n=n, par='b_value', arr=True)))
        if d != '0':
            for par in ('b_value', 'beta'):
                for trunc in (False, True):
                    out.append(('binned', dict(d=d, n=1, par=par, off=True,
                                               trunc=trunc)))
    for d in ('0.1', '0.5', '1'):
        for off in ('0', '1/2', '1/4'):
            for base in (-7, -1, 0, 12) if q else range(-20, 40, 3):
                out.append(('dither', dict(d=d, n=2, off=off, base=base)))
            out.append(('dither', dict(d=d, n=1, off=off)))
    out.append(('dither', dict(d='0.1', n=3 if q else 4, off='0', base=3)))
    out.append(('dither', dict(d='0.1', n=2, off='0', kind='list', base=5)))
    return out
