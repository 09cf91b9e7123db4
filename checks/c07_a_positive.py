"""C07  a-positive and a-more-positive: which pairs, which times"""
from checks.common import A, Mags, Times, div, dmc_value, isnan, log10, \
    pow10, ssum
from checks.c03_positive_b import pairs

PROP = 'C07'
WITNESS = ['estimate', 'none left', 'no pair', 'unsorted', 'skipped event',
           'open end', 'dates']
ASSUMPTIONS = [
    'exact arithmetic: float rounding is outside the claim',
    'event times pairwise distinct',
]
BOUNDS = dict(
    quick='catalogs of 1-3 events, magnitudes in [-2, 9] on 0.1/0.25 grids '
          'or continuous, any mc there, b in [1/4, 3], dmc in [0, 3] or '
          'omitted, every time order; event times as numbers, and as dates of '
          'second to nanosecond resolution; catalogs of 80 (14) events of '
          'which 1 (2) have any magnitude, the others a given one',
    thorough='catalogs of 1-4 events, same domains')
OUTSIDE = 'longer catalogs with several free magnitudes; float rounding; simultaneous events'


def formula(ctx, est, n, conf, times='perm', dmc='sym',
            free=None):
    g = Mags(ctx, n, conf, free=free)
    T = Times(ctx, n, times)
    d = dmc_value(ctx, conf, few=bool(free)) if dmc == 'sym' else None
    b = ctx.real('b', '1/4', 3)
    kw = {} if d is None else dict(dmc=ctx.f(d))
    e = A()[est]()
    v = e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                    times=ctx.array(T.t), b_value=ctx.f(b), **kw)
    ctx.out('a', v)
    dd = g.delta if d is None else d
    ctx.eq(e.dmc, dd, 'dmc defaults to the bin size')
    o = [i for i in T.order if bool(g.m[i] >= g.mc - g.delta / 2)]
    if not o:
        ctx.true(isnan(v), 'no complete event: NaN')
        ctx.reach('none left')
        return
    m = [g.m[i] for i in o]
    t = [T.t[i] for i in o]
    ps = pairs(est, m, dd - g.delta / 2)
    later = [o[j] for _, j in ps]
    ctx.true(e.n == len(ps), 'n counts the pairs')
    ctx.eqs(e.magnitudes, [g.m[i] for i in later],
            'magnitudes of the later events')
    ctx.eqs(e.idx, later, 'idx points at the later event')
    ctx.eqs(e.times, [T.t[i] for i in later], 'times of the later events')
    if T.order != sorted(T.order):
        ctx.reach('unsorted')
    if not ps:
        ctx.true(isnan(v), 'no pair: NaN')
        ctx.reach('no pair')
        return
    total = t[-1] - t[0]
    if est == 'apos':
        tau = [t[j] - t[i] for i, j in ps]
    else:
        nxt = dict(ps)
        tau = [(t[nxt.get(i, -1)] - t[i]) * pow10(ctx, -b * (
            m[i] + dd - g.mc)) for i in range(len(m))]
        if len(ps) < len(m) - 1:
            ctx.reach('open end')
    ref = log10(ctx, div(ctx, len(ps), ssum([div(ctx, x, total)
                                             for x in tau])))
    ctx.eq(v, ref, 'log10 of pairs over exposure time')
    ctx.reach('estimate')
    if any(j - i > 1 for i, j in ps):
        ctx.reach('skipped event')


def datetimes(ctx, est, n, conf, unit):
    """event times as dates of any resolution: same value as in seconds"""
    import datetime
    import numpy as np
    g = Mags(ctx, n, conf)
    b = ctx.real('b', '1/4', 3)
    # close to mc the scaled times get shorter than the resolution
    whole = ([0, 1, 4], [5, 1, 3])
    # times of other resolutions are not on full seconds
    parts = ([0.25, 0.625, 4.25], [5.75, 5.25, 5.5])
    secs = ctx.pick('secs', whole if unit == 's' else whole[:1] + parts)[:n]
    if unit == 'object':
        t = [datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=x)
             for x in secs]
    else:
        t = np.datetime64('2020-01-01') + np.array(
            [np.timedelta64(int(x * 1000), 'ms') for x in secs]).astype(
            f'timedelta64[{unit}]')
    out = []
    for tt in (t, ctx.array([ctx.const(str(x)) for x in secs])):
        e = A()[est]()
        v = e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                        times=tt, b_value=ctx.f(b))
        out.append((v, list(e.idx)))
    (v1, i1), (v2, i2) = out
    ctx.eq(v1, v2, 'dates give the same value as seconds')
    ctx.eqs(i1, i2, 'same events')
    if not isnan(v1):
        ctx.reach('dates')


def negative_dmc(ctx, est):
    g = Mags(ctx, 2, 'dec')
    T = Times(ctx, 2, 'perm')
    d = ctx.real('dmc', -3, 3)
    ctx.assume_lt(d, 0)
    ctx.raises(ValueError, lambda: A()[est]().calculate(
        ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), times=ctx.array(T.t),
        b_value=ctx.f(ctx.const('1')), dmc=ctx.f(d)), 'negative dmc')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ('apos', 'amore'):
        for conf in ('dec', 'dy', 'cont'):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                if n == 4 and conf == 'dec':
                    continue
                if q and n == 3 and conf == 'dy':
                    out.append(('formula', dict(est=est, n=n, conf=conf,
                                                times='sorted')))
                    continue
                out.append(('formula', dict(est=est, n=n, conf=conf)))
            out.append(('formula', dict(est=est, n=3, conf=conf, dmc=None,
                                        times='sorted')))
        for conf in ('dec', 'dy', 'cont'):
            out.append(('formula', dict(est=est, n=80, conf=conf,
                                        times='long', free=(33,))))
            out.append(('formula', dict(est=est, n=14, conf=conf, dmc=None,
                                        times='long', free=(4, 9))))
        out.append(('negative_dmc', dict(est=est)))
        for unit in ('s', 'ns', 'object') if q else (
                's', 'ms', 'us', 'ns', 'object'):
            out.append(('datetimes', dict(est=est, n=3, conf='cont',
                                          unit=unit)))
    out.append(('formula', dict(est='apos', n=4, conf='cont', dmc=None,
                                times='sorted')))
    out.append(('formula', dict(est='amore', n=4, conf='cont', dmc=None,
                                times='sorted')))
    out.sort(key=lambda j: -j[1].get('n', 0))
    return out
