"""C03  b-positive and b-more-positive: which differences, which formula"""
from checks.common import B, LN10D, Mags, Times, dmc_value, gr_mle, isnan

PROP = 'C03'
WITNESS = ['estimate', 'none left', 'no pair', 'unsorted', 'weighted',
           'skipped event']
ASSUMPTIONS = [
    'exact arithmetic: decimal literals mean their decimal value, float '
    'rounding is outside the claim',
    'event times pairwise distinct; weights > 0',
]
BOUNDS = dict(
    quick='catalogs of 1-3 events (4 without times), magnitudes in [-2, 9] '
          'on 0.1/0.25 grids or continuous, any mc there, dmc in [0, 3] or '
          'omitted, every time order or no times, optional weights; catalogs '
          'of 120 (16) events of which 1 (2) have any magnitude, the others '
          'a given one',
    thorough='catalogs of 1-5 events, same domains')
OUTSIDE = 'longer catalogs with more than two free magnitudes; float rounding; simultaneous events'


def pairs(est, m, thr):
    """(earlier, later) positions in the time-ordered magnitudes m"""
    out = []
    for i in range(len(m) - 1):
        for j in range(i + 1, len(m)):
            if bool(m[j] - m[i] >= thr):
                out.append((i, j))
                break
            if est in ('bpos', 'apos'):
                break
    return out


def formula(ctx, est, n, conf, times=None, weighted=False, dmc='sym',
            free=None):
    g = Mags(ctx, n, conf, free=free)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    T = Times(ctx, n, times)
    d = dmc_value(ctx, conf) if dmc == 'sym' else None
    e = B()[est]()
    kw = {} if d is None else dict(dmc=ctx.f(d))
    v = e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                    weights=None if w is None else ctx.array(w),
                    times=None if T.t is None else ctx.array(T.t), **kw)
    ctx.out('b', v)
    dd = g.delta if d is None else d
    ctx.eq(e.dmc, dd, 'dmc defaults to the bin size')
    o = [i for i in T.order if bool(g.m[i] >= g.mc - g.delta / 2)]
    if not o:
        ctx.true(isnan(v), 'no complete event: NaN')
        ctx.reach('none left')
        return
    m = [g.m[i] for i in o]
    ps = pairs(est, m, dd - g.delta / 2)
    diffs = [m[j] - m[i] for i, j in ps]
    later = [o[j] for _, j in ps]
    ws = None if w is None else [w[i] for i in later]
    ref = gr_mle(ctx, [x - dd for x in diffs], g.delta, ws)
    ctx.eq(v, ref, 'b-value of the selected differences')
    ctx.eq(e.b_value, ref, 'stored b-value')
    ctx.true(e.n == len(ps), 'n counts the differences')
    ctx.eqs(e.magnitudes, diffs, 'the differences used')
    ctx.eqs(e.idx, later, 'idx points at the later event')
    if w is not None:
        ctx.eqs(e.weights, ws, 'weights of the later events')
    if T.t is not None:
        ctx.eqs(e.times, [T.t[i] for i in later],
                'times of the later events')
    ctx.reach('estimate' if ps else 'no pair')
    if T.order != sorted(T.order):
        ctx.reach('unsorted')
    if w is not None:
        ctx.reach('weighted')
    if any(j - i > 1 for i, j in ps):
        ctx.reach('skipped event')


def next_larger(ctx, n, conf, dmc='sym'):
    """find_next_larger: first later event larger by dmc, 0 if none"""
    from seismostats.analysis.bvalue.utils import find_next_larger
    g = Mags(ctx, n, conf, mc=False)
    d = dmc_value(ctx, conf) if dmc == 'sym' else None
    r = find_next_larger(ctx.array(g.m), ctx.f(g.delta), ctx.f(d))
    ctx.out('idx', r)
    dd = g.delta if d is None else d
    ref = [0] * n
    for i, j in pairs('bmore', g.m, dd - g.delta / 2):
        ref[i] = j
    ctx.eqs(r, ref, 'next larger event')


def negative_dmc(ctx, est):
    g = Mags(ctx, 2, 'dec')
    d = ctx.real('dmc', -3, 3)
    ctx.assume_lt(d, 0)
    ctx.raises(ValueError, lambda: B()[est]().calculate(
        ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), dmc=ctx.f(d)), 'negative dmc')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ('bpos', 'bmore'):
        for conf in ('dec', 'dy', 'cont'):
            for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                for times in (None, 'perm'):
                    for w in (False, True):
                        if n > 3 and (w or times == 'perm' and n > 4):
                            continue
                        if q and n == 3 and times == 'perm' and (
                                w != (conf == 'cont') or conf == 'dy'):
                            continue
                        if q and n == 3 and times is None and not w \
                                and conf != 'dy':
                            continue
                        out.append(('formula', dict(
                            est=est, n=n, conf=conf, times=times,
                            weighted=w)))
            for n in (2, 3):
                out.append(('formula', dict(est=est, n=n, conf=conf,
                                            dmc=None)))
            for n, free in ((120, (77,)), (16, (3, 12))):
                out.append(('formula', dict(
                    est=est, n=n, conf=conf, free=free, dmc=None,
                    times='long' if conf != 'dy' else None,
                    weighted=conf == 'dy' and n < 20)))
        out.append(('formula', dict(est=est, n=2, conf='milli')))
        if q:
            out.append(('formula', dict(est=est, n=4, conf='cont',
                                        dmc=None)))
        out.append(('negative_dmc', dict(est=est)))
    for conf in ('dec', 'dy', 'cont'):
        for dmc in ('sym', None):
            out.append(('next_larger', dict(n=4 if q else 5, conf=conf,
                                            dmc=dmc)))
            out.append(('next_larger', dict(n=2, conf=conf, dmc=dmc)))
    out.sort(key=lambda j: -j[1].get('n', 0))
    return out
