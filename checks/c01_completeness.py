"""C01  completeness filter: which events enter an estimate"""
from checks.common import A, B, Mags, Times, dmc_value, distinct_times, \
    increasing, isnan

PROP = 'C01'
WITNESS = ['filtered', 'boundary', 'none left', 'nan', 'all kept']
ASSUMPTIONS = [
    'exact arithmetic: decimal literals mean their decimal value, float '
    'rounding is outside the claim',
    'event times pairwise distinct; weights > 0; at least one magnitude is '
    'not NaN',
]
BOUNDS = dict(
    quick='catalogs of 1-3 events (4 for the classic estimators), magnitudes '
          'in [-2, 9] on a 0.1/0.25 grid or continuous, mc on the 0.1 grid, '
          'the half-bin grid or continuous, NaN at any position, optional '
          'weights, any dmc in [0, 3]; catalogs of 60 events (6 NaN), one '
          'with any magnitude, the others with a given one',
    thorough='catalogs of 1-5 events, same domains')
OUTSIDE = 'longer catalogs with several free magnitudes; float rounding of mc - delta_m/2'


def _call(ctx, name, m, mc, d, w, t, dmc, bval):
    if name in ('b', 'utsu'):
        e = B()[name]()
        v = e.calculate(ctx.array(m), ctx.f(mc), ctx.f(d),
                        weights=None if w is None else ctx.array(w))
    elif name in ('bpos', 'bmore'):
        e = B()[name]()
        v = e.calculate(ctx.array(m), ctx.f(mc), ctx.f(d),
                        weights=None if w is None else ctx.array(w),
                        times=None if t is None else ctx.array(t), dmc=ctx.f(dmc))
    elif name == 'a':
        e = A()[name]()
        v = e.calculate(ctx.array(m), ctx.f(mc), ctx.f(d))
    else:
        e = A()[name]()
        v = e.calculate(ctx.array(m), ctx.f(mc), ctx.f(d),
                        times=ctx.array(t),
                        b_value=ctx.f(bval), dmc=ctx.f(dmc))
    return e, v


def irrelevant(ctx, est, n, conf, weighted=False, nan=False, times=True,
               free=None):
    """events below mc - delta/2 and NaN magnitudes have no influence"""
    g = Mags(ctx, n, conf, free=free)
    m = list(g.m)
    isn = [False] * n
    if nan is True:
        for i in range(n):
            if ctx.flag(f'nan{i}'):
                m[i], isn[i] = ctx.nan, True
        ctx.assume(not all(isn))
    elif nan:
        for i in nan:
            m[i], isn[i] = ctx.nan, True
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    t = None
    if est not in ('b', 'utsu', 'a') and (times or est in ('apos', 'amore')):
        t = Times(ctx, n, 'long').t if free else increasing(ctx, n)
    dmc = bval = None
    if est not in ('b', 'utsu', 'a'):
        dmc = dmc_value(ctx, conf, few=bool(free))
        bval = ctx.real('bval', '1/4', 3)
    keep = [i for i in range(n)
            if not isn[i] and bool(g.m[i] >= g.mc - g.delta / 2)]
    e, v = _call(ctx, est, m, g.mc, g.delta, w, t, dmc, bval)
    ctx.out('value', v)
    ctx.out('idx', e.idx)
    if not keep:
        ctx.true(isnan(v), 'no event left: the estimate is NaN')
        ctx.true(len(e.magnitudes) == 0 and len(e.idx) == 0,
                 'no event left: nothing used')
        ctx.reach('none left')
        return
    if len(keep) < n:
        ctx.reach('filtered')
    else:
        ctx.reach('all kept')
    if any(isn):
        ctx.reach('nan')
    if any(bool(g.m[i] == g.mc - g.delta / 2) for i in keep):
        ctx.reach('boundary')
    sub = lambda x: None if x is None else [x[i] for i in keep]  # noqa
    e2, v2 = _call(ctx, est, sub(m), g.mc, g.delta, sub(w), sub(t), dmc,
                   bval)
    ctx.eq(v, v2, 'estimate unchanged by events below completeness')
    ctx.eqs(e.magnitudes, e2.magnitudes, 'magnitudes used')
    ctx.eqs(e.idx, [keep[int(i)] for i in e2.idx], 'indices used')
    if est in ('b', 'utsu', 'a'):
        ctx.eqs(e.idx, keep, 'exactly the events at or above mc - delta/2')
        ctx.true(e.n == len(keep), 'n counts the events used')


def aligned(ctx, est, n, conf, weighted=False, times=True, free=None):
    """magnitudes, weights, times and idx describe the same events"""
    g = Mags(ctx, n, conf, free=free)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    t = None
    if est not in ('b', 'utsu', 'a') and (times or est in ('apos', 'amore')):
        t = Times(ctx, n, 'long').t if free else distinct_times(ctx, n)[0]
    dmc = bval = None
    if est not in ('b', 'utsu', 'a'):
        dmc = dmc_value(ctx, conf, few=bool(free))
        bval = ctx.real('bval', '1/4', 3)
    e, v = _call(ctx, est, g.m, g.mc, g.delta, w, t, dmc, bval)
    ctx.out('idx', e.idx)
    k = len(e.idx)
    ctx.true(len(e.magnitudes) == k, 'as many magnitudes as indices')
    ctx.true(e.n == k, 'n is the number of magnitudes used')
    ix = [int(i) for i in e.idx]
    ctx.true(len(set(ix)) == k or est in ('bmore', 'amore'),
             'no event used twice')
    ctx.true(all(0 <= i < n for i in ix), 'indices refer to input events')
    import numpy as np
    ctx.true(np.asarray(e.idx).dtype.kind in 'iu', 'indices are integers')
    for i in ix:
        ctx.le(g.mc - g.delta / 2, g.m[i], 'indexed events are complete')
    if est not in ('bpos', 'bmore'):
        ctx.eqs(e.magnitudes, [g.m[i] for i in ix], 'magnitudes follow idx')
    if weighted:
        ctx.eqs(e.weights, [w[i] for i in ix], 'weights follow idx')
    if t is not None:
        ctx.eqs(e.times, [t[i] for i in ix], 'times follow idx')
    if k:
        ctx.reach('all kept')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ('b', 'utsu', 'a'):
        ws = (False, True) if est != 'a' else (False,)
        for conf in ('dec', 'dy', 'cont'):
            for n in (2, 3) if q else (2, 3, 4, 5):
                for w in ws:
                    if w and n > 3:
                        continue
                    out.append(('irrelevant', dict(est=est, n=n, conf=conf,
                                                   weighted=w)))
            out.append(('irrelevant', dict(est=est, n=3, conf=conf,
                                           nan=True)))
            for w in ws:
                if q and w and conf == 'dec':
                    continue
                out.append(('aligned', dict(est=est, n=3, conf=conf,
                                            weighted=w)))
        if q and est == 'b':
            out.append(('irrelevant', dict(est=est, n=4, conf='dec')))
    for est in ('bpos', 'bmore', 'apos', 'amore'):
        wn = ((True, True), (False, False), (True, False), (False, True)) \
            if est[0] == 'b' else ((False, True),)
        for conf in ('dec', 'dy', 'cont'):
            for w, t in wn:
                for n in (2, 3) if q else (2, 3, 4):
                    if q and n == 3 and (w, t) != wn[0]:
                        continue
                    out.append(('irrelevant', dict(
                        est=est, n=n, conf=conf, weighted=w, times=t)))
                big = conf == ('dec' if est in ('apos', 'bpos') else 'cont')
                if not q or (w, t) == wn[0] and big or not t:
                    out.append(('aligned', dict(est=est, n=3, conf=conf,
                                                weighted=w, times=t)))
                else:
                    out.append(('aligned', dict(est=est, n=2, conf=conf,
                                                weighted=w, times=t)))
                if not q and conf != 'cont':
                    out.append(('aligned', dict(est=est, n=4, conf=conf,
                                                weighted=w, times=t)))
            out.append(('irrelevant', dict(est=est, n=2 if q else 3,
                                           conf=conf, nan=True, times=True)))
    for est in ('b', 'utsu', 'a', 'bpos', 'bmore', 'apos', 'amore'):
        for conf in ('dec', 'dy', 'cont'):
            out.append(('irrelevant', dict(
                est=est, n=60, conf=conf, free=(31,),
                nan=(3, 20, 21, 22, 44, 59))))
            out.append(('aligned', dict(est=est, n=60, conf=conf,
                                        free=(31,))))
    out.sort(key=lambda j: -j[1]['n'])
    return out
