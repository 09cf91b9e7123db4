"""C04  the estimates depend on the events, not on how they are listed"""
from checks.common import A, B, Mags, Times, dmc_value, increasing

PROP = 'C04'
WITNESS = ['permuted', 'pairs', 'weighted', 'units', 'dates']
ASSUMPTIONS = [
    'exact arithmetic: decimal literals mean their decimal value, float '
    'rounding is outside the claim',
    'event times pairwise distinct; weights > 0',
]
BOUNDS = dict(
    quick='catalogs of 2-3 events, every permutation, magnitudes in [-2, 9] '
          'on 0.1/0.25 grids or continuous, any mc there, dmc in [0, 3], '
          'optional weights; time units: any shift in [-1000, 1000] and '
          'scale in [1/100, 100]; two permutations of catalogs of 50 events, '
          'one with any magnitude, the others with a given one',
    thorough='catalogs of 2-4 events, same domains')
OUTSIDE = 'longer catalogs with several free magnitudes; float rounding; simultaneous events'


def _run(ctx, est, m, g, w, t, d, b):
    pos = est in ('bpos', 'bmore', 'apos', 'amore')
    kw = {}
    if est in ('b', 'utsu', 'bpos', 'bmore'):
        e = B()[est]()
        kw['weights'] = None if w is None else ctx.array(w)
    else:
        e = A()[est]()
        kw['b_value'] = ctx.f(b)
    if pos:
        kw['dmc'] = ctx.f(d)
        kw['times'] = None if t is None else ctx.array(t)
    v = e.calculate(ctx.array(m), ctx.f(g.mc), ctx.f(g.delta), **kw)
    return e, v


def permuted(ctx, est, n, conf, weighted=False, free=None):
    import itertools
    g = Mags(ctx, n, conf, free=free)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    pos = est in ('bpos', 'bmore', 'apos', 'amore')
    t = increasing(ctx, n) if pos and not free else None
    d = dmc_value(ctx, conf, few=bool(free)) if pos else None
    b = ctx.real('b', '1/4', 3) if est[0] == 'a' else None
    if free:
        t = sorted(Times(ctx, n, 'long').t) if pos else None
        p = ctx.pick('perm', [Times(ctx, n, 'long').order,
                              list(range(n))[::-1]])
    else:
        p = ctx.pick('perm', list(itertools.permutations(range(n)))[1:])
    sub = lambda x: None if x is None else [x[i] for i in p]  # noqa
    e1, v1 = _run(ctx, est, g.m, g, w, t, d, b)
    e2, v2 = _run(ctx, est, sub(g.m), g, sub(w), sub(t), d, b)
    ctx.out('value', v2)
    ctx.eq(v1, v2, 'estimate independent of the order of the input')
    back = [p[int(i)] for i in e2.idx]
    if pos:
        ctx.eqs(e1.idx, back, 'idx points at the same events')
        ctx.eqs(e1.magnitudes, e2.magnitudes, 'magnitudes used')
        if t is not None:
            ctx.eqs(e1.times, e2.times, 'times used, in time order')
        if w is not None:
            ctx.eqs(e1.weights, e2.weights, 'weights used')
            ctx.reach('weighted')
        if len(e1.idx):
            ctx.reach('pairs')
    else:
        ctx.eqs(sorted(int(i) for i in e1.idx), sorted(back),
                'idx points at the same events')
    ctx.reach('permuted')


def dates(ctx, est, n, conf, kind, weighted=False):
    """times as datetimes of any resolution, at any distance"""
    import datetime
    import itertools
    import numpy as np
    g = Mags(ctx, n, conf)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    d = dmc_value(ctx, conf)
    b = ctx.real('b', '1/4', 3) if est[0] == 'a' else None
    unit = ctx.pick('unit', {'datetime': ('us', 'ms', 'h'),
                             'ns': ('ns', 'ms'), 'us': ('us', 's'),
                             's': ('s', 'D')}[kind])
    # distances 1, 3, ...: the whole is a power of two for up to 4 events
    off = [0, 1, 4, 16][:n] if n != 4 else [0, 1, 5, 16]
    start = np.datetime64('2021-12-31T23:59:59.999990', kind
                          if kind in ('ns', 'us') else 's')
    t = [start + np.timedelta64(o, unit) for o in off]
    if kind == 'datetime':
        t = [datetime.datetime(2021, 12, 31, 23, 59, 59, 999999)
             + datetime.timedelta(**{
                 {'us': 'microseconds', 'ms': 'milliseconds',
                  'h': 'hours'}[unit]: o}) for o in off]
    p = ctx.pick('perm', list(itertools.permutations(range(n)))[1:])
    sub = lambda x: None if x is None else [x[i] for i in p]  # noqa

    def run(m, w, t):
        kw = {}
        if est[0] == 'b':
            e = B()[est]()
            kw['weights'] = None if w is None else ctx.array(w)
        else:
            e = A()[est]()
            kw['b_value'] = ctx.f(b)
        t = t if kind == 'datetime' else np.array(t)
        return e, e.calculate(ctx.array(m), ctx.f(g.mc), ctx.f(g.delta),
                              dmc=ctx.f(d), times=t, **kw)
    e1, v1 = run(g.m, w, t)
    e2, v2 = run(sub(g.m), sub(w), sub(t))
    ctx.out('value', v2)
    ctx.eq(v1, v2, 'estimate independent of the order of the input')
    ctx.true([int(i) for i in e1.idx] == [p[int(i)] for i in e2.idx],
             'idx points at the same events')
    ctx.true(list(e1.times) == list(e2.times)
             and list(e1.times) == [np.array(t)[int(i)] for i in e1.idx],
             'times used, in time order')
    ctx.eqs(e1.magnitudes, e2.magnitudes, 'magnitudes used')
    if w is not None:
        ctx.eqs(e1.weights, e2.weights, 'weights used')
    if len(e1.idx):
        ctx.reach('dates')


def no_times(ctx, est, n, conf, weighted=False):
    """without times, the events are taken to be in time order"""
    g = Mags(ctx, n, conf)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    t = increasing(ctx, n)
    d = dmc_value(ctx, conf)
    e1, v1 = _run(ctx, est, g.m, g, w, None, d, None)
    e2, v2 = _run(ctx, est, g.m, g, w, t, d, None)
    ctx.out('value', v1)
    ctx.eq(v1, v2, 'no times means input order')
    ctx.eqs(e1.idx, e2.idx, 'idx')
    ctx.true(e1.times is None, 'no times reported')


def units(ctx, est, n, conf):
    """time unit and origin do not matter (without scaling factor)"""
    g = Mags(ctx, n, conf)
    t = increasing(ctx, n)
    d = dmc_value(ctx, conf)
    b = ctx.real('b', '1/4', 3)
    s = ctx.real('scale', '1/100', 100)
    o = ctx.real('shift', -1000, 1000)
    e1, v1 = _run(ctx, est, g.m, g, None, t, d, b)
    e2, v2 = _run(ctx, est, g.m, g, None, [s * x + o for x in t], d, b)
    ctx.out('value', v2)
    ctx.eq(v1, v2, 'estimate independent of the time unit')
    ctx.eqs(e1.idx, e2.idx, 'same events')
    if len(e1.idx):
        ctx.reach('units')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ('bpos', 'bmore', 'apos', 'amore'):
        isb = est[0] == 'b'
        for conf in ('dec', 'dy', 'cont'):
            for w in ((False, True) if isb else (False,)):
                out.append(('permuted', dict(est=est, n=2, conf=conf,
                                             weighted=w)))
                if not q or conf == 'cont' and (w or not isb) or (
                        conf == 'dec' and not w and est != 'bpos'):
                    out.append(('permuted', dict(est=est, n=3, conf=conf,
                                                 weighted=w)))
                if isb:
                    out.append(('no_times', dict(est=est, n=3, conf=conf,
                                                 weighted=w)))
                    if not q:
                        out.append(('no_times', dict(
                            est=est, n=4, conf=conf, weighted=w)))
            if conf == 'dy' or not q:
                for kind in ('datetime', 'ns', 'us', 's'):
                    out.append(('dates', dict(est=est, n=2, conf=conf,
                                              kind=kind, weighted=isb)))
                    if not q:
                        out.append(('dates', dict(est=est, n=3, conf=conf,
                                                  kind=kind, weighted=isb)))
            out.append(('units', dict(est=est, n=2 if q and conf != 'dec'
                                      else 3, conf=conf)))
        if not q:
            out.append(('permuted', dict(est=est, n=4, conf='cont')))
    for est in ('b', 'utsu', 'a'):
        for conf in ('dec', 'dy', 'cont'):
            for w in ((False, True) if est != 'a' else (False,)):
                out.append(('permuted', dict(
                    est=est, n=2 if q and w and conf != 'cont' else 3,
                    conf=conf, weighted=w)))
                if not q:
                    out.append(('permuted', dict(est=est, n=4, conf=conf,
                                                 weighted=w)))
    for est in ('b', 'utsu', 'a', 'bpos', 'bmore', 'apos', 'amore'):
        for conf in ('dec', 'dy', 'cont'):
            out.append(('permuted', dict(est=est, n=50, conf=conf,
                                         free=(20,))))
            if conf == 'cont' and est in ('b', 'bpos', 'bmore'):
                out.append(('permuted', dict(est=est, n=16 if est[1:] else 6,
                                             conf=conf, weighted=True,
                                             free=(4,))))
    out.sort(key=lambda j: -j[1]['n'])
    return out
