"""C22  distance-time windows and the great-circle distance"""
from fractions import Fraction as F

import numpy as np

from checks.common import exp, pow10, sqrt, trig, div

PROP = 'C22'
WITNESS = ['GardnerKnopoff', 'Gruenthal', 'Uhrhammer', 'below 6.5',
           'from 6.5', 'cutoff applies', 'cutoff does not apply',
           'zero cutoff', 'Series', 'distance', 'same place', 'symmetric',
           'antipodal']
ASSUMPTIONS = [
    'sin and cos are uninterpreted functions with their parity and the range '
    '[-1, 1]; the haversine of two places is in [0, 1]; '
    'arctan2(sqrt a, sqrt(1 - a)) = arcsin(sqrt a)',
]
BOUNDS = dict(
    quick='0-3 magnitudes in [-3, 9] (Gruenthal: [-0.03, 9]); no time cutoff or 0 or any cutoff in '
          '[0.001, 3000] days; arrays and Series with another index; 1-2 places, '
          'any longitude in [-360, 360], any latitude in [-90, 90], any '
          'earth radius',
    thorough='4 magnitudes, 3 places')
OUTSIDE = 'magnitudes below -0.03 (Gruenthal is not defined there); rounding of ' \
    'the time windows to nanoseconds; rounding of the distances'
BUDGET = dict(quick=60, thorough=600)
DAY = 86400


def _windows(ctx, kind, m):
    """(km, days) of the published relations"""
    c = ctx.const
    big = bool(m >= c('6.5'))
    ctx.reach('from 6.5' if big else 'below 6.5')
    if kind == 'GardnerKnopoff':
        km = pow10(ctx, c('0.1238') * m + c('0.983'))
        d = pow10(ctx, c('0.032') * m + c('2.7389')) if big else \
            pow10(ctx, c('0.5409') * m - c('0.547'))
    elif kind == 'Gruenthal':
        km = exp(ctx, c('1.77') + sqrt(ctx, c('0.037') + c('1.02') * m))
        d = pow10(ctx, c('2.8') + c('0.024') * m) if big else \
            exp(ctx, c('-3.95') + sqrt(ctx, c('0.62') + c('17.32') * m))
    else:
        km = exp(ctx, c('-1.024') + c('0.804') * m)
        d = exp(ctx, c('-2.87') + c('1.235') * m)
    return km, d


def window(ctx, kind, n, cutoff, series=False):
    import pandas as pd
    from seismostats.analysis import declustering
    cls = getattr(declustering, kind + 'Window')
    m = ctx.reals('m', n, F(-3, 100) if kind == 'Gruenthal' else -3, 9)
    ref = [_windows(ctx, kind, x) for x in m]
    ctx.reach(kind)
    if cutoff is None:
        w = cls()
    else:
        cut = ctx.real('cutoff', F(1, 1000), 3000) if cutoff == 'any' else \
            ctx.const(cutoff)
        if cutoff == 0:
            ctx.reach('zero cutoff')
        w = cls(time_cutoff=ctx.f(cut))
        new = []
        for km, d in ref:
            if bool(d > cut):
                d = cut
                ctx.reach('cutoff applies')
            else:
                ctx.reach('cutoff does not apply')
            new.append((km, d))
        ref = new
    a = ctx.array(m)
    if series:
        a = pd.Series(list(a) if ctx.symbolic else a, index=(7, 3, 0)[:n],
                      dtype=object if ctx.symbolic else float)
        ctx.reach('Series')
    space, time = w(a)
    ctx.eqs(list(space), [km for km, d in ref], 'space windows')
    ctx.true(len(time) == n, 'one time window per magnitude')
    ctx.eqs([t.total_seconds() for t in time], [d * DAY for km, d in ref],
            'time windows')
    ctx.eqs(list(a), m, 'magnitudes unchanged')


def _point(ctx, name):
    return ctx.real('lon' + name, -360, 360), ctx.real('lat' + name, -90, 90)


def _hav(ctx, p, q):
    rad = ctx.const('0.017453292519943295')
    lo1, la1, lo2, la2 = [x * rad for x in (*p, *q)]
    s1 = trig(ctx, 'sin', (la1 - la2) / 2)
    s2 = trig(ctx, 'sin', (lo1 - lo2) / 2)
    return s1 * s1 + trig(ctx, 'cos', la1) * trig(ctx, 'cos', la2) * s2 * s2


def distance(ctx, n, radius):
    from seismostats.analysis.declustering.utils import haversine
    ps = [_point(ctx, str(i)) for i in range(n)]
    q = _point(ctx, 'q')
    kw = {}
    if radius:
        r = ctx.real('r', 1, 10000)
        kw['earth_rad'] = ctx.f(r)
    else:
        r = ctx.const('6371.227')
    hs = [_hav(ctx, p, q) for p in ps]
    for h in hs:
        ctx.assume_le(h, ctx.const(1))
        ctx.assume_le(ctx.const(0), h)
    d = haversine(ctx.array([p[0] for p in ps]),
                  ctx.array([p[1] for p in ps]), ctx.f(q[0]), ctx.f(q[1]),
                  **kw)
    ctx.eqs(list(d), [2 * r * trig(ctx, 'arcsin', sqrt(ctx, h)) for h in hs],
            'distances')
    ctx.reach('distance')


def metric(ctx):
    from seismostats.analysis.declustering.utils import haversine
    p, q = _point(ctx, 'p'), _point(ctx, 'q')
    h = _hav(ctx, p, q)
    ctx.assume_le(h, ctx.const(1))
    ctx.assume_le(ctx.const(0), h)

    def dist(a, b):
        return list(haversine(ctx.array([a[0]]), ctx.array([a[1]]),
                              ctx.f(b[0]), ctx.f(b[1])))[0]
    ctx.eq(dist(p, q), dist(q, p), 'the distance is symmetric')
    ctx.reach('symmetric')
    ctx.eq(dist(p, p), ctx.const(0), 'a place is at distance 0 of itself')
    ctx.reach('same place')


def antipodal(ctx):
    """rounding takes the haversine of such pairs above 1 in floats"""
    from seismostats.analysis.declustering.utils import haversine
    lon, lat = ctx.pick('p', ((0., 0.), (0., 11.), (17., 29.), (-73., 52.),
                              (121., -33.), (8., 47.), (3., 46.), (0., 90.)))
    d = haversine(np.array([lon + 180.]), np.array([-lat]), lon, lat)
    ctx.true(abs(float(d[0]) - float(np.pi) * 6371.227) < 1e-2,
             'antipodal distance')
    ctx.reach('antipodal')


def jobs(tier):
    q = tier == 'quick'
    out = [('antipodal', {}), ('metric', {}),
           ('distance', dict(n=1, radius=True)),
           ('distance', dict(n=2 if q else 3, radius=False))]
    for kind in ('GardnerKnopoff', 'Gruenthal', 'Uhrhammer'):
        for cutoff in (None, 'any', 0):
            out.append(('window', dict(kind=kind, n=2 if q else 4,
                                       cutoff=cutoff)))
        out.append(('window', dict(kind=kind, n=3, cutoff=None,
                                   series=True)))
        out.append(('window', dict(kind=kind, n=2, cutoff='any',
                                   series=True)))
        out.append(('window', dict(kind=kind, n=0, cutoff='any')))
    return out
