"""C21  Gardner-Knopoff declustering"""
import datetime
import itertools
from fractions import Fraction as F

from checks.common import pattern

PROP = 'C21'
WITNESS = ['mainshock', 'aftershock', 'foreshock', 'foreshock kept',
           'outside distance', 'equal magnitudes', 'other index', 'catalog',
           'missing column', 'second mainshock', 'days', 'parts', 'years',
           'long', 'simultaneous']
ASSUMPTIONS = [
    'the windows are a stand-in: any time and space window per magnitude, '
    'not tied to the published formulas (those are decided in C22)',
    'events of the same magnitude are not simultaneous',
]
BOUNDS = dict(
    quick='0-4 events at 4 fixed places and times (days, parts of seconds or '
          'centuries apart) in any order, every order '
          'of magnitudes with ties; any space window in [0, 500] km and time '
          'window of 0-40000000 s per magnitude; foreshock windows of 0, 1/2, '
          '1 times the aftershock windows; default and shuffled index; 15-40 '
          'given events with given windows but for one magnitude',
    thorough='5 events')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'larger catalogs; other geometries; simultaneous events of equal magnitude'
DAY = 86400
PLACES = ((8.0, 47.0), (8.3, 47.2), (8.0, 47.9), (9.5, 46.5), (8.05, 47.0))
TIMES = dict(
    days=(0, 3 * DAY, 10 * DAY, 11 * DAY, 200 * DAY),
    parts=(F(1, 4), F(3, 4), F(9, 8), 3 * DAY + F(5, 8)),
    years=(-520 * 365 * DAY, -520 * 365 * DAY + F(1, 2), 0, 10 * DAY))


def _dist(a, b):
    """great-circle distance, independently of the code"""
    from math import acos, cos, radians, sin
    (lo1, la1), (lo2, la2) = [[radians(x) for x in p] for p in (a, b)]
    c = sin(la1) * sin(la2) + cos(la1) * cos(la2) * cos(lo1 - lo2)
    return 6371.227 * acos(min(1.0, c)) if a != b else 0.0


class Windows:
    """stand-in for a distance-time window"""

    def __init__(self, ctx, mags, per=1, free=None):
        self.ctx = ctx
        lv = sorted(set(mags))
        # in seconds, or parts of them
        if free is None:
            free = lv
        self.space = {m: ctx.real(f'space{i}', 0, 500) if m in free else
                      ctx.const(str(12 + 6 * i)) for i, m in enumerate(lv)}
        self.time = {m: ctx.int(f'time{i}', 0, 40000000) * F(1, per)
                     if m in free else ctx.const(str((2 + 3 * i) * DAY))
                     for i, m in enumerate(lv)}
        self.time_cutoff = None

    def __call__(self, magnitude):
        import numpy as np
        import pandas as pd
        ms = [float(x) for x in magnitude]
        tw = np.empty(len(ms), dtype=object)
        if self.ctx.symbolic:
            from symex.npshim import TDArray
            tw = tw.view(TDArray)
        for i, m in enumerate(ms):
            s = self.time[m]
            if self.ctx.symbolic:
                from symex.scishim import SymDelta
                tw[i] = SymDelta(self.ctx.f(s))
            else:
                tw[i] = pd.Timedelta(microseconds=int(s * 10**6))
        sw = self.ctx.array([self.space[m] for m in ms])
        if isinstance(magnitude, pd.Series):
            return pd.Series(list(sw), index=magnitude.index,
                             dtype=None if not self.ctx.symbolic
                             else object), tw
        return sw, tw


def _oracle(ctx, mags, t, places, win, prop):
    n = len(mags)
    order = sorted(range(n), key=lambda i: (-mags[i], t[i]))
    done, main = [False] * n, [True] * n
    for i in order:
        if done[i]:
            continue
        if i != order[0]:
            ctx.reach('second mainshock')
        sw, tw = win.space[mags[i]], win.time[mags[i]]
        for j in range(n):
            if done[j] or j == i:
                continue
            dt = t[j] - t[i]
            if dt > 0:
                inside = bool(ctx.const(dt) <= tw)
            else:
                inside = bool(ctx.const(-dt) <= tw * prop)
                if not inside:
                    ctx.reach('foreshock kept')
            if not inside:
                continue
            d = _dist(places[i], places[j])
            if bool(ctx.const(d) <= sw):
                # a space window is not within rounding of a distance
                if d:
                    ctx.assume_lt(ctx.const(d) + F(1, 1000), sw)
                done[j], main[j] = True, False
                ctx.reach('aftershock' if dt > 0 else 'foreshock')
                if mags[i] == mags[j]:
                    ctx.reach('equal magnitudes')
            else:
                ctx.assume_lt(sw, ctx.const(d) - F(1, 1000))
                ctx.reach('outside distance')
        done[i] = True
        ctx.reach('mainshock')
    return main


def decluster(ctx, n, prop, index, ties, catalog=False, orders=None,
              perms=None, times='days'):
    import pandas as pd
    from seismostats.analysis.declustering import GardnerKnopoffType1
    perm = ctx.pick('time_order', orders or list(
        itertools.permutations(range(n))))
    if ties:
        mags = ctx.pick('mags', [m for m in itertools.product(
            (2.0, 3.5), repeat=n) if len(set(m)) < n])
    else:
        mags = ctx.pick('mags', perms or list(itertools.permutations(
            (2.0, 3.5, 4.0, 5.5, 6.0)[:n])))
    t = [TIMES[times][p] for p in perm]
    ctx.reach(times)
    places = PLACES[:n]
    win = Windows(ctx, mags, 1 if times == 'days' else 8)
    at = [datetime.datetime(2020, 1, 1) + datetime.timedelta(
        days=int(x // DAY), seconds=float(x % DAY)) for x in t]
    data = dict(
        time=at if times == 'years' else pd.to_datetime(at),
        magnitude=list(mags),
        longitude=[p[0] for p in places],
        latitude=[p[1] for p in places])
    if catalog:
        from seismostats import Catalog
        df = Catalog(data)
        ctx.reach('catalog')
    else:
        df = pd.DataFrame(data)
    if index:
        df.index = index[:n]
        ctx.reach('other index')
    before = df.copy()
    dec = GardnerKnopoffType1(win) if prop is None else \
        GardnerKnopoffType1(time_distance_window=win, fs_time_prop=prop)
    flags = dec(df)
    ref = _oracle(ctx, mags, t, places, win, F(1) if prop is None
                  else F(prop))
    ctx.true(len(flags) == n, 'one flag per event')
    ctx.true([bool(x) for x in flags] == ref, 'mainshock flags')
    ctx.true(pd.DataFrame(df).equals(pd.DataFrame(before)),
             'catalog unchanged')


def long(ctx, n, free, prop, index=False, simultaneous=False,
         lo=2):
    """a catalog of n events, given windows but for the magnitudes in free"""
    import numpy as np
    import pandas as pd
    from seismostats.analysis.declustering import GardnerKnopoffType1
    mags = [lo + k / 4 for k in pattern(n, 9, 4)]
    days = pattern(n, 60, 9)
    if simultaneous:
        # at the same time as another event of other magnitude
        t = [DAY * (d // 6) for d in days]
        seen = set()
        for i in range(n):
            while (mags[i], t[i]) in seen:
                t[i] += DAY
            seen.add((mags[i], t[i]))
        ctx.reach('simultaneous')
    else:
        t = [DAY * d + 977 * i for i, d in enumerate(days)]
    places = [(8 + a / 20, 46 + b / 20) for a, b in zip(
        pattern(n, 20, 2), pattern(n, 20, 7))]
    lv = sorted(set(mags))
    win = Windows(ctx, mags, free=[lv[i] for i in free])
    at = np.datetime64('2020-01-01') + np.array(t, dtype='timedelta64[s]')
    df = pd.DataFrame(dict(
        time=at, magnitude=mags, longitude=[p[0] for p in places],
        latitude=[p[1] for p in places]))
    if index:
        df.index = [(i * 7 + 3) % 1009 for i in range(n)][::-1]
    flags = GardnerKnopoffType1(win, fs_time_prop=prop)(df)
    ref = _oracle(ctx, mags, t, places, win, F(prop))
    ctx.true([bool(x) for x in flags] == ref, 'mainshock flags')
    ctx.reach('long')


def columns(ctx):
    import pandas as pd
    from seismostats.analysis.declustering import GardnerKnopoffType1
    col = ctx.pick('col', ('time', 'magnitude', 'longitude', 'latitude'))
    df = pd.DataFrame(dict(
        time=pd.to_datetime(['2020-01-01']), magnitude=[1.], longitude=[8.],
        latitude=[47.]))
    win = Windows(ctx, [1.])
    ctx.raises(ValueError, lambda: GardnerKnopoffType1(win)(
        df.drop(columns=[col])), 'missing column')
    ctx.reach('missing column')


def jobs(tier):
    q = tier == 'quick'
    idx = (7, 3, 11, 0, 5)
    out = [('columns', {})]
    for n in (1, 2):
        for index in (None, idx):
            out.append(('decluster', dict(n=n, prop=None, index=index,
                                          ties=False)))
    two = ((2.0, 3.5, 4.0), (4.0, 2.0, 3.5), (3.5, 4.0, 2.0))
    for prop in (0.0, 0.5, 1.0):
        out.append(('decluster', dict(n=3, prop=prop, index=None, ties=False,
                                      perms=two[:2] if q else None)))
    for times in ('parts', 'years'):
        for prop in (0.0, 1.0):
            out.append(('decluster', dict(
                n=3, prop=prop, index=None, ties=False, perms=two[:1],
                times=times, catalog=prop == 0 or times == 'years')))
    out.append(('decluster', dict(n=3, prop=None, index=idx, ties=True)))
    out.append(('decluster', dict(n=3, prop=None, index=(2, 0, 1),
                                  ties=False, catalog=True,
                                  perms=two[1:2] if q else two)))
    orders = ((2, 0, 3, 1), (0, 1, 2, 3))
    four = ((3.5, 2.0, 4.0, 5.5), (5.5, 2.0, 4.0, 3.5))
    out.append(('decluster', dict(n=4, prop=0.5, index=idx, ties=False,
                                  orders=orders[:1] if q else orders,
                                  perms=four[:1] if q else four)))
    for n, free in ((15, (3,)), (30, (6,)), (40, (7,))) if q else (
            (15, (5, 2)), (30, (7,)), (40, (9,)), (60, (5,))):
        out.append(('long', dict(n=n, free=free, prop=0.5 if n < 35 else 1.0,
                                 index=n == 40,
                                 lo=-1 if n < 40 else 2)))
    out.append(('long', dict(n=24, free=(3,), prop=0.25, simultaneous=True)))
    if not q:
        out.append(('decluster', dict(n=4, prop=1.0, index=None, ties=True,
                                      orders=orders[:1])))
        out.append(('decluster', dict(n=5, prop=1.0, index=idx, ties=False,
                                      orders=((3, 0, 4, 1, 2),),
                                      perms=((4.0, 2.0, 6.0, 3.5, 5.5),))))
    return out
