"""C29  plots of distributions, counts, times and maps show the given data"""
import contextlib
import datetime
import io
import itertools
import types

from checks.common import B, div, isnan, pow10, ssum

PROP = 'C29'
WITNESS = ['dot size', 'equal magnitudes', 'nan magnitude', 'sizes swapped',
           'back from sizes', 'cumulative', 'not cumulative', 'weights',
           'left', 'line', 'line without mc', 'weighted line', 'continuous',
           'labels', 'no labels', 'count', 'count not normalized',
           'count of none', 'count without mcs', 'colors', 'in time',
           'mc steps', 'mc steps in years', 'twice', 'map', 'map on axes',
           'no legend', 'list of labels', 'catalog', 'country',
           'map without country', 'count of dates']
ASSUMPTIONS = [
    'matplotlib and cartopy draw what they are given: axes are a stand-in '
    'that records the calls',
    'magnitudes at least 1e-9 bins away from rounding ties and from the '
    'completeness threshold',
]
BOUNDS = dict(
    quick='2-3 events with arbitrary magnitudes (binned for the FMDs), times, '
          'coordinates and weights; any b-value in [1/4, 3], any mc on the '
          'grid; bins 0.1, 0.5 and continuous; NaN magnitudes; every '
          'combination of labels',
    thorough='up to 4 events')
BUDGET = dict(quick=90, thorough=900)
OUTSIDE = 'contents of the map tiles; colors and fonts'


class Points:
    def __init__(self):
        self.legend = None

    def get_facecolor(self):
        return ['face']

    def legend_elements(self, **kw):
        self.legend = kw
        return 'H', 'L'


POSITIONAL = dict(scatter=('x', 'y', 's', 'c'), step=('x', 'y'),
                  fill_between=('x', 'y1', 'y2'), set_extent=('extents',),
                  legend=('handles', 'labels'), set_yscale=('value',),
                  set_xlabel=('xlabel',), set_ylabel=('ylabel',))


def _same_call(name, a, kw):
    """one form for every way to write the same call"""
    a, kw = list(a), dict(kw)
    pos = POSITIONAL.get(name, ())
    while len(a) < len(pos) and pos[len(a)] in kw and pos[len(a)] not in 'sc':
        a.append(kw.pop(pos[len(a)]))
    if name == 'scatter':
        kw.update(zip(pos[2:], a[2:4]))
        del a[2:4]
    if name in ('plot', 'step', 'fill_between') and 'c' in kw:
        kw['color'] = kw.pop('c')
    return tuple(a), kw


class Ax:
    """axes that record what they are told"""

    def __init__(self, extent=None):
        self.calls = []
        self.points = []
        self.extent = extent

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **kw):
            if name == 'set':
                for k, v in kw.items():
                    getattr(self, 'set_' + k)(v)
                return types.SimpleNamespace()
            a, kw = _same_call(name, a, kw)
            self.calls.append((name, a, kw))
            if name == 'scatter':
                self.points.append(Points())
                return self.points[-1]
            if name == 'get_extent':
                return self.extent
            if name == 'plot':
                return [None]
            return types.SimpleNamespace()
        return f

    def of(self, *names):
        return [c for c in self.calls if c[0] in names]

    def one(self, ctx, name, what):
        c = self.of(name)
        ctx.true(len(c) == 1, f'one {what}')
        return c[0][1], c[0][2]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def _ipow(ctx, x, p):
    r = ctx.const('1')
    for _ in range(p):
        r = r * x
    return r


def dots(ctx, n, power, nan, equal):
    from seismostats.plots.basics import dot_size, reverse_dot_size
    m = ctx.reals('m', n, -2, 9)
    if equal:
        m = [m[0]] * n
    known = [i for i in range(n) if i != nan]
    lo = hi = m[known[0]]
    for i in known:
        lo = m[i] if bool(m[i] < lo) else lo
        hi = m[i] if bool(m[i] > hi) else hi
    if n - (nan is not None) > 1 and not equal:
        ctx.assume_lt(lo + ctx.const('0.125'), hi)
    small = ctx.real('small', 1, 30)
    large = ctx.real('large', 31, 300)
    vals = [ctx.nan if i == nan else m[i] for i in range(n)]
    s = list(dot_size(ctx.array(vals), smallest=ctx.f(small),
                      largest=ctx.f(large), interpolation_power=power))
    ctx.true(len(s) == n, 'one size per event')
    for i in range(n):
        if i == nan:
            ctx.true(isnan(s[i]) or not power, 'no size without magnitude')
            ctx.reach('nan magnitude')
            continue
        ctx.true(not isnan(s[i]), 'a size for every magnitude')
        ctx.le(small, s[i], 'at least the smallest')
        ctx.le(s[i], large, 'at most the largest')
        if bool(lo < hi):
            x = div(ctx, m[i] - lo, hi - lo)
            ctx.eq(s[i], small + (large - small) * _ipow(ctx, x, power),
                   'interpolated size')
        else:
            ctx.reach('equal magnitudes')
    ctx.reach('dot size')
    if nan is None and power:
        back = list(reverse_dot_size(
            ctx.array(s), ctx.f(lo), ctx.f(hi), interpolation_power=power))
        ctx.eqs(back, m, 'magnitudes of the sizes')
        ctx.reach('back from sizes')


def swapped(ctx):
    """largest not above smallest: still finite sizes that grow"""
    from seismostats.plots.basics import dot_size, reverse_dot_size
    m = ctx.reals('m', 2, -2, 9)
    ctx.assume_lt(m[0], m[1])
    small = ctx.real('small', 1, 30)
    large = ctx.real('large', -5, 30)
    ctx.assume(bool(large <= small))
    s = quiet(lambda: list(dot_size(ctx.array(m), ctx.f(small),
                                    ctx.f(large))))
    ctx.eq(s[0], small, 'smallest size')
    ctx.lt(s[0], s[1], 'larger magnitude larger dot')
    ctx.raises(ValueError, lambda: reverse_dot_size(
        ctx.array(s), 1.0, 2.0, 0), 'power 0')
    ctx.reach('sizes swapped')


def fmd(ctx, d, n, weights, nan, cum, line):
    """scatter of the (cumulative) FMD, and the GR line through it"""
    import numpy as np
    from seismostats.plots.basics import plot_cum_fmd, plot_fmd
    delta = ctx.const(d)
    k0 = ctx.int('k0', -15, 15)
    k = [k0] + [k0 + j for j in ctx.ints('k', n - 1, -2, 2)]
    if d == '0':
        x = ctx.reals('x', n, -2, 9)
    else:
        x = [kk * delta for kk in k]
    w = ctx.reals('w', n, '1/8', 3) if weights else [ctx.const('1')] * n
    kw = {}
    vals = list(x)
    ws = list(w)
    if nan:
        pos = ctx.pick('nan at', (0, n))
        vals.insert(pos, ctx.nan)
        ws.insert(pos, ctx.const('2'))
        ctx.reach('nan magnitude')
    if weights:
        kw['weights'] = ctx.array(ws)
        ctx.reach('weights')
    left = d != '0' and ctx.flag('left')
    if left:
        kw['bin_position'] = 'left'
        ctx.reach('left')
    ax = Ax()
    b = mc = None
    if line:
        b = ctx.real('b', '1/4', 3)
        kw['b_value'] = ctx.f(b)
        if line == 'mc':
            if d == '0':
                mc = ctx.real('mc', -2, 9)
                for y in x:
                    ctx.assume_ne(y, mc)
                ctx.assume(any(bool(y >= mc) for y in x))
            else:
                kc = ctx.int('kmc', -17, 17)
                mc = kc * delta
                ctx.assume(any(bool(kk >= kc) for kk in k))
                ctx.assume(all(bool(kc >= kk - 2) for kk in k))
            kw['mc'] = ctx.f(mc)
        else:
            ctx.reach('line without mc')
    if cum:
        if d != '0':
            kw['fmd_bin'] = ctx.f(delta)
        r = quiet(lambda: plot_cum_fmd(ctx.array(vals), ax=ax, size=7,
                                       color='red', **kw))
    else:
        r = plot_fmd(ctx.array(vals), ctx.f(delta), ax=ax, **kw)
    ctx.true(r is ax, 'the given axes')
    a, akw = ax.one(ctx, 'scatter', 'scatter')
    bins, counts = [list(np.asarray(y)) for y in a[:2]]
    ctx.true(len(bins) == len(counts), 'one count per bin')
    if cum:
        ctx.true(akw.get('s') == 7 and akw.get('color') == 'red',
                 'size and color')
    off = delta / 2 if left else ctx.const('0')
    if d == '0':
        ctx.reach('continuous')
        for y in x:
            ctx.true(any(bool(bb == y) for bb in bins), 'a bin per magnitude')
        for bb, c in zip(bins, counts):
            ctx.true(any(bool(bb == y) for y in x), 'bins are magnitudes')
            ctx.eq(c, ssum([ww for y, ww in zip(x, w) if bool(y >= bb)]),
                   'number at or above')
        first = mc
        tot = None if mc is None else ssum(
            [ww for y, ww in zip(x, w) if bool(y >= mc)])
        if line and mc is None:
            tot = ssum(w)
    else:
        lo = hi = k[0]
        for kk in k:
            lo = kk if bool(kk < lo) else lo
            hi = kk if bool(kk > hi) else hi
        m = 0
        while bool(lo + m < hi):
            m += 1
        ctx.true(len(bins) == m + 1, 'bins from smallest to largest')
        for j in range(min(m + 1, len(bins))):
            ctx.eq(bins[j], (lo + j) * delta - off, 'bin position')
            ctx.eq(counts[j], ssum([
                ww for kk, ww in zip(k, w)
                if (bool(kk >= lo + j) if cum else bool(kk == lo + j))]),
                'count')
    ctx.reach('cumulative' if cum else 'not cumulative')
    scale = ax.of('set_yscale')
    ctx.true(len(scale) == 1 and scale[0][1][0] == 'log', 'logarithmic')
    lines = ax.of('plot')
    ctx.true(len(lines) == (1 if line else 0), 'line only with b-value')
    if not line:
        return
    ctx.reach('line')
    if weights:
        ctx.reach('weighted line')
    la, lkw = lines[0][1], lines[0][2]
    ctx.true(lkw.get('color') == 'face', 'color of the points')
    xs, ys = list(la[0]), list(la[1])
    if mc is None:
        keep = list(range(len(bins)))
    elif d == '0':
        keep = [i for i, bb in enumerate(bins) if bool(bb >= mc)]
    else:
        keep = [i for i in range(len(bins)) if bool(lo + i >= kc)]
    ctx.true(len(xs) == len(keep) == len(ys), 'line over the complete bins')
    for xx, yy, i in zip(xs, ys, keep):
        ctx.eq(xx, bins[i], 'bins of the line')
        ctx.eq(yy, counts[keep[0]] * pow10(ctx, -(b * (
            bins[i] - bins[keep[0]]))),
            'line of slope -b through the first complete point')


def labels(ctx):
    from seismostats.plots.basics import plot_cum_fmd, plot_fmd
    x = [ctx.const('1.5'), ctx.const('2')]
    lab = ctx.pick('label', (True, False, 'mine'))
    ll = ctx.pick('label_line', (True, False, 'other'))
    b = ctx.pick('b', (None, 1.25))
    ax = Ax()
    quiet(lambda: plot_cum_fmd(ctx.array(x), b_value=b, ax=ax, label=lab,
                               label_line=ll))
    want = {True: 'cumulative', False: '_nolegend_'}.get(lab, lab)
    ctx.true(ax.one(ctx, 'scatter', 'scatter')[1]['label'] == want,
             'label of the points')
    if b:
        want = {True: 'GR fit, b=1.25', False: '_nolegend_'}.get(ll, ll)
        ctx.true(ax.one(ctx, 'plot', 'line')[1]['label'] == want,
                 'label of the line')
    if lab or (b and ll):
        ctx.true(len(ax.of('legend')) == 1, 'legend')
        ctx.reach('labels')
    elif b:
        ctx.true(not ax.of('legend'), 'no legend')
        ctx.reach('no labels')
    ax = Ax()
    plot_fmd(ctx.array(x), 0.5, ax=ax, label=lab)
    if lab:
        ctx.true(ax.one(ctx, 'scatter', 'scatter')[1]['label']
                 == {True: 'non cumulative'}.get(lab, lab), 'label of the FMD')
    ctx.true(len(ax.of('legend')) == (1 if lab else 0), 'legend of the FMD')


def count(ctx, n, weights, mcs, norm, nan=None, shuffled=True, lists=False):
    """steps of the cumulative number of events above mc"""
    from seismostats.plots.basics import plot_cum_count
    t = ctx.reals('t', n, 0, 100)
    for a, b in zip(t, t[1:]):
        ctx.assume_lt(a, b)
    m = ctx.reals('m', n, -2, 9)
    d = ctx.const('0.5')
    perm = ctx.pick('perm', list(itertools.permutations(range(n)))) \
        if shuffled else tuple(range(n))
    w = ctx.reals('w', n, '1/8', 3) if weights else [ctx.const('1')] * n
    kw = {}
    con = ctx.list if lists else ctx.array
    if weights:
        kw['weights'] = con([w[p] for p in perm])
    known = [i for i in range(n) if i != nan]
    if mcs:
        cs = ctx.reals('mc', mcs, -1, 4)
        for c in cs:
            for i in known:
                ctx.assume_ne(m[i], c - d / 2)
        kw['mcs'] = con(cs)
        kw['delta_m'] = ctx.f(d)
    else:
        lo = m[known[0]]
        for i in known:
            lo = m[i] if bool(m[i] < lo) else lo
        cs = [lo]
        d = ctx.const('0')
        ctx.reach('count without mcs')
    if not norm:
        kw['normalize'] = False
    if mcs == 2:
        kw['color'] = ['red', 'green']
        ctx.reach('colors')
    ax = Ax()
    r = plot_cum_count(
        con([t[p] for p in perm]),
        con([ctx.nan if p == nan else m[p] for p in perm]), ax=ax, **kw)
    ctx.true(r is ax, 'the given axes')
    steps = ax.of('step')
    at = 0
    for ci, c in enumerate(cs):
        # the smallest magnitude itself counts
        keep = [i for i in known if bool(m[i] >= c - d / 2)]
        if not keep:
            ctx.reach('count of none')
            continue
        ctx.true(len(steps) > at, 'a line for every mc with events')
        if len(steps) <= at:
            return
        _, a, akw = steps[at]
        at += 1
        xs, ys = list(a[0]), list(a[1])
        ctx.true(akw.get('where') == 'post', 'steps at the events')
        if mcs == 2:
            ctx.true(akw.get('color') == ('red', 'green')[ci],
                     'color of the mc')
        ctx.true(len(xs) == len(keep) + 2 == len(ys), 'a step per event')
        ctx.eqs(xs, [t[0]] + [t[i] for i in keep] + [t[-1]],
                'first time, events in order, last time')
        tot = ssum([w[i] for i in keep])
        cnt = [ctx.const('0')]
        for i in keep:
            cnt.append(cnt[-1] + w[i])
        cnt.append(cnt[-1])
        ctx.eqs(ys, [div(ctx, y, tot) if norm else y for y in cnt],
                'cumulative count')
    ctx.true(len(steps) == at, 'no other lines')
    ctx.reach('count' if norm else 'count not normalized')


def count_dates(ctx, unit):
    """events within seconds or centuries"""
    import numpy as np
    import pandas as pd
    from seismostats.plots.basics import plot_cum_count
    s = ctx.pick('s', ((7, 1, 3600, 3), (3, 86399, 2, 86401),
                       (0, -1, 10**9, 5)))
    t = [np.datetime64('2020-02-28T23:59:57') + np.timedelta64(x, 's')
         for x in s]
    m = ctx.reals('m', 4, -2, 9)
    mc = ctx.real('mc', -2, 9)
    w = ctx.reals('w', 4, '1/8', 3)
    ctx.assume(any(bool(x >= mc) for x in m))
    given = np.array(t, dtype='datetime64[ns]')
    if unit == 'series':
        given = pd.Series(given)
    elif unit != 'ns':
        given = given.astype(f'datetime64[{unit}]')
    ax = Ax()
    plot_cum_count(given, ctx.array(m), mcs=ctx.array([mc]),
                   weights=ctx.array(w), normalize=False, ax=ax)
    a, _ = ax.one(ctx, 'step', 'line')
    o = sorted(range(4), key=lambda i: s[i])
    keep = [i for i in o if bool(m[i] >= mc)]
    want = [t[i] for i in [o[0]] + keep + [o[-1]]]
    ctx.true([np.datetime64(x) for x in a[0]] == want, 'steps in order')
    cnt = [ctx.const('0')]
    for i in keep:
        cnt.append(cnt[-1] + w[i])
    ctx.eqs(list(a[1]), cnt + cnt[-1:], 'cumulative count')
    ctx.reach('count of dates')


def count_errors(ctx):
    from seismostats.plots.basics import plot_cum_count
    t = ctx.reals('t', 2, 0, 5)
    for col in (['red'], ['red', 'green', 'blue']):
        ctx.raises(ValueError, lambda: plot_cum_count(
            ctx.array(t), ctx.array(t), ctx.array([t[0], t[1]]), ax=Ax(),
            color=col), 'number of colors')


def in_time(ctx, n, mode):
    """scatter over time and the steps of mc; the lists given stay as they
    are, so that the same call can be repeated"""
    from seismostats.plots.basics import plot_mags_in_time, dot_size
    m = ctx.reals('m', n, -2, 9)
    if n > 1:
        ctx.assume(any(bool(y != m[0]) for y in m))
    kw = {}
    mcs = ctx.reals('mc', 2, -2, 9)
    if mode == 'years':
        import numpy as np
        times = np.array([f'{y}-03-0{y % 7 + 1}' for y in range(2001, 2001 + n)
                          ], dtype='datetime64[ns]')
        ch = [1999, 2001]
        want = [datetime.datetime(1999, 1, 1), datetime.datetime(2001, 1, 1)]
        last = times[-1]
        arg = times
    else:
        t = ctx.reals('t', n, 0, 100)
        ch = ctx.reals('tc', 2, 0, 50)
        ch = [ctx.f(y) for y in ch]
        want = list(ch)
        last = t[0]
        for y in t:
            last = y if bool(y > last) else last
        arg = ctx.array(t)
    given = list(ch), [ctx.f(y) for y in mcs]
    lists = list(given[0]), list(given[1])
    if mode:
        kw = dict(mc_change_times=lists[0], mcs=lists[1])
    for rep in range(2 if mode else 1):
        ax = Ax()
        r = plot_mags_in_time(arg, ctx.array(m), ax=ax, dot_smallest=5,
                              dot_largest=50, dot_interpolation_power=1, **kw)
        ctx.true(r is ax, 'the given axes')
        a, akw = ax.one(ctx, 'scatter', 'scatter')
        if mode == 'years':
            ctx.true(list(a[0]) == list(times), 'times')
        else:
            ctx.eqs(list(a[0]), t, 'times')
        ctx.eqs(list(a[1]), m, 'magnitudes')
        ctx.eqs(list(akw['s']), list(dot_size(ctx.array(m), 5, 50, 1)),
                'sizes')
        steps = ax.of('step')
        ctx.true(len(steps) == (1 if mode else 0), 'steps only if given')
        if not mode:
            ctx.reach('in time')
            return
        _, sa, skw = steps[0]
        ctx.true(skw.get('where') == 'post', 'mc holds from its time on')
        xs, ys = list(sa[0]), list(sa[1])
        ctx.true(len(xs) == 3 and len(ys) == 3, 'changes and the last event')
        if mode == 'years':
            ctx.true(xs[:2] == want and bool(xs[2] == last), 'dates')
            ctx.reach('mc steps in years')
        else:
            ctx.eqs(xs, want + [last], 'times of the changes')
            ctx.reach('mc steps')
        ctx.eqs(ys, mcs + [mcs[-1]], 'mc of the steps')
        ctx.true(len(lists[0]) == 2 and len(lists[1]) == 2,
                 'lists of the caller')
    ctx.reach('twice')


def space(ctx, n, own, dot_labels, power):
    import matplotlib.pyplot as plt
    import seismostats.plots.seismicity as mod
    lon = ctx.reals('lon', n, -170, 170)
    lat = ctx.reals('lat', n, -80, 80)
    m = ctx.reals('m', n, -2, 9)
    ext = ctx.reals('ext', 4, -90, 90)

    class Crs:
        def __init__(self, *a, **kw):
            pass

    class Tiles:
        crs = 'tiles'

        def __init__(self, *a, **kw):
            pass
    ctx.patch(mod, 'ccrs', types.SimpleNamespace(PlateCarree=Crs))
    ctx.patch(mod, 'cimgt', types.SimpleNamespace(GoogleTiles=Tiles))
    ax = Ax([ctx.f(e) for e in ext])
    made = []

    def subplot(*a, **kw):
        made.append(kw.get('projection'))
        return ax
    ctx.patch(plt, 'subplot', subplot)
    ctx.patch(plt, 'axes', subplot)
    kw = {} if dot_labels == 'auto' else dict(dot_labels=dot_labels)
    if dot_labels and dot_labels != 'auto' and ctx.flag('array'):
        import numpy as np
        kw['dot_labels'] = np.array(dot_labels)
    if own:
        kw['ax'] = ax
    r = mod.plot_in_space(
        ctx.array(lon), ctx.array(lat), ctx.array(m), dot_smallest=5,
        dot_largest=50, dot_interpolation_power=power, color_dots='dots',
        cmap='map', **kw)
    ctx.true(r is ax, 'the axes')
    ctx.true(not ax.of('add_image', 'add_geometries'), 'no map')
    ctx.true(made == ([] if own else ['tiles']), 'new axes only if needed')

    def rng(v):
        lo = hi = v[0]
        for y in v:
            lo = y if bool(y < lo) else lo
            hi = y if bool(y > hi) else hi
        return lo, hi, (hi - lo) * ctx.const('0.05')
    (w, e, px), (s, o, py) = rng(lon), rng(lat)
    want = [w - px, e + px, s - py, o + py]
    if own:
        for i in range(4):
            swap = ext[i] < want[i] if i % 2 == 0 else ext[i] > want[i]
            if bool(swap):
                want[i] = ext[i]
        a, akw = ax.one(ctx, 'get_extent', 'extent of the axes')
        ctx.true(isinstance((a + tuple(akw.values()))[0], Crs),
                 'extent of the axes in degrees')
    a, akw = ax.one(ctx, 'set_extent', 'extent')
    ctx.eqs(list(a[0]), want, 'extent around the events')
    ctx.true(isinstance(akw.get('crs'), Crs), 'extent in degrees')
    a, akw = ax.one(ctx, 'scatter', 'scatter')
    ctx.eqs(list(a[0]), lon, 'longitudes')
    ctx.eqs(list(a[1]), lat, 'latitudes')
    ctx.true(isinstance(akw.get('transform'), Crs), 'points in degrees')
    ctx.true(akw.get('c') == 'dots' and akw.get('cmap') == 'map',
             'colors of the points')
    lo, hi, _ = rng(m)
    if bool(lo < hi):
        ctx.eqs(list(akw['s']),
                [5 + 45 * _ipow(ctx, div(ctx, y - lo, hi - lo), power)
                 for y in m] if power else [50] * n, 'sizes')
    ctx.reach('map on axes' if own else 'map')
    pts = ax.points[0]
    if dot_labels is None or not power:
        ctx.true(pts.legend is None and not ax.of('legend'), 'no legend')
        ctx.reach('no legend')
        return
    ctx.true(pts.legend is not None, 'legend')
    num = pts.legend['num']
    ctx.true(list(num) == [1, 2, 3] if dot_labels != 'auto'
             else num == 'auto', 'labels asked for')
    if dot_labels != 'auto':
        ctx.reach('list of labels')
    back = list(pts.legend['func'](ctx.array(list(akw['s']))))
    if bool(lo < hi):
        ctx.eqs(back, m, 'labels give the magnitudes')
    a, akw = ax.one(ctx, 'legend', 'legend')
    ctx.true(a[:2] == ('H', 'L'), 'legend of the sizes')


def country(ctx, own, name):
    """include_map: tiles, and with a country its box and mask"""
    import pandas as pd
    import matplotlib.pyplot as plt
    import seismostats.plots.seismicity as mod
    lon = ctx.reals('lon', 2, -170, 170)
    lat = ctx.reals('lat', 2, -80, 80)
    ext = ctx.reals('ext', 4, -90, 90)
    log = []

    class Crs:
        def __init__(self, *a, **kw):
            pass

    class TileCrs:
        def project_geometry(self, geometry, src_crs=None):
            log.append(('project', geometry, src_crs))
            return 'projected'
    tile_crs = TileCrs()

    class Tiles:
        crs = tile_crs

        def __init__(self, *a, **kw):
            pass

    class Geometry:
        def __init__(self, i):
            self.name = i
            b = ctx.reals(f'bounds{i}', 4, -80, 80)
            ctx.assume_lt(b[0], b[2])
            ctx.assume_lt(b[1], b[3])
            self.b = b
            self.bounds = tuple(ctx.f(x) for x in b)

        def simplify(self, tolerance, **kw):
            ctx.true(0 <= tolerance <= 0.1, 'outline')
            return self

    class Mask:
        def __init__(self, box, hole):
            self.box, self.hole = box, hole

    class Poly:
        def __init__(self, shell=None, holes=None):
            self.shell = [tuple(v) for v in shell]

        def difference(self, other):
            return Mask(self.shell, other)
    geo = [Geometry(i) for i in range(2)]

    def read_file(path, **kw):
        ctx.true(path == 'file', 'file of the countries')
        return pd.DataFrame({'NAME': ['b', 'a'], 'ADMIN': ['a', 'b'],
                             'geometry': geo})

    def natural_earth(resolution='110m', category='physical', name=''):
        log.append(('file', resolution, category, name))
        return 'file'
    ctx.patch(mod, 'ccrs', types.SimpleNamespace(PlateCarree=Crs))
    ctx.patch(mod, 'cimgt', types.SimpleNamespace(GoogleTiles=Tiles))
    ctx.patch(mod, 'Polygon', Poly)
    ctx.patch(mod, 'geopandas', types.SimpleNamespace(read_file=read_file))
    ctx.patch(mod, 'shapereader',
              types.SimpleNamespace(natural_earth=natural_earth))
    ax = Ax([ctx.f(e) for e in ext])
    ctx.patch(plt, 'subplot', lambda *a, **kw: ax)
    ctx.patch(plt, 'axes', lambda *a, **kw: ax)
    kw = dict(ax=ax) if own else {}
    if name:
        kw['country'] = name
    mod.plot_in_space(ctx.array(lon), ctx.array(lat),
                      ctx.array([ctx.const(1), ctx.const(2)]),
                      resolution='50m', include_map=True, dot_labels=None,
                      **kw)
    a, akw = ax.one(ctx, 'add_image', 'layer of tiles')
    ctx.true(isinstance((a + tuple(akw.values()))[0], Tiles), 'tiles')
    a, akw = ax.one(ctx, 'scatter', 'scatter')
    ctx.eqs(list(a[0]), lon, 'longitudes')
    ctx.eqs(list(a[1]), lat, 'latitudes')
    if name:
        ctx.true(('file', '50m', 'cultural', 'admin_0_countries') in log,
                 'resolution of the countries')
        g = geo['ab'.index(name)]
        w, s, e, n = g.b
        ctx.reach('country')
    else:
        (w, e), (s, n) = ((v if bool(v[0] < v[1]) else v[::-1])
                          for v in (lon, lat))
        ctx.true(not ax.of('add_geometries'), 'no country')
        ctx.reach('map without country')
    px, py = ((e - w) * ctx.const('0.05'), (n - s) * ctx.const('0.05'))
    want = [w - px, e + px, s - py, n + py]
    if name:
        a, akw = ax.one(ctx, 'add_geometries', 'mask')
        got = a[0] if isinstance(a[0], str) else list(a[0])[0]
        crs = a[1] if len(a) > 1 else akw.get('crs')
        ctx.true(got == 'projected' and crs is tile_crs, 'mask on the map')
        (_, mask, crs), = [x for x in log if x[0] == 'project']
        ctx.true(isinstance(crs, Crs), 'mask given in degrees')
        ctx.true(isinstance(mask, Mask) and mask.hole is g,
                 'the country is not masked')
        box = mask.box[:4]
        corners = [(0, 2), (0, 3), (1, 3), (1, 2)]
        ctx.true(len(box) == 4, 'corners of the mask')
        order = []
        for x, y in box:
            i = 0 if bool(x < (want[0] + want[1]) / 2) else 1
            j = 2 if bool(y < (want[2] + want[3]) / 2) else 3
            ctx.eqs([x, y], [want[i], want[j]], 'corner of the mask')
            order.append(corners.index((i, j)))
        step = {(b - a) % 4 for a, b in zip(order, order[1:])}
        ctx.true(step in ({1}, {3}), 'the mask is a rectangle')
    if own:
        for i in range(4):
            swap = ext[i] < want[i] if i % 2 == 0 else ext[i] > want[i]
            if bool(swap):
                want[i] = ext[i]
    a, akw = ax.one(ctx, 'set_extent', 'extent')
    ctx.eqs(list(a[0]), want, 'extent around the country')


def catalog(ctx):
    """the methods of the catalog plot its columns and parameters"""
    import pandas as pd
    import sys
    import seismostats.plots as plots
    from seismostats import Catalog
    m = ctx.reals('m', 2, -2, 9)
    lon = ctx.reals('lon', 2, -170, 170)
    lat = ctx.reals('lat', 2, -80, 80)
    times = pd.to_datetime(['2001-01-05', '2002-03-04'])
    cat = Catalog({'magnitude': ctx.array(m), 'time': times,
                   'longitude': ctx.array(lon), 'latitude': ctx.array(lat)})
    p = {k: ctx.f(ctx.real('p' + k, '1/8', 5))
         for k in ('mc', 'delta_m', 'b_value')}
    for k, v in p.items():
        setattr(cat, k, v)
    got = {}

    def rec(name):
        import inspect
        home = sys.modules[getattr(plots, name).__module__]
        sig = inspect.signature(getattr(home, name))

        def f(*a, **kw):
            ba = sig.bind(*a, **kw)
            ba.apply_defaults()
            got.clear()
            got.update(ba.arguments)
            return name
        ctx.replace(home, name, f)
    for name in ('plot_cum_count', 'plot_mags_in_time', 'plot_cum_fmd',
                 'plot_fmd', 'plot_mc_vs_b', 'plot_in_space'):
        rec(name)

    def col(key, name, v):
        ctx.eqs(list(got[key]), v, f'{name} of the catalog')

    def times_ok(key):
        ctx.true(list(got[key]) == list(times), 'times of the catalog')
    given = ctx.flag('given')
    q = {k: ctx.f(ctx.real('q' + k, '1/8', 5)) for k in p}
    w = ctx.array(ctx.reals('w', 2, 0, 3))
    ax = Ax()
    if given:
        ctx.true(cat.plot_cum_fmd(
            mc=q['mc'], fmd_bin=q['delta_m'], b_value=q['b_value'],
            weights=w, ax=ax, color='c', color_line='l', size=3, grid=True,
            bin_position='left', label='x', label_line='y')
            == 'plot_cum_fmd', 'returned axes')
        ctx.true(got['weights'] is w and got['ax'] is ax
                 and (got['color'], got['color_line'], got['size'],
                      got['grid'], got['bin_position'], got['label'],
                      got['label_line'])
                 == ('c', 'l', 3, True, 'left', 'x', 'y'), 'options passed')
    else:
        cat.plot_cum_fmd()
    src = q if given else p
    col('magnitudes', 'magnitudes', m)
    for a, b in (('mc', 'mc'), ('fmd_bin', 'delta_m'),
                 ('b_value', 'b_value')):
        ctx.eq(got[a], src[b], f'{a}: given or of the catalog')

    cat.plot_fmd(q['delta_m'], weights=w, ax=ax, color='c', size=3, grid=True,
                 bin_position='left', label='x')
    col('magnitudes', 'magnitudes', m)
    ctx.eq(got['fmd_bin'], q['delta_m'], 'bin given')
    ctx.true(got['weights'] is w and got['ax'] is ax
             and (got['color'], got['size'], got['grid'],
                  got['bin_position'], got['label'])
             == ('c', 3, True, 'left', 'x'), 'options passed')

    cat.plot_cum_count(mcs=w, weights=w, normalize=False, ax=ax, color='c',
                       **(dict(delta_m=q['delta_m']) if given else {}))
    col('magnitudes', 'magnitudes', m)
    times_ok('times')
    ctx.eq(got['delta_m'], src['delta_m'], 'bins given or of the catalog')
    ctx.true(got['mcs'] is w and got['weights'] is w and got['ax'] is ax
             and got['normalize'] is False and got['color'] == 'c',
             'options passed')

    ch, mcs = [1, 2], [3, 4]
    cat.plot_mags_in_time(mc_change_times=ch, mcs=mcs, ax=ax, dot_smallest=1,
                          dot_largest=2, dot_interpolation_power=3,
                          color_dots='c', cmap='m', color_line='l')
    col('magnitudes', 'magnitudes', m)
    times_ok('times')
    ctx.true((got['mc_change_times'], got['mcs'], got['dot_smallest'],
              got['dot_largest'], got['dot_interpolation_power'],
              got['color_dots'], got['cmap'], got['color_line'])
             == (ch, mcs, 1, 2, 3, 'c', 'm', 'l') and got['ax'] is ax,
             'options passed')

    est = B()['utsu']
    cat.plot_mc_vs_b(w, b_method=est, confidence_interval=.5, ax=ax,
                     color='c', label='x',
                     **(dict(delta_m=q['delta_m']) if given else {}))
    col('magnitudes', 'magnitudes', m)
    ctx.eq(got['delta_m'], src['delta_m'], 'bins given or of the catalog')
    ctx.true(got['mcs'] is w and got['b_method'] is est and got['ax'] is ax
             and (got['confidence_interval'], got['color'], got['label'])
             == (.5, 'c', 'x'), 'options passed')

    cat.plot_in_space(ax=ax, resolution='r', include_map=True, country='C',
                      style='s', dot_smallest=1, dot_largest=2,
                      dot_interpolation_power=3, dot_labels='d',
                      color_dots='c', cmap='m', color_map='o')
    col('magnitudes', 'magnitudes', m)
    col('longitudes', 'longitudes', lon)
    col('latitudes', 'latitudes', lat)
    ctx.true(got['ax'] is ax and (
        got['resolution'], got['include_map'], got['country'], got['style'],
        got['dot_smallest'], got['dot_largest'],
        got['dot_interpolation_power'], got['dot_labels'], got['color_dots'],
        got['cmap'], got['color_map'])
        == ('r', True, 'C', 's', 1, 2, 3, 'd', 'c', 'm', 'o'),
        'options passed')
    ctx.reach('catalog')


def jobs(tier):
    q = tier == 'quick'
    out = [('swapped', {}), ('labels', {}), ('count_errors', {}),
           ('catalog', {})]
    for power in (0, 1, 2):
        for nan, equal in ((None, False), (0, False), (1, False),
                           (None, True)):
            out.append(('dots', dict(n=3, power=power, nan=nan, equal=equal)))
    out.append(('dots', dict(n=1, power=2, nan=None, equal=True)))
    for weights in (False, True):
        for nan in (False, True):
            for cum in (False, True):
                out.append(('fmd', dict(d='0.1', n=2 if q else 3,
                                        weights=weights, nan=nan,
                                        cum=cum, line=None)))
            for line in ('mc', 'min'):
                out.append(('fmd', dict(
                    d='0.5' if line == 'mc' else '0.1', n=2 if q else 3,
                    weights=weights, nan=nan and line == 'mc', cum=True,
                    line=line)))
        for line in (None, 'mc', 'min'):
            out.append(('fmd', dict(d='0', n=2 if q else 3, weights=weights,
                                    nan=False, cum=True, line=line)))
        out.append(('count', dict(n=3 if q else 4, weights=weights, mcs=1,
                                  norm=not weights)))
        out.append(('count', dict(n=2, weights=weights, mcs=2,
                                  norm=weights)))
    out.append(('count', dict(n=2, weights=True, mcs=2, norm=True,
                              lists=True)))
    for nan in (None, 0, 2):
        out.append(('count', dict(n=3, weights=False, mcs=0, norm=True,
                                  nan=nan, shuffled=False)))
    for unit in ('s', 'ns', 'series'):
        out.append(('count_dates', dict(unit=unit)))
    for mode in (None, 'times', 'years'):
        out.append(('in_time', dict(n=2, mode=mode)))
    for own in (False, True):
        out.append(('space', dict(n=2, own=own, dot_labels='auto', power=2)))
    out += [('space', dict(n=2, own=False, dot_labels=None, power=1)),
            ('space', dict(n=2, own=False, dot_labels=[1, 2, 3], power=1)),
            ('space', dict(n=2, own=False, dot_labels='auto', power=0)),
            ('country', dict(own=False, name='a')),
            ('country', dict(own=False, name='b')),
            ('country', dict(own=True, name='b')),
            ('country', dict(own=False, name=None))]
    return out
