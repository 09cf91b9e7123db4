"""C31  plots of b-values and of their significance show the estimates"""
import itertools
import math
import warnings
from fractions import Fraction as F

from checks.c20_significance import _estimators
from checks.c29_plots import Ax
from checks.common import B, isnan, set_warnings

PROP = 'C31'
WITNESS = ['mc vs b', 'series', 'left', 'midpoint', 'right', 'x_variable',
           'mc per event', 'incomplete events', 'few used events',
           'too short', 'series errors', 'significance', 'significant',
           'not significant', 'default n_ms', 'too few for n_m', 'n_ms list',
           'sorted', 'mac errors', 'legend', 'lists', 'same place', 'at the edge',
           'default options']
ASSUMPTIONS = [
    'axes are a stand-in that records the calls; estimators and the '
    'significance test are stand-ins with arbitrary results (the real ones '
    'are decided in C02-C07 and C20)',
    'magnitudes are not within float rounding of the threshold mc - delta_m/2',
]
BOUNDS = dict(
    quick='series of 3-5 events with arbitrary magnitudes and mc, n_m 1-3, '
          'any order in time and along x; every plot technique; 2-3 '
          'completeness values; significance of 31-40 events of which two are '
          'arbitrary, every p-value',
    thorough='up to 6 events')
BUDGET = dict(quick=120, thorough=1200)
OUTSIDE = 'the order of events at the same time or place; colors'


def z(conf):
    from scipy.stats import norm
    return float(norm.ppf((1 + conf) / 2))


def band(ctx, ax, xs, mid, std, conf, fac=None):
    """fill_between: mid -+ z std"""
    a, kw = ax.one(ctx, 'fill_between', 'confidence band')
    ctx.true(len(a) == 3, 'band over x')
    f = ctx.const(z(conf)) if fac is None else fac
    for arg, sign in ((a[1], -1), (a[2], 1)):
        got = list(arg)
        ctx.true(len(got) == len(mid), 'length of the band')
        for g, m, s in zip(got, mid, std):
            if isnan(m) or isnan(s):
                ctx.true(isnan(g), 'no band without estimate')
            else:
                ctx.eq(g, m + sign * f * s, 'confidence interval')
    if xs is not None:
        same_x(ctx, a[0], xs)


def same_x(ctx, got, want):
    ctx.eqs(list(got), want, 'x values')


def mc_vs_b(ctx, n, k):
    from seismostats.plots.statistical import plot_mc_vs_b
    m = ctx.reals('m', n, -2, 9)
    mcs = ctx.reals('mc', k, -2, 9)
    res = []

    def value(i, mags):
        res.append((ctx.real(f'b{i}', '1/8', 5), ctx.real(f's{i}', 0, 3), n))
        return res[-1]
    log = []
    est = _estimators(ctx, log, 'b', value)
    conf = ctx.pick('conf', (None, 0.5))
    lab = ctx.pick('label', (None, 'mine'))
    kw = {} if conf is None else dict(confidence_interval=conf)
    ax = Ax()
    d = ctx.real('d', 0, 1)
    r = plot_mc_vs_b(ctx.array(m), ctx.array(mcs), ctx.f(d), b_method=est,
                     ax=ax, color='red', label=lab, foo=3, **kw)
    ctx.true(r is ax, 'the given axes')
    ctx.true(len(log) == k, 'an estimate per mc')
    for c, mc in zip(log, mcs):
        ctx.eqs(c['mags'], m, 'magnitudes')
        ctx.eq(c['mc'], mc, 'mc of the estimate')
        ctx.eq(c['delta_m'], d, 'bin size')
        ctx.true(c['kw'] == {'foo': 3}, 'keyword arguments')
    a, pk = ax.one(ctx, 'plot', 'line')
    same_x(ctx, a[0], mcs)
    ctx.eqs(list(a[1]), [x[0] for x in res], 'b-values')
    ctx.true(pk.get('color') == 'red' and pk.get('label') == lab,
             'color and label')
    band(ctx, ax, mcs, [x[0] for x in res], [x[1] for x in res], conf or .95)
    ctx.true(len(ax.of('legend')) == (lab is not None), 'legend')
    ctx.reach('mc vs b')
    if lab:
        ctx.reach('legend')


def series(ctx, n, n_m, tech, x=False, mcs=None, few=False, perms=True,
           lists=False):
    """running windows of n_m complete events"""
    from seismostats.plots.statistical import plot_b_series_constant_nm
    d = ctx.const('0.5')
    # magnitudes are told apart by their values: event i along x
    mags = [ctx.const(10 + i) for i in range(n)]
    per = mcs is not None
    mc = ctx.reals('mc', n, -2, 30) if per else [ctx.real('mc', -2, 30)] * n
    if per:
        ctx.reach('mc per event')
    if ctx.flag('edge'):
        mc = [mags[1] + d / 2] + mc[1:] if not per else \
            mc[:1] + [mags[1] + d / 2] + mc[2:]
        mc = mc if per else [mc[0]] * n
        ctx.reach('at the edge')
    for i, (a, b) in enumerate(zip(mags, mc)):
        if not (a - b + d / 2 == 0 and i == 1):
            ctx.assume_ne(a, b - d / 2)
    allp = list(itertools.permutations(range(n)))
    tperm = ctx.pick('t', allp if perms else allp[::len(allp) // 3])
    xperm = ctx.pick('x', allp[:1] + allp[1::5]) if x else tuple(range(n))
    t = [ctx.const(3 * p + 1) for p in tperm]
    xv = ctx.reals('x', n, 0, 100)
    for a, b in zip(xv, xv[1:]):
        ctx.assume_lt(a, b)
    res = {}

    def value(i, ms):
        k = tuple(sorted(round(float(y)) - 10 for y in ms))
        used = len(ms) if not (few and k[0] == 1) else 1
        res[k] = (ctx.real('b' + '_'.join(map(str, k)), '1/8', 5),
                  ctx.real('s' + '_'.join(map(str, k)), 0, 3), used)
        return res[k]
    log = []
    est = _estimators(ctx, log, 'b', value)
    kw = {}
    con = ctx.list if lists else ctx.array
    if lists:
        ctx.reach('lists')
    if tech != 'right':
        kw['plot_technique'] = tech
    if x:
        kw['x_variable'] = con([xv[p] for p in xperm])
        ctx.reach('x_variable')
    arg = ctx.f(mc[0])
    if per:
        arg = (ctx.list if mcs == 'list' else ctx.array)(
            [mc[p] for p in xperm])
    least = 2 if n_m > 1 else 1
    if least == 1:
        kw['min_num'] = 1
    ax = Ax()
    r = plot_b_series_constant_nm(
        con([mags[p] for p in xperm]), ctx.f(d), arg,
        con([t[p] for p in xperm]), n_m, method=est, ax=ax,
        label='mine', foo=3, **kw)
    ctx.true(r is ax, 'the given axes')
    keep = [i for i in range(n) if bool(mags[i] >= mc[i] - d / 2)]
    if len(keep) < n:
        ctx.reach('incomplete events')
    if len(keep) < n_m:
        ctx.reach('too short')
    win = [keep[i:i + n_m] for i in range(len(keep) - n_m + 1)]
    ctx.true(len(log) == len(win), 'an estimate per window')
    for c, w in zip(log, win):
        o = sorted(w, key=lambda i: tperm[i])
        ctx.eqs(c['mags'], [mags[i] for i in o],
                'events of the window in time order')
        top = mc[w[0]]
        for i in w[1:]:
            top = mc[i] if bool(mc[i] > top) else top
        ctx.eq(c['mc'], top, 'largest mc of the window')
        ctx.eq(c['delta_m'], d, 'bin size')
        ctx.true(c['kw'] == {'foo': 3}, 'keyword arguments')
    off = {'left': 0, 'midpoint': n_m // 2, 'right': n_m - 1}[tech]
    b = [ctx.nan] * len(keep)
    s = [ctx.nan] * len(keep)
    for i, w in enumerate(win):
        if tuple(w) not in res:
            return
        if res[tuple(w)][2] >= least:
            b[i + off], s[i + off] = res[tuple(w)][:2]
        else:
            ctx.reach('few used events')
    a, pk = ax.one(ctx, 'plot', 'line')
    xs = [xv[i] if x else ctx.const(i) for i in keep]
    same_x(ctx, a[0], xs)
    got = list(a[1])
    ctx.true(len(got) == len(b), 'a value per event')
    for g, w in zip(got, b):
        if isnan(w):
            ctx.true(isnan(g), 'no value outside of the windows')
        else:
            ctx.eq(g, w, 'b-value at its place')
    band(ctx, ax, xs, b, s, .95)
    ctx.reach(tech)
    ctx.reach('series')


def ties(ctx, n, n_m, tech):
    """events at the same place along x are all used"""
    from seismostats.plots.statistical import plot_b_series_constant_nm
    mags = [ctx.const(10 + i) for i in range(n)]
    xs = [ctx.pick(f'x{i}', (1, 2, 3)) for i in range(n)]
    ts = [ctx.pick(f't{i}', (1, 2)) for i in range(n)]
    res = {}

    def value(i, ms):
        k = tuple(sorted(round(float(y)) - 10 for y in ms))
        res[k] = (ctx.real('b' + '_'.join(map(str, k)), '1/8', 5),
                  ctx.real('s' + '_'.join(map(str, k)), 0, 3), len(ms))
        return res[k]
    log = []
    est = _estimators(ctx, log, 'b', value)
    ax = Ax()
    plot_b_series_constant_nm(
        ctx.array(mags), ctx.f(ctx.const('0.5')), 1.0,
        ctx.array([ctx.const(t) for t in ts]), n_m, min_num=1, method=est,
        ax=ax, plot_technique=tech,
        x_variable=ctx.array([ctx.const(x) for x in xs]))
    a, pk = ax.one(ctx, 'plot', 'line')
    xo = sorted(xs)
    same_x(ctx, a[0], [ctx.const(x) for x in xo])
    ctx.true(len(log) == n - n_m + 1, 'an estimate per window')
    off = {'left': 0, 'midpoint': n_m // 2, 'right': n_m - 1}[tech]
    used = []
    for i, c in enumerate(log):
        ids = [round(float(y)) - 10 for y in c['mags']]
        used.append(set(ids))
        ctx.true(len(set(ids)) == n_m and
                 sorted(xs[j] for j in ids) == xo[i:i + n_m],
                 'consecutive events along x')
        ctx.true([ts[j] for j in ids] == sorted(ts[j] for j in ids),
                 'in time order')
        if len(used) > 1:
            ctx.true(len(used[-2] & used[-1]) == n_m - 1,
                     'the window moves by one event')
        ctx.eq(list(a[1])[i + off], res[tuple(sorted(ids))][0],
               'b-value at its place')
    ctx.true(set().union(*used) == set(range(n)), 'every event used')
    ctx.true(len(list(a[1])) == n, 'a value per event')
    if len(set(xs)) < n:
        ctx.reach('same place')


def series_errors(ctx):
    from seismostats.plots.statistical import plot_b_series_constant_nm as f
    m = ctx.array(ctx.reals('m', 4, 1, 9))
    t = ctx.array([ctx.const(i) for i in range(4)])
    ctx.raises(ValueError, lambda: f(m, .1, 1.0, t, 2, min_num=3, ax=Ax()),
               'n_m < min_num')
    ctx.raises(IndexError, lambda: f(m, .1, 1.0, t[:3], 2, ax=Ax()),
               'lengths of magnitudes and times')
    ctx.raises(IndexError, lambda: f(m, .1, 1.0, t, 2, x_variable=t[:3],
                                     ax=Ax()), 'length of x_variable')
    ctx.raises(ValueError, lambda: f(m, .1, 1.0, t, 2, ax=Ax(),
                                     plot_technique='center'),
               'unknown technique')
    ctx.reach('series errors')


def mac(ctx, n, n_ms, form='array', x=False, per=False, sym=2, warn=True,
        lists=False, given=True):
    """the significance test is run on the complete events in order"""
    import numpy as np
    import seismostats.analysis.b_significant as bs
    import seismostats.plots.statistical as mod
    d = ctx.const('0.5')
    mags = [ctx.const(10 + i) for i in range(n)]
    if per:
        mc = [ctx.real(f'mc{i}', 5, 60) if i < sym else ctx.const(
            str(F(i % 7, 8) + 1)) for i in range(n)]
        ctx.reach('mc per event')
    else:
        mc = [ctx.const('1')] * n
    for i in range(sym):
        if i == 1 and per and ctx.flag('edge'):
            mc[i] = mags[i] + d / 2
            ctx.reach('at the edge')
        else:
            ctx.assume_ne(mags[i], mc[i] - d / 2)
    perm = tuple(range(n))
    if x:
        perm = ctx.pick('perm', (perm[::-1], perm[3:] + perm[:3],
                                 perm[::2] + perm[1::2]))
        ctx.reach('sorted')
    calls = []
    res = []

    def test(magnitudes, mc, delta_m, times, n_m, **kw):
        calls.append((list(magnitudes), list(mc), delta_m, list(times),
                      int(n_m), kw))
        i = len(res)
        res.append((ctx.real(f'p{i}', 0, 1), ctx.real(f'mac{i}', -1, 1),
                    ctx.real(f'mu{i}', -1, 1), ctx.real(f'sd{i}', 0, 1)))
        return tuple(ctx.f(y) for y in res[-1])
    ctx.replace(bs, 'b_significant_1D', test)
    kw = {}
    con = ctx.list if lists else ctx.array
    if lists:
        ctx.reach('lists')
    if x:
        kw['x_variable'] = con([ctx.const(str(F(p, 4))) for p in perm])
    if n_ms is not None:
        kw['n_ms'] = np.array(n_ms) if form == 'array' else list(n_ms)
        if form == 'list':
            ctx.reach('n_ms list')
    est = object()
    if given:
        kw.update(method=est, min_num=1, conservative=False, foo=3)
    thr = ctx.pick('threshold', (None, 0.25))
    if thr:
        kw['p_threshold'] = thr
    M = [mags[p] for p in perm]
    C = [mc[p] for p in perm]
    ax = Ax()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        set_warnings(warn)
        try:
            r = mod.plot_b_significant_1D(
                con(M), con(C) if per else 1.0, ctx.f(d),
                con([ctx.const(3 * p) for p in perm]), ax=ax, label='mine',
                **kw)
        finally:
            set_warnings(True)
    ctx.true(r is ax, 'the given axes')
    keep = [i for i in range(n) if bool(mags[i] >= mc[i] - d / 2)]
    if n_ms is None:
        n_ms = sorted({int(y) for y in np.linspace(15, len(keep) / 15, 10)})
        ctx.reach('default n_ms')
    run = [i for i, k in enumerate(n_ms) if len(keep) / k >= 15]
    ctx.true([c[4] for c in calls] == [n_ms[i] for i in run],
             'tested for every n_m with 15 samples')
    if len(calls) != len(run):
        return
    if len(run) < len(n_ms):
        msg = [w for w in rec if 'enough' in str(w.message)]
        ctx.true(len(msg) == (len(n_ms) - len(run) if warn else 0),
                 'warning where there are not enough events')
        ctx.reach('too few for n_m')
    for c in calls:
        ctx.eqs(c[0], [mags[i] for i in keep], 'complete events along x')
        ctx.eqs(c[1], [mc[i] for i in keep], 'their mc')
        ctx.eqs(c[3], [ctx.const(3 * i) for i in keep], 'their times')
        ctx.eq(c[2], d, 'bin size')
        if not given:
            cls = B()['b']
            ctx.true(c[5].get('method', cls) is cls
                     and c[5].get('min_num', 2) == 2
                     and c[5].get('conservative', True) is True,
                     'default options')
            ctx.reach('default options')
            continue
        ctx.true(c[5].get('method') is est and c[5].get('min_num') == 1
                 and c[5].get('conservative') is False
                 and c[5].get('foo') == 3, 'options')
    full = [ctx.nan] * len(n_ms)
    p, ac, mu, sd = ([*full] for _ in range(4))
    for i, y in zip(run, res):
        p[i], ac[i], mu[i], sd[i] = y
    lines = ax.of('plot')
    a = lines[0][1]
    ctx.true([int(y) for y in a[0]] == list(n_ms), 'n_m of the line')
    _nan_eqs(ctx, a[1], ac, 'autocorrelations')
    a = lines[1][1]
    ctx.true([int(y) for y in a[0]] == list(n_ms), 'n_m of the mean')
    _nan_eqs(ctx, a[1], mu, 'expected autocorrelations')
    t = thr or 0.05
    for i in run:
        ctx.assume_ne(p[i], ctx.const(str(t)))
    from scipy.stats import norm
    band(ctx, ax, None, mu, sd, None, ctx.const(float(norm.ppf(1 - t / 2))))
    sig = [i for i in run if bool(p[i] < ctx.const(str(t)))]
    if sig:
        ctx.true(len(lines) == 3, 'significant values marked')
        if len(lines) == 3:
            a = lines[2][1]
            ctx.true([int(y) for y in a[0]] == [n_ms[i] for i in sig],
                     'n_m of the significant values')
            ctx.eqs(list(a[1]), [ac[i] for i in sig], 'significant values')
        ctx.reach('significant')
    else:
        ctx.true(len(lines) == 2, 'nothing marked')
        ctx.reach('not significant')
    ctx.true(len(ax.of('legend')) == 1, 'legend')
    ctx.reach('significance')


def _nan_eqs(ctx, got, want, what):
    got = list(got)
    ctx.true(len(got) == len(want), what)
    for g, w in zip(got, want):
        if isnan(w):
            ctx.true(isnan(g), what + ': NaN')
        else:
            ctx.eq(g, w, what)


def mac_errors(ctx):
    from seismostats.plots.statistical import plot_b_significant_1D as f
    m = ctx.array(ctx.reals('m', 6, 1, 9))
    t = ctx.array([ctx.const(i) for i in range(6)])
    ctx.raises(ValueError, lambda: f(m, 1.0, .1, t, ax=Ax()),
               'too few events to choose n_m')
    ctx.raises(ValueError, lambda: f(m, 1.0, .1, t, n_ms=[1],
                                     x_variable=t[:5], ax=Ax()),
               'length of x_variable')
    ctx.reach('mac errors')


def jobs(tier):
    q = tier == 'quick'
    out = [('mc_vs_b', dict(n=3, k=2)), ('mc_vs_b', dict(n=2, k=3)),
           ('series_errors', {}), ('mac_errors', {})]
    for tech in ('left', 'midpoint', 'right'):
        out += [('series', dict(n=3, n_m=2, tech=tech)),
                ('series', dict(n=4, n_m=3, tech=tech, x=True, mcs='array',
                                perms=False))]
    out += [('series', dict(n=4, n_m=2, tech='right', few=True,
                            perms=False)),
            ('series', dict(n=3, n_m=1, tech='right', mcs='list')),
            ('series', dict(n=3, n_m=2, tech='right', x=True)),
            ('series', dict(n=2, n_m=3, tech='left')),
            ('series', dict(n=5 if q else 6, n_m=4, tech='midpoint',
                            perms=False)),
            ('series', dict(n=3, n_m=2, tech='midpoint', x=True, mcs='list',
                            lists=True, perms=False))]
    out += [('ties', dict(n=3, n_m=1, tech='right')),
            ('ties', dict(n=3, n_m=2, tech='left')),
            ('ties', dict(n=3, n_m=2, tech='midpoint'))]
    for form in ('array', 'list'):
        out.append(('mac', dict(n=32, n_ms=(1, 2, 3), form=form)))
    out += [('mac', dict(n=40, n_ms=None)),
            ('mac', dict(n=32, n_ms=(2, 3), given=False)),
            ('mac', dict(n=18, n_ms=(1,), x=True, per=True)),
            ('mac', dict(n=18, n_ms=(1,), x=True, per=True, lists=True)),
            ('mac', dict(n=31, n_ms=(2, 1), per=True, x=True, warn=False))]
    return out
