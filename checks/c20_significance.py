"""C20  autocorrelation of b-value series and its significance"""
import itertools
import math
import warnings
from fractions import Fraction as F

from checks.common import div, isnan, set_warnings, sqrt, ssum

PROP = 'C20'
WITNESS = ['1D', 'nan value', 'matrix', 'diagonal', 'not square', 'not 0/1',
           'neither', 'too few', 'transform', 'n1 > n2', 'cut',
           'bad offset', 'partition', 'empty subset', 'a-value subsets',
           'simultaneous events',
           'significant', 'min_num', 'x_variable', 'mc per event',
           'too few subsamples', 'mc list length', 'incomplete events',
           'not conservative', 'at the edge']
ASSUMPTIONS = [
    'the b-values given to est_morans_i are not all equal to the mean',
    'in b_significant_1D and values_from_partitioning the estimator is a '
    'stand-in with arbitrary values (the real ones are decided in C02-C07)',
]
BOUNDS = dict(
    quick='series of 2-5, 12, 20 and 30 values (any value or NaN), every neighbor matrix of '
          '3 values and a choice for 4; transform_n for n1, n2 in 1-400; '
          'series cut up to length 9; significance for 6-9 events, n_m 1-3',
    thorough='every neighbor matrix of 4 values; up to 11 events')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'longer series; simultaneous events'


def _moran(ctx, v, pairs, mean):
    """definition over the values that are not NaN"""
    ok = [i for i in range(len(v)) if not isnan(v[i])]
    n = len(ok)
    mu = mean if mean is not None else div(
        ctx, ssum([v[i] for i in ok]), n)
    dev = {i: v[i] - mu for i in ok}
    p = [(i, j) for i, j in pairs if i in dev and j in dev]
    s0 = ssum([dev[i] * dev[i] for i in ok])
    return dev, p, s0, n


def _values(ctx, n, nan):
    v = ctx.reals('v', n, '1/4', 4)
    return [ctx.nan if i in nan else x for i, x in enumerate(v)]


def _check_moran(ctx, out, v, pairs, mean):
    ac, n, n_p = out
    dev, p, s0, k = _moran(ctx, v, pairs, mean)
    ctx.eq(n, k, 'number of values')
    ctx.eq(n_p, len(p), 'number of neighbors')
    if p:
        ref = div(ctx, ssum([dev[i] * dev[j] for i, j in p]) * (k - 1),
                  s0 * len(p))
        ctx.eq(ac, ref, "Moran's I")


def series(ctx, n, nan, mean):
    from seismostats.analysis.b_significant import est_morans_i
    v = _values(ctx, n, nan)
    mu = ctx.real('mean', -1, 4) if mean else None
    dev, p, s0, k = _moran(ctx, v, [(i, i + 1) for i in range(n - 1)], mu)
    ctx.assume_lt(0, s0)
    a = ctx.array(v)
    kw = {} if mu is None else dict(mean_v=ctx.f(mu))
    out = est_morans_i(a, **kw)
    ctx.out('ac', out[0])
    _check_moran(ctx, out, v, [(i, i + 1) for i in range(n - 1)], mu)
    ctx.eqs([x for x in a if not isnan(x)], [x for x in v if not isnan(x)],
            'values of the caller')
    ctx.reach('1D')
    if nan:
        ctx.reach('nan value')


def matrix(ctx, n, nan, form, masks=None):
    import numpy as np
    from seismostats.analysis.b_significant import est_morans_i
    v = _values(ctx, n, nan)
    up = [(i, j) for i in range(n) for j in range(i + 1, n)]
    mask = ctx.pick('mask', masks or tuple(range(1, 2 ** len(up))))
    pairs = [p for b, p in enumerate(up) if mask >> b & 1]
    dev, p, s0, k = _moran(ctx, v, pairs, None)
    ctx.assume_lt(0, s0)
    w = np.zeros((n, n))
    for i, j in pairs:
        if form in ('upper', 'symmetric', 'diagonal'):
            w[i, j] = 1
        if form in ('lower', 'symmetric', 'diagonal'):
            w[j, i] = 1
    if form == 'diagonal':
        w[1, 1] = 1
    w0 = w.copy()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        out = est_morans_i(ctx.array(v), w)
    ctx.true(len([r for r in rec if 'iagonal' in str(r.message)])
             == (form == 'diagonal'), 'warning about the diagonal')
    ctx.true((w == w0).all(), 'matrix of the caller')
    _check_moran(ctx, out, v, pairs, None)
    ctx.reach('diagonal' if form == 'diagonal' else 'matrix')


def matrix_errors(ctx, n):
    import numpy as np
    from seismostats.analysis.b_significant import est_morans_i
    v = ctx.array(ctx.reals('v', n, '1/4', 4))

    def w(*ones):
        a = np.zeros((n, n))
        for i, j, x in ones:
            a[i, j] = x
        return a
    ctx.raises(ValueError, lambda: est_morans_i(v, np.ones((n, n + 1))),
               'matrix that is not square')
    ctx.reach('not square')
    for x in (2, -1, 0.5):
        ctx.raises(ValueError, lambda: est_morans_i(v, w((0, 1, x))),
                   'matrix of other values')
        ctx.raises(ValueError, lambda: est_morans_i(
            v, w((0, 1, x), (1, 0, x))), 'symmetric matrix of other values')
    ctx.reach('not 0/1')
    ctx.raises(ValueError, lambda: est_morans_i(
        v, w((0, 1, 1), (2, 1, 1))), 'neither symmetric nor triangular')
    # as many neighbors in each row as in each column
    ctx.raises(ValueError, lambda: est_morans_i(
        v, w((0, 1, 1), (1, 2, 1), (2, 0, 1))), 'cycle')
    ctx.raises(ValueError, lambda: est_morans_i(
        v, w((0, 1, 1), (1, 0, 1), (0, 2, 1))), 'partly symmetric')
    ctx.reach('neither')
    ctx.raises(ValueError, lambda: est_morans_i(ctx.array([v[0]])),
               'single value')
    ctx.raises(ValueError, lambda: est_morans_i(ctx.array([])), 'no value')
    ctx.reach('too few')


def transform(ctx, array):
    from seismostats.analysis.b_significant import transform_n
    ns = ((1, 1), (1, 4), (25, 100), (50, 50), (9, 400), (7, 50), (3, 2))
    pick = [ctx.pick(f'n{i}', ns) for i in range(2 if array else 1)]
    b = ctx.reals('b', len(pick), '1/8', 8)
    t = ctx.real('t', '1/8', 8)
    for (n1, n2), x in zip(pick, b):
        # transformed values of at most 40
        ctx.assume_lt(F(1, 40) * x, x - sqrt(ctx, ctx.const(str(F(n1, n2))))
                      * (x - t)) if n1 <= n2 else None
    if array:
        import numpy as np
        call = lambda: transform_n(  # noqa
            ctx.array(b), ctx.f(t), np.array([p[0] for p in pick]),
            np.array([p[1] for p in pick]))
    else:
        call = lambda: transform_n(ctx.f(b[0]), ctx.f(t), *pick[0])  # noqa
    if any(p[0] > p[1] for p in pick):
        ctx.raises(ValueError, call, 'n1 > n2')
        ctx.reach('n1 > n2')
        return
    r = call()
    r = list(r) if array else [r]
    for (n1, n2), x, y in zip(pick, b, r):
        s = math.sqrt(n1 / n2)
        ctx.eq(y, div(ctx, t * x, x - ctx.const(s) * (x - t)),
               'deviation of 1/b scaled by sqrt(n1/n2)')
        if n1 == n2:
            ctx.eq(y, x, 'same number: unchanged')
    ctx.reach('transform')


def cut(ctx, most):
    import numpy as np
    from seismostats.analysis.b_significant import cut_constant_idx
    k = ctx.pick('len', tuple(range(most + 1)))
    n = ctx.pick('n', tuple(range(1, 6)))
    off = ctx.pick('offset', tuple(range(0, 7)))
    v = ctx.reals('v', k, 0, 9)
    if off >= n:
        ctx.raises(ValueError, lambda: cut_constant_idx(
            ctx.array(v), n, offset=off), 'offset >= n')
        ctx.reach('bad offset')
        return
    idx, sub = cut_constant_idx(ctx.array(v), n, offset=off)
    starts = [i for i in range(1, k) if i % n == off % n]
    ctx.true([int(i) for i in idx] == starts, 'indices of the cuts')
    edges = [0] + starts + [k]
    ctx.true(len(sub) == len(starts) + 1, 'number of subsamples')
    for s, a, b in zip(sub, edges, edges[1:]):
        ctx.true(len(s) == b - a, 'length of the subsamples')
        ctx.eqs(list(s), v[a:b], 'subsamples in order')
    ctx.reach('cut')


def _estimators(ctx, log, kind, value):
    """estimator classes with arbitrary results"""
    from seismostats.analysis.bvalue.base import BValueEstimator
    from seismostats.analysis.avalue.base import AValueEstimator

    def result(self, mags, mc, delta_m, extra):
        self.v, self.s, self.k = value(len(log), list(mags))
        log.append(dict(mags=list(mags), mc=mc, delta_m=delta_m, **extra))
        return self.value

    class Common:
        value = property(lambda self: ctx.f(self.v))
        std = property(lambda self: ctx.f(self.s))
        n = property(lambda self: self.k)

        def _estimate(self):
            raise NotImplementedError

    if kind == 'b':
        class Est(Common, BValueEstimator):
            _weights_supported = False
            b_value = property(lambda self: ctx.f(self.v))

            def calculate(self, magnitudes, mc, delta_m, **kw):
                return result(self, magnitudes, mc, delta_m, dict(kw=kw))
    elif kind == 'a':
        class Est(Common, AValueEstimator):
            a_value = property(lambda self: ctx.f(self.v))

            def calculate(self, magnitudes, mc, delta_m, scaling_factor=None,
                          **kw):
                return result(self, magnitudes, mc, delta_m,
                              dict(scaling=scaling_factor, kw=kw))
    else:
        class Est(Common, AValueEstimator):
            a_value = property(lambda self: ctx.f(self.v))

            def calculate(self, magnitudes, mc, delta_m, times,
                          scaling_factor=None, **kw):
                return result(self, magnitudes, mc, delta_m,
                              dict(scaling=scaling_factor, times=list(times),
                                   kw=kw))
    return Est


def partition(ctx, kind, sizes, mclist, scaling, lists=False):
    from seismostats.analysis.b_significant import values_from_partitioning
    n = len(sizes)
    m = [ctx.reals(f'm{i}_', k, -2, 9) for i, k in enumerate(sizes)]
    perm = [ctx.pick(f'perm{i}', list(itertools.permutations(range(k))))
            for i, k in enumerate(sizes)]
    t = []
    for i, k in enumerate(sizes):
        s = ctx.reals(f't{i}_', k, 0, 100)
        for a, b in zip(s, s[1:]):
            ctx.assume_lt(a, b)
        t.append([s[p] for p in perm[i]])
    res = []

    def value(i, mags):
        res.append((ctx.real(f'val{i}', -5, 5), ctx.real(f'std{i}', 0, 5),
                    10 + i))
        return res[-1]
    log = []
    est = _estimators(ctx, log, kind, value)
    mc = ctx.reals('mc', n, -2, 5) if mclist else ctx.const('1.25')
    kw = dict(foo=3)
    if kind == 'a' and not scaling:
        kw = {}
    if scaling:
        sc = ctx.reals('sc', n, 1, 5)
        kw['list_scaling'] = ctx.list(sc)
    con = ctx.list if lists else ctx.array
    out = values_from_partitioning(
        [con(x) for x in m], [con(x) for x in t],
        ctx.list(mc) if mclist else 1.25, ctx.f(ctx.const('0.25')),
        method=est, **kw)
    full = [i for i in range(n) if sizes[i]]
    ctx.true(len(log) == len(full), 'one estimate per subset with events')
    for j, i in enumerate(full):
        o = sorted(range(sizes[i]), key=lambda x: perm[i][x])
        ctx.eqs(log[j]['mags'], [m[i][x] for x in o],
                'magnitudes in time order')
        ctx.eq(log[j]['mc'], mc[i] if mclist else mc, 'mc of the subset')
        ctx.eq(log[j]['delta_m'], ctx.const('0.25'), 'bin size')
        if 'times' in log[j]:
            ctx.eqs(log[j]['times'], [t[i][x] for x in o], 'sorted times')
        if kind != 'b':
            ctx.eq(log[j]['scaling'], sc[i] if scaling else ctx.const('1'),
                   'scaling factor')
            ctx.reach('a-value subsets')
        ctx.true(log[j]['kw'] == ({'foo': 3} if 'foo' in kw else {}),
                 'keyword arguments')
        for r, x in zip(res[j], out):
            ctx.eq(x[i], r if r is not res[j][2] else ctx.const(r),
                   'results in order')
    for i in range(n):
        if not sizes[i]:
            ctx.true(isnan(out[0][i]) and isnan(out[1][i])
                     and out[2][i] == 0, 'empty subset')
            ctx.reach('empty subset')
    ctx.reach('partition')


def partition_ties(ctx, kind):
    """simultaneous events: in any order, with their own magnitudes"""
    from seismostats.analysis.b_significant import values_from_partitioning
    t = ctx.reals('t', 3, 0, 100)
    for a, b in zip(t, t[1:]):
        ctx.assume_lt(a, b)
    times = [t[2], t[0], t[1], t[0], t[2], t[0]]
    mags = [ctx.const(str(x)) for x in (1, 2, 4, 3, 0, 5)]
    log = []
    est = _estimators(ctx, log, kind, lambda i, m: (ctx.const('1'),
                                                    ctx.const('1'), 6))
    kw = {} if kind != 'b' else dict(foo=3)
    values_from_partitioning([ctx.array(mags)], [ctx.array(times)], -1.0, 1.0,
                             method=est, **kw)
    ctx.true(len(log) == 1, 'one estimate')
    m = [float(x) for x in log[0]['mags']]
    ctx.true([sorted(m[:3]), m[3], sorted(m[4:])] == [[2, 3, 5], 4, [0, 1]],
             f'magnitudes in time order {m}')
    if 'times' in log[0]:
        ctx.eqs(log[0]['times'], [t[0], t[0], t[0], t[1], t[2], t[2]],
                'sorted times')
    ctx.reach('simultaneous events')


def partition_errors(ctx):
    from seismostats.analysis.b_significant import values_from_partitioning
    m = [ctx.array(ctx.reals('a', 2, 0, 5)), ctx.array(ctx.reals('b', 2, 0, 5))]
    t = [ctx.array([ctx.const('0'), ctx.const('1')])] * 2
    d = ctx.f(ctx.const('0.1'))
    ctx.raises(IndexError, lambda: values_from_partitioning(
        m, t[:1], 1.0, d), 'lists of different length')
    ctx.raises(IndexError, lambda: values_from_partitioning(
        m, t, [1.0], d), 'list of mcs of different length')
    ctx.reach('mc list length')


def significance(ctx, n, n_m, min_num=None, low=(), x=False, mcs=False,
                 gamma=True, few=(), method='b', sym=9, lists=False,
                 warn=False):
    """mean autocorrelation of the series of values of all offsets"""
    from seismostats.analysis.b_significant import b_significant_1D
    # magnitudes are identified by their distinct values
    mags = [ctx.const(5 + i) for i in range(n)]
    mc = [ctx.real(f'mc{i}', 0, 20) if i in low else ctx.const('1')
          for i in range(n)]
    for i in low:
        if ctx.flag(f'edge{i}'):
            mc[i] = mags[i] + F(1, 8)
            ctx.reach('at the edge')
        else:
            ctx.assume_ne(mags[i], mc[i] - F(1, 8))
    vals = {}
    arity = {}

    def value(i, ms):
        key = tuple(round(float(y)) for y in ms)
        if key not in vals:
            name = 'v' + '_'.join(map(str, key))
            k = len(vals)
            vals[key] = ctx.real(name, '1/4', 4) if k < sym else ctx.const(
                str(F(k * k % 11 + 3, 8)))
            arity[key] = 1 if key[0] - 5 in few else len(key)
        return vals[key], ctx.const('1'), arity[key]
    log = []
    est = _estimators(ctx, log, method, value)
    kw = dict(foo=3)
    con = ctx.list if lists else ctx.array
    if min_num:
        kw['min_num'] = min_num
        ctx.reach('min_num')
    if not gamma:
        kw['conservative'] = False
        ctx.reach('not conservative')
    perm = tuple(range(n))
    if x:
        perm = ctx.pick('perm', x)
        kw['x_variable'] = con(
            [ctx.const(str(F(p) / 4)) for p in perm])
        ctx.reach('x_variable')
    # event i has position perm[i] along x; magnitude number follows position
    M = [mags[p] for p in perm]
    C = [mc[p] for p in perm]
    arg = con(C) if mcs else 1.0
    if mcs:
        ctx.reach('mc per event')
    set_warnings(warn)
    try:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            out = b_significant_1D(
                con(M), arg, 0.25,
                con([ctx.const(3 * p) for p in perm]), n_m, method=est, **kw)
    finally:
        set_warnings(True)
    keep = [i for i in range(n) if bool(mags[i] >= mc[i] - F(1, 8))]
    msg = [w for w in rec if issubclass(w.category, UserWarning)]
    ctx.true(bool(msg) == (warn and len(keep) < 15 * n_m),
             'warning where there are less than 15 subsamples')
    ctx.true(all(c['kw'] == {'foo': 3} for c in log), 'keyword arguments')
    if len(keep) < n:
        ctx.reach('incomplete events')
    if len(keep) < 3 * n_m:
        ctx.true(all(isnan(y) for y in out), 'less than 3 subsamples: NaN')
        ctx.reach('too few subsamples')
        return
    acs, ns, nps = [], [], []
    for off in range(n_m):
        subs = [keep[a:a + n_m] for a in range(off, len(keep) - n_m + 1, n_m)]
        keys = [tuple(5 + i for i in s) for s in subs]
        if any(k not in vals for k in keys):
            ctx.true(False, 'every complete subsample is estimated')
            return
        least = min_num or 2
        v = [vals[k] if arity[k] >= least else ctx.nan for k in keys]
        if sum(arity[k] >= least for k in keys) < 3:
            continue
        dev, p, s0, k = _moran(
            ctx, v, [(i, i + 1) for i in range(len(v) - 1)], None)
        ctx.assume_lt(0, s0)
        if not p:
            continue
        acs.append(div(ctx, ssum([dev[i] * dev[j] for i, j in p]) * (k - 1),
                       s0 * len(p)))
        ns.append(k)
        nps.append(len(p))
    if mcs:
        for c in log:
            ids = [round(float(y)) - 5 for y in c['mags']]
            top = mc[ids[0]]
            for i in ids[1:]:
                if bool(mc[i] > top):
                    top = mc[i]
            ctx.eq(c['mc'], top, 'largest mc of the subsample')
    p_value, mac, mu, std = out
    mean_np = F(sum(nps), len(nps)) if nps else 0
    if mean_np <= 2:
        ctx.true(isnan(mac) and isnan(mu) and isnan(std) and isnan(p_value),
                 'not enough pairs: NaN')
        ctx.reach('too few subsamples')
        return
    ref = div(ctx, ssum(acs), len(acs))
    ctx.eq(mac, ref, 'mean autocorrelation')
    ctx.eq(mu, ctx.const(str(F(-len(ns), sum(ns)))), 'expected value')
    sd = float((mean_np - 2) / mean_np) / math.sqrt(mean_np)
    if not gamma:
        sd *= 0.81
    ctx.eq(std, ctx.const(sd), 'standard deviation')
    from scipy.stats import norm
    import seismostats.analysis.b_significant as mod
    nn = mod.norm if ctx.symbolic and hasattr(mod, 'norm') else norm
    z = (mac - mu) / std
    ctx.eq(p_value, 1 - nn.cdf(z),
           'one-sided p-value of the normal distribution')
    ctx.reach('significant')


def sig_errors(ctx):
    from seismostats.analysis.b_significant import b_significant_1D
    m = ctx.array(ctx.reals('m', 6, 1, 5))
    t = ctx.array([ctx.const(i) for i in range(6)])
    ctx.raises(IndexError, lambda: b_significant_1D(
        m, 1.0, 0.1, t[:5], 2), 'lengths of magnitudes and times')
    ctx.raises(ValueError, lambda: b_significant_1D(
        m, 1.0, 0.1, t, 2, min_num=3), 'n_m < min_num')
    ctx.raises(ValueError, lambda: b_significant_1D(
        m, 1.0, 0.1, t, 2, x_variable=t[:5]), 'length of x_variable')


def jobs(tier):
    q = tier == 'quick'
    out = [('partition_errors', {}), ('sig_errors', {}),
           ('matrix_errors', dict(n=3))]
    for n, nan in ((2, ()), (3, ()), (3, (1,)), (4, (0,)), (4, (3,)),
                   (5, (2,)), (4, ()), (5, (0, 3))):
        for mean in (False, True):
            out.append(('series', dict(n=n, nan=nan, mean=mean)))
    for form in ('upper', 'lower', 'symmetric', 'diagonal'):
        out.append(('matrix', dict(n=3, nan=(), form=form)))
        out.append(('matrix', dict(n=3, nan=(2,), form=form)))
        out.append(('matrix', dict(n=4, nan=(1,), form=form,
                                   masks=(63, 37, 18, 9) if q else None)))
        out.append(('matrix', dict(n=5, nan=(0, 2), form=form,
                                   masks=(1023, 853, 618))))
    # longer series
    for n, nan in ((12, (3,)), (20, ()), (30, (0, 7, 8, 29))):
        out.append(('series', dict(n=n, nan=nan, mean=n == 20)))
    for form in ('upper', 'lower', 'symmetric'):
        out.append(('matrix', dict(n=8, nan=(5,), form=form,
                                   masks=(0x9f3b5d1, 0x4c71e83))))
    for a in (False, True):
        out.append(('transform', dict(array=a)))
    out.append(('cut', dict(most=9)))
    for kind in ('b', 'a', 'at'):
        for mclist in (False, True):
            out.append(('partition', dict(
                kind=kind, sizes=(2, 0, 1, 3) if mclist else (3, 1),
                mclist=mclist, scaling=mclist and kind != 'b')))
        out.append(('partition', dict(
            kind=kind, sizes=(1, 2) + (1, 0, 1) * 4, mclist=True,
            scaling=kind != 'b')))
        out.append(('partition', dict(kind=kind, sizes=(2, 1), mclist=True,
                                      scaling=False, lists=True)))
    out += [('partition', dict(kind=k, sizes=(4,), mclist=False,
                               scaling=False)) for k in ('b', 'a', 'at')]
    out += [('partition_ties', dict(kind=k)) for k in ('b', 'a', 'at')]
    rev = ((1, 0, 2, 5, 3, 4, 6, 7), (7, 6, 5, 4, 3, 2, 1, 0))
    out += [
        ('significance', dict(n=8, n_m=2, warn=True)),
        ('significance', dict(n=16, n_m=1, min_num=1, warn=True, sym=2)),
        ('significance', dict(n=9, n_m=2, few=(2,), method='at')),
        ('significance', dict(n=4, n_m=1, min_num=1, gamma=False)),
        ('significance', dict(n=6, n_m=1, min_num=1, low=(0, 3),
                              mcs=True, sym=2)),
        ('significance', dict(n=8, n_m=2, x=rev, mcs=True, low=(2, 5), sym=2)),
        ('significance', dict(n=8, n_m=2, x=rev, mcs=True, sym=2,
                              lists=True)),
        ('significance', dict(n=9, n_m=3, method='b')),
        ('significance', dict(n=5, n_m=2)),
        ('significance', dict(n=16, n_m=2, few=(4,), sym=2)),
        ('significance', dict(n=12, n_m=2, few=(1, 3, 5), sym=4)),
        ('significance', dict(n=11, n_m=3, few=(0, 3, 2, 4), sym=3)),
    ]
    if not q:
        out += [('significance', dict(n=11, n_m=2, few=(4,))),
                ('significance', dict(n=13, n_m=3, min_num=2)),
                ('significance', dict(n=10, n_m=2, mcs=True,
                                      low=(0, 4, 9), sym=2))]
    return out
