"""C05  uncertainties and the b/beta conversion"""
import itertools

import numpy as np

from checks.common import B, LN10D, Mags, Times, div, isnan, mean, sqrt, \
    ssum

PROP = 'C05'
WITNESS = ['shi-bolt', 'weighted', 'beta', 'resamples', 'nan resample',
           'bootstrap', 'differences']
ASSUMPTIONS = [
    'exact arithmetic: float rounding is outside the claim',
    'weights > 0 with a sum above 1; more than one event',
    'the bootstrap draws its resamples through numpy.random.default_rng '
    '(choice or integers), which a stand-in replaces',
]
BOUNDS = dict(
    quick='Shi-Bolt: 2-4 events, magnitudes in [-2, 9]; bootstrap_std: '
          'samples of 2-3 symbolic values, 2-3 arbitrary resamples, '
          'estimates that may be NaN, inf or -inf; std of b-positive: 3 '
          'events, of b-more-positive: 2-3 events, the resamples of one '
          'random stream; 40 mostly given events; dmc 0',
    thorough='Shi-Bolt up to 5 events, 4 resamples')
OUTSIDE = 'larger samples; float rounding'


def shi_bolt(ctx, n, weighted, par, conf='cont'):
    """the standalone function"""
    from seismostats.analysis.bvalue.utils import shi_bolt_confidence
    m = ctx.reals('m', n, -2, 9)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    if w is not None:
        ctx.assume_lt(1, ssum(w))
    b = ctx.real('b', '1/8', 8)
    r = shi_bolt_confidence(ctx.array(m), ctx.f(b),
                            weights=None if w is None else ctx.array(w),
                            b_parameter=par)
    ctx.out('std', r)
    ctx.eq(r, _ref(ctx, m, w, b, par), 'Shi and Bolt formula')
    ctx.reach('weighted' if weighted else 'shi-bolt')


def _ref(ctx, m, w, b, par):
    mu = mean(ctx, m, w)
    var = mean(ctx, [(x - mu) * (x - mu) for x in m], w)
    cnt = len(m) if w is None else ssum(w)
    ref = b * b * sqrt(ctx, var) / sqrt(ctx, cnt - 1)
    if par == 'b_value':
        ref = ref * ctx.const(LN10D)
    return ref


def invalid_par(ctx):
    from seismostats.analysis.bvalue.utils import shi_bolt_confidence
    m = ctx.reals('m', 2, -2, 9)
    for p in ('b', 'Beta', None, ''):
        ctx.raises(ValueError, lambda: shi_bolt_confidence(
            ctx.array(m), ctx.f(1), b_parameter=p), 'unknown b_parameter')


def attributes(ctx, est, n, conf, weighted, free=None):
    """std, std_beta and beta of an estimator"""
    g = Mags(ctx, n, conf, free=free)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    keep = [i for i in range(n) if bool(g.m[i] >= g.mc - g.delta / 2)]
    ctx.assume(len(keep) >= 2)
    ws = None if w is None else [w[i] for i in keep]
    if ws is not None:
        ctx.assume_lt(1, ssum(ws))
    e = B()[est]()
    b = e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                    weights=None if w is None else ctx.array(w))
    s, sb, beta = e.std, e.std_beta, e.beta
    ctx.assume(not isnan(b) and not _inf(b))
    ctx.out('std', s)
    ctx.eq(beta, b * ctx.const(LN10D), 'beta = b ln 10')
    ctx.eq(s, _ref(ctx, [g.m[i] for i in keep], ws, b, 'b_value'),
           'std of the complete events')
    ctx.eq(sb, s * ctx.const(LN10D), 'std_beta = std ln 10')
    ctx.reach('beta')


def unset(ctx, est):
    """nothing to read before an estimate was made"""
    e = B()[est]()
    for a in ('beta', 'std', 'std_beta'):
        ctx.raises(AttributeError, lambda: getattr(e, a), f'{a} unset')


def positive(ctx, n, conf, weighted, times=None, free=None):
    """std, std_beta of b-positive: Shi and Bolt of the differences"""
    from checks.c03_positive_b import pairs
    g = Mags(ctx, n, conf, free=free)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    T = Times(ctx, n, times)
    d = g.delta if conf != 'cont' else ctx.const('0.25')
    o = [i for i in T.order if bool(g.m[i] >= g.mc - g.delta / 2)]
    m = [g.m[i] for i in o]
    ps = pairs('bpos', m, d - g.delta / 2)
    ctx.assume(len(ps) >= 2)
    ws = None if w is None else [w[o[j]] for _, j in ps]
    if ws is not None:
        ctx.assume_lt(1, ssum(ws))
    e = B()['bpos']()
    b = e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                    weights=None if w is None else ctx.array(w),
                    times=None if T.t is None else ctx.array(T.t),
                    dmc=ctx.f(d))
    ctx.assume(not isnan(b) and not _inf(b))
    s, sb = e.std, e.std_beta
    ctx.out('std', s)
    ctx.eq(e.beta, b * ctx.const(LN10D), 'beta = b ln 10')
    ctx.eq(s, _ref(ctx, [m[j] - m[i] for i, j in ps], ws, b, 'b_value'),
           'std of the differences')
    ctx.eq(sb, s * ctx.const(LN10D), 'std_beta = std ln 10')
    ctx.reach('differences')


def conversion(ctx):
    from seismostats.analysis.bvalue import utils as u
    x = ctx.real('x', -10, 10)
    ctx.eq(u.b_value_to_beta(ctx.f(x)), x * ctx.const(LN10D), 'b to beta')
    ctx.eq(u.beta_to_b_value(ctx.f(x)), x / ctx.const(LN10D), 'beta to b')


def _inf(x):
    from symex.npshim import isinf1
    return isinf1(x)


class Rng:
    """stand-in for numpy's Generator: records or dictates the draws"""

    def __init__(self, draw):
        self.draw = draw
        self.log = []

    def _draw(self, hi, size):
        k = self.draw(len(self.log), hi, size)
        self.log.append(list(k))
        return k

    def integers(self, low, high=None, size=None, **k):
        lo, hi = (0, low) if high is None else (low, high)
        n = int(np.prod(size)) if size is not None else 1
        r = np.array([lo + i for i in self._draw(int(hi) - int(lo), n)])
        return r.reshape(size) if size is not None else int(r[0])

    def choice(self, a, size=None, replace=True, **k):
        assert replace, 'resampling without replacement'
        a = np.arange(a) if isinstance(a, int) else np.asarray(a) \
            if not hasattr(a, 'dtype') else a
        n = int(np.prod(size)) if size is not None else 1
        r = a[np.array(self._draw(len(a), n), dtype=int)]
        return r if size is not None else r[0]


def _patch_rng(ctx, rng, seeds):
    def make(seed=None):
        seeds.append(seed)
        return rng
    import numpy.random
    import scipy.stats  # noqa  (itself uses numpy.random when it is loaded)
    ctx.replace(numpy.random, 'default_rng', make)


def _fewer(ctx, most=12):
    """bound the number of resamples drawn for the std of b-more-positive"""
    import sys
    mod = sys.modules['seismostats.analysis.bvalue.utils']
    orig = getattr(mod, 'bootstrap_std', None)
    if orig is not None:
        def bounded(sample, func, n=500, random_state=None):
            return orig(sample, func, n=min(n, most),
                        random_state=random_state)
        ctx.replace(mod, 'bootstrap_std', bounded)


def sample_std(ctx, xs):
    mu = div(ctx, ssum(xs), len(xs))
    return sqrt(ctx, div(ctx, ssum([(x - mu) * (x - mu) for x in xs]),
                         len(xs) - 1))


def resamples(ctx, n, k, bad=None):
    """bootstrap_std on an arbitrary statistic and arbitrary resamples"""
    from seismostats.analysis.bvalue.utils import bootstrap_std
    x = ctx.reals('x', n, -5, 5)
    opts = list(itertools.product(range(n), repeat=n))
    if n > 2:
        opts = opts[::3] if k < 3 else opts[::5]
    rng = Rng(lambda i, hi, size: ctx.pick(f'draw{i}', opts))
    seeds = []
    _patch_rng(ctx, rng, seeds)
    seen = []

    def stat(s):
        seen.append(list(s))
        v = ssum([s[i] * (i + 1) for i in range(len(s))])
        if bad and rng.log[-1][0] == n - 1:
            return float(bad)
        return v
    kw = dict(n=k, random_state=7)
    run = lambda: bootstrap_std(ctx.array(x), stat, **kw)  # noqa
    good = []
    opt_bad = []
    vals = None
    try:
        r = run()
        ok = True
    except ValueError:
        ok = False
    for d in rng.log:
        isbad = bad and d[0] == n - 1
        if not isbad:
            good.append(ssum([x[d[i]] * (i + 1) for i in range(n)]))
        opt_bad.append(isbad)
    ctx.true(len(rng.log) == k, 'n resamples drawn')
    ctx.true(seeds == [7], 'random_state seeds the generator')
    for s, d in zip(seen, rng.log):
        ctx.eqs(s, [x[i] for i in d], 'resample of the sample')
    if not good:
        ctx.true(not ok, 'no valid estimate raises ValueError')
        ctx.reach('nan resample')
        return
    ctx.true(ok, 'valid estimates give a value')
    if len(good) == 1:
        ctx.true(isnan(r), 'one estimate has no standard deviation')
        return
    ctx.out('std', r)
    ctx.eq(r, sample_std(ctx, good), 'sample standard deviation')
    ctx.reach('resamples')


def bootstrap(ctx, est, n, conf, times, weighted, beta=True,
              up=False, fixed=None, dmc0=False):
    """std of b-more-positive: spread over resampled catalogs"""
    B()
    g = Mags(ctx, n, conf)
    w = ctx.reals('w', n, '1/16', 8) if weighted else None
    T = Times(ctx, n, times)
    if fixed is not None:
        # magnitudes in time order
        for i, o in enumerate(T.order):
            g.m[o] = ctx.const(fixed[i])
    real = np.random.Generator(np.random.PCG64(11))
    # few distinct resamples: they are drawn from a short list
    opts = [tuple(real.integers(0, n, n)) for _ in range(3)] + \
        [tuple(range(n))]
    rng = Rng(lambda i, hi, size: opts[i % 4] if hi == n
              else tuple(real.integers(0, hi, size)))
    _patch_rng(ctx, rng, [])
    kw = dict(dmc=ctx.f(g.delta)) if conf != 'cont' else dict(
        dmc=ctx.f(ctx.const('0.25')))
    if dmc0:
        kw = dict(dmc=ctx.f(ctx.const('0')))
    if up:
        ctx.assume_le(g.m[0], g.m[2])
        ctx.assume_lt(g.m[0], g.m[1])
    call = dict(weights=None if w is None else ctx.array(w), **kw)
    for i in range(n):
        ctx.assume(bool(g.m[i] >= g.mc - g.delta / 2))
    _fewer(ctx)
    e = B()[est]()
    e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                times=None if T.t is None else ctx.array(T.t), **call)
    try:
        s = e.std
        ok = True
    except ValueError:
        ok = False
    cache = {}
    vals = []
    for d in rng.log:
        k = tuple(sorted(d))
        if k not in cache:
            ix = [T.order[i] for i in k]
            e2 = B()[est]()
            kk = dict(kw)
            kk['weights'] = None if w is None else ctx.array(
                [w[i] for i in ix])
            cache[k] = e2.calculate(ctx.array([g.m[i] for i in ix]),
                                    ctx.f(g.mc), ctx.f(g.delta), **kk)
        v = cache[k]
        if not isnan(v) and not _inf(v):
            vals.append(v)
    ctx.true(len(rng.log) >= 2, 'resamples are drawn')
    if not vals:
        ctx.true(not ok, 'no valid resample raises ValueError')
        return
    ctx.true(ok, 'std available')
    ref = sample_std(ctx, vals)
    ctx.out('std', s)
    ctx.eq(s, ref, 'std over time-ordered resamples of the events')
    if beta:
        ctx.eq(e.std_beta, ref * ctx.const(LN10D), 'std_beta')
    ctx.reach('bootstrap')


def jobs(tier):
    q = tier == 'quick'
    out = [('invalid_par', {}), ('conversion', {})]
    out += [('unset', dict(est=est)) for est in ('b', 'utsu', 'bpos', 'bmore')]
    for par in ('b_value', 'beta'):
        for w in (False, True):
            for n in (2, 3, 4) if q else (2, 3, 4, 5):
                out.append(('shi_bolt', dict(n=n, weighted=w, par=par)))
    for est in ('b', 'utsu'):
        for conf in ('dec', 'cont'):
            for w in (False, True):
                out.append(('attributes', dict(
                    est=est, n=2 if q and w else 3, conf=conf,
                    weighted=w)))
        for conf in ('dec', 'dy', 'cont'):
            out.append(('attributes', dict(est=est, n=40, conf=conf,
                                           weighted=False, free=(12,))))
    for conf in ('dec', 'dy', 'cont'):
        out.append(('positive', dict(n=40, conf=conf, weighted=False,
                                     times='long', free=(12,))))
    for n, k in ((2, 2), (2, 3), (3, 2)) if q else (
            (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)):
        for bad in (None, 'nan', 'inf', '-inf'):
            if bad is None or not q or n == k == 2 or (
                    bad == {(2, 3): '-inf', (3, 2): 'nan'}[n, k]):
                out.append(('resamples', dict(n=n, k=k, bad=bad)))
    for conf in ('dy', 'dec', 'cont'):
        for w in (False, True):
            out.append(('positive', dict(n=3, conf=conf, weighted=w)))
            if not q or conf == 'cont':
                out.append(('positive', dict(n=3, conf=conf, weighted=w,
                                             times='perm')))
            if not q:
                out.append(('positive', dict(n=4, conf=conf, weighted=w)))
    for conf, n, times, w, beta in (
            ('cont', 2, None, True, True), ('cont', 2, 'perm', True, False),
            ('cont', 2, None, False, True), ('dy', 2, None, False, False),
            ('dy', 2, 'perm', False, False), ('cont', 3, None, False, False)
            ) if q else [(c, n, t, w, True) for c in ('dy', 'cont')
                         for n in (2, 3) for t in (None, 'perm')
                         for w in (False, True) if n == 2 or not t]:
        out.insert(0, ('bootstrap', dict(
            est='bmore', n=n, conf=conf, times=times, weighted=w, beta=beta,
            up=q and n > 2)))
    for times in (None, 'perm'):
        out.insert(0, ('bootstrap', dict(
            est='bmore', n=3, conf='cont', times=times, weighted=True,
            fixed=('1', '1.5', '3'))))
    for conf, fixed in (('dy', ('1', '1', '1.5')), ('dy', None),
                        ('cont', None)):
        out.insert(0, ('bootstrap', dict(
            est='bmore', n=2 + bool(fixed), conf=conf, times=None,
            weighted=False, fixed=fixed, dmc0=True)))
    return out
