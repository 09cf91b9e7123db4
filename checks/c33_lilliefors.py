"""C33  Lilliefors test of the exponential law; local to moment magnitudes"""
from fractions import Fraction as F

from checks.common import B, increasing

PROP = 'C33'
WITNESS = ['continuous', 'below mc', 'estimator continuous',
           'positive', 'not estimated', 'repetitions', 'converted',
           'unchanged', 'twice', 'catalog', 'option']
ASSUMPTIONS = [
    'the p-value of a sample (statsmodels) and the random draws are '
    'stand-ins with arbitrary results',
    'no magnitude within 1e-9 of the threshold',
    'dithering is a stand-in with arbitrary values in the bins (the real one '
    'is decided in C16)',
]
BOUNDS = dict(
    quick='2-3 events of arbitrary magnitude and any mc; bins of 0.5 '
          'or continuous; 1 and 3 repetitions; every '
          'magnitude and 12 names of magnitude types',
    thorough='up to 4 events')
BUDGET = dict(quick=90, thorough=900)
OUTSIDE = 'the table of p-values in statsmodels; quality of random numbers'


class Table:
    """stand-in for statsmodels' lilliefors"""

    def __init__(self, ctx):
        import statsmodels.stats.diagnostic as diag
        import seismostats.analysis.lilliefors  # noqa
        self.ctx, self.calls, self.p = ctx, [], []
        for k in ('lilliefors', 'kstest_exponential'):
            if hasattr(diag, k):
                ctx.replace(diag, k, self)

    def __call__(self, x, dist='norm', pvalmethod='table'):
        self.calls.append((list(x), dist, pvalmethod))
        self.p.append(self.ctx.real(f'p{len(self.p)}', 0, 1))
        return self.ctx.f(self.ctx.const('0.125')), self.ctx.f(self.p[-1])


def sample(ctx, n):
    """ks_test_gr_lilliefors: excess over mc against the exponential law"""
    from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
    m = ctx.reals('m', n, -2, 9)
    mc = ctx.real('mc', -2, 9)
    t = Table(ctx)
    for y in m:
        ctx.assume(abs(y - mc) > ctx.const('0.000000001')
                   if not bool(y == mc) else True)
    call = lambda: ks_test_gr_lilliefors(ctx.array(m), ctx.f(mc))  # noqa
    if any(bool(y < mc) for y in m):
        ctx.raises(ValueError, call, 'magnitudes below mc')
        ctx.reach('below mc')
        return
    p = call()
    ctx.true(len(t.calls) == 1 and t.calls[0][1] == 'exp',
             'test of the exponential law')
    ctx.eqs(t.calls[0][0], [y - mc for y in m], 'excess over mc')
    ctx.eq(p, t.p[0], 'p-value')
    ctx.reach('continuous')


def _estimate(ctx, method, m, mc, delta, times=None, dmc=None):
    e = B()[method]()
    kw = {}
    if times is not None:
        kw['times'] = ctx.array(times)
    if dmc is not None:
        kw['dmc'] = ctx.f(dmc)
    b = e.calculate(ctx.array(m), ctx.f(mc), ctx.f(delta), **kw)
    return e, b


def continuous(ctx, method, n):
    """estimators of continuous magnitudes test them as they are"""
    m = ctx.reals('m', n, 0, 9)
    mc = ctx.real('mc', 0, 5)
    for y in m:
        ctx.assume_ne(y, mc)
    times = dmc = None
    if method in ('bpos', 'bmore'):
        times = increasing(ctx, n)
        dmc = ctx.real('dmc', '1/8', 3)
        for i in range(n):
            for j in range(i):
                ctx.assume_ne(m[i] - m[j], dmc)
    t = Table(ctx)
    keep = [y for y in m if bool(y > mc)]
    ctx.assume(len(keep) > 1)
    if dmc is not None:
        if method == 'bmore':
            diffs = []
            for i in range(len(keep)):
                for j in range(i + 1, len(keep)):
                    if bool(keep[j] - keep[i] > dmc):
                        diffs.append(keep[j] - keep[i])
                        break
        else:
            diffs = [y - x for x, y in zip(keep, keep[1:])
                     if bool(y - x > dmc)]
        ctx.assume(len(diffs) > 0)
        want = [d - dmc for d in diffs]
    else:
        want = [y - mc for y in keep]
    e, b = _estimate(ctx, method, m, mc, ctx.const('0'), times, dmc)
    p = e.p_lilliefors(n=3)
    ctx.true(len(t.calls) == 1, 'one test without dithering')
    got = t.calls[0][0]
    ctx.true(len(got) == len(want), 'the magnitudes used')
    if len(got) == len(want):
        _multiset(ctx, got, want)
    ctx.eq(p, t.p[0], 'p-value')
    ctx.reach('positive' if dmc is not None else 'estimator continuous')


def _multiset(ctx, got, want):
    """same values in any order"""
    got = list(got)
    for w in want:
        for i, g in enumerate(got):
            if bool(g == w):
                got.pop(i)
                break
        else:
            ctx.true(False, 'excess over the threshold')
            return


def mean_p(ctx, reps, method, n=3):
    """what is dithered and tested, with the dithering as a stand-in"""
    import seismostats.analysis.bvalue.base  # noqa
    import seismostats.utils.simulate_distributions as sim
    t = Table(ctx)
    d = ctx.const('0.5')
    k = ctx.ints('k', n, -4, 18)
    kc = ctx.int('kmc', -4, 18)
    m, mc = [x * d for x in k], kc * d
    pos = method in ('bpos', 'bmore')
    times = increasing(ctx, n) if pos else None
    keep = [x for x in k if bool(x >= kc)]
    ctx.assume(len(keep) > 1)
    if method == 'bmore':
        keep = [next((b for b in keep[i + 1:] if bool(b > a)), a) - a
                for i, a in enumerate(keep)]
        keep = [x for x in keep if not bool(x == 0)]
    elif pos:
        keep = [b - a for a, b in zip(keep, keep[1:]) if bool(b > a)]
    ctx.assume(len(keep) > 0)
    base = d if pos else mc
    calls, res = [], []

    def dither(magnitudes, delta_m, b_value):
        calls.append((list(magnitudes), delta_m, b_value))
        out = []
        for i in range(len(calls[-1][0])):
            f = ctx.real(f'f{len(res)}_{i}', 0, F(9, 10))
            out.append(base - d / 2 + f)
        res.append(out)
        return ctx.array(out)
    ctx.replace(sim, 'dither_magnitudes', dither)
    e, b = _estimate(ctx, method, m, mc, d, times)
    p = e.p_lilliefors(n=reps)
    ctx.true(len(calls) == reps == len(t.calls), 'repeated n times')
    for (mags, delta, bb), out, (x, dist, _) in zip(calls, res, t.calls):
        ctx.true(len(mags) == len(keep), 'the magnitudes used')
        if len(mags) == len(keep):
            _multiset(ctx, mags, [y * d for y in keep])
        ctx.eq(delta, d, 'bin size')
        ctx.eq(bb, b, 'b-value of the sample')
        ctx.eqs(x, [y - (base - d / 2) for y in out],
                'excess over the lower edge of the first bin')
    tot = ctx.const('0')
    for q in t.p:
        tot = tot + q
    ctx.eq(p, tot / reps, 'mean p-value')
    ctx.reach('repetitions')
    if pos:
        ctx.reach('positive')


def not_estimated(ctx):
    for cls in B().values():
        ctx.raises(AttributeError, lambda: cls().p_lilliefors(),
                   'before calculate')
    ctx.reach('not estimated')


LOCAL = ('ML', 'Ml', 'ml', 'mL', 'MLh', 'MLhc', 'MLv', 'M_L', 'M_l', 'L')
MOMENT = ('Mw', 'MW', 'mw', 'Mwc', 'MwB', 'M_w', 'MiMw')


def edwards(ctx):
    from seismostats.analysis import apply_edwards
    m = ctx.real('m', -3, 10)
    typ = ctx.pick('type', LOCAL + MOMENT)
    out = apply_edwards(typ, ctx.f(m))
    ctx.true(len(out) == 2, 'type and value')
    if typ in LOCAL:
        want = ctx.const('1.02') + ctx.const('0.472') * m \
            + ctx.const('0.0491') * m * m
        ctx.true(out[0] == 'Mw_converted', 'marked as converted')
        ctx.eq(out[1], want, 'Edwards et al. (2010)')
        again = apply_edwards(out[0], out[1])
        ctx.true(again[0] == 'Mw_converted', 'converted once only')
        ctx.eq(again[1], want, 'converted once only')
        ctx.reach('converted')
        ctx.reach('twice')
    else:
        ctx.true(out[0] == typ, 'type unchanged')
        ctx.eq(out[1], m, 'moment magnitudes unchanged')
        ctx.reach('unchanged')


def edwards_catalog(ctx):
    """the documented use on a catalog"""
    from seismostats import Catalog
    from seismostats.analysis import apply_edwards
    m = ctx.reals('m', 2, -3, 10)
    typ = [ctx.pick('t0', ('MLh', 'Mw')), ctx.pick('t1', ('ml', 'MW'))]
    cat = Catalog({'magnitude': ctx.array(m), 'mag_type': typ})
    got = cat.apply(lambda x: apply_edwards(x['mag_type'], x['magnitude']),
                    axis=1)
    for i in range(2):
        loc = 'l' in typ[i].lower()
        want = m[i] if not loc else ctx.const('1.02') + ctx.const(
            '0.472') * m[i] + ctx.const('0.0491') * m[i] * m[i]
        ctx.true(got.iloc[i, 0] == ('Mw_converted' if loc else typ[i]),
                 'type of the event')
        ctx.eq(got.iloc[i, 1], want, 'magnitude of the event')
    ctx.reach('catalog')


def option(ctx):
    from seismostats.utils import get_option, set_option
    val = ctx.flag('value')
    key = ctx.pick('key', ('warning', 'Warnings', '', 'verbose'))
    try:
        set_option('warnings', val)
        ctx.true(get_option('warnings') is val, 'value set')
        ctx.raises(KeyError, lambda: set_option(key, not val), 'unknown key')
        ctx.raises(KeyError, lambda: get_option(key), 'unknown key')
        ctx.true(get_option('warnings') is val, 'value kept')
    finally:
        set_option('warnings', True)
    ctx.reach('option')


def jobs(tier):
    q = tier == 'quick'
    out = [('not_estimated', {}), ('edwards', {}), ('edwards_catalog', {}),
           ('option', {}), ('sample', dict(n=2 if q else 4)),
           ('sample', dict(n=3))]
    for method in ('b', 'utsu', 'bpos', 'bmore'):
        out.append(('continuous', dict(method=method, n=3 if q else 4)))
        pos = method in ('bpos', 'bmore')
        out.append(('mean_p', dict(reps=1, method=method)))
        out.append(('mean_p', dict(reps=3, method=method,
                                   n=3 if pos or not q else 2)))
    return out
