"""C15  completeness by the Kolmogorov-Smirnov test"""
import contextlib
import io
import warnings
from fractions import Fraction as F

from checks.common import Draws, LN10D, exp, set_warnings

PROP = 'C15'
WITNESS = ['p-value', 'weights', 'empty sample', 'one value',
           'simulated', 'passed', 'not passed', 'stopped', 'given mcs',
           'known b', 'catalog', 'stored b', 'not binned']
ASSUMPTIONS = [
    'given KS distances at least 1e-9 from that of the sample; b-values 1/2, 1 and 2; simulated samples are an arbitrary stand-in for '
    'numpy.random.exponential',
]
BOUNDS = dict(
    quick='ks_test_gr: 2-3 arbitrary binned magnitudes in 4 bins, 2-3 given '
          'KS distances, bins 0.1, 0.5, 1, any mc on the grid, optional '
          'weights; 1-2 simulated samples of 2 (b 1/2, 1, 2); estimate_mc_ks: 5-7 '
          'magnitudes with floats as they are, mcs generated or given, '
          'arbitrary KS distances and b-values from a list; warnings on and '
          'off',
    thorough='4 magnitudes, 4 KS distances')
BUDGET = dict(quick=200, thorough=3000)
OUTSIDE = 'the Monte-Carlo error of the p-value; larger samples'


def _cdf(ctx, b, j, delta):
    """GR probability to lie in the first j bins above mc"""
    return 1 - exp(ctx, -(b * ctx.const(LN10D)) * (j * delta))


def _distance(ctx, j, w, b, delta, top):
    """largest distance between the sample in bins j and the GR law"""
    tot = 0
    for x in w:
        tot = tot + x
    best = None
    for i in range(top + 1):
        emp = 0
        for jj, ww in zip(j, w):
            if bool(jj <= i):
                emp = emp + ww
        d = abs(emp / tot - _cdf(ctx, b, i + 1, delta))
        best = d if best is None or bool(d > best) else best
    return best


def _call(warn, fn):
    with warnings.catch_warnings(record=True) as w, \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('always')
        set_warnings(warn)
        try:
            r = fn()
        finally:
            set_warnings(True)
    return r, [str(x.message) for x in w]


def p_value(ctx, d, b, n, nd, weights=False, warn=True):
    from seismostats.analysis.estimate_mc import ks_test_gr
    delta = ctx.const(d)
    bb = ctx.const(b)
    kmc = ctx.int('kmc', -20, 20)
    mc = kmc * delta
    j = ctx.ints('j', n, 0, 3)
    x = [(kmc + jj) * delta for jj in j]
    ds = ctx.reals('ds', nd, 0, 1)
    kw = {}
    w = [ctx.const(1)] * n
    if weights:
        w = ctx.reals('w', n, '1/8', 4)
        kw['weights'] = ctx.array(w)
    (p, dist, out), msg = _call(warn, lambda: ks_test_gr(
        ctx.array(x), ctx.f(mc), ctx.f(delta), ctx.f(bb),
        ks_ds=ctx.array(ds), **kw))
    if not warn:
        ctx.true(not msg, 'no warnings with the option off')
    if all(bool(jj == j[0]) for jj in j):
        ctx.true(p == 0 and dist == 1 and len(out) == 0,
                 'one value only: p=0, D=1')
        ctx.reach('one value')
        if warn:
            ctx.true(len(msg) == 1, 'warning about one value')
        return
    top = 0
    for jj in j:
        while bool(jj > top):
            top += 1
    want = _distance(ctx, j, w, bb, delta, top)
    ctx.out('d', dist)
    ctx.eq(dist, want, 'KS distance')
    cnt = sum(bool(y >= dist) for y in ds)
    ctx.eq(p, ctx.const(F(cnt, nd)), 'share of distances at least as large')
    ctx.eqs(list(out), ds, 'KS distances returned')
    ctx.reach('p-value')
    if weights:
        ctx.reach('weights')


def degenerate(ctx, warn):
    import numpy as np
    from seismostats.analysis.estimate_mc import ks_test_gr
    ds = [0.1, 0.2]
    for kw in ({}, dict(ks_ds=ds)):
        r, msg = _call(warn, lambda: ks_test_gr(
            np.array([]), 1., 0.1, 1., n=1, **kw))
        ctx.true(tuple(r) == (0, 1, []), 'empty sample: p=0, D=1')
        ctx.true(len(msg) == (1 if warn else 0), 'warning follows the option')
    ctx.reach('empty sample')


def simulated(ctx, n, nsim, b):
    """without given distances: those of samples from the GR law"""
    from seismostats.analysis.estimate_mc import ks_test_gr
    delta, bb = ctx.const('1'), ctx.const(b)
    kmc = ctx.int('kmc', 0, 3)
    mc = kmc * delta
    j = ctx.ints('j', n, 0, 2)
    ctx.assume(not all(bool(jj == j[0]) for jj in j))
    x = [(kmc + jj) * delta for jj in j]
    sim = [ctx.reals(f'e{i}', n, 0, '5/2' if F(b) >= 1 else '13/2') for i in range(nsim)]
    # excess over the lower edge of the lowest bin
    draws = Draws(ctx, [e * bb * ctx.const(LN10D) for s in sim for e in s])
    (p, dist, out), _ = _call(True, lambda: ks_test_gr(
        ctx.array(x), ctx.f(mc), ctx.f(delta), ctx.f(bb), n=nsim))
    ctx.true(len(draws.e) == n * nsim and not draws.u,
             'as many and as large samples as asked for')
    one = [ctx.const(1)] * n
    ctx.true(len(out) == nsim, 'one distance per sample')
    # number of bins that hold the largest relevant magnitude
    top = 0
    while 10**(float(F(b)) * top) <= n * nsim * 1e3:
        top += 1
    want = _distance(ctx, j, one, bb, delta, top)
    ctx.eq(dist, want, 'KS distance')
    cnt = 0
    for s, o in zip(sim, out):
        js = []
        for e in s:
            # mc - delta/2 + e in bin i
            i = 0
            while bool(e >= i + 1):
                i += 1
            ctx.assume(bool(e <= i + 1 - F(1, 10**6)))
            js.append(ctx.const(i))
        ds = _distance(ctx, js, one, bb, delta, top)
        ctx.eq(o, ds, 'KS distance of the simulated sample')
        cnt += bool(o >= dist)
    ctx.eq(p, ctx.const(F(cnt, nsim)), 'p-value')
    ctx.reach('simulated')


class Stub:
    """b-value estimator with b-values from a list"""

    def __init__(self, ctx, d, bs):
        self.ctx, self.d, self.bs = ctx, F(d), bs
        self.seen = []

    def __call__(self):
        return self

    def calculate(self, magnitudes, mc, delta_m, **kw):
        k = round(float(mc) / float(self.d))
        self.ctx.true(abs(float(mc) - float(k * self.d)) < 1e-9,
                      'mcs on the grid')
        self.ctx.true(kw == {'foo': 7}, 'keyword arguments passed on')
        self.ctx.true(float(delta_m) == float(self.d), 'bin size passed on')
        self.seen.append((k, [float(m) for m in magnitudes]))
        self.value = self.b_value = self.bs[k % len(self.bs)]
        return self.b_value


def estimate(ctx, d, base, pos, nd, stop, b=None, given=None, catalog=None,
             warn=True, few=False):
    import numpy as np
    pos = [base + i for i in pos]
    arg = np.array([float(p * F(d)) for p in pos])
    delta = ctx.const(d)
    bs = (1.0, 0.5, 2.0)
    stub = Stub(ctx, d, bs)
    kmin, kmax = min(pos), max(pos)
    if given is None:
        tested = list(range(kmin, kmax))
    else:
        tested = sorted({base + g for g in given})
        ctx.reach('given mcs')
    if few:
        # every number of distances above that of the sample
        dd = [[ctx.const(1 if q < k else 0) for q in range(nd)] for k in (
            ctx.pick(f'ds{i}', tuple(range(nd + 1))[i % 2::2])
            for i in range(len(tested)))]
    else:
        dd = [ctx.reals(f'ds{i}', nd, 0, 1) for i in range(len(tested))]
    p_pass = ctx.real('p', '1/100', '99/100')
    kw = dict(stop_when_passed=stop, p_value_pass=ctx.f(p_pass),
              b_method=stub, ks_ds_list=[ctx.array(x) for x in dd])
    if given is not None:
        kw['mcs_test'] = [float((base + g) * F(d)) for g in given]
    if b is not None and catalog != 'stored b':
        kw['b_value'] = b
        ctx.reach('known b')
    if b is None:
        kw['foo'] = 7
    if catalog:
        from seismostats import Catalog
        cat = Catalog(dict(magnitude=arg), mc=7.,
                      delta_m=float(d) if catalog != 'arg' else None,
                      b_value=b if catalog == 'stored b' else None)
        if catalog == 'arg':
            kw['delta_m'] = float(d)
        fn = lambda: cat.estimate_mc_ks(**kw)  # noqa
        ctx.reach(catalog if catalog == 'stored b' else 'catalog')
    else:
        from seismostats.analysis import estimate_mc_ks
        fn = lambda: estimate_mc_ks(arg, float(d), **kw)  # noqa
    (mc, info), msg = _call(warn, fn)
    if not warn:
        ctx.true(not msg, 'no warnings with the option off')
    ps, D, best, used = [], [], None, []
    for i, k in enumerate(tested):
        sel = [p - k for p in pos if p >= k]
        bv = b if b is not None else bs[k % 3]
        if len(set(sel)) == 1:
            p, dist = ctx.const(0), ctx.const(1)
        else:
            one = [ctx.const(1)] * len(sel)
            dist = _distance(ctx, [ctx.const(s) for s in sel], one,
                             ctx.const(str(bv)), delta, max(sel))
            for y in dd[i]:
                ctx.assume(bool(y > dist + F(1, 10**9))
                           or bool(y < dist - F(1, 10**9)))
            p = ctx.const(F(sum(bool(y >= dist) for y in dd[i]), nd))
        ps.append(p)
        D.append(dist)
        used.append(bv)
        if bool(p >= p_pass):
            if best is None:
                best = i
            if stop:
                ctx.reach('stopped')
                break
    m = len(ps)
    ctx.true(len(info['p_values']) == m and len(info['ks_ds']) == m
             and len(info['b_values_tested']) == m, 'number of tested mcs')
    ctx.eqs(info['ks_ds'], D, 'KS distances')
    ctx.eqs(info['p_values'], ps, 'p-values')
    ctx.eqs(info['mcs_tested'], [ctx.const(k * F(d)) for k in tested[:m]],
            'mcs tested')
    ctx.eqs(info['b_values_tested'], [ctx.const(str(u)) for u in used],
            'b-values tested')
    if b is None:
        ctx.true([s[0] for s in stub.seen] == tested[:m] and all(
            s == [float(p * F(d)) for p in pos if p >= k]
            for k, s in stub.seen), 'b-value of the complete sample')
    if best is None:
        ctx.true(mc is None and info['best_b_value'] is None,
                 'no mc when none passes')
        ctx.reach('not passed')
    else:
        ctx.true(mc is not None, 'an mc when one passes')
        ctx.eq(mc, ctx.const(tested[best] * F(d)), 'smallest mc that passes')
        ctx.eq(info['best_b_value'], ctx.const(str(used[best])),
               'b-value of the best mc')
        ctx.reach('passed')
    if catalog:
        ctx.true(cat.mc is None if mc is None else bool(cat.mc == mc),
                 'mc attribute')


def not_binned(ctx):
    from seismostats.analysis import estimate_mc_ks
    from seismostats import Catalog
    f = ctx.real('f', '1/100', '9/100')
    y = ctx.array([ctx.const('1'), ctx.const('1.5'), ctx.const(2) + f])
    ctx.raises(ValueError, lambda: estimate_mc_ks(y, 0.1), 'not binned')
    ctx.raises(ValueError, lambda: Catalog(
        dict(magnitude=[1., 2.])).estimate_mc_ks(), 'no bin size')
    ctx.reach('not binned')


def jobs(tier):
    q = tier == 'quick'
    out = [('not_binned', {}), ('degenerate', dict(warn=True)),
           ('degenerate', dict(warn=False))]
    for d, b in (('0.1', '1'), ('0.5', '2'), ('1', '1/2')):
        out.append(('p_value', dict(d=d, b=b, n=2, nd=3)))
        out.append(('p_value', dict(d=d, b=b, n=3 if q else 4, nd=1)))
        out.append(('p_value', dict(d=d, b=b, n=2, nd=2, warn=False)))
    out.append(('p_value', dict(d='0.1', b='1', n=2, nd=2, weights=True)))
    for nsim in (1, 2):
        out.append(('simulated', dict(n=2, nsim=nsim, b='1')))
    for b in ('1/2', '2'):
        out.append(('simulated', dict(n=2, nsim=1, b=b)))
    bases = (-3, 0, 6, 10, 17) if q else range(-10, 40)
    for base in bases:
        for stop in (True, False):
            out.append(('estimate', dict(d='0.1', base=base,
                                         pos=(0, 3, 1, 0, 2), nd=2,
                                         stop=stop)))
        out.append(('estimate', dict(d='0.1', base=base, pos=(0, 3, 1, 0, 2),
                                     nd=2, stop=True, b=1.)))
        out.append(('estimate', dict(d='0.1', base=base, pos=(0, 3, 1, 3, 1),
                                     nd=2, stop=False, given=(2, 0, 2, 3))))
    out.append(('estimate', dict(d='0.1', base=8, pos=(0, 5, 1, 2, 4, 3, 0),
                                 nd=4, stop=False, b=1., few=True)))
    for base in (0, 6):
        for cat in ('attr', 'arg', 'stored b'):
            out.append(('estimate', dict(
                d='0.2', base=base, pos=(0, 3, 1, 0, 2), nd=1, stop=True,
                catalog=cat, b=2. if cat == 'stored b' else None)))
        out.append(('estimate', dict(d='0.1', base=base, pos=(0, 3, 3, 3, 3),
                                     nd=2, stop=True, warn=False)))
    return out
