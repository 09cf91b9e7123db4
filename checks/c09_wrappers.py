"""C09  estimate_a/estimate_b and the Catalog methods give the estimators'
results"""
import datetime
import itertools

from checks.common import A, B, LN10D, Mags, Times, dmc_value, increasing, \
    isnan

PROP = 'C09'
WITNESS = ['estimate_b', 'estimate_a', 'catalog b', 'catalog a', 'defaults',
           'weight column', 'missing mc', 'missing delta_m', 'overrides',
           'times given', 'weights given', 'NaN weight']
ASSUMPTIONS = [
    'exact arithmetic: float rounding is outside the claim',
    'event times pairwise distinct; weights > 0',
    'catalog times are a fixed set of dates in every order, mc and delta_m '
    'are not None where required',
]
BOUNDS = dict(
    quick='2-3 events; every method; each argument given, taken from the '
          'catalog, or missing; shuffled index labels; every time order',
    thorough='2-4 events')
OUTSIDE = 'longer catalogs'


def functions(ctx, est, n, conf, full):
    g = Mags(ctx, n, conf)
    pos = est in ('bpos', 'bmore', 'apos', 'amore')
    kw, base = {}, {}
    if pos and (full or est[0] == 'a'):
        kw['times'] = ctx.array(increasing(ctx, n))
    if pos and full:
        kw['dmc'] = ctx.f(dmc_value(ctx, conf))
    args = (ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta))
    if est in A():
        from seismostats.analysis import estimate_a
        if full:
            base['scaling_factor'] = ctx.f(ctx.real('sf', '1/8', 100))
            base['m_ref'] = ctx.f(ctx.real('mref', -2, 9))
        if full or est == 'amore':
            base['b_value'] = ctx.f(ctx.real('b', '1/4', 3))
        cls = A()[est]
        e = cls()
        v = e.calculate(*args, **base, **kw)
        r = estimate_a(*args, method=cls, **base, **kw)
        ctx.out('a', r)
        ctx.eq(r, v, 'estimate_a')
        if est == 'a':
            ctx.eq(estimate_a(*args, **base), v, 'default method')
        ctx.reach('estimate_a')
        return
    from seismostats.analysis import estimate_b
    if full:
        base['weights'] = ctx.array(ctx.reals('w', n, '1/16', 8))
    cls = B()[est]
    e = cls()
    v = e.calculate(*args, **base, **kw)
    ctx.assume(isnan(v) or not _inf(v))
    std = est not in ('bmore',) and not isnan(v) and len(e.magnitudes) > 1
    call = lambda **k: estimate_b(*args, method=cls, **base, **kw, **k)  # noqa
    r = call()
    ctx.out('b', r)
    ctx.eq(r, v, 'estimate_b')
    beta = v * ctx.const(LN10D)
    ctx.eq(call(b_parameter='beta'), beta, 'beta')
    t = call(return_n=True)
    ctx.true(isinstance(t, tuple) and len(t) == 2, '(b, n)')
    ctx.eq(t[0], v, 'b of (b, n)')
    ctx.true(t[1] == e.n, 'n of (b, n)')
    if std:
        if full:
            # Shi and Bolt divide by the sum of weights - 1
            from checks.common import ssum
            ctx.assume_lt(1, ssum(list(e.weights)))
        s, sb = e.std, e.std_beta
        t = call(return_std=True)
        ctx.true(len(t) == 2, '(b, std)')
        ctx.eq(t[0], v, 'b of (b, std)')
        ctx.eq(t[1], s, 'std of (b, std)')
        t = call(return_std=True, return_n=True, b_parameter='beta')
        ctx.true(len(t) == 3, '(beta, std, n)')
        ctx.eq(t[0], beta, 'beta of three')
        ctx.eq(t[1], sb, 'std of three')
        ctx.true(t[2] == e.n, 'n of three')
    if est == 'b':
        ctx.eq(estimate_b(*args, **base), v, 'default method')
    ctx.raises(ValueError, lambda: call(b_parameter='b'),
               'unknown b_parameter')
    ctx.reach('estimate_b')


def _inf(x):
    from symex.npshim import isinf1
    return isinf1(x)


def _catalog(ctx, g, n, perm=None, wcol=None, tz=None, **attrs):
    from seismostats import Catalog
    d = {'magnitude': ctx.list(g.m)}
    secs = None
    if perm is not None:
        # all differences distinct, total a power of two
        secs = [(0, 1, 4, 16)[p] for p in perm]
        d['time'] = [datetime.datetime(2020, 1, 1)
                     + datetime.timedelta(seconds=s) for s in secs]
    if wcol is not None:
        d['weight'] = ctx.list(wcol)
    # row labels are not positions
    return Catalog(d, index=list(range(n + 3, 3, -1)), **attrs), secs


def _given(ctx, n, kw):
    """other times than those of the catalog are given, and win"""
    p = ctx.pick('given_perm', list(itertools.permutations(range(n)))[1::2])
    secs = [(0, 2, 7, 16)[i] for i in p]
    kw['times'] = ctx.array([ctx.const(str(s)) for s in secs])
    ctx.reach('times given')
    return secs


def catalog_b(ctx, est, n, conf, src, weights, times):
    """Catalog.estimate_b = the estimator on the catalog's columns"""
    g = Mags(ctx, n, conf)
    w = ctx.reals('w', n, '1/16', 8) if weights != 'none' else None
    if weights == 'column' and ctx.flag('no weight'):
        w[ctx.pick('no weight at', (0, n - 1))] = ctx.nan
        ctx.reach('NaN weight')
    perm = None
    if times:
        perm = ctx.pick('perm', list(itertools.permutations(range(n)))[
            :1 if times == 'given' else None])
    pos = est in ('bpos', 'bmore')
    attrs, kw = {}, {}
    other = ctx.real('other', -2, 9)
    if src == 'attr':
        attrs = dict(mc=ctx.f(g.mc), delta_m=ctx.f(g.delta))
        ctx.reach('defaults')
    elif src == 'args':
        kw = dict(mc=ctx.f(g.mc), delta_m=ctx.f(g.delta))
        # the arguments win over the attributes
        attrs = dict(mc=ctx.f(other), delta_m=ctx.f(ctx.const('0.5')),
                     b_value=ctx.f(other))
        ctx.reach('overrides')
    wcol = w if weights == 'column' else None
    if weights == 'both':
        # the argument wins over the column
        wcol = ctx.reals('w2_', n, '1/16', 8)
        ctx.reach('weights given')
    cat, secs = _catalog(ctx, g, n, perm, wcol, **attrs)
    if weights in ('argument', 'both'):
        kw['weights'] = ctx.list(w)
    if times == 'given' and pos:
        secs = _given(ctx, n, kw)
    d = None
    if pos and ctx.flag('dmc'):
        d = dmc_value(ctx, conf)
        kw['dmc'] = ctx.f(d)
    if src == 'none':
        which = ctx.pick('miss', ('mc', 'delta_m'))
        have = dict(mc=ctx.f(g.mc), delta_m=ctx.f(g.delta))
        del have[which]
        ctx.raises(ValueError, lambda: cat.estimate_b(
            method=B()[est], **have, **kw), f'{which} missing')
        ctx.reach(f'missing {which}')
        return
    e = cat.estimate_b(method=B()[est], **kw)
    ctx.true(isinstance(e, B()[est]), 'returns the estimator')
    ref = B()[est]()
    k2 = {} if d is None else dict(dmc=ctx.f(d))
    if pos and times:
        k2['times'] = ctx.array([ctx.const(str(s)) for s in secs])
    v = ref.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                      weights=None if w is None else ctx.array(w), **k2)
    ctx.out('b', e.b_value)
    ctx.eq(e.b_value, v, 'b-value of the catalog columns')
    ctx.eq(cat.b_value, v, 'b_value attribute is set')
    ctx.eqs(e.idx, ref.idx, 'idx')
    ctx.eqs(e.magnitudes, ref.magnitudes, 'magnitudes')
    if w is not None:
        ctx.eqs(e.weights, ref.weights, 'weights')
        if weights == 'column':
            ctx.reach('weight column')
    if src == 'attr':
        ctx.eq(cat.mc, g.mc, 'mc attribute kept')
    else:
        ctx.eq(cat.mc, other, 'mc attribute kept')
    ctx.eqs(list(cat['magnitude']), g.m, 'catalog unchanged')
    ctx.reach('catalog b')


def catalog_a(ctx, est, n, conf, src):
    g = Mags(ctx, n, conf)
    pos = est in ('apos', 'amore')
    given = pos and src == 'attr' and ctx.flag('given')
    perm = ctx.pick('perm', list(itertools.permutations(range(n)))[
        :1 if given else None]) if pos else None
    attrs, kw, k0 = {}, {}, {}
    other = ctx.real('other', -2, 9)
    if src == 'attr':
        attrs = dict(mc=ctx.f(g.mc), delta_m=ctx.f(g.delta))
    elif src == 'args':
        k0 = dict(mc=ctx.f(g.mc), delta_m=ctx.f(g.delta))
        attrs = dict(mc=ctx.f(other), delta_m=ctx.f(ctx.const('0.5')))
    # the b-value attribute of the catalog is not used
    attrs['b_value'] = ctx.f(other)
    cat, secs = _catalog(ctx, g, n, perm, **attrs)
    tkw = {}
    if given:
        secs = _given(ctx, n, tkw)
    full = ctx.flag('full')
    if full or est == 'amore':
        kw['b_value'] = ctx.f(ctx.real('b', '1/4', 3))
    if full:
        kw['m_ref'] = ctx.f(ctx.real('mref', -2, 9))
        kw['scaling_factor'] = ctx.f(ctx.real('sf', '1/8', 100))
        if pos:
            kw['dmc'] = ctx.f(dmc_value(ctx, conf))
    if src == 'none':
        which = ctx.pick('miss', ('mc', 'delta_m'))
        have = dict(mc=ctx.f(g.mc), delta_m=ctx.f(g.delta))
        del have[which]
        ctx.raises(ValueError, lambda: cat.estimate_a(
            method=A()[est], **have, **kw), f'{which} missing')
        ctx.reach(f'missing {which}')
        return
    if not full and (est == 'amore' or any(
            bool(x >= g.mc - g.delta / 2) for x in g.m)):
        ctx.raises(ValueError, lambda: cat.estimate_a(
            method=A()[est], **k0, **tkw, **(
                {} if est == 'amore' else dict(m_ref=ctx.f(g.mc)))),
            'no b-value given')
    e = cat.estimate_a(method=A()[est], **k0, **kw, **tkw)
    ctx.true(isinstance(e, A()[est]), 'returns the estimator')
    ref = A()[est]()
    if pos:
        kw['times'] = ctx.array([ctx.const(str(s)) for s in secs])
    v = ref.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), **kw)
    ctx.out('a', e.a_value)
    ctx.eq(e.a_value, v, 'a-value of the catalog columns')
    ctx.eq(cat.a_value, v, 'a_value attribute is set')
    ctx.eqs(e.idx, ref.idx, 'idx')
    ctx.eqs(e.magnitudes, ref.magnitudes, 'magnitudes')
    ctx.eqs(list(cat['magnitude']), g.m, 'catalog unchanged')
    ctx.reach('catalog a')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ('b', 'utsu', 'bpos', 'bmore', 'a', 'apos', 'amore'):
        for conf in ('dec', 'cont'):
            for full in (False, True):
                out.append(('functions', dict(
                    est=est, n=2 if q and (full or conf == 'dec') else 3,
                    conf=conf, full=full)))
            if est[0] == 'a':
                for src in ('attr', 'args', 'none'):
                    out.append(('catalog_a', dict(
                        est=est, n=2 if src == 'none' or q and conf == 'dec'
                        else 3, conf=conf, src=src)))
            else:
                for src, w, t in (('attr', 'column', True),
                                  ('args', 'argument', True),
                                  ('attr', 'none', False),
                                  ('args', 'none', True),
                                  ('attr', 'both', 'given'),
                                  ('none', 'none', False)):
                    out.append(('catalog_b', dict(
                        est=est, n=3 if src == 'args' and w == 'none' and
                        conf == 'cont' or not q else 2,
                        conf=conf, src=src, weights=w, times=t)))
    out.sort(key=lambda j: -j[1].get('n', 0))
    return out
