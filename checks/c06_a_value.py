"""C06  a-values: classic count, reference magnitude and scaling"""
from checks.common import A, Mags, Times, dmc_value, increasing, isnan, \
    log10

PROP = 'C06'
WITNESS = ['plain', 'm_ref', 'scaled', 'missing b', 'empty', 'positive']
ASSUMPTIONS = [
    'exact arithmetic: float rounding is outside the claim',
    'event times pairwise distinct; scaling factor > 0',
]
BOUNDS = dict(
    quick='catalogs of 1-3 events, magnitudes in [-2, 9] on 0.1/0.25 grids '
          'or continuous, any mc there, m_ref in [-5, 10], b in [1/4, 3], '
          'scaling factor in [1e-9, 1e9], each given or not; catalogs of 150 '
          'events of which 2 have any magnitude, the others a given one',
    thorough='catalogs of 1-5 events (positive estimators 1-4)')
OUTSIDE = 'longer catalogs with several free magnitudes; float rounding'


def _opts(ctx, need_b):
    kw, b, mref, sf = {}, None, None, None
    if ctx.flag('with m_ref'):
        mref = ctx.real('mref', -5, 10)
        kw['m_ref'] = ctx.f(mref)
    if need_b or ctx.flag('with b'):
        b = ctx.real('b', '1/4', 3)
        kw['b_value'] = ctx.f(b)
    if ctx.flag('with scaling'):
        sf = ctx.real('sf', '1/1000000000', 10**9)
        kw['scaling_factor'] = ctx.f(sf)
    return kw, b, mref, sf


def classic(ctx, n, conf, free=None):
    g = Mags(ctx, n, conf, free=free)
    kw, b, mref, sf = _opts(ctx, False)
    e = A()['a']()
    cnt = len([x for x in g.m if bool(x >= g.mc - g.delta / 2)])
    run = lambda: e.calculate(ctx.array(g.m), ctx.f(g.mc),  # noqa
                              ctx.f(g.delta), **kw)
    if cnt and mref is not None and b is None:
        ctx.raises(ValueError, run, 'm_ref without b_value')
        ctx.reach('missing b')
        return
    v = run()
    ctx.out('a', v)
    if not cnt:
        ctx.true(isnan(v), 'no complete event: NaN')
        ctx.true(isnan(e.a_value), 'stored value is NaN')
        ctx.reach('empty')
        return
    ref = log10(ctx, cnt)
    if mref is not None:
        ref = ref - b * (mref - g.mc)
        ctx.reach('m_ref')
    if sf is not None:
        ref = ref - log10(ctx, sf)
        ctx.reach('scaled')
    ctx.eq(v, ref, 'log10 N - b (m_ref - mc) - log10 scaling')
    ctx.eq(e.a_value, ref, 'stored a-value')
    ctx.eq(e.value, ref, 'stored value')
    ctx.true(e.n == cnt, 'n counts the complete events')
    ctx.reach('plain')


def positive(ctx, est, n, conf):
    """m_ref and scaling act the same way on the positive estimators"""
    g = Mags(ctx, n, conf)
    t = increasing(ctx, n)
    d = dmc_value(ctx, conf)
    kw, b, mref, sf = _opts(ctx, True)
    base = dict(times=ctx.array(t), dmc=ctx.f(d))
    e = A()[est]()
    v = e.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), **base,
                    **kw)
    ctx.out('a', v)
    e0 = A()[est]()
    v0 = e0.calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), **base,
                      b_value=ctx.f(b))
    if isnan(v0):
        ctx.true(isnan(v), 'NaN stays NaN')
        return
    ref = v0
    if mref is not None:
        ref = ref - b * (mref - g.mc)
    if sf is not None:
        ref = ref - log10(ctx, sf)
    ctx.eq(v, ref, 'reference magnitude and scaling')
    ctx.eq(e.a_value, ref, 'stored a-value')
    ctx.reach('positive')


def no_b(ctx, est):
    """a-more-positive needs a b-value; a-positive needs it for m_ref"""
    g = Mags(ctx, 2, 'dec')
    t = increasing(ctx, 2)
    mref = ctx.real('mref', -5, 10)
    kw = dict(b_value=None)
    if est == 'apos':
        ctx.assume(bool(g.m[0] >= g.mc))
        ctx.assume(bool(g.m[1] > g.m[0]))
        kw['m_ref'] = ctx.f(mref)
    ctx.raises(ValueError, lambda: A()[est]().calculate(
        ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), times=ctx.array(t),
        **kw), 'b_value missing')


def unset(ctx, est):
    for att in ('a_value', 'value', 'n'):
        ctx.raises(AttributeError, lambda: getattr(A()[est](), att),
                   f'{att} before an estimate')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for conf in ('dec', 'dy', 'cont', 'cent'):
        for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            if q and n == 3 and conf == 'cent':
                continue
            out.append(('classic', dict(n=n, conf=conf)))
        if conf != 'cent':
            out.append(('classic', dict(n=150, conf=conf,
                                        free=(70, 90))))
    for est in ('apos', 'amore'):
        for conf in ('dec', 'dy', 'cont'):
            for n in (2, 3) if q else (2, 3, 4):
                if q and n == 3 and conf != 'cont':
                    continue
                out.append(('positive', dict(est=est, n=n, conf=conf)))
        out.append(('no_b', dict(est=est)))
    for est in ('a', 'apos', 'amore'):
        out.append(('unset', dict(est=est)))
    out.sort(key=lambda j: -j[1].get('n', 0))
    return out
