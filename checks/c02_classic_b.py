"""C02  classic and Utsu b-values equal their maximum-likelihood formula"""
from checks.common import B, LN10D, Mags, gr_mle, isnan, mean, div, pattern

PROP = 'C02'
WITNESS = ['estimate', 'none left', 'infinite', 'zero weight', 'weighted',
           'bad weights']
ASSUMPTIONS = [
    'exact arithmetic: decimal literals mean their decimal value, float '
    'rounding is outside the claim',
    'the weights of the events used do not sum to zero',
]
BOUNDS = dict(
    quick='catalogs of 0-3 events (4 unweighted), magnitudes in [-2, 9] on '
          '0.001/0.01/0.1/0.2/0.25 grids or continuous, mc on the grid, '
          'the half-bin grid (0.25 bins) or continuous, weights in [0, 8]; '
          'catalogs of 250 (30) events of which 1 (2, weighted) have any '
          'magnitude, the others a given one',
    thorough='catalogs of 0-5 events, same domains')
OUTSIDE = 'longer catalogs with several free magnitudes; float rounding of the averages and logarithms'


def formula(ctx, est, n, conf, weighted=False, as_list=False, free=None):
    g = Mags(ctx, n, conf, free=free)
    w = None
    if weighted and free is None:
        w = ctx.reals('w', n, 0, 8)
    elif weighted:
        w = [ctx.real(f'w{i}', 0, 8) if i in free else ctx.const(f'{k}/8')
             for i, k in enumerate(pattern(n, 16, 5))]
    keep = [i for i in range(n) if bool(g.m[i] >= g.mc - g.delta / 2)]
    if weighted and keep:
        s = 0
        for i in keep:
            s = s + w[i]
        ctx.assume_lt(0, s)
        ctx.reach('weighted')
        if any(bool(w[i] == 0) for i in keep):
            ctx.reach('zero weight')
    e = B()[est]()
    conv = ctx.list if as_list else ctx.array
    v = e.calculate(conv(g.m), ctx.f(g.mc), ctx.f(g.delta),
                    weights=None if w is None else conv(w))
    ctx.out('b', v)
    if not keep:
        ctx.true(isnan(v), 'no complete event: NaN')
        ctx.true(isnan(e.b_value) and isnan(e.value) and isnan(e.beta),
                 'no complete event: stored values are NaN')
        ctx.true(e.n == 0, 'no complete event: n is 0')
        ctx.reach('none left')
        return
    ws = None if w is None else [w[i] for i in keep]
    if est == 'b':
        ref = gr_mle(ctx, [g.m[i] - g.mc for i in keep], g.delta, ws)
    else:
        mu = mean(ctx, [g.m[i] - g.mc + g.delta / 2 for i in keep], ws)
        ref = div(ctx, 1, mu) / ctx.const(LN10D)
    ctx.eq(v, ref, 'b-value equals the likelihood formula')
    ctx.eq(e.b_value, ref, 'stored b-value')
    ctx.eq(e.value, ref, 'stored value')
    ctx.eq(e.beta, ref * ctx.const(LN10D) if not isnan(ref) else ref,
           'beta is b*ln(10)')
    ctx.true(e.n == len(keep), 'n counts the events used')
    ctx.reach('infinite' if not isnan(ref) and not _finite(ref)
              else 'estimate')


def _finite(x):
    import math
    try:
        return type(x).__name__ == 'R' or math.isfinite(float(x))
    except Exception:
        return True


def replicate(ctx, est, n, conf):
    """integer weights act like repeated events; a common factor cancels"""
    g = Mags(ctx, n, conf)
    k = [ctx.pick(f'rep{i}', (1, 0, 2)) for i in range(n)]
    keep = [i for i in range(n) if bool(g.m[i] >= g.mc - g.delta / 2)]
    ctx.assume(sum(k[i] for i in keep) > 0)
    f = ctx.real('f', '1/16', 16)
    m2 = [g.m[i] for i in range(n) for _ in range(k[i])]
    v2 = B()[est]().calculate(ctx.array(m2), ctx.f(g.mc), ctx.f(g.delta))
    v1 = B()[est]().calculate(ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta),
                              weights=ctx.array([f * x for x in k]))
    ctx.out('b', v1)
    ctx.eq(v1, v2, 'integer weights replicate events')
    ctx.reach('weighted')


def invalid(ctx, est, n):
    """negative weights and weights of another length are rejected"""
    g = Mags(ctx, n, 'dec')
    which = ctx.pick('bad', ('short', 'long', 'negative'))
    if which == 'negative':
        w = ctx.reals('w', n, -8, 8)
        ctx.assume(any(bool(x < 0) for x in w))
        exc = ValueError
    else:
        w = ctx.reals('w', n + (1 if which == 'long' else -1), 0, 8)
        exc = IndexError
    ctx.raises(exc, lambda: B()[est]().calculate(
        ctx.array(g.m), ctx.f(g.mc), ctx.f(g.delta), weights=ctx.array(w)),
        f'{which} weights')
    ctx.reach('bad weights')


def unused(ctx, est):
    """results cannot be read before an estimate was made"""
    e = B()[est]()
    for a in ('b_value', 'value', 'beta', 'std', 'std_beta', 'n'):
        ctx.raises(AttributeError, lambda: getattr(e, a), f'{a} unset')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ('b', 'utsu'):
        for conf in ('dec', 'cent', 'two', 'dy', 'cont'):
            for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5)):
                for w in (False, True):
                    if w and n > 3 or conf == 'two' and n != 2 or \
                            conf == 'cent' and (n != 3 or q and w):
                        continue
                    out.append(('formula', dict(est=est, n=n, conf=conf,
                                                weighted=w)))
            out.append(('formula', dict(est=est, n=2, conf=conf,
                                        weighted=True, as_list=True)))
            if conf in ('dec', 'cont'):
                for n in (2, 3) if not q or conf == 'cont' else (2,):
                    out.append(('replicate', dict(est=est, n=n, conf=conf)))
        out.append(('formula', dict(est=est, n=2, conf='milli')))
        for conf in ('dec', 'dy', 'cont'):
            out.append(('formula', dict(est=est, n=250, conf=conf,
                                        free=(100,))))
        out.append(('formula', dict(est=est, n=30, conf='cont', weighted=True,
                                    free=(11, 13))))
        if q:
            out.append(('formula', dict(est=est, n=4, conf='cont')))
    for est in ('b', 'utsu', 'bpos', 'bmore'):
        out.append(('invalid', dict(est=est, n=2)))
        out.append(('unused', dict(est=est)))
    out.sort(key=lambda j: -j[1].get('n', 0))
    return out
