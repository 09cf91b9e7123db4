"""C12  frequency-magnitude distributions"""
from fractions import Fraction as F

from checks.common import pattern, ssum

PROP = 'C12'
WITNESS = ['empty bin', 'weights', 'left', 'cumulative', 'fmd_bin 0',
           'clean floats', 'errors', 'repeated', 'long']
ASSUMPTIONS = [
    'values within 1e-9 bins below a rounding tie are excluded (ties included)',
    'float claims: doubles nearest to decimal values up to +-10',
]
BOUNDS = dict(
    quick='1-3 magnitudes in any order anywhere in their bins, at most 5 bins '
          'between them, bins 0.01-1, arbitrary nonnegative weights; 9-20 '
          'magnitudes over up to 90 bins of 0.01-2, one or two of them anywhere; '
          'continuous magnitudes for fmd_bin=0; with float rounding errors: '
          '2 magnitudes at most 6 bins apart in [-1, 8], bins 0.1, 0.2, 0.05',
    thorough='1-4 magnitudes, 6 bins; the same domains')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'larger samples; NaN magnitudes'


def fns():
    from seismostats.utils import get_cum_fmd, get_fmd
    return get_fmd, get_cum_fmd


def fmd(ctx, d, n, kind, weights, span=5):
    get_fmd, get_cum_fmd = fns()
    delta = ctx.const(d)
    k0 = ctx.int('k0', -20, 20)
    dk = ctx.ints('k', n - 1, -span, span)
    f = ctx.reals('f', n, '-1/2', F(1, 2) - F(1, 10**9))
    k = [k0] + [k0 + j for j in dk]
    for i in range(n):
        for j in range(i):
            ctx.assume(bool(k[i] - k[j] <= span))
            ctx.assume(bool(k[j] - k[i] <= span))
    x = [(kk + ff) * delta for kk, ff in zip(k, f)]
    w = ctx.reals('w', n, 0, 3) if weights else [ctx.const(1)] * n
    kw = {}
    if weights:
        kw['weights'] = ctx.list(w) if kind == 'list' else ctx.array(w)
        ctx.reach('weights')
    left = ctx.flag('left')
    if left:
        kw['bin_position'] = 'left'
        ctx.reach('left')
    arg = ctx.list(x) if kind == 'list' else ctx.array(x)
    cum = ctx.flag('cum')
    r = (get_cum_fmd if cum else get_fmd)(arg, ctx.f(delta), **kw)
    ctx.true(len(r) == 3, 'three arrays')
    bins, counts, binned = [list(a) for a in r]
    lo = k[0]
    hi = k[0]
    for kk in k[1:]:
        lo = kk if bool(kk < lo) else lo
        hi = kk if bool(kk > hi) else hi
    m = 0
    while bool(lo + m < hi):
        m += 1
    m += 1
    ctx.true(len(bins) == m and len(counts) == m,
             'one bin for every multiple between the smallest and largest')
    ctx.true(len(binned) == n, 'one binned magnitude each')
    off = delta / 2 if left else 0
    want = []
    for j in range(m):
        ctx.eq(bins[j], (lo + j) * delta - off, 'bin position')
        want.append(ssum([w[i] for i in range(n) if bool(k[i] == lo + j)]))
        if not [1 for i in range(n) if bool(k[i] == lo + j)]:
            ctx.reach('empty bin')
    if m < n:
        ctx.reach('repeated')
    if cum:
        ctx.reach('cumulative')
        want = [ssum(want[j:]) for j in range(m)]
    ctx.eqs(counts, want, 'counts')
    for i in range(n):
        ctx.eq(binned[i], k[i] * delta, 'binned magnitude')
    ctx.out('counts', counts)
    ctx.out('bins', bins)


def long(ctx, d, n, top, free, weights=False, left=False, cum=False):
    """a catalog of n magnitudes, those in free anywhere in its range"""
    get_fmd, get_cum_fmd = fns()
    delta = ctx.const(d)
    base = pattern(n, top, 5)
    k = [ctx.const(b - 7) for b in base]
    f = [ctx.const(F(b * 7 % 16 - 8, 17)) for b in range(n)]
    for i, t in zip(free, (top, 2, 2)):
        j = ctx.int(f'k{i}', -7 if t == top else base[i] - 9, top - 7
                    if t == top else base[i] - 5)
        k[i] = ctx.const(int(j)) if t == top else j
        f[i] = ctx.real(f'f{i}', '-1/2', F(1, 2) - F(1, 10**9))
    x = [(kk + ff) * delta for kk, ff in zip(k, f)]
    w = ctx.reals('w', n, 0, 3) if weights else [ctx.const(1)] * n
    kw = dict(weights=ctx.array(w)) if weights else {}
    if left:
        kw['bin_position'] = 'left'
    bins, counts, binned = [list(a) for a in (
        get_cum_fmd if cum else get_fmd)(ctx.array(x), ctx.f(delta), **kw)]
    kk = [int(i) if not ctx.symbolic else int(ctx.f(i)) for i in k]
    lo, m = min(kk), max(kk) - min(kk) + 1
    ctx.true(len(bins) == len(counts) == m and len(binned) == n,
             'one bin for every multiple between the smallest and largest')
    want = [ssum([w[i] for i in range(n) if kk[i] == lo + j] or
                 [ctx.const(0)]) for j in range(m)]
    if cum:
        want = [ssum(want[j:]) for j in range(m)]
    off = delta / 2 if left else 0
    ctx.eqs(bins, [(lo + j) * delta - off for j in range(m)], 'bin position')
    ctx.eqs(counts, want, 'counts')
    ctx.eqs(binned, [i * delta for i in kk], 'binned magnitude')
    ctx.reach('long')


def continuous(ctx, n, weights):
    """fmd_bin=0: one bin per distinct magnitude"""
    _, get_cum_fmd = fns()
    x = ctx.reals('x', n, -2, 9)
    w = ctx.reals('w', n, 0, 3) if weights else [ctx.const(1)] * n
    kw = dict(weights=ctx.array(w)) if weights else {}
    bins, counts, binned = [
        list(a) for a in get_cum_fmd(ctx.array(x), 0, **kw)]
    ctx.true(len(bins) == len(counts), 'one count per bin')
    for j in range(1, len(bins)):
        ctx.lt(bins[j - 1], bins[j], 'distinct sorted magnitudes')
    for i in range(n):
        ctx.true(any(bool(b == x[i]) for b in bins), 'every magnitude a bin')
        ctx.eq(binned[i], x[i], 'magnitudes unchanged')
    for b, c in zip(bins, counts):
        ctx.true(any(bool(b == y) for y in x), 'every bin a magnitude')
        ctx.eq(c, ssum([w[i] for i in range(n) if bool(x[i] >= b)]),
               'number of magnitudes at or above')
    ctx.reach('fmd_bin 0')


def clean(ctx, d, base):
    """with rounding errors: counts and the floats of the bins"""
    get_fmd, _ = fns()
    delta = ctx.const(d)
    k = [ctx.const(base), ctx.int('k1', base, base + 6)]
    if ctx.flag('swap'):
        k = k[::-1]
    x = [ctx.nearest(kk * delta) for kk in k]
    with ctx.floats():
        bins, counts, binned = [
            list(a) for a in get_fmd(ctx.array(x), float(d))]
        m = 0
        while bool(base + m < max(k)):
            m += 1
        m += 1
        ctx.true(len(bins) == m, 'one bin for every multiple')
        for j in range(m):
            ctx.eq(bins[j], (base + j) * delta, 'bin center')
            ctx.true(bool(counts[j] == sum(bool(kk == base + j)
                                           for kk in k)), 'counts')
    ctx.reach('clean floats')


def errors(ctx):
    get_fmd, get_cum_fmd = fns()
    x = ctx.reals('x', 2, 0, 1)
    d = ctx.real('d', -2, 0)
    ctx.raises(ValueError, lambda: get_fmd(ctx.array(x), ctx.f(d)),
               'fmd_bin not positive')
    ctx.raises(AssertionError, lambda: get_fmd(ctx.array(x), 0.5,
                                               bin_position='right'),
               'bin_position unknown')
    ctx.assume(bool(d < 0))
    ctx.raises(ValueError, lambda: get_cum_fmd(ctx.array(x), ctx.f(d)),
               'fmd_bin negative')
    ctx.reach('errors')


def jobs(tier):
    q = tier == 'quick'
    out = [('errors', {})]
    for d in ('0.01', '0.1', '0.25', '0.2', '0.5', '1'):
        for weights in (False, True):
            n = 3 if d == '0.1' or not q else 2
            out.append(('fmd', dict(d=d, n=n, kind='array', weights=weights,
                                    span=5 if n < 3 else 3)))
    out.append(('fmd', dict(d='0.1', n=1, kind='array', weights=True)))
    out.append(('fmd', dict(d='0.1', n=2, kind='list', weights=True)))
    if not q:
        out.append(('fmd', dict(d='0.1', n=4, kind='array', weights=True,
                                span=3)))
    for weights in (False, True):
        out.append(('continuous', dict(n=3 if q else 4, weights=weights)))
    for d, n, top in (('0.1', 20, 40), ('0.01', 12, 90), ('2', 9, 6),
                      ('0.3', 16, 30)):
        out.append(('long', dict(d=d, n=n, top=top, free=(3,),
                                 weights=n > 15, left=n < 13)))
        out.append(('long', dict(d=d, n=n, top=top, free=(8, 0), cum=True,
                                 weights=n < 13, left=n == 20)))
    if not q:
        out.append(('long', dict(d='0.1', n=40, top=60, free=(3, 9, 21),
                                 weights=True)))
    for d in ('0.1', '0.2', '0.05'):
        for base in (-9, -1, 0, 3, 11, 23, 31):
            out.append(('clean', dict(d=d, base=base)))
    return out
