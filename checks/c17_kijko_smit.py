"""C17  Kijko-Smit estimates with several completeness periods"""
import contextlib
import io
import warnings
from fractions import Fraction as F

from checks.common import LN10D, div, exp, log10, set_warnings, sqrt, ssum

PROP = 'C17'
WITNESS = ['b_value', 'beta', 'incomplete event', 'empty period',
           'event before all periods', 'default last year', 'warning',
           'errors']
ASSUMPTIONS = [
    'magnitudes in the middle of the bins that start at the first edge of the '
    'table; no event after last_year; at least one complete event',
]
BOUNDS = dict(
    quick='1-3 events in any order, any magnitude out of 8 bins, any of 5 '
          'years each; tables of 1-3 periods; delta_m 0.5',
    thorough='1-4 events')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'larger catalogs; durations are differences of calendar years'
TABLES = {
    1: ((F('3.75'), 1980),),
    2: ((F('3.75'), 1980), (F('4.75'), 1920)),
    3: ((F('3.75'), 1980), (F('4.75'), 1920), (F('5.75'), 1810)),
}
YEARS = (1990, 1980, 1979, 1920, 1850, 1700)


def formula(ctx, n, np_, par, last, years=YEARS, kmax=6):
    import numpy as np
    from seismostats.analysis import estimate_b_kijko_smit
    table = TABLES[np_]
    k = ctx.ints('k', n, -1, kmax)
    delta = ctx.const('0.5')
    m0 = ctx.const(table[0][0])
    m = [m0 + (kk + F(1, 2)) * delta for kk in k]
    y = [ctx.pick(f'y{i}', years) for i in range(n)]
    if last is not None:
        lasty = last
    else:
        lasty = max(y)
        ctx.reach('default last year')
    # period of each event: the last that starts in or before its year
    sub = [[] for _ in table]
    for i in range(n):
        per = [j for j, (_, cy) in enumerate(table) if cy <= y[i]]
        if not per:
            ctx.reach('event before all periods')
            continue
        if bool(m[i] > ctx.const(table[per[0]][0])):
            sub[per[0]].append(m[i])
        else:
            ctx.reach('incomplete event')
    N = sum(len(s) for s in sub)
    ctx.assume(N > 0)
    if [1 for s in sub if not s]:
        ctx.reach('empty period')
    times = np.array([f'{yy}-06-15' for yy in y], dtype='datetime64')
    tab = np.array([[float(a), b] for a, b in table])
    kw = {}
    if par:
        kw['b_parameter'] = par
    if last is not None:
        kw['last_year'] = last
    low = any(bool(x < m0) for x in m)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        b, std, rate, a = estimate_b_kijko_smit(
            ctx.array(m), times, tab, delta_m=0.5, **kw)
    low_w = [x for x in w if 'completeness table' in str(x.message)]
    ctx.true(bool(low_w) == low, 'warning about magnitudes below the table')
    if low:
        ctx.reach('warning')
    # N / beta = sum of the distances to the completeness of the period
    dist = ssum([ssum([x - ctx.const(table[j][0]) for x in s])
                 for j, s in enumerate(sub)])
    beta = div(ctx, ctx.const(N), dist)
    f = 1 if par == 'beta' else 1 / ctx.const(LN10D)
    ctx.reach(par or 'b_value')
    ctx.eq(b, beta * f, 'b')
    ctx.eq(std, beta * f / sqrt(ctx, ctx.const(N)), 'std')
    # expected number of events for a rate of 1
    end = [lasty] + [cy for _, cy in table[:-1]]
    den = ssum([(end[j] - cy) * exp(ctx, -beta * ctx.const(mc - table[0][0]))
                for j, (mc, cy) in enumerate(table)])
    ctx.assume(bool(den > 0))
    ctx.eq(rate, div(ctx, ctx.const(N), den),
           'rate at the lowest completeness')
    ctx.eq(a, log10(ctx, div(ctx, ctx.const(N), den))
           + beta / ctx.const(LN10D) * m0, 'rate at magnitude 0')
    ctx.out('b', b)


def errors(ctx):
    import numpy as np
    from seismostats.analysis import estimate_b_kijko_smit as f
    t = np.array(['1990-01-01', '1991-01-01'], dtype='datetime64')
    m = np.array([4., 4.5])
    tab = np.array([[3.75, 1980], [4.75, 1920]])

    def bad(label, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.raises(AssertionError, lambda: f(*a, **k), label)
    bad('lengths differ', m, t[:1], tab, delta_m=0.5)
    bad('table not sorted', m, t, tab[::-1], delta_m=0.5)
    bad('table has 2 columns', m, t, np.ones((2, 3)), delta_m=0.5)
    bad('b_parameter', m, t, tab, delta_m=0.5, b_parameter='b')
    x = ctx.real('x', -1, 3)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        set_warnings(False)
        try:
            f(ctx.array([x, ctx.const(4)]), t, tab, delta_m=0.5)
        finally:
            set_warnings(True)
    ctx.true(not w, 'no warning with the option off')
    ctx.reach('errors')


def jobs(tier):
    q = tier == 'quick'
    out = [('errors', {})]
    for par in (None, 'b_value', 'beta'):
        out.append(('formula', dict(n=1, np_=2, par=par, last=2000)))
        out.append(('formula', dict(n=2, np_=1, par=par, last=2000)))
    for np_ in (2, 3):
        for last in (2000, None):
            out.append(('formula', dict(n=2, np_=np_, par='beta',
                                        last=last)))
        out.append(('formula', dict(n=3, np_=np_, par='b_value', last=2001,
                                    kmax=3, years=(1990, 1850))))
    if not q:
        out.append(('formula', dict(n=3, np_=3, par='b_value', last=2001)))
        out.append(('formula', dict(n=4, np_=3, par='b_value', last=2001,
                                    years=(1990, 1930, 1850))))
    return out
