"""C18  Weichert estimates for unequal periods of completeness"""
import contextlib
import io
import types
import warnings
from fractions import Fraction as F

from checks.common import LN10D, div, exp, log10, set_warnings, sqrt, ssum

PROP = 'C18'
WITNESS = ['b_value', 'beta', 'incomplete event', 'below table',
           'default last year', 'two completeness years', 'errors',
           'left edge', 'one bin']
ASSUMPTIONS = [
    'scipy.optimize.minimize returns an arbitrary number as minimum; that the '
    'objective it was given is the likelihood equation of Weichert is checked '
    'at an arbitrary beta',
    'magnitudes in bins that start at the first edge of the table, not on an '
    'edge of the table; the standard deviation where complete events are in '
    'two bins at least',
]
BOUNDS = dict(
    quick='2-4 events (bin, year) out of up to 8 x 5, tables of 1-3 '
          'rows, delta_m 0.5, any beta in [1/4, 8] and any last year within '
          '1995-2100',
    thorough='more combinations')
BUDGET = dict(quick=150, thorough=3000)
OUTSIDE = 'convergence of the minimiser; larger catalogs; bins without ' \
    'events (the estimator ignores their periods of observation)'
TABLES = {
    1: ((F('3.75'), 1980),),
    2: ((F('3.75'), 1980), (F('4.75'), 1920)),
    3: ((F('3.75'), 1980), (F('4.75'), 1920), (F('5.75'), 1810)),
}
YEARS = (1990, 1980, 1979, 1850, 1700)


class _Min:
    """stand-in for the minimiser: any result; keeps the objective"""

    def __init__(self, ctx, beta):
        self.ctx, self.beta, self.calls = ctx, beta, []

    def __call__(self, fun, x0, args=(), **kw):
        self.calls.append(1)
        if str(kw.get('method')).lower() == 'nelder-mead':
            # the minimum is not left at the accuracy of scipy's default
            tol = kw.get('tol')
            opt = kw.get('options') or {}
            acc = opt.get('xatol', 1e-4 if tol is None else tol)
            self.ctx.true(acc <= 1e-6, 'accuracy asked for')
        args = args if isinstance(args, tuple) else (args,)
        self.value = fun(self.ctx.f(self.beta), *args)
        return types.SimpleNamespace(
            x=self.ctx.array([self.beta]), success=True, fun=self.value)


def formula(ctx, ks, np_, par, last, years=YEARS, places=0):
    import sys
    import numpy as np
    import scipy.optimize
    from seismostats.analysis import estimate_b_weichert
    table = TABLES[np_]
    k = [ctx.pick(f'k{i}', kk) for i, kk in enumerate(ks)]
    n = len(k)
    delta = F(1, 2)
    m0 = table[0][0]
    # place within the bin; left edges other than those of the table count
    f = [ctx.pick(f'f{i}', (F(1, 2), F(1, 16), F(15, 16)) if m0 + kk * delta
                  in dict(table) or kk < 0 or not places
                  else (F(1, 2), F(0)))
         if i < places else F(1, 2) for i, kk in enumerate(k)]
    centers = [m0 + (kk + F(1, 2)) * delta for kk in k]
    m = [m0 + (kk + ff) * delta for kk, ff in zip(k, f)]
    if any(ff == 0 for ff in f):
        ctx.reach('left edge')
    y = [ctx.pick(f'y{i}', years) for i in range(n)]
    if last:
        lasty = ctx.real('last', 1995, 2100)
    else:
        lasty = ctx.const(max(y))
        ctx.reach('default last year')
    beta = ctx.real('beta', '1/4', 8)
    # complete events per (bin, start of completeness)
    rows = {}
    for mm, yy in zip(centers, y):
        start = [cy for edge, cy in table if edge < mm]
        if not start:
            ctx.reach('below table')
        elif yy >= start[-1]:
            rows[mm, start[-1]] = rows.get((mm, start[-1]), 0) + 1
        else:
            ctx.reach('incomplete event')
    ctx.assume(len(rows) >= 1)
    if len(rows) == 1:
        ctx.reach('one bin')
    if len({s for _, s in rows}) > 1:
        ctx.reach('two completeness years')
    fake = _Min(ctx, beta)
    ctx.replace(scipy.optimize, 'minimize', fake)
    times = np.array([f'{yy}-06-15' for yy in y], dtype='datetime64')
    tab = np.array([[float(a), b] for a, b in table])
    kw = {}
    if par:
        kw['b_parameter'] = par
    if last:
        kw['last_year'] = ctx.f(lasty)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with contextlib.redirect_stdout(io.StringIO()):
            b, std, rate, std_rate, a = estimate_b_weichert(
                np.array([float(x) for x in m]), times, tab, mag_max=8.25,
                delta_m=0.5, **kw)
    low_w = [x for x in w if 'completeness table' in str(x.message)]
    ctx.true(bool(low_w) == any(x < m0 for x in m),
             'warning about magnitudes below the table')
    ctx.true(len(fake.calls) == 1, 'one minimisation')
    T = [(lasty - s, ctx.const(mm), c) for (mm, s), c in rows.items()]
    e = [exp(ctx, -beta * mm) for _, mm, _ in T]
    S = [ssum([t * mm ** p * ee for (t, mm, _), ee in zip(T, e)])
         for p in range(3)]
    N = sum(rows.values())
    mbar = ssum([mm * c for _, mm, c in T]) / N
    ctx.eq(fake.value, abs(div(ctx, S[1], S[0]) - mbar),
           'objective: likelihood equation of Weichert')
    f = 1 if par == 'beta' else 1 / ctx.const(LN10D)
    ctx.reach(par or 'b_value')
    ctx.eq(b, beta * f, 'b')
    r = div(ctx, N * ssum(e), S[0])
    ctx.eq(rate, r, 'rate above the lowest magnitude')
    ctx.eq(std_rate, rate / sqrt(ctx, ctx.const(N)), 'std of the rate')
    lowest = min(mm for mm, _ in rows) - delta / 2
    ctx.eq(a, log10(ctx, r) + beta / ctx.const(LN10D) * ctx.const(lowest),
           'rate at magnitude 0')
    # std of beta: eq. 8 of Weichert
    D = S[0] * S[2] - S[1] * S[1]
    if len(rows) > 1:
        ctx.eq((std / f) ** 2, div(ctx, S[0] * S[0], N * D), 'std of b')
    ctx.out('b', b)


def errors(ctx):
    import numpy as np
    from seismostats.analysis import estimate_b_weichert as f
    t = np.array(['1990-01-01', '1991-01-01'], dtype='datetime64')
    m = np.array([4., 4.5])
    tab = np.array([[3.75, 1980], [4.75, 1920]])

    def bad(label, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.raises(AssertionError, lambda: f(*a, **k), label)
    bad('lengths differ', m, t[:1], tab, 8, delta_m=0.5)
    bad('table not sorted', m, t, tab[::-1], 8, delta_m=0.5)
    bad('table has 2 columns', m, t, np.ones((2, 3)), 8, delta_m=0.5)
    bad('b_parameter', m, t, tab, 8, delta_m=0.5, b_parameter='b')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        set_warnings(False)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(np.array([3.5, 4., 4.5]), np.append(t, t[0]), tab, 8,
                  delta_m=0.5)
        finally:
            set_warnings(True)
    ctx.true(not [x for x in w if 'completeness' in str(x.message)],
             'no warning with the option off')
    ctx.reach('errors')


def jobs(tier):
    q = tier == 'quick'
    out = [('errors', {})]
    for par in (None, 'b_value', 'beta'):
        out.append(('formula', dict(ks=((0, 1), (2,)), np_=1, par=par,
                                    last=True, years=(1990, 1979))))
    out.append(('formula', dict(ks=((-1, 0, 2, 4), (1, 3, 5)), np_=3,
                                par='beta', last=True)))
    out.append(('formula', dict(ks=((-1, 0, 2), (0, 3), (1,)), np_=2,
                                par='b_value', last=False,
                                years=(1990, 1850))))
    out.append(('formula', dict(ks=((0, 1), (2, 3)), np_=2, par=None,
                                last=True, years=(1990,), places=2)))
    return out
