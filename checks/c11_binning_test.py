"""C11  is a sample binned?"""
from fractions import Fraction as F

from checks.common import A, B, Mags, increasing, pattern, set_warnings

PROP = 'C11'
WITNESS = ['binned', 'not binned', 'larger binning', 'float binned',
           'delta 0', 'estimator refuses', 'offset',
           'tolerance']
ASSUMPTIONS = [
    'deviations from the grid are 0 or at least 1/1000 bin',
    'delta_x=0: the values span 11 to 300 bins',
]
BOUNDS = dict(
    quick='2-3 values in any order with any common offset, spans up to 40 '
          'bins; 9 and 25 values of which two and one are free; bin sizes '
          '0.01-2; estimators with 3 and 14 events, warnings on and off; with float rounding errors: pairs of doubles '
          'nearest to decimals, bins 0.01, 0.1, 0.2, first value -37, 1, 3, 11, 23, 47 '
          'or 70 bins, second up to 12 bins above, or first -97 and second '
          '-13 to -1 bins; delta_x=0 with bins '
          '1e-3 to 1',
    thorough='2-4 values, the same domains')
BUDGET = dict(quick=120, thorough=3000)
OUTSIDE = 'larger arrays with several free values; deviations from the grid below 1/1000 bin'
LARGER = {'0.01': 10, '0.05': 2, '0.1': 10, '0.2': 5, '0.25': 4, '0.5': 2,
          '1': 10, '2': 5}


def bt():
    from seismostats.utils import binning_test
    return binning_test


def exact_grid(ctx, d, n, larger, nan=0, free=None):
    delta = ctx.const(d)
    x0 = ctx.real('x0', -5, 5)
    if free is None:
        k = ctx.ints('k', n - 1, 0, 40)
        f = ctx.reals('f', n - 1, '-1/2', '499/1000')
    else:
        # given multiples of the larger binning, if any, but for the free
        k = [ctx.int(f'k{i}', 0, 40) if i in free else
             ctx.const(j * LARGER[d]) for i, j in enumerate(pattern(n - 1, 9))]
        f = [ctx.real(f'f{i}', '-1/2', '499/1000') if i in free else
             ctx.const(0) for i in range(n - 1)]
    on, x = True, [x0]
    for kk, ff in zip(k, f):
        if ff == 0:
            pass
        else:
            ctx.assume(bool(ff >= F(1, 1000)) or bool(ff <= F(-1, 1000)))
            on = False
        x.append(x0 + (kk + ff) * delta)
        ctx.assume_le(x0, x[-1])
    x += [ctx.nan] * nan
    p = ctx.pick('rot', list(range(len(x))) if free is None else [0, n // 3])
    x = x[p:] + x[:p]
    exp = on
    if larger and on:
        L = LARGER[d]
        if all(bool(kk % L == 0) for kk in k):
            exp = False
            ctx.reach('larger binning')
    kw = {} if larger else dict(check_larger_binning=False)
    r = bool(bt()(ctx.array(x), ctx.f(delta), **kw))
    ctx.out('r', r)
    ctx.true(r == exp, 'binned exactly when all distances are multiples')
    ctx.reach('binned' if on else 'not binned')
    if on and x0 % delta != 0:
        ctx.reach('offset')


def tolerance(ctx, d, n):
    """a wider tolerance admits the deviations below it"""
    delta = ctx.const(d)
    tol = delta * ctx.const('1/16')
    k = ctx.ints('k', n - 1, 1, 40)
    f = ctx.reals('f', n - 1, '-1/4', '1/4')
    x = [ctx.const(0)]
    exp = True
    for kk, ff in zip(k, f):
        a = abs(ff)
        ctx.assume(bool(a <= F(1, 17)) or bool(a >= F(1, 15)))
        exp = exp and bool(a <= F(1, 16))
        x.append((kk + ff) * delta)
    r = bool(bt()(ctx.array(x), ctx.f(delta), tolerance=ctx.f(tol),
                  check_larger_binning=False))
    ctx.true(r == exp, 'deviations within the tolerance are accepted')
    ctx.reach('tolerance')


def float_grid(ctx, d, n, base):
    """the doubles nearest to values on the grid are binned"""
    delta = ctx.const(d)
    top = base + 12 if base > -90 else -1
    k = [ctx.const(base)] + ctx.ints('k', n - 1, top - 12, top)
    x = [ctx.nearest(kk * delta) for kk in k]
    with ctx.floats():
        r = bool(bt()(ctx.array(x), float(d), check_larger_binning=False))
    ctx.true(r, 'decimal floats on the grid are accepted')
    ctx.reach('float binned')


def zero(ctx, power, n):
    """delta_x=0: any larger binning makes the sample discrete"""
    step = ctx.const(F(10) ** power)
    span = ctx.pick('span', (11, 13, 20, 30, 57, 300))
    k = ctx.ints('k', n - 2, 1, span - 1)
    x = [ctx.const('0')] + [kk * step for kk in k] + [span * step]
    r = bool(bt()(ctx.array(x), 0))
    ctx.true(not r, 'binned values are not continuous')
    ctx.true(bool(bt()(ctx.array(x), 0, check_larger_binning=False)),
             'delta_x=0 accepts everything without the larger check')
    ctx.reach('delta 0')


def zero_cont(ctx):
    """values with all 14 digits are continuous"""
    g = ctx.real('g', '-1/1000000000000000', '1/1000000000000000')
    k = ctx.pick('k', (1, 3, 12))
    x = [ctx.const(0), k - ctx.const('1/3') + g, ctx.const(k)]
    r = bool(bt()(ctx.array(x), 0))
    ctx.true(r, 'unbinned values are continuous')


def empty(ctx):
    import numpy as np
    ctx.raises(ValueError, lambda: bt()(np.array([]), 0.1), 'empty')
    ctx.raises(ValueError, lambda: bt()([], 0), 'empty')
    ctx.true(bool(bt()([1.3], 0.1, check_larger_binning=False)),
             'one value is binned')


def estimators(ctx, est, conf, n=3, warn=True):
    """complete magnitudes off the grid are refused"""
    g = Mags(ctx, n, conf, free=(n // 2,) if n > 3 else None)
    f = ctx.real('f', F(1, 100), F(99, 100))
    i = ctx.pick('i', range(n) if n <= 3 else (n // 2, n - 1))
    x = list(g.m)
    x[i] = x[i] + f * g.delta
    comp = [bool(y >= g.mc - g.delta / 2) for y in x]
    ctx.assume(comp[i] and sum(comp) > 1)
    t = increasing(ctx, n)
    kw = {}
    if est in ('apos', 'amore'):
        kw['times'] = ctx.array(t)
    if est == 'amore':
        kw['b_value'] = ctx.f(ctx.const(1))
    cls = A()[est] if est[0] == 'a' else B()[est]
    set_warnings(warn)
    try:
        ctx.raises(ValueError, lambda: cls().calculate(
            ctx.array(x), ctx.f(g.mc), ctx.f(g.delta), **kw),
            'magnitudes not binned')
    finally:
        set_warnings(True)
    ctx.reach('estimator refuses')


def jobs(tier):
    q = tier == 'quick'
    out = [('empty', {}), ('zero_cont', {})]
    for d in LARGER:
        for larger in (False, True):
            out.append(('exact_grid', dict(d=d, n=3 if q else 4,
                                           larger=larger)))
        for nan in (1, 2):
            out.append(('exact_grid', dict(d=d, n=2, larger=True, nan=nan)))
        out.append(('exact_grid', dict(d=d, n=25, larger=True, free=(14,))))
        if d in ('0.1', '0.25', '2') or not q:
            out.append(('exact_grid', dict(d=d, n=9, larger=False,
                                           free=(2, 7))))
    for d in ('0.1', '0.25'):
        out.append(('tolerance', dict(d=d, n=3)))
    for d in ('0.1', '0.2', '0.01'):
        for base in (-97, -37, 1, 3, 11, 23, 47, 70):
            out.append(('float_grid', dict(d=d, n=2 if q else 3, base=base)))
    for p in (0, -1, -2, -3):
        out.append(('zero', dict(power=p, n=3 if q else 4)))
    for est in ('b', 'utsu', 'bpos', 'bmore', 'a', 'apos', 'amore'):
        for conf in ('dec', 'dy'):
            out.append(('estimators', dict(est=est, conf=conf)))
            out.append(('estimators', dict(est=est, conf=conf, n=14,
                                           warn=conf == 'dy')))
        out.append(('estimators', dict(est=est, conf='dec', warn=False)))
    return out
