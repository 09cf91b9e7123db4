"""C19  make_more_incomplete removes exactly the hidden events"""
import numpy as np

from checks.common import Times, distinct_times, by_time, increasing, \
    pattern

PROP = 'C19'
WITNESS = ['kept', 'removed', 'hidden by a removed event', 'unsorted',
           'datetimes', 'default window', 'empty', 'long']
ASSUMPTIONS = ['event times pairwise distinct']
BOUNDS = dict(
    quick='0-4 events with any magnitudes, any distinct times in any order '
          'and any window delta_t (numbers); datetimes of 3 events from a '
          'list of offsets around the default window; '
          '60 given events of which 1 has any magnitude',
    thorough='5 events')
OUTSIDE = 'longer catalogs; simultaneous events'


def _hidden(m, close):
    """close(i, j): j is earlier than i and within the window; events in time
    order"""
    return [any(close(i, j) and bool(m[j] > m[i]) for j in range(i))
            for i in range(len(m))]


def _compare(ctx, out, m, t, hide, idx):
    keep = [i for i in range(len(m)) if not hide[i]]
    ctx.eqs(list(out[0]), [m[i] for i in keep], 'magnitudes kept')
    ctx.true(len(out[1]) == len(keep), 'times kept')
    if len(m) and isinstance(t, list):
        ctx.eqs(list(out[1]), [t[i] for i in keep], 'times kept')
    else:
        ctx.true(list(out[1]) == [t[i] for i in keep], 'times kept')
    ctx.true(len(out) == (3 if idx else 2), 'idx only if asked for')
    if idx:
        sel = np.arange(len(m))[np.asarray(out[2])]
        ctx.true(list(sel) == keep, 'idx selects the kept events')
    if keep:
        ctx.reach('kept')
    if len(keep) < len(m):
        ctx.reach('removed')


def numbers(ctx, n, order, idx, free=None):
    from seismostats.analysis import make_more_incomplete
    if free is None:
        m = ctx.reals('m', n, -2, 9)
    else:
        # mostly given values, with a slight trend, so that long windows
        # still keep some
        m = [ctx.real(f'm{i}', -2, 9) if i in free else
             ctx.const(f'{k + i}/10') for i, k in enumerate(pattern(n))]
    if free is not None:
        g = Times(ctx, n, 'long')
        t, o = g.t, g.order
        ctx.reach('long')
    elif order:
        t, perm = distinct_times(ctx, n)
        o = by_time(perm)
        if o != sorted(o):
            ctx.reach('unsorted')
    else:
        t, o = increasing(ctx, n), list(range(n))
    d = ctx.real('delta_t', 0, 500) if free is None else \
        ctx.const(ctx.pick('delta_t', ('20', '250', '5000')))
    a, b = ctx.array(m), ctx.array(t)
    kw = dict(return_idx=True) if idx else {}
    out = make_more_incomplete(a, b, delta_t=ctx.f(d), **kw)
    ctx.eqs(list(a), m, 'magnitudes of the caller')
    ctx.eqs(list(b), t, 'times of the caller')
    m, t = [m[i] for i in o], [t[i] for i in o]
    hide = _hidden(m, lambda i, j: bool(t[i] - t[j] < d))
    for i in range(n):
        for j in range(i):
            if hide[i] and hide[j] and bool(t[i] - t[j] < d) and bool(
                    m[j] > m[i]):
                ctx.reach('hidden by a removed event')
    _compare(ctx, out, m, t, hide, idx)
    if not n:
        ctx.reach('empty')


def dates(ctx, kind, default):
    import datetime
    from seismostats.analysis import make_more_incomplete
    s = ctx.pick('s', ((0, 59, 60), (0, 60, 119), (0, 61, 62), (0, 5, 300),
                       (100, 30, 159), (3, 2, 1)) + (() if kind == 's' else (
                           (0.25, 60.125, 61), (60.5, 0.375, 119.75))))
    m = ctx.reals('m', 3, -2, 9)
    t0 = datetime.datetime(2021, 3, 28, 1, 59)
    t = np.array([t0 + datetime.timedelta(seconds=x) for x in s])
    if kind != 'object':
        t = t.astype(f'datetime64[{kind}]')
    kw, d = {}, 60
    if default:
        ctx.reach('default window')
    else:
        d = ctx.pick('d', (1, 61, 90))
        kw['delta_t'] = np.timedelta64(d, 's')
    out = make_more_incomplete(ctx.array(m), t, **kw)
    o = sorted(range(3), key=lambda i: s[i])
    m, s, t = [m[i] for i in o], [s[i] for i in o], np.array(
        [t[i] for i in o])
    _compare(ctx, out, m, t, _hidden(m, lambda i, j: s[i] - s[j] < d), False)
    ctx.reach('datetimes')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in (0, 1, 2, 3):
        for idx in (False, True):
            out.append(('numbers', dict(n=n, order=n > 1, idx=idx)))
    out.append(('numbers', dict(n=4, order=False, idx=True)))
    out.append(('numbers', dict(n=60, order=True, idx=True, free=(3,))))
    for kind in ('object', 's', 'ns') if q else ('object', 's', 'ms', 'ns'):
        for default in (True, False):
            out.append(('dates', dict(kind=kind, default=default)))
    if not q:
        out.append(('numbers', dict(n=4, order=True, idx=True)))
        out.append(('numbers', dict(n=5, order=False, idx=True)))
    return out
