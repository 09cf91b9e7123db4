"""C08  estimates have no memory and no side effects"""
import warnings

from checks.common import A, B, Mags, Times, dmc_value, increasing, \
    set_warnings

PROP = 'C08'
WITNESS = ['reused', 'inputs kept', 'quiet', 'series', 'warned']
ASSUMPTIONS = [
    'exact arithmetic: float rounding is outside the claim',
    'event times pairwise distinct; weights > 0',
]
BOUNDS = dict(
    quick='two successive catalogs of 1-2 events each, every option given or '
          'not the first time; 5-8 events with one free magnitude and any '
          'subset of the options after all of them; catalogs of 2-3 events as list, array and '
          'pandas Series with a shuffled index; warnings on and off',
    thorough='successive catalogs of 1-3 events; catalogs of 2-4 events')
OUTSIDE = 'longer catalogs and histories'

ALL = ('b', 'utsu', 'bpos', 'bmore', 'a', 'apos', 'amore')


class Call:
    """one set of arguments for an estimator"""

    def __init__(self, ctx, est, n, conf, tag, full, times='sorted'):
        g = Mags(ctx, n, conf, name=f'm{tag}', mc=False)
        self.m, self.delta = g.m, g.delta
        d = conf if conf != 'dy' else 'dec'
        if conf == 'cont':
            self.mc = ctx.real(f'mc{tag}', -2, 9)
        else:
            self.mc = ctx.grid(ctx.int(f'kmc{tag}', -20, 90), g.dstr)
        self.kw = {}
        self.est = est
        pos = est in ('bpos', 'bmore', 'apos', 'amore')
        if est in ('apos', 'amore'):
            self.kw['times'] = increasing(ctx, n, f't{tag}')
            self.kw['b_value'] = ctx.real(f'b{tag}', '1/4', 3)
        elif est in ('bpos', 'bmore') and full:
            self.kw['times'] = increasing(ctx, n, f't{tag}')
        if est[0] != 'a' and full:
            self.kw['weights'] = ctx.reals(f'w{tag}', n, '1/16', 8)
        if pos and full:
            self.kw['dmc'] = dmc_value(ctx, conf, f'dmc{tag}')
        if est[0] == 'a' and full:
            self.kw['scaling_factor'] = ctx.real(f's{tag}', '1/8', 100)
            if 'b_value' not in self.kw:
                self.kw['b_value'] = ctx.real(f'b{tag}', '1/4', 3)
            self.kw['m_ref'] = ctx.real(f'r{tag}', -2, 9)

    def inputs(self, ctx, wrap):
        kw = {k: wrap(v) if isinstance(v, list) else ctx.f(v)
              for k, v in self.kw.items()}
        return wrap(self.m), kw

    def run(self, ctx, e, wrap=None):
        m, kw = self.inputs(ctx, wrap or ctx.array)
        return e.calculate(m, ctx.f(self.mc), ctx.f(self.delta), **kw)


def new(est):
    return {**A(), **B()}[est]()


def _same(ctx, e1, v1, e2, v2, what):
    ctx.eq(v1, v2, f'value {what}')
    ctx.eq(e1.value, v1, f'stored value {what}')
    ctx.eqs(e1.idx, e2.idx, f'idx {what}')
    ctx.eqs(e1.magnitudes, e2.magnitudes, f'magnitudes {what}')
    for a in ('times', 'weights'):
        x, y = getattr(e1, a, None), getattr(e2, a, None)
        ctx.true((x is None) == (y is None), f'{a} {what}: present')
        if x is not None:
            ctx.eqs(x, y, f'{a} {what}')
    ctx.true(e1.n == e2.n, f'n {what}')


def reused(ctx, est, n1, n2, conf):
    """a second estimate with the same object equals a fresh one"""
    c1 = Call(ctx, est, n1, conf, 'A', ctx.flag('first full'))
    c2 = Call(ctx, est, n2, conf, 'B', ctx.flag('second full'))
    e = new(est)
    try:
        c1.run(ctx, e)
    except ZeroDivisionError:
        pass
    v = c2.run(ctx, e)
    ctx.out('v', v)
    f = new(est)
    vf = c2.run(ctx, f)
    _same(ctx, e, v, f, vf, 'after reuse')
    if hasattr(f, 'dmc'):
        ctx.eq(e.dmc, f.dmc, 'dmc after reuse')
    ctx.reach('reused')


class Given:
    """arguments with any subset of the options, given but for one magnitude
    and the weight of one event"""

    def __init__(self, ctx, est, n, conf, tag, opts):
        g = Mags(ctx, n, conf, name=f'm{tag}', mc=False, free=(n // 2,))
        self.m, self.delta = g.m, g.delta
        self.mc = ctx.const('0.5')
        c = ctx.const
        every = dict(times=Times(ctx, n, 'long').t,
                     weights=[c(f'{i % 3 + 1}') for i in range(n)])
        every['weights'][1] = ctx.real(f'w{tag}', '1/16', 8)
        every['dmc'] = c('0.5') if tag == 'A' else c('0')
        every['b_value'] = c('0.9') if tag == 'A' else c('1.1')
        every['m_ref'] = c('1') if tag == 'A' else c('0')
        every['scaling_factor'] = c('10') if tag == 'A' else c('3')
        self.kw = {k: every[k] for k in opts}

    inputs, run = Call.inputs, Call.run


def options(ctx, est, n1, n2, conf):
    """options of one estimate do not reach the next, whichever is omitted"""
    from itertools import combinations
    names = ['weights', 'times', 'dmc'] if est[0] == 'b' and len(
        est) > 1 else ['weights'] if est[0] != 'a' else [
        'scaling_factor', 'm_ref', 'b_value']
    need = []
    if est in ('apos', 'amore'):
        names = ['dmc', 'scaling_factor', 'm_ref']
        need = ['times', 'b_value']
    sub = ctx.pick('options', [
        list(c) for k in range(len(names) + 1)
        for c in combinations(names, k)
        if est != 'a' or 'm_ref' not in c or 'b_value' in c])
    c1 = Given(ctx, est, n1, conf, 'A', names + need)
    c2 = Given(ctx, est, n2, conf, 'B', sub + need)
    e = new(est)
    v1 = c1.run(ctx, e)
    n = e.n
    v = c2.run(ctx, e)
    f = new(est)
    vf = c2.run(ctx, f)
    _same(ctx, e, v, f, vf, 'after options')
    if hasattr(f, 'dmc'):
        ctx.eq(e.dmc, f.dmc, 'dmc after options')
    if est[0] == 'b':
        ctx.eq(e.std if e.n > 1 and est != 'bmore' else v,
               f.std if f.n > 1 and est != 'bmore' else vf,
               'std after options')
    ctx.eq(c1.run(ctx, e), v1, 'the first estimate again')
    ctx.true(e.n == n, 'n of the first estimate again')
    ctx.reach('reused')


def containers(ctx, est, n, conf, kind):
    """lists and Series give what arrays give; inputs are left alone"""
    import pandas as pd
    c = Call(ctx, est, n, conf, 'A', True)
    e = new(est)
    m, kw = c.inputs(ctx, ctx.array)
    v = e.calculate(m, ctx.f(c.mc), ctx.f(c.delta), **kw)
    ctx.out('v', v)
    ctx.eqs(m, c.m, 'magnitudes left alone')
    for k, x in c.kw.items():
        if isinstance(x, list):
            ctx.eqs(kw[k], x, f'{k} left alone')
    ctx.reach('inputs kept')
    if kind == 'list':
        wrap = ctx.list
    else:
        def wrap(x):
            return pd.Series(list(ctx.list(x)),
                             index=list(range(len(x), 0, -1)))
    f = new(est)
    m2, kw2 = c.inputs(ctx, wrap)
    v2 = f.calculate(m2, ctx.f(c.mc), ctx.f(c.delta), **kw2)
    _same(ctx, f, v2, e, v, f'from a {kind}')
    ctx.eqs(list(m2), c.m, f'{kind} left alone')
    for k, x in c.kw.items():
        if isinstance(x, list):
            ctx.eqs(list(kw2[k]), x, f'{k} {kind} left alone')
    if kind == 'series':
        ctx.reach('series')


def quiet(ctx, est, n, conf):
    """warnings=False silences the package and changes no result"""
    c = Call(ctx, est, n, conf, 'A', ctx.flag('full'))
    res = []
    try:
        for on in (True, False):
            set_warnings(on)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                e = new(est)
                v = c.run(ctx, e)
                n_w = len([w for w in rec
                           if issubclass(w.category, UserWarning)])
            res.append((e, v, n_w))
    finally:
        set_warnings(True)
    (e1, v1, w1), (e2, v2, w2) = res
    ctx.true(w2 == 0, 'no warning when they are switched off')
    _same(ctx, e2, v2, e1, v1, 'without warnings')
    ctx.reach('quiet')
    if w1:
        ctx.reach('warned')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for est in ALL:
        for n1, n2 in ((1, 2), (2, 1), (2, 2)) if q else (
                (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 3)):
            for conf in ('dec', 'cont'):
                if q and (n1, n2) == (2, 2) and conf == 'dec':
                    continue
                out.append(('reused', dict(est=est, n1=n1, n2=n2,
                                           conf=conf)))
        for n1, n2 in ((5, 5), (8, 5), (5, 8)):
            for conf in ('dec', 'cont') if n1 == n2 else ('cont',):
                out.append(('options', dict(est=est, n1=n1, n2=n2,
                                            conf=conf)))
        for kind in ('list', 'series'):
            for conf in ('dec', 'cont'):
                out.append(('containers', dict(
                    est=est, n=2 if q and conf == 'dec' else 3, conf=conf,
                    kind=kind)))
        for conf in ('dec', 'cont'):
            out.append(('quiet', dict(est=est, n=2, conf=conf)))
            if not q:
                out.append(('quiet', dict(est=est, n=3, conf=conf)))
    out.sort(key=lambda j: -j[1].get('n', 0))
    return out
