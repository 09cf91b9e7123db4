"""C30  rate grids: time index, concatenation and forecast statistics"""
from checks.c32_catalog import frames, isna, same

PROP = 'C30'
WITNESS = ['time index', 'start time only', 'no start time', 'no end time',
           'same cells', 'new cell', 'no depth', 'concatenated',
           'concatenated again', 'different levels', 'gap', 'overlap',
           'statistics', 'extra statistics', 'missing value', 'one grid',
           'statistics per time step', 'callable', 'stripped', 'in place',
           'selected', 'plain frame', 'without grid ids', 'missing column',
           'missing column of statistics', 'cells in any order',
           'forms of times']
ASSUMPTIONS = [
    'the reference for methods inherited from pandas is the same method of a '
    'plain pandas DataFrame with the same content',
    'cells are given in any order and may repeat; bounds are exact numbers',
]
BOUNDS = dict(
    quick='1-4 cells with any bounds in two dimensions (the other two and '
          'the depths from two values or missing), any a, b, mc, alpha, '
          'number of events; 2-3 grids with start and end times in any order '
          'or missing; 1-3 realizations of 1-2 cells, any row order; mean, '
          'sum, min, max and a callable',
    thorough='5 cells; 3 realizations of 3 cells')
OUTSIDE = 'quantile and standard deviation aggregation (pandas); ' \
    'selections of a time-indexed grid renumber its cells'
BUDGET = dict(quick=120, thorough=900)

NAN = float('nan')
CELL = ('longitude_min', 'longitude_max', 'latitude_min', 'latitude_max',
        'depth_min', 'depth_max')
REQ = CELL + ('a', 'b', 'mc')
T = ('2023-01-01', '2023-01-02', '2023-06-01 12:30:00')


def _ts(k):
    import pandas as pd
    return None if k is None else pd.Timestamp(T[k])


def _less(a, b):
    """cells in the order of their bounds, missing depths last"""
    for x, y in zip(a, b):
        if isna(x) or isna(y):
            if isna(x) and isna(y):
                continue
            return isna(y)
        if bool(x < y):
            return True
        if bool(x > y):
            return False
    return False


def _rank(cells):
    """cell ids: rank of each cell among the distinct ones"""
    uniq = []
    for c in cells:
        k = 0
        while k < len(uniq) and _less(uniq[k], c):
            k += 1
        if k == len(uniq) or _less(c, uniq[k]):
            uniq.insert(k, c)
    out = []
    for c in cells:
        out.append(sum(1 for u in uniq if _less(u, c)))
    return out, uniq


def _bounds(ctx, name, n, free, nodepth=False):
    """n cells; the bounds of `free` are any values, the others are fixed"""
    out = []
    for i in range(n):
        row = []
        for c in CELL:
            if c in free:
                row.append(ctx.f(ctx.real(f'{name}{c}{i}', -180, 180)))
            elif nodepth and c.startswith('depth'):
                row.append(ctx.pick(f'{name}{c}{i}', (0.0, NAN)))
            else:
                row.append(1.0 if c.endswith('max') else 0.0)
        out.append(row)
    return out


def _grid(ctx, name, cells, start, end, cls=None, extra=(), index=None, **kw):
    from seismostats import GRRateGrid
    n = len(cells)
    d = {c: [r[j] for r in cells] for j, c in enumerate(CELL)}
    for k in ('a', 'b', 'mc') + tuple(extra):
        d[k] = [ctx.f(v) for v in ctx.reals(f'{name}{k}', n, -5, 5)]
    if 'grid_id' in kw:
        d['grid_id'] = kw.pop('grid_id')
    g = (cls or GRRateGrid)(d, index=index, name='abc', starttime=_ts(start),
                            endtime=_ts(end), **kw)
    return g, d


def _content(ctx, got, cols, label):
    """all values in the order given"""
    ctx.true(list(got.columns) == list(cols),
             f'{label}: columns {list(got.columns)}')
    n = len(next(iter(cols.values())))
    ctx.true(len(got) == n, f'{label}: {len(got)} rows')
    for k, v in cols.items():
        for i in range(n):
            same(ctx, got[k].iloc[i], v[i], f'{label}: {k} of {i}')


def _index(ctx, got, times, cells, label):
    """times and cell ids of the index"""
    ids, uniq = _rank(cells)
    ctx.true(list(got.index.names) == (
        ['starttime', 'endtime'] if len(times[0]) == 2 else ['starttime'])
        + ['cell_id'], f'{label}: levels {list(got.index.names)}')
    want = [tuple(_ts(k) for k in t) + (c,) for t, c in zip(times, ids)]
    have = [tuple(t) for t in got.index]
    ctx.true(have == want, f'{label}: index {have} for {want}')
    if len(uniq) < len(cells):
        ctx.reach('same cells')
    if ids != sorted(ids):
        ctx.reach('cells in any order')


def time_index(ctx, n, free, nodepth, forecast):
    """add_time_index: times and one number per distinct cell"""
    from seismostats import ForecastGRRateGrid, GRRateGrid
    s = ctx.pick('start', (0, None))
    e = ctx.pick('end', (1, None))
    withend = ctx.flag('endtime')
    cells = _bounds(ctx, 'g', n, free, nodepth)
    if nodepth:
        ctx.reach('no depth')
    cls = ForecastGRRateGrid if forecast else GRRateGrid
    kw = dict(grid_id=[3, 4, 3, 5, 6][:n], n_grids=7) if forecast else {}
    g, cols = _grid(ctx, 'g', cells, s, e, cls, index=[4, 4, 1, 0, 9][:n],
                    extra=('x',), **kw)
    call = (lambda: g.add_time_index(withend)) if not withend or \
        ctx.flag('explicit') else g.add_time_index
    if s is None or e is None and withend:
        ctx.raises(AttributeError, call, 'a time is missing')
        ctx.reach('no start time' if s is None else 'no end time')
        return
    got = call()
    ctx.true(type(got) is cls, f'type {type(got).__name__}')
    _content(ctx, got, cols, 'indexed')
    _index(ctx, got, [(s, e) if withend else (s,)] * n, cells, 'indexed')
    ctx.true(got.starttime == _ts(s) and got.name == 'abc' and (
        got.endtime == _ts(e) or not withend), 'attributes')
    if forecast:
        ctx.true(got.n_grids == 7, 'n_grids')
    ctx.reach('time index' if withend else 'start time only')
    _content(ctx, g, cols, 'the grid itself')
    ctx.true(g.index.nlevels == 1 and list(g.index) == [4, 4, 1, 0, 9][:n],
             'index of the grid itself')


def concat(ctx, sizes, free, nodepth=False, again=False, forecast=False):
    """concat puts all rows one after the other"""
    from seismostats import ForecastGRRateGrid, GRRateGrid
    cls = ForecastGRRateGrid if forecast else GRRateGrid
    grids, cells, times, cols = [], [], [], {}
    with_end = True
    for j, n in enumerate(sizes):
        c = _bounds(ctx, f'g{j}', n, free, nodepth)
        s, e = ctx.pick(f'time{j}', ((0, 1), (0, None), (2, 2), (0, 2))[
            :2 if j and (nodepth or len(sizes) > 2 or n > 1) else 4])
        with_end = with_end and e is not None
        kw = dict(grid_id=list(range(n))) if forecast else {}
        g, d = _grid(ctx, f'g{j}', c, s, e, cls, **kw)
        grids.append(g)
        cells += c
        times += [(s, e)] * n
        for k, v in d.items():
            cols.setdefault(k, []).extend(v)
    if not with_end:
        times = [(s,) for s, _ in times]
    else:
        for (s, e), (t, f) in zip(times, times[1:]):
            if t > e:
                ctx.reach('gap')
            if t < e and (s, e) != (t, f):
                ctx.reach('overlap')
    if again:
        grids = [cls.concat(grids[:-1]), grids[-1].add_time_index(
            with_end)] if again == 'left' else [
                g.add_time_index(with_end) for g in grids]
        if len({g.index.nlevels for g in grids}) > 1:
            ctx.raises(ValueError, lambda: cls.concat(grids), 'levels')
            ctx.reach('different levels')
            return
        ctx.reach('concatenated again')
    got = cls.concat(grids)
    ctx.true(type(got) is cls, f'type {type(got).__name__}')
    _content(ctx, got, cols, 'concatenated')
    _index(ctx, got, times, cells, 'concatenated')
    starts = [_ts(t[0]) for t in times]
    ctx.true(got.starttime == min(starts), f'starts {got.starttime}')
    ctx.true(got.endtime == (max(_ts(t[1]) for t in times) if with_end
                             else max(starts)), f'ends {got.endtime}')
    ctx.reach('concatenated')
    if len(_rank(cells)[1]) > max(sizes):
        ctx.reach('new cell')


def levels(ctx):
    """grids with and without time index cannot be mixed"""
    from seismostats import GRRateGrid
    c = [[0., 1., 0., 1., 0., 1.]]
    forms = []
    for j in range(2):
        g, _ = _grid(ctx, f'g{j}', c, 0, 1)
        form = ctx.pick(f'form{j}', (1, 2, 3))
        forms.append(form)
        grids = g if form == 1 else g.add_time_index(form == 3)
        forms[-1] = (form, grids)
    a, b = [f for f, _ in forms]
    call = lambda: GRRateGrid.concat([g for _, g in forms])  # noqa
    if a == b:
        got = ctx.not_raises(call, 'same levels')
        ctx.true(len(got) == 2, 'two rows')
    else:
        ctx.raises(ValueError, call, f'{a} and {b} levels')
        ctx.reach('different levels')


def _stat(ctx, how, vals):
    """aggregate of the values that are not missing"""
    v = [x for x in vals if not isna(x)]
    if how == 'sum':
        return sum(v[1:], v[0]) if v else ctx.const('0')
    if not v:
        return None
    if how == 'mean':
        return sum(v[1:], v[0]) * ctx.const(f'1/{len(v)}')
    out = v[0]
    for x in v[1:]:
        if bool(x < out) if how == 'min' else bool(x > out):
            out = x
    return out


def _nan(x):
    return NAN if x is None else x


def _range(x):
    return x.iloc[0] * 2 - x.iloc[-1]


STATS = ('mean', 'sum', 'min', 'max')


def statistics(ctx, cells, reals, how, extra, indexed, nodepth=False,
               cols=(), miss=None, free=(), perm=None):
    """values per cell (and time step) over all realizations"""
    import pandas as pd
    from seismostats import ForecastGRRateGrid
    if ctx.symbolic:
        from symex.core import R
        old = pd.DataFrame.select_dtypes

        def select(self, include=None, exclude=None):
            if include != 'number':
                return old(self, include, exclude)
            return self[[c for c in self.columns if len(self) and all(
                isinstance(v, (R, float, int)) for v in self[c])]]
        ctx.patch(pd.DataFrame, 'select_dtypes', select)
        from pandas.core.groupby import DataFrameGroupBy
        old_agg = DataFrameGroupBy.agg

        def agg(self, func=None, *a, **k):
            if isinstance(func, dict):
                func = {c: (lambda s, h=h: _nan(_stat(ctx, h, list(s))))
                        if h in STATS else h for c, h in func.items()}
            return old_agg(self, func, *a, **k)
        ctx.patch(DataFrameGroupBy, 'agg', agg)
    base = _bounds(ctx, 'c', cells, free or ('longitude_min',), nodepth)
    _, uniq = _rank(base)
    if len(uniq) < cells:
        ctx.assume(False)
    if nodepth:
        ctx.reach('no depth')
    order = perm or [(c, r) for r in range(reals) for c in range(cells)]
    rows = [base[c] for c, _ in order]
    g, d = _grid(ctx, 'g', rows, 0, 1, ForecastGRRateGrid, extra=cols,
                 grid_id=[r for _, r in order], n_grids=reals)
    if miss:
        for i in range(len(order)):
            if ctx.flag(f'missing{i}'):
                g[miss] = [NAN if j == i else v
                           for j, v in enumerate(g[miss])]
                d[miss][i] = NAN
                ctx.reach('missing value')
    before = {k: list(v) for k, v in d.items()}
    if indexed:
        g = g.add_time_index(indexed == 'both')
        ctx.reach('statistics per time step')
    ex = {k: (_range if k == 'range' else k) for k in extra}
    got = g.calculate_statistics(how if how != 'range' else _range, ex)
    _content(ctx, g, before, 'the grid itself')
    if how == 'range' or 'range' in extra:
        ctx.reach('callable')
    ctx.true('grid_id' not in got.columns, 'no grid ids')
    ctx.true(len(got) == len(uniq), f'{len(got)} rows for {len(uniq)} cells')
    ctx.true(len(set(got.columns)) == len(got.columns), 'columns unique')
    if indexed:
        ids, _ = _rank(base)
        have = [tuple(t) for t in got.index]
        want = [((_ts(0), _ts(1)) if indexed == 'both' else (_ts(0),)) + (k,)
                for k in range(len(uniq))]
        ctx.true(have == want, f'index {have}')
    else:
        ctx.true(list(got.index) == list(range(len(uniq))), 'index')
    for row, u in enumerate(uniq):
        members = [i for i, (c, _) in enumerate(order) if base[c] is u]
        for j, k in enumerate(CELL):
            if all(isna(v) for v in d[k]):
                ctx.true(k not in got.columns or isna(got[k].iloc[row]),
                         f'{k} missing')
            else:
                same(ctx, got[k].iloc[row], u[j], f'{k} of cell {row}')
        for k in ('a', 'b', 'mc') + tuple(cols):
            if all(isna(v) for v in d[k]):
                ctx.true(k not in got.columns or isna(got[k].iloc[row]),
                         f'{k} missing')
                continue
            vals = [d[k][i] for i in members]

            def want(h):
                return vals[0] * 2 - vals[-1] if h == 'range' else \
                    _stat(ctx, h, vals)
            same(ctx, got[k].iloc[row], want(how), f'{how} of {k}')
            for e in extra:
                if k == 'x':
                    ctx.true(f'x_{e}' not in got.columns, 'only parameters')
                    continue
                same(ctx, got[f'{k}_{e}'].iloc[row], want(e), f'{k}_{e}')
                ctx.reach('extra statistics')
        if not set(('alpha', 'number_events')) & set(cols):
            ctx.reach('missing column of statistics')
    ctx.reach('statistics')
    if reals == 1:
        ctx.reach('one grid')


def select(ctx, forecast, indexed):
    """selecting keeps type, attributes and rows"""
    import pandas as pd
    from seismostats import ForecastGRRateGrid, GRRateGrid
    cls = ForecastGRRateGrid if forecast else GRRateGrid
    kw = dict(grid_id=[0, 1, 0], n_grids=4) if forecast else {}
    cells = _bounds(ctx, 'g', 3, ())
    g, d = _grid(ctx, 'g', cells, 0, 1, cls, ('x',), **kw)
    if indexed:
        g = g.add_time_index()
    plain = pd.DataFrame(d)
    x = ctx.f(ctx.real('limit', -5, 5))
    for label, f in (('filter', lambda q: q[q['a'] > x]),
                     ('loc', lambda q: q.loc[(q['b'] <= x).to_numpy()]),
                     ('iloc', lambda q: q.iloc[[2, 0]]),
                     ('copy', lambda q: q.copy()),
                     ('assign', lambda q: q.assign(y=q['a'] + x)),
                     ('drop', lambda q: q.drop(columns='x'))):
        got, want = f(g), f(plain)
        frames(ctx, got.reset_index(drop=True), want.reset_index(drop=True),
               label)
        ctx.true(type(got) is cls, f'{label}: type {type(got).__name__}')
        ctx.true(got.name == 'abc' and got.starttime == _ts(0) and
                 got.endtime == _ts(1), f'{label}: attributes')
        if forecast:
            ctx.true(got.n_grids == 4, f'{label}: n_grids')
    ctx.reach('selected')
    got = g[['a', 'b']]
    ctx.true(type(got) is pd.DataFrame, 'a plain frame')
    ctx.reach('plain frame')
    if forecast:
        got = g.drop(columns='grid_id')
        ctx.true(type(got) is GRRateGrid, 'a rate grid')
        ctx.reach('without grid ids')


def forms(ctx):
    """start and end times in any form are times"""
    import datetime
    import numpy as np
    import pandas as pd
    from seismostats import ForecastGRRateGrid, GRRateGrid
    give = {
        'text': str, 'date': lambda t: t.to_pydatetime(),
        'numpy': lambda t: np.datetime64(t), 'time': lambda t: t}
    kw, want = {}, {}
    for i, k in enumerate(('starttime', 'endtime')):
        form = ctx.pick(k, (None,) + tuple(give))
        t = pd.Timestamp(datetime.datetime(2020 + i, 3, 4, 5, 6, 7))
        kw[k] = None if form is None else give[form](t)
        want[k] = None if form is None else t
    cls = ctx.pick('class', (GRRateGrid, ForecastGRRateGrid))
    g = cls({c: [1.0] for c in REQ}, name='abc', **kw)
    for k, v in want.items():
        t = getattr(g, k)
        if v is None:
            ctx.true(t is None or isna(t), f'no {k}')
        else:
            ctx.true(isinstance(t, pd.Timestamp) and t == v,
                     f'{k} is a time')
    if None not in want.values():
        got = g.add_time_index()
        ctx.true([tuple(t) for t in got.index]
                 == [(want['starttime'], want['endtime'], 0)], 'index')
        ctx.reach('forms of times')


def strip(ctx, forecast, inplace):
    from seismostats import ForecastGRRateGrid, GRRateGrid
    cls = ForecastGRRateGrid if forecast else GRRateGrid
    kw = dict(grid_id=[0, 1], n_grids=4) if forecast else {}
    cells = _bounds(ctx, 'g', 2, ())
    extra = tuple(k for k in ('x', 'alpha', 'number_events', 'a_std')
                  if ctx.flag(k))
    g, d = _grid(ctx, 'g', cells, 0, 1, cls, extra, **kw)
    got = g.strip(inplace=inplace)
    if inplace:
        ctx.true(got is None, 'nothing returned')
        got = g
        ctx.reach('in place')
    else:
        _content(ctx, g, d, 'the grid itself')
    _content(ctx, got, {k: v for k, v in d.items() if k not in extra},
             'stripped')
    ctx.true(type(got) is cls and got.name == 'abc' and got.starttime ==
             _ts(0) and got.endtime == _ts(1), 'type and attributes')
    ctx.reach('stripped')


def required(ctx):
    """a missing column raises AttributeError"""
    from seismostats import GRRateGrid
    drop = ctx.pick('drop', REQ)
    g = GRRateGrid({k: [1.0] for k in REQ if k != drop},
                   starttime=T[0], endtime=T[1])
    f = ctx.pick('method', ('strip', 'add_time_index'))
    ctx.raises(AttributeError, getattr(g, f), f'{f} without {drop}')
    ctx.reach('missing column')


def jobs(tier):
    q = tier == 'quick'
    lo = ('longitude_min',)
    two = ('longitude_min', 'latitude_max')
    out = [('levels', {}), ('required', {}), ('forms', {})]
    for f in (False, True):
        out.append(('time_index', dict(n=3, free=lo, nodepth=False,
                                       forecast=f)))
        for ind in (False, True):
            out.append(('select', dict(forecast=f, indexed=ind)))
            out.append(('strip', dict(forecast=f, inplace=ind)))
    out.append(('time_index', dict(n=2, free=CELL, nodepth=False,
                                   forecast=False)))
    out.append(('time_index', dict(n=2, free=lo, nodepth=True,
                                   forecast=False)))
    out.append(('time_index', dict(n=3, free=two, nodepth=False,
                                   forecast=False)))
    out += [('concat', dict(sizes=(2, 2), free=lo)),
            ('concat', dict(sizes=(1, 1), free=lo, nodepth=True)),
            ('concat', dict(sizes=(1, 2), free=lo, forecast=True)),
            ('concat', dict(sizes=(1, 1, 1), free=lo)),
            ('concat', dict(sizes=(1, 1, 1), free=lo, again='left')),
            ('concat', dict(sizes=(2, 1), free=lo, again='all'))]
    for how in STATS + ('range',):
        for ind in (False, 'both', 'start'):
            out.append(('statistics', dict(
                cells=1 if how in ('min', 'max') else 2, reals=2, how=how,
                extra=('range', 'sum') if how == 'mean' else ('mean',),
                indexed=ind, cols=('alpha', 'number_events', 'x')
                if how in ('mean', 'sum') else ())))
    for ind in (False, 'both'):
        out.append(('statistics', dict(
            cells=2, reals=2, how='mean', extra=(), indexed=ind,
            nodepth=True)))
        out.append(('statistics', dict(
            cells=2, reals=4, how='mean', extra=(), indexed=ind,
            nodepth=True, free=('longitude_max',))))
        out.append(('statistics', dict(
            cells=1, reals=3, how='mean', extra=('sum',), indexed=ind,
            miss='b')))
        out.append(('statistics', dict(
            cells=2, reals=1, how='mean', extra=('min',), indexed=ind,
            free=two)))
        out.append(('statistics', dict(
            cells=2, reals=3, how='mean', extra=('range',), indexed=ind,
            perm=[(1, 0), (0, 2), (0, 0), (1, 1), (0, 1)])))
    if not q:
        out += [('time_index', dict(n=4, free=two, nodepth=False,
                                    forecast=False)),
                ('time_index', dict(n=5, free=lo, nodepth=False,
                                    forecast=False)),
                ('concat', dict(sizes=(2, 2, 1), free=lo)),
                ('concat', dict(sizes=(3, 2), free=lo, nodepth=False)),
                ('statistics', dict(cells=3, reals=3, how='mean', extra=(
                    'range',), indexed='both')),
                ('statistics', dict(cells=3, reals=2, how='max', extra=(
                    'sum',), indexed=False, free=two))]
    return out
