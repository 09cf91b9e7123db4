"""C32  Catalog as a data frame with attributes"""
import copy
import datetime
import pickle

PROP = 'C32'
WITNESS = ['dictionary', 'frame', 'records', 'from_dict', 'number as text',
           'not a number', 'missing', 'text cleaned', 'text kept',
           'default columns', 'columns only', 'other columns', 'index kept',
           'attributes', 'filter', 'nothing left', 'sorted', 'combined',
           'plain frame', 'forecast', 'pandas method', 'ids dropped',
           'uncertainties dropped', 'stripped', 'in place', 'early time',
           'late time', 'microseconds', 'mixed times', 'missing time',
           'missing column', 'some attributes']
ASSUMPTIONS = [
    'the reference for methods inherited from pandas is the same method of a '
    'plain pandas DataFrame with the same content',
]
BOUNDS = dict(
    quick='1-3 events with any values, missing values, seven texts per text '
          'column; any index; all subsets of five ID and five uncertainty '
          'columns; times in eleven forms from the year 3 to 9999; 60 pandas '
          'methods',
    thorough='4 events, pairs of pandas methods')
OUTSIDE = 'duplicate column names; renaming the magnitude column away; ' \
    'times with other offsets than UTC; text output'
BUDGET = dict(quick=120, thorough=900)

NUM = ('longitude', 'latitude', 'depth', 'magnitude', 'usedphasecount',
       'standarderror', 'azimuthalgap')
NAN = float('nan')
ATTR = ('name', 'mc', 'a_value', 'delta_m', 'b_value', 'starttime',
        'endtime', 'bounding_polygon', 'depth_min', 'depth_max')
T0 = ['2020-01-01', '2019-05-06', '2021-07-08', '2018-02-03']


def isna(x):
    import pandas as pd
    from symex.npshim import isnan1
    if x is None or x is pd.NaT:
        return True
    return not isinstance(x, (str, datetime.datetime)) and bool(isnan1(x))


def same(ctx, a, b, label):
    """two cells hold the same value"""
    if a is b:
        return
    if isna(a) or isna(b):
        ctx.true(isna(a) and isna(b), f'{label}: {a} for {b}')
    elif isinstance(b, (str, bool, datetime.datetime)) or \
            type(b).__name__ in ('bool_', 'bool'):
        ctx.true(bool(a == b), f'{label}: {a} for {b}')
    elif isinstance(b, (tuple, list)):
        ctx.true(list(a) == list(b), label)
    else:
        ctx.eq(a, b, label)


def frames(ctx, a, b, label):
    """same columns, index and cells"""
    import pandas as pd
    if isinstance(b, pd.DataFrame):
        ctx.true(isinstance(a, pd.DataFrame), f'{label}: a frame')
        ctx.true([str(c) for c in a.columns] == [str(c) for c in b.columns],
                 f'{label}: columns {list(a.columns)}')
        ctx.true(len(a) == len(b) and [str(i) for i in a.index] == [
            str(i) for i in b.index], f'{label}: index {list(a.index)}')
        for j in range(len(b.columns)):
            for i in range(len(b)):
                same(ctx, a.iloc[i, j], b.iloc[i, j],
                     f'{label}: {b.columns[j]} of {i}')
    elif isinstance(b, pd.Series):
        ctx.true(len(a) == len(b) and [str(i) for i in a.index] == [
            str(i) for i in b.index], f'{label}: index {list(a.index)}')
        for i in range(len(b)):
            same(ctx, a.iloc[i], b.iloc[i], f'{label}: {i}')
    elif isinstance(b, (list, tuple)):
        ctx.true(len(a) == len(b), f'{label}: length')
        for x, y in zip(a, b):
            frames(ctx, x, y, label)
    elif isinstance(b, dict):
        ctx.true(list(a) == list(b), f'{label}: keys')
        for k in b:
            frames(ctx, a[k], b[k], label)
    else:
        same(ctx, a, b, label)


def _attrs(ctx, lots=True):
    import pandas as pd
    d = dict(mc=ctx.f(ctx.real('mc', -2, 5)),
             delta_m=ctx.f(ctx.real('delta_m', 0, 1)),
             b_value=ctx.f(ctx.real('b', 0, 3)))
    if lots:
        d.update(name='abc', a_value=ctx.f(ctx.real('a', -5, 9)),
                 starttime=pd.Timestamp('2001-02-03'),
                 endtime=pd.Timestamp('2022-02-03'),
                 bounding_polygon='POLYGON ((0 0, 1 0, 1 1, 0 0))',
                 depth_min=ctx.f(ctx.real('dmin', -9, 9)),
                 depth_max=ctx.f(ctx.real('dmax', 9, 99)))
    return d


def _has_attrs(ctx, cat, want, label):
    for k in ATTR:
        w = want.get(k)
        got = getattr(cat, k)
        if w is None:
            ctx.true(got is None or isna(got), f'{label}: {k} is {got}')
        else:
            same(ctx, got, w, f'{label}: {k}')
    ctx.reach('attributes')


def _cols(ctx, n, forecast=False, extra=True):
    c = {k: [ctx.f(v) for v in ctx.reals(k, n, -90, 90)]
         for k in ('longitude', 'latitude', 'magnitude')}
    c['depth'] = [NAN if i == n - 1 and n > 1 else ctx.f(ctx.real(
        f'depth{i}', 0, 99)) for i in range(n)]
    c['time'] = T0[:n]
    c['magnitude_type'] = ['ML', 'Mw', 'ML', 'MLv'][:n]
    if extra:
        c['x'] = [ctx.f(v) for v in ctx.reals('x', n, -9, 9)]
    if forecast:
        c['catalog_id'] = [0, 3, 0, 1][:n]
    return c


def _plain(cols, index=None):
    import pandas as pd
    d = pd.DataFrame(dict(cols), index=index)
    d['time'] = pd.to_datetime(d['time'])
    return d


def construct(ctx, how, n, col):
    """columns of a new catalog"""
    import pandas as pd
    from seismostats import Catalog, ForecastCatalog
    vals, want = [], []
    for i in range(n):
        kind = ctx.pick(f'kind{i}', ('value', 'missing', 'text', 'junk'))
        v = ctx.real(f'v{i}', -50, 50)
        if kind == 'value':
            vals.append(ctx.f(v))
        elif kind == 'missing':
            vals.append(ctx.pick(f'none{i}', (None, NAN)))
            ctx.reach('missing')
        elif kind == 'text':
            vals.append(ctx.pick(f'num{i}', ('1.5', '-2', '3e1', ' 7 ')))
            v = ctx.const(str(float(vals[-1])))
            ctx.reach('number as text')
        else:
            vals.append(ctx.pick(f'junk{i}', ('', 'abc', 'nan', '1,5')))
            ctx.reach('not a number')
        want.append(v if kind in ('value', 'text') else None)
    data = {'other': ['p', None, 'q'][:n], col: vals}
    if col != 'magnitude':
        data['magnitude'] = [ctx.f(ctx.real(f'm{i}', 0, 5))
                             for i in range(n)]
    index = [7, 7, -1][:n]
    attrs = _attrs(ctx, False)
    cls = Catalog
    if how == 'forecast':
        cls = ForecastCatalog
        ctx.reach('forecast')
    src = data
    if how == 'dict' or how == 'forecast':
        cat = cls(data, index=index, **attrs)
        ctx.reach('dictionary')
    elif how == 'frame':
        src = pd.DataFrame(data, index=index)
        old = src.copy()
        cat = cls(src, **attrs)
        ctx.true(list(src.columns) == list(old.columns) and all(
            x is y or x == y or isna(x) and isna(y) for k in old.columns
            for x, y in zip(src[k], old[k])), 'the frame is not changed')
        ctx.reach('frame')
    elif how == 'records':
        cat = cls([{k: v[i] for k, v in data.items()} for i in range(n)],
                  index=index, **attrs)
        ctx.reach('records')
    else:
        cat = cls.from_dict([{k: v[i] for k, v in data.items()}
                             for i in range(n)])
        index, attrs = list(range(n)), {}
        ctx.reach('from_dict')
    ctx.true(type(cat) is cls, 'type')
    ctx.true(list(cat.columns) == list(data), 'columns')
    ctx.true(list(cat.index) == index, 'index kept')
    ctx.reach('index kept')
    ctx.reach('other columns')
    for i in range(n):
        same(ctx, cat[col].iloc[i], want[i], f'{col} of {i}')
        same(ctx, cat['other'].iloc[i], data['other'][i], 'other')
        if col != 'magnitude':
            same(ctx, cat['magnitude'].iloc[i], data['magnitude'][i], 'mag')
    _has_attrs(ctx, cat, attrs, 'new')


def texts(ctx, col, n):
    """missing texts are None, others are kept"""
    from seismostats import Catalog
    vals, want = [], []
    for i in range(n):
        v = ctx.pick(f't{i}', ('', 'nan', 'NaN', 'none', 'None', 'na', 'NA',
                               'null', 'NULL', None, 'ML', 'earthquake', ' ',
                               'none of these', 'Nano', 'n'))
        vals.append(v)
        clean = v is None or v in ('', 'nan', 'NaN', 'none', 'None', 'na',
                                   'NA', 'null', 'NULL')
        want.append(None if clean else v)
        ctx.reach('text cleaned' if clean else 'text kept')
    cat = Catalog({'magnitude': [1.0] * n, col: vals, 'remark': vals})
    for i in range(n):
        ctx.true(cat[col].iloc[i] is None if want[i] is None else
                 cat[col].iloc[i] == want[i], f'{col}: {cat[col].iloc[i]!r} '
                 f'for {vals[i]!r}')
        ctx.true(cat['remark'].iloc[i] == vals[i] or vals[i] is None,
                 'other columns untouched')


def defaults(ctx):
    from seismostats import Catalog
    import pandas as pd
    attrs = _attrs(ctx)
    full = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
            'magnitude_type']
    for label, f, want, n in (
            ('nothing', lambda: Catalog(**attrs), full, 0),
            ('empty dictionary', lambda: Catalog({}, **attrs), full, 0),
            ('empty frame', lambda: Catalog(pd.DataFrame(), **attrs), full,
             0),
            ('empty list', lambda: Catalog([], **attrs), full, 0),
            ('index', lambda: Catalog(index=[4, 2], **attrs), full, 2),
            ('columns', lambda: Catalog(columns=['x', 'magnitude'], **attrs),
             ['x', 'magnitude'], 0),
            ('no columns', lambda: Catalog(columns=[], **attrs), full, 0),
            ('columns and index', lambda: Catalog(
                columns=['magnitude'], index=[1, 2, 3], **attrs),
             ['magnitude'], 3)):
        cat = ctx.not_raises(f, label)
        ctx.true(type(cat) is Catalog, f'{label}: type')
        ctx.true(list(cat.columns) == want, f'{label}: {list(cat.columns)}')
        ctx.true(len(cat) == n, f'{label}: {len(cat)} rows')
        _has_attrs(ctx, cat, attrs, label)
    ctx.reach('default columns')
    ctx.reach('columns only')


def subsets(ctx, data):
    """any two attributes given alone, or all but these; set later"""
    import datetime
    import pandas as pd
    from seismostats import Catalog
    full = _attrs(ctx)
    full['depth_max'] = ctx.f(ctx.real('dmax', -20, 99))
    form = ctx.pick('form', ('stamp', 'text', 'date'))
    give = dict(full)
    for k in ('starttime', 'endtime'):
        if form == 'text':
            give[k] = str(full[k])
        elif form == 'date':
            give[k] = full[k].to_pydatetime()
    i = ctx.pick('first', range(len(ATTR)))
    j = ctx.pick('second', range(i, len(ATTR)))
    names = {ATTR[i], ATTR[j]}
    if ctx.flag('others'):
        names = set(ATTR) - names
    d = {'magnitude': [1.0, 2.0]}
    cat = Catalog(d, **{k: give[k] for k in names}) if data else \
        Catalog(**{k: give[k] for k in names})
    want = {k: full[k] for k in names}
    _has_attrs(ctx, cat, want, 'some attributes')
    for k in ('starttime', 'endtime'):
        if k in names:
            ctx.true(isinstance(getattr(cat, k), pd.Timestamp), f'{k} a time')
    other = cat.copy()
    new = ATTR[i]
    v = full[new] if new not in names else (
        None if new not in ('starttime', 'endtime') else
        pd.Timestamp(datetime.datetime(1999, 1, 1)))
    setattr(other, new, v)
    _has_attrs(ctx, other, {**want, new: v}, 'an attribute set')
    _has_attrs(ctx, other[other['magnitude'] >= 2], {**want, new: v},
               'an attribute set, selected')
    _has_attrs(ctx, cat, want, 'the catalog copied')
    ctx.reach('some attributes')


ISO = (  # text, time
    ('2020-01-02T03:04:05', (2020, 1, 2, 3, 4, 5)),
    ('2020-01-02T03:04:05.5', (2020, 1, 2, 3, 4, 5, 500000)),
    ('1999-12-31T23:59:59.999999', (1999, 12, 31, 23, 59, 59, 999999)),
    ('2020-01-02T03:04:05.000001Z', (2020, 1, 2, 3, 4, 5, 1)),
    ('1970-01-01T00:00:00Z', (1970, 1, 1)),
    ('1600-02-29T12:00:00', (1600, 2, 29, 12)),
    ('0999-01-01T00:00:00.25Z', (999, 1, 1, 0, 0, 0, 250000)),
    ('79-08-24T13:00:00', (79, 8, 24, 13)),
    ('0003-08-24T13:00:00.000010', (3, 8, 24, 13, 0, 0, 10)),
    ('9999-12-31T23:59:59.125Z', (9999, 12, 31, 23, 59, 59, 125000)),
    (None, None),
    ('datetime', (2021, 2, 3, 4, 5, 6, 7)),
    ('timestamp', (1914, 7, 28, 9, 9, 9, 123456)),
)


def times(ctx, n, first):
    """times as texts, datetimes or missing, of any year"""
    import pandas as pd
    from seismostats import Catalog
    vals, want = [], []
    for i in range(n):
        k = first if i == 0 else ctx.pick(f'time{i}', range(len(ISO)))
        s, w = ISO[k]
        w = w and datetime.datetime(*w)
        vals.append(w if s == 'datetime' else
                    pd.Timestamp(w) if s == 'timestamp' else s)
        want.append(w)
        if w is None:
            ctx.reach('missing time')
        elif w.year < 1677:
            ctx.reach('early time')
        elif w.year > 2262:
            ctx.reach('late time')
        if w and w.microsecond:
            ctx.reach('microseconds')
    if len({str(v).endswith('Z') for v in vals}) > 1:
        ctx.reach('mixed times')
    # a time without leading zeros is read only where pandas does not apply
    if any(v and str(v).startswith('79') for v in vals) and \
            all(w is None or 1677 < w.year < 2262 or w.year == 79
                for w in want):
        ctx.assume(False)
    cat = Catalog(dict(time=vals, magnitude=[1.0] * n))
    for i in range(n):
        same(ctx, cat['time'].iloc[i], want[i], f'{vals}')
    # and again when the catalog is rebuilt
    cut = cat[cat['magnitude'] > 0]
    for i in range(n):
        same(ctx, cut['time'].iloc[i], want[i], f'rebuilt {vals}')


def _mk(ctx, n, forecast, index=None, lots=True):
    from seismostats import Catalog, ForecastCatalog
    cols = _cols(ctx, n, forecast)
    attrs = _attrs(ctx, lots)
    index = index or [5, 2, 2, 0][:n]
    if forecast:
        ctx.reach('forecast')
        cat = ForecastCatalog(cols, index=index, n_catalogs=9, **attrs)
    else:
        cat = Catalog(cols, index=index, **attrs)
    return cat, _plain(cols, index), attrs


def _kept(ctx, got, cls, attrs, label):
    ctx.true(type(got) is cls, f'{label}: type {type(got).__name__}')
    _has_attrs(ctx, got, attrs, label)
    if cls.__name__ == 'ForecastCatalog':
        ctx.true(got.n_catalogs == 9, f'{label}: n_catalogs')


def _select(ctx, d, op, x):
    import pandas as pd
    if op == '>':
        return d[d['magnitude'] > x]
    if op == 'loc':
        return d.loc[d['magnitude'] <= x]
    if op == 'sort':
        return d.sort_values('magnitude', kind='stable')
    if op == 'down':
        return d.sort_values('magnitude', ascending=False, kind='stable')
    if op == 'reset':
        return d[d['magnitude'] >= x].reset_index(drop=True)
    if op == 'two':
        return d[d['magnitude'] > x].sort_values('time')
    if op == 'dropna':
        return d.dropna(subset=['depth'])
    if op == 'assign':
        return d.assign(magnitude=d['magnitude'] + x)
    if op == 'concat':
        return pd.concat([d[d['magnitude'] > x], d])
    if op == 'merge':
        return d.merge(pd.DataFrame({'time': pd.to_datetime(T0[:3]),
                                     'y': [1, 2, 3]}), on='time')
    if op == 'iloc':
        return d.iloc[::-1]
    if op == 'copy':
        return d.copy()
    if op == 'deepcopy':
        return copy.deepcopy(d)
    if op == 'columns':
        return d[[c for c in d.columns if c != 'x']]
    if op == 'head':
        return d.head(2)
    if op == 'index':
        return d.set_index('x')
    raise KeyError(op)


SELECT = ('>', 'loc', 'sort', 'down', 'reset', 'two', 'dropna', 'assign',
          'concat', 'merge', 'iloc', 'copy', 'deepcopy', 'columns', 'head',
          'index')


def select(ctx, op, n, forecast):
    """selecting, sorting and combining keeps type, attributes and events"""
    cat, plain, attrs = _mk(ctx, n, forecast)
    x = ctx.f(ctx.real('limit', -90, 90))
    if op in ('sort', 'down'):
        m = list(plain['magnitude'])
        for i in range(n):
            for j in range(i):
                ctx.assume_ne(m[i], m[j])
        ctx.reach('sorted')
    if op in ('concat', 'merge'):
        ctx.reach('combined')
    got = _select(ctx, cat, op, x)
    want = _select(ctx, plain, op, x)
    frames(ctx, got, want, op)
    if op == '>':
        ctx.reach('filter' if len(want) else 'nothing left')
    _kept(ctx, got, type(cat), attrs, op)
    frames(ctx, cat, plain, 'the catalog itself')
    _kept(ctx, cat, type(cat), attrs, 'the catalog itself')


def lost(ctx, n, forecast):
    """without magnitudes it is a plain frame, without catalog ids a catalog"""
    import pandas as pd
    from seismostats import Catalog
    cat, plain, attrs = _mk(ctx, n, forecast)
    for label, f in (('columns', lambda d: d[['time', 'depth']]),
                     ('drop', lambda d: d.drop(columns='magnitude'))):
        got = f(cat)
        ctx.true(type(got) is pd.DataFrame, f'{label}: plain frame')
        frames(ctx, got, f(plain), label)
        ctx.reach('plain frame')
    if forecast:
        got = cat.drop(columns='catalog_id')
        ctx.true(type(got) is Catalog, 'a catalog')
        _has_attrs(ctx, got, attrs, 'without catalog ids')
        frames(ctx, got, plain.drop(columns='catalog_id'), 'no catalog ids')


METHODS = dict(
    T=lambda d: d.T, transpose=lambda d: d.transpose(),
    apply_rows=lambda d: d.apply(lambda r: r['magnitude'], axis=1),
    apply_frame=lambda d: d.apply(lambda r: r, axis=1),
    apply_series=lambda d: d.apply(
        lambda r: __import__('pandas').Series([r['magnitude'], 2]), axis=1),
    apply_columns=lambda d: d.apply(lambda c: c),
    map=lambda d: d[['magnitude', 'depth']].map(lambda v: v),
    isna=lambda d: d.isna(), notna=lambda d: d.notna(),
    isin=lambda d: d.isin(['ML']), dropna=lambda d: d.dropna(),
    dropna_columns=lambda d: d.dropna(axis=1),
    fillna=lambda d: d.fillna({'depth': 0}),
    melt=lambda d: d.melt(),
    stack=lambda d: d.stack(),
    unstack=lambda d: d.reset_index(drop=True).unstack(),
    where=lambda d: d.where(d['magnitude_type'] == 'ML'),
    mask=lambda d: d.mask(d['magnitude_type'] == 'ML'),
    shift=lambda d: d.shift(1), iterrows=lambda d: [
        r for _, r in d.iterrows()],
    items=lambda d: [c for _, c in d.items()],
    row=lambda d: d.iloc[0], cell=lambda d: d.iat[0, 2],
    groups=lambda d: [g for _, g in d.groupby('magnitude_type')],
    first=lambda d: d.groupby('magnitude_type').first(),
    apply_groups=lambda d: d.groupby('magnitude_type')[
        ['magnitude', 'time']].apply(lambda g: g.head(1)),
    reindex=lambda d: d.reset_index(drop=True).reindex([1, 9]),
    join=lambda d: d.reset_index(drop=True).join(
        __import__('pandas').DataFrame({'y': [1, 2, 3]})),
    to_dict=lambda d: d.reset_index(drop=True).to_dict('records'),
    duplicated=lambda d: d.duplicated('magnitude_type'),
    drop_duplicates=lambda d: d.drop_duplicates('magnitude_type'),
    select_dtypes=lambda d: d.select_dtypes('datetime'),
    filter=lambda d: d.filter(like='mag'), pop=lambda d: d.copy().pop('x'),
    combine_first=lambda d: d.reset_index(drop=True).combine_first(
        d.reset_index(drop=True)),
    explode=lambda d: d.explode('magnitude_type'),
    insert=lambda d: _inserted(d), add_suffix=lambda d: d.add_suffix('_1'),
    xs=lambda d: d.xs(5), get=lambda d: d.get('depth'),
    swapaxes=lambda d: d.swapaxes(0, 1), sort_index=lambda d: d.sort_index(
        kind='stable'),
    add=lambda d: d[['magnitude', 'x']] + 1,
    negative=lambda d: -d[['magnitude', 'x']],
    product=lambda d: d['magnitude'] * d['x'],
    total=lambda d: d['magnitude'].sum(),
    between=lambda d: d[['time']].min(), size=lambda d: d.size,
    eval=lambda d: d.assign(y=lambda e: e['magnitude'] * 2),
    iloc_list=lambda d: d.iloc[[0, 0]], align=lambda d: list(
        d.reset_index(drop=True).align(d.reset_index(drop=True))),
    value_counts=lambda d: d['magnitude_type'].value_counts(),
    squeeze=lambda d: d[['magnitude']].squeeze(axis=1),
    truncate=lambda d: d.reset_index(drop=True).truncate(1, 2),
    set_index=lambda d: d.set_index('time'),
)


def _inserted(d):
    d = d.copy()
    d.insert(1, 'z', 4)
    return d


def methods(ctx, which, n, forecast):
    """methods inherited from pandas give what they give for a plain frame"""
    import warnings
    cat, plain, attrs = _mk(ctx, n, forecast, lots=False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in which:
            want = METHODS[k](plain.copy())
            got = ctx.not_raises(lambda k=k: METHODS[k](cat), k)
            frames(ctx, got, want, k)
    ctx.reach('pandas method')
    frames(ctx, cat, plain, 'the catalog itself')


FLOAT = dict(
    corr=lambda d: d[['magnitude', 'x']].corr(),
    cov=lambda d: d[['magnitude', 'x']].cov(),
    dot=lambda d: d[['magnitude', 'x']].dot(d[['magnitude', 'x']].T),
    describe=lambda d: d[['magnitude', 'x']].describe(),
    rank=lambda d: d[['magnitude', 'x']].rank(),
    cumsum=lambda d: d[['magnitude', 'x']].cumsum(),
    quantile=lambda d: d[['magnitude', 'x']].quantile([0.1, 0.5]),
    mode=lambda d: d[['magnitude', 'x']].mode(),
    nlargest=lambda d: d.nlargest(2, 'magnitude'),
    agg=lambda d: d[['magnitude', 'x']].agg(['min', 'max']),
    pivot=lambda d: d.pivot_table(index='magnitude_type',
                                  values='magnitude'),
    mean=lambda d: d.groupby('magnitude_type')[['magnitude', 'x']].mean(),
    compare=lambda d: d.compare(d),
    diff=lambda d: d[['magnitude', 'x']].diff(),
    clip=lambda d: d[['magnitude', 'x']].clip(1, 2),
    pickle=lambda d: pickle.loads(pickle.dumps(d)),
)


def float_methods(ctx, forecast):
    """numeric pandas methods, for a few values"""
    import warnings
    from seismostats import Catalog, ForecastCatalog
    k = ctx.pick('method', sorted(FLOAT))
    m = [ctx.pick(f'm{i}', (1.0, 2.5)) for i in range(2)] + [2.0]
    cols = dict(magnitude=m, x=[1.0, -2.0, 0.5], time=T0[:3],
                magnitude_type=['ML', 'Mw', 'ML'])
    if forecast:
        cols['catalog_id'] = [0, 1, 1]
    cat = (ForecastCatalog if forecast else Catalog)(cols)
    plain = _plain(cols)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = ctx.not_raises(lambda: FLOAT[k](cat), k)
        frames(ctx, got, FLOAT[k](plain), k)
    if k == 'pickle':
        ctx.true(type(got) is type(cat), 'type')
    ctx.reach('pandas method')


IDS = ('eventID', 'originID', 'magnitudeID', 'magnitude_ML_magnitudeID',
       'IDs')
DECOYS = ('catalogID', 'stationID', 'eventid', 'eventID_old', 'ID', 'my_ID',
          'my_uncertainties', 'Uncertainty', 'confidence', 'uncertainty_type')
UNC = ('magnitude_uncertainty', 'depth_lowerUncertainty',
       'latitude_upperUncertainty', 'magnitude_Mw_confidenceLevel',
       'uncertainty_of_x')


def drop(ctx, which, forecast):
    """drop_ids and drop_uncertainties drop these columns and no others"""
    cat, plain, attrs = _mk(ctx, 2, forecast)
    names = [k for k in IDS + UNC if k in which or ctx.flag(k)]
    if ctx.flag('decoys'):
        names = names[:3] + list(DECOYS) + names[3:]
    for i, k in enumerate(names):
        v = [ctx.f(ctx.real(f'{k}{j}', 0, 9)) for j in range(2)]
        cat[k] = v
        plain[k] = v
    which_ids = set(IDS) == set(which)
    drop = [k for k in names if k in (UNC if which_ids else IDS)[:4]]
    got = cat.drop_uncertainties() if which_ids else cat.drop_ids()
    ctx.reach('uncertainties dropped' if which_ids else 'ids dropped')
    frames(ctx, got, plain.drop(columns=drop), 'dropped')
    _kept(ctx, got, type(cat), attrs, 'dropped')
    frames(ctx, cat, plain, 'the catalog itself')


def strip(ctx, inplace, forecast):
    """strip keeps exactly the required columns"""
    cat, plain, attrs = _mk(ctx, 2, forecast)
    for k in ('eventID', 'event_type', 'y', 'magnitude_ML', 0):
        if ctx.flag(f'has {k}'):
            cat[k] = ['a', 'b']
            plain[k] = ['a', 'b']
    keep = ['longitude', 'latitude', 'magnitude', 'depth', 'time',
            'magnitude_type'] + ['catalog_id'] * forecast
    got = cat.strip(inplace=inplace)
    if inplace:
        ctx.true(got is None, 'nothing returned')
        ctx.reach('in place')
        got = cat
    else:
        frames(ctx, cat, plain, 'the catalog itself')
    ctx.reach('stripped')
    frames(ctx, got, plain[[c for c in plain.columns if c in keep]], 'strip')
    _kept(ctx, got, type(cat), attrs, 'strip')


NEED = dict(
    strip=('longitude', 'latitude', 'depth', 'time', 'magnitude',
           'magnitude_type'),
    to_quakeml=('longitude', 'latitude', 'depth', 'time', 'magnitude',
                'magnitude_type'),
    bin_magnitudes=('magnitude',), estimate_mc_maxc=('magnitude',),
    estimate_mc_b_stability=('magnitude',), estimate_mc_ks=('magnitude',),
    estimate_b=('magnitude',), estimate_a=('magnitude',),
    plot_in_space=('longitude', 'latitude', 'magnitude'),
    plot_cum_count=('time', 'magnitude'),
    plot_mags_in_time=('time', 'magnitude'),
    plot_cum_fmd=('magnitude',), plot_fmd=('magnitude',),
    plot_mc_vs_b=('magnitude',))


def required(ctx, method):
    """a missing column raises AttributeError that names it, every time"""
    from seismostats import Catalog
    miss = [c for c in NEED[method] if ctx.flag(f'no {c}')]
    if not miss:
        ctx.assume(False)
    cols = {c: ['2020-01-01'] if c == 'time' else [1.0]
            for c in NEED['strip'] if c not in miss}
    cols['z'] = [1]
    cat = Catalog(cols)
    for _ in range(2):
        try:
            getattr(cat, method)()
        except AttributeError as e:
            ctx.true(all(f"'{c}'" in str(e) for c in miss) and not any(
                f"'{c}'" in str(e) for c in cols), f'{method}: {e}')
        else:
            ctx.true(False, f'{method} without {miss}')
    ctx.reach('missing column')


def jobs(tier):
    q = tier == 'quick'
    out = [('subsets', dict(data=True)), ('subsets', dict(data=False)),
           ('defaults', {})]
    for how in ('dict', 'frame', 'records', 'from_dict', 'forecast'):
        out.append(('construct', dict(how=how, n=1, col='magnitude')))
        out.append(('construct', dict(how=how, n=2, col='depth')))
    for col in NUM:
        out.append(('construct', dict(how='dict', n=1 if q else 2, col=col)))
    for col in ('magnitude_type', 'event_type'):
        out.append(('texts', dict(col=col, n=2)))
    for k in range(len(ISO)):
        out.append(('times', dict(n=2 if q else 3, first=k)))
    for f in (False, True):
        for op in SELECT:
            out.append(('select', dict(
                op=op, n=2 if f else 3 if q else 4, forecast=f)))
        out.append(('lost', dict(n=2, forecast=f)))
        out.append(('float_methods', dict(forecast=f)))
        names = sorted(METHODS)
        for i in range(0, len(names), 10):
            out.append(('methods', dict(which=names[i:i + 10], n=3,
                                        forecast=f)))
        for inplace in (False, True):
            out.append(('strip', dict(inplace=inplace, forecast=f)))
    out.append(('drop', dict(which=IDS, forecast=False)))
    out.append(('drop', dict(which=UNC, forecast=False)))
    out.append(('drop', dict(which=UNC, forecast=True)))
    for m in NEED:
        out.append(('required', dict(method=m)))
    return out
