"""C26  conversion from and to OpenQuake catalogues"""
import datetime

from checks.c32_catalog import isna, same

PROP = 'C26'
KEEP_IMPORTS = ('openquake',)
WITNESS = ['from openquake', 'to openquake', 'round trip', 'early time',
           'late time', 'time columns kept', 'microseconds', 'rounded up',
           'own ids', 'ids made', 'no text column', 'empty columns',
           'empty catalogue', 'empty catalog', 'missing value',
           'missing column', 'no openquake', 'flags']
ASSUMPTIONS = [
    'times are among a list with leap days, ends of years and seconds whose '
    'floats are just below or above a microsecond; years outside 1677-2262 '
    'are read to the second',
]
BOUNDS = dict(
    quick='1-3 events with any values and every pattern of missing ones; '
          'times from the year 1 to 9999; text, flag and number columns; '
          'every combination of empty OpenQuake columns',
    thorough='every pair of times')
OUTSIDE = 'OpenQuake catalogues without hours, minutes or seconds; missing ' \
    'times; IDs partly missing'
BUDGET = dict(quick=120, thorough=900)

NAN = float('nan')
NUM = ('longitude', 'latitude', 'depth', 'magnitude')
TIME = ('year', 'month', 'day', 'hour', 'minute', 'second')
WHEN = (  # seconds as float, time
    ((2020, 2, 29, 23, 59), 59.999999, (2020, 2, 29, 23, 59, 59, 999999)),
    ((1999, 12, 31, 0, 0), 0.0, (1999, 12, 31)),
    ((1970, 1, 1, 1, 2), 13.1234, (1970, 1, 1, 1, 2, 13, 123400)),
    ((1969, 12, 31, 23, 59), 0.000001, (1969, 12, 31, 23, 59, 0, 1)),
    ((2000, 1, 1, 0, 0), 0.29, (2000, 1, 1, 0, 0, 0, 290000)),
    ((2001, 12, 31, 23, 59), 59.99999999, (2002, 1, 1)),
    ((2262, 4, 11, 23, 47), 16.0, (2262, 4, 11, 23, 47, 16)),
    ((1678, 1, 1, 0, 0), 5.000007, (1678, 1, 1, 0, 0, 5, 7)),
    ((1600, 2, 29, 12, 0), 7.0, (1600, 2, 29, 12, 0, 7)),
    ((1, 1, 1, 0, 0), 0.0, (1, 1, 1)),
    ((9999, 12, 31, 23, 59), 59.0, (9999, 12, 31, 23, 59, 59)),
    ((1500, 6, 7, 8, 9), 10.75, (1500, 6, 7, 8, 9, 10, 750000)),
)


def _early(i):
    return not 1677 < WHEN[i][0][0] < 2263


def _vals(ctx, name, n, miss):
    return [NAN if miss and ctx.flag(f'{name}{i} missing')
            else ctx.f(ctx.real(f'{name}{i}', -90, 90)) for i in range(n)]


def _oq(ctx, cols, which):
    """an OpenQuake catalogue with these columns and times"""
    import numpy as np
    from openquake.hmtk.seismicity.catalogue import Catalogue
    data = dict(cols)
    for j, k in enumerate(TIME[:-1]):
        data[k] = np.array([WHEN[i][0][j] for i in which], dtype=int)
    data['second'] = np.array([WHEN[i][1] for i in which], dtype=float)
    return Catalogue.make_from_dict(data)


def _cols(ctx, n, text, miss=()):
    import numpy as np
    c = {}
    for k in NUM:
        v = _vals(ctx, k, n, k in miss)
        if any(isna(x) for x in v):
            ctx.reach('missing value')
        c[k] = ctx.array(v) if not all(isna(x) for x in v) else np.array(v)
    if text:
        c['eventID'] = [f'ev{i}' for i in range(n)]
        c['comment'] = ['', 'b', 'c'][:n]
    return c


def read(ctx, which, text, keep=False, miss=(), empty=()):
    """from_openquake: one event per event with the same values"""
    import numpy as np
    from seismostats import Catalog
    n = len(which)
    cols = _cols(ctx, n, text, miss)
    full = dict(cols)
    for k in empty:
        if ctx.flag(f'empty {k}'):
            full[k] = [] if k in ('Agency', 'magnitudeType') else \
                np.array([])
            ctx.reach('empty columns')
    oq = _oq(ctx, full, which)
    before = {k: list(v) for k, v in oq.data.items()}
    cat = Catalog.from_openquake(oq, *((True,) if keep else ()))
    ctx.true(type(cat) is Catalog and len(cat) == n, 'a catalog')
    for k in full:
        if k not in cols:
            ctx.true(k not in cat.columns, f'no column {k}')
            continue
        for i in range(n):
            same(ctx, cat[k].iloc[i], list(cols[k])[i], f'{k} of {i}')
    early = any(_early(i) for i in which)
    for i, w in enumerate(which):
        want = datetime.datetime(*WHEN[w][2])
        if early:
            a, s, _ = WHEN[w]
            want = datetime.datetime(*a, int(s))
        ctx.true(cat['time'].iloc[i] == want,
                 f'time {cat["time"].iloc[i]} for {WHEN[w]}')
        if _early(w):
            ctx.reach('early time' if WHEN[w][0][0] < 2000 else 'late time')
        elif want.microsecond:
            ctx.reach('microseconds')
        if WHEN[w][1] > 59.9999995:
            ctx.reach('rounded up')
    for j, k in enumerate(TIME):
        ctx.true((k in cat.columns) == keep, f'column {k}')
        if keep:
            for i, w in enumerate(which):
                v = WHEN[w][0][j] if j < 5 else int(WHEN[w][1])
                ctx.true(cat[k].iloc[i] == v, f'{k} of {i}')
            ctx.reach('time columns kept')
    ctx.true(('microsecond' in cat.columns) == keep, 'microseconds')
    ctx.true(set(before) == set(oq.data) and all(
        len(v) == len(oq.data[k]) and all(
            x is y or x == y or isna(x) and isna(y)
            for x, y in zip(v, oq.data[k])) for k, v in before.items()),
        'the catalogue is not changed')
    if not text:
        ctx.reach('no text column')
    ctx.reach('from openquake')


def write(ctx, which, ids, miss=(), index=None, back=True, same_ids=False):
    """to_openquake and back"""
    from openquake.hmtk.seismicity.catalogue import Catalogue
    from seismostats import Catalog
    n = len(which)
    cols = {k: _vals(ctx, k, n, k in miss) for k in NUM}
    if any(isna(x) for v in cols.values() for x in v):
        ctx.reach('missing value')
    times = [datetime.datetime(*WHEN[w][2]) for w in which]
    cols['time'] = times
    cols['x'] = [ctx.f(v) for v in ctx.reals('x', n, -9, 9)]
    cols['remark'] = ['p', None, 'q'][:n]
    cols['flagged'] = [True, False, True][:n]
    cols['y'] = [2.5, NAN, -1.0][-n:]
    cols['k'] = [3, 4, 5][:n]
    ctx.reach('flags')
    if ids:
        cols['eventID'] = ['ev0' if same_ids else f'ev{i}' for i in range(n)]
    cat = Catalog(cols, index=index)
    before = [(k, list(cat[k])) for k in cat.columns]
    oq = cat.to_openquake()
    ctx.true([k for k, _ in before] == list(cat.columns) and all(
        x is y or x == y or isna(x) and isna(y) for k, v in before
        for x, y in zip(v, cat[k])), 'the catalog is not changed')
    ctx.true(isinstance(oq, Catalogue), 'an OpenQuake catalogue')
    ctx.true(oq.get_number_events() == n, 'all events')
    for k, v in cols.items():
        if k == 'time':
            continue
        ctx.true(len(oq.data[k]) == n, f'{k}: length')
        for i in range(n):
            same(ctx, oq.data[k][i], v[i], f'{k} of {i}')
    for i, w in enumerate(which):
        t = times[i]
        for k in TIME[:-1]:
            ctx.true(oq.data[k][i] == getattr(t, k), f'{k} of {t}: '
                     f'{oq.data[k][i]}')
        ctx.true(abs(oq.data['second'][i] - (
            t.second + t.microsecond / 1e6)) < 1e-9,
            f'second of {t}: {oq.data["second"][i]}')
    ctx.true(oq.end_year == max(t.year for t in times), 'end year')
    for k, kind in (('y', 'f'), ('k', 'i'), ('year', 'i'), ('second', 'f')):
        ctx.true(getattr(getattr(oq.data[k], 'dtype', None), 'kind', '')
                 == kind, f'{k}: an array of numbers')
    made = list(oq.data['eventID'])
    ctx.true((len(set(made)) == n or same_ids) and all(
        isinstance(e, str) and e for e in made), f'ids {made}')
    ctx.reach('own ids' if ids else 'ids made')
    ctx.reach('to openquake')
    if not back:
        return
    got = Catalog.from_openquake(oq)
    ctx.true(len(got) == n, 'all events back')
    early = any(_early(w) for w in which)
    for k, v in cols.items():
        for i in range(n):
            if k == 'time':
                want = v[i].replace(microsecond=0) if early else v[i]
                ctx.true(got[k].iloc[i] == want,
                         f'{got[k].iloc[i]} back for {v[i]}')
            else:
                same(ctx, got[k].iloc[i], v[i], f'{k} of {i} back')
    ctx.true(list(got['eventID']) == made, 'ids back')
    ctx.reach('round trip')
    for k in ('y', 'k'):
        oq.data[k][:] = 77
        ctx.true(77 not in list(cat[k]) and 77 not in list(got[k]),
                 f'{k} of the catalogs after a change of the catalogue')


def empty(ctx):
    from openquake.hmtk.seismicity.catalogue import Catalogue
    from seismostats import Catalog
    cat = Catalog.from_openquake(Catalogue())
    ctx.true(type(cat) is Catalog and len(cat) == 0 and
             'magnitude' in cat.columns, 'an empty catalog')
    ctx.reach('empty catalogue')
    oq = Catalog().to_openquake()
    ctx.true(isinstance(oq, Catalogue) and oq.get_number_events() == 0,
             'an empty catalogue')
    ctx.reach('empty catalog')


def required(ctx):
    from seismostats import Catalog
    from seismostats.catalogs import catalog as mod
    cols = dict(longitude=[1.], latitude=[1.], depth=[1.], magnitude=[1.],
                time=['2020-01-01'])
    if ctx.flag('no openquake'):
        ctx.patch(mod, '_openquake_available', False)
        ctx.raises(ImportError, Catalog(cols).to_openquake, 'to')
        ctx.raises(ImportError, lambda: Catalog.from_openquake(None), 'from')
        ctx.reach('no openquake')
        return
    drop = ctx.pick('drop', sorted(cols))
    cat = Catalog({k: v for k, v in cols.items() if k != drop})
    ctx.raises(AttributeError, cat.to_openquake, f'without {drop}')
    ctx.reach('missing column')


def jobs(tier):
    q = tier == 'quick'
    out = [('empty', {}), ('required', {})]
    k = len(WHEN)
    for i in range(k):
        out.append(('read', dict(which=(i,), text=bool(i % 2))))
        out.append(('read', dict(which=(i, (i + 1) % k), text=not i % 2,
                                 keep=i % 3 == 0)))
        out.append(('write', dict(which=(i,), ids=bool(i % 2))))
        out.append(('write', dict(which=(i, (i + 5) % k), ids=not i % 2,
                                  index=[7, 7] if i % 3 else [1, 0])))
        if not q:
            for j in range(k):
                out.append(('read', dict(which=(i, j), text=True)))
                out.append(('read', dict(which=(i, j), text=False)))
                out.append(('write', dict(which=(i, j), ids=False)))
    for i in (0, 8):
        out.append(('read', dict(which=(i,), text=True, miss=NUM)))
        out.append(('read', dict(which=(i, 1, 2), text=False,
                                 miss=('depth',))))
        out.append(('read', dict(which=(i, 1), text=True, empty=(
            'Agency', 'timeError', 'flag', 'magnitudeType'))))
        out.append(('write', dict(which=(i,), ids=False, miss=NUM)))
        out.append(('write', dict(which=(i, 1), ids=True, same_ids=True)))
        out.append(('write', dict(which=(i, 3, 2), ids=True,
                                  miss=('depth',))))
    return out
