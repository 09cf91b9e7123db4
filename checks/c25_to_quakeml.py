"""C25  writing QuakeML: what is written is read back"""
import xml.etree.ElementTree as ET

from checks.c24_quakeml import _same, _symtext

PROP = 'C25'
WITNESS = ['depth missing', 'magnitude missing', 'row dropped', 'no row left',
           'secondary magnitude', 'secondary of the preferred type',
           'secondary missing', 'similar type names', 'no type',
           'underscore',
           'id generated', 'id kept', 'uncertainty', 'no uncertainty',
           'quality', 'no quality', 'special character', 'mode',
           'no mode', 'microseconds', 'early year', 'missing column',
           'forecast catalogs', 'empty catalog', 'event type',
           'no event type']
ASSUMPTIONS = [
    'printing and reading numbers is exact: a symbolic number is an opaque '
    'word in the document',
]
BOUNDS = dict(
    quick='1-2 events with any values, every pattern of missing values; 0-2 '
          'secondary magnitudes; times in the years 3-9999 from a list; IDs '
          'present, missing or partly missing; texts of 1-2 characters '
          'including & < > and quotes',
    thorough='3 events, more columns at once')
OUTSIDE = 'columns of lower and upper uncertainties; types that end like ' \
    'a column (ML_uncertainty); non-integer counts'
BUDGET = dict(quick=120, thorough=900)

TIMES = ('2020-01-02 03:04:05', '1999-12-31 23:59:59.999999',
         '2020-02-29 00:00:00.000001')
NUM = ('longitude', 'latitude', 'depth', 'magnitude')
NAN = float('nan')


def _col(ctx, name, n, miss=False, lo=-90, hi=90, label=None):
    """values of a column, possibly missing"""
    out = []
    for i in range(n):
        if miss and ctx.flag(f'{name}{i} missing'):
            out.append(None)
            if label:
                ctx.reach(label)
        else:
            out.append(ctx.real(f'{name}{i}', lo, hi))
    return out


def _array(ctx, vals):
    return ctx.list([ctx.const(NAN) if v is None else v for v in vals]) \
        if any(v is not None for v in vals) else [NAN] * len(vals)


def _cat(ctx, cols, index=None, cls=None):
    from seismostats import Catalog
    data = {}
    for k, v in cols.items():
        if k == 'time' or any(isinstance(x, str) for x in v) or \
                all(x is None for x in v) and k not in NUM:
            data[k] = list(v)
        else:
            data[k] = [NAN if x is None else ctx.f(x) for x in v]
    cat = (cls or Catalog)(data)
    if index is not None:
        cat.index = index
    return cat


def _base(ctx, n, times=None, types=None, miss=()):
    cols = {}
    for k in NUM:
        cols[k] = _col(ctx, k, n, k in miss, label=f'{k} missing'
                       if k in ('depth', 'magnitude') else None)
    cols['time'] = list(times or TIMES[:n])
    cols['magnitude_type'] = list(types or ['ML'] * n)
    return cols


def _read(text):
    from seismostats import Catalog
    return Catalog.from_quakeml(text, include_uncertainties=True,
                                include_ids=True, include_quality=True)


def _ids(ctx, text, n):
    """public IDs in the document: one of each kind per element, unique, and
    every reference points to an element of its event"""
    root = ET.fromstring(text)
    evs = [e for e in root.iter() if e.tag.endswith('}event')]
    ctx.true(len(evs) == n, f'{len(evs)} events written')
    seen = set()
    for e in evs:
        def kids(tag):
            return [c for c in e if c.tag.endswith('}' + tag)]
        ids = {t: [c.get('publicID') for c in kids(t)]
               for t in ('origin', 'magnitude')}
        for pid in [e.get('publicID')] + ids['origin'] + ids['magnitude']:
            ctx.true(bool(pid) and pid not in ('nan', 'None', '<NA>'),
                     f'id {pid}')
            ctx.true(pid not in seen, f'id {pid} used twice')
            seen.add(pid)
        ctx.true(len(ids['origin']) == 1, 'one origin')
        ctx.true([c.text for c in kids('preferredOriginID')] == ids['origin'],
                 'preferred origin')
        ctx.true(len(kids('preferredMagnitudeID')) == 1 and kids(
            'preferredMagnitudeID')[0].text == ids['magnitude'][0],
            'preferred magnitude')
        for m in kids('magnitude'):
            ctx.true([c.text for c in m if c.tag.endswith('}originID')]
                     == ids['origin'], 'origin of magnitude')
    return evs


def _keys(t):
    return [f'magnitude_{t}' + k for k in (
        '', '_uncertainty', '_lowerUncertainty', '_upperUncertainty',
        '_confidenceLevel', '_magnitudeID')]


def _check(ctx, cols, keep, sec=(), index=None, text=None, own=None):
    """writes the catalog, reads it back, compares"""
    n = len(cols['time'])
    cat = _cat(ctx, cols, index)
    before = [(k, list(cat[k])) for k in cat.columns]
    text = cat.to_quakeml(*(text or ()))
    after = [(k, list(cat[k])) for k in cat.columns]
    ctx.true(len(before) == len(after) and all(
        a == b and len(x) == len(y) and all(
            p is q or p == q or (p != p and q != q)
            for p, q in zip(x, y))
        for (a, x), (b, y) in zip(before, after)), 'catalog unchanged')
    _ids(ctx, text, len(keep))
    got = _read(text)
    ctx.true(len(got) == len(keep), 'rows read back')
    for row, i in enumerate(keep):
        want = {}
        for k, v in cols.items():
            if any(k in _keys(t) for t in sec):
                continue
            want[k] = str(v[i]) if k == 'time' else v[i]
        want.setdefault('event_type', None)
        pref = cols['magnitude_type'][i]
        for t in sec:
            if t == pref or cols[f'magnitude_{t}'][i] is None:
                continue
            for k in cols:
                if k in _keys(t):
                    want[k] = cols[k][i]
        if pref is not None:
            for k in ('', '_uncertainty', 'ID'):
                src = 'magnitude' + k
                dst = f'magnitude_{pref}' + (
                    '_magnitudeID' if k == 'ID' else k)
                if cols.get(src) is not None and cols[src][i] is not None:
                    want[dst] = cols[src][i]
        else:
            want['magnitude_None'] = None
        have = {k for k in got.columns}
        for k in list(want):
            if want[k] is None and k not in have:
                del want[k]
        _same_ids(ctx, got, row, want, f'event {i}')
    return got, text


def _same_ids(ctx, got, row, want, label):
    """generated IDs are left out"""
    given = {k: v for k, v in want.items()}
    for k in got.columns:
        if k.endswith(('eventID', 'originID', 'magnitudeID')) and \
                given.get(k) is None:
            given[k] = got[k].iloc[row]
            if given[k] is not None and given[k] != given[k]:
                given[k] = None
    _same(ctx, got, row, given, label)


def values(ctx, n, index):
    """positions, depths, magnitudes and their missing values"""
    _symtext(ctx)
    miss = NUM if n == 1 else ('depth', 'latitude')
    cols = _base(ctx, n, miss=miss)
    if n == 1 and ctx.flag('no time'):
        cols['time'][0] = None
    keep = [i for i in range(n) if None not in (
        cols['latitude'][i], cols['longitude'][i], cols['time'][i])]
    if len(keep) < n:
        ctx.reach('row dropped')
    if not keep:
        ctx.reach('no row left')
    _check(ctx, cols, keep, index=index)


def uncertainties(ctx, n):
    _symtext(ctx)
    cols = _base(ctx, n)
    for k in NUM:
        cols[f'{k}_uncertainty'] = _col(ctx, f'u{k}', n, n == 1, 0, 10,
                                        label='no uncertainty')
    ctx.reach('uncertainty')
    _check(ctx, cols, list(range(n)))


REALQ = ('standarderror', 'azimuthalgap', 'secondaryazimuthalgap',
         'maximumdistance', 'minimumdistance', 'mediandistance')
INTQ = ('associatedphasecount', 'usedphasecount', 'associatedstationcount',
        'usedstationcount', 'depthphasecount')


def quality(ctx, which):
    _symtext(ctx)
    cols = _base(ctx, 2)
    for k in which:
        if k in INTQ:
            cols[k] = [ctx.pick(f'{k}{i}', (None, 0, 17)) for i in range(2)]
            if cols[k] == [None, None]:
                ctx.assume(False)
        else:
            cols[k] = _col(ctx, k, 2, True, 0, 360, label='no quality')
            if cols[k] == [None, None]:
                ctx.assume(False)
    ctx.reach('quality')
    _check(ctx, cols, [0, 1])


def secondary(ctx, types, n, unc=False, ids=False, none=False):
    """secondary magnitudes of any types"""
    _symtext(ctx)
    prefs = [ctx.pick(f'type{i}', (*types, 'Mx') + ((None,) if none else ()))
             for i in range(n)]
    cols = _base(ctx, n, types=prefs)
    for t in types:
        cols[f'magnitude_{t}'] = v = _col(
            ctx, f'mag_{t}', n, True, -2, 10, label='secondary missing')
        if unc:
            cols[f'magnitude_{t}_uncertainty'] = [
                None if x is None else ctx.real(f'u_{t}{i}', 0, 2)
                for i, x in enumerate(v)]
        if ids:
            cols[f'magnitude_{t}_magnitudeID'] = [
                f'id-{t}-{i}' if x is not None and p != t and
                ctx.flag(f'id {t}{i}') else None
                for i, (x, p) in enumerate(zip(v, prefs))]
    for i in range(n):
        if prefs[i] is None:
            ctx.reach('no type')
        for t in types:
            if cols[f'magnitude_{t}'][i] is not None:
                ctx.reach('secondary of the preferred type'
                          if t == prefs[i] else 'secondary magnitude')
    if any('_' in t for t in types):
        ctx.reach('underscore')
    if types == ('ML', 'MLv'):
        ctx.reach('similar type names')
    _check(ctx, cols, list(range(n)), types)


def ids(ctx, n):
    """IDs are kept where they exist and made where they do not"""
    _symtext(ctx)
    cols = _base(ctx, n)
    for k in ('eventID', 'originID', 'magnitudeID'):
        mode = ctx.pick(k, ('no column', 'given', 'partly', 'short'))
        if mode == 'no column':
            ctx.reach('id generated')
            continue
        cols[k] = [f'smi:{k}/{i}' if mode == 'given' or i % 2 else None
                   for i in range(n)]
        if mode == 'short':
            # IDs that look like nothing or like a number
            cols[k] = [f'{"0 "[i % 2]}{"" if k[0] == "e" else k[0]}'.strip()
                       or 'x' for i in range(n)]
        ctx.reach('id kept')
        if mode == 'partly':
            ctx.reach('id generated')
    _check(ctx, cols, list(range(n)))


def texts(ctx, where):
    """any characters in texts"""
    _symtext(ctx)
    s = 'a' + ctx.pick('c1', ('', '&', '<', '>', '"', "'", ' b', 'é', '{{'))
    if ctx.flag('two'):
        s += ctx.pick('c2', ('amp;', ']]>', '-->', '"', '</type>'))
    if s != 'a':
        ctx.reach('special character')
    cols = _base(ctx, 1)
    if where == 'magnitude_type':
        cols[where] = [s]
        ctx.reach('event type')
    elif where in ('agencyID', 'author'):
        _, text = _check(ctx, cols, [0], text=(
            (s, 'me') if where == 'agencyID' else ('it', s)))
        root = ET.fromstring(text)
        found = [e.text for e in root.iter() if e.tag.endswith('}' + where)]
        ctx.true(len(found) > 0 and set(found) == {s}, f'{where} {found}')
        other = 'author' if where == 'agencyID' else 'agencyID'
        found = {e.text for e in root.iter() if e.tag.endswith('}' + other)}
        ctx.true(found == {'me' if where == 'agencyID' else 'it'},
                 f'{other} {found}')
        return
    else:
        cols[where] = [s]
    if where == 'event_type':
        ctx.reach('event type')
        cols[where].append(None)
        for k, v in list(cols.items()):
            if k != where:
                cols[k] = list(v) + [v[0]]
        ctx.reach('no event type')
    _check(ctx, cols, list(range(len(cols['time']))))


def modes(ctx):
    _symtext(ctx)
    cols = _base(ctx, 2)
    cols['evaluationmode'] = [
        ctx.pick(f'm{i}', ('manual', 'automatic', None)) for i in range(2)]
    for m in cols['evaluationmode']:
        ctx.reach('mode' if m else 'no mode')
    if not any(cols['evaluationmode']):
        ctx.assume(False)
    _check(ctx, cols, [0, 1])


WHEN = ('2020-01-02 03:04:05', '1999-12-31 23:59:59.999999',
        '2020-02-29 00:00:00.000001', '1969-12-31 23:59:59.500000',
        '1677-09-21 00:12:44', '1600-01-01 00:00:00', '0999-12-31 23:59:59',
        '0003-02-01 01:02:03', '2262-04-11 23:47:16', '9999-12-31 23:59:59')


def times(ctx, first, second):
    """times from the year 3 to 9999, whole seconds beyond 1677-2262"""
    import datetime
    _symtext(ctx)
    out = []
    for s in (WHEN[first], WHEN[second]):
        t = datetime.datetime.strptime(
            s, '%Y-%m-%d %H:%M:%S' + ('.%f' if '.' in s else ''))
        out.append(t)
        if t.microsecond:
            ctx.reach('microseconds')
        if t.year < 1677:
            ctx.reach('early year')
    cols = _base(ctx, 2)
    cols['time'] = out
    from seismostats import Catalog
    cat = Catalog({k: v if k in ('time', 'magnitude_type') else
                   [ctx.f(x) for x in v] for k, v in cols.items()})
    got = _read(cat.to_quakeml())
    ctx.true(len(got) == 2, 'two events')
    for i in range(2):
        ctx.true(got['time'].iloc[i] == out[i],
                 f'time {got["time"].iloc[i]} for {out[i]}')


def columns(ctx):
    """a catalog without a required column raises AttributeError"""
    from seismostats import Catalog, ForecastCatalog
    full = dict(longitude=[1.0], latitude=[2.0], depth=[3.0],
                time=['2020-01-01'], magnitude=[1.0], magnitude_type=['ML'],
                catalog_id=[0])
    drop = ctx.pick('drop', sorted(full))
    cls = ForecastCatalog if ctx.flag('forecast') else Catalog
    data = {k: v for k, v in full.items() if k != drop}
    cat = cls(data)
    if drop == 'catalog_id' and cls is Catalog:
        ctx.not_raises(cat.to_quakeml, 'with all columns')
        return
    ctx.raises(AttributeError, cat.to_quakeml, f'without {drop}')
    ctx.reach('missing column')


def forecast(ctx, n):
    """one document per catalog, in the order of the catalog ids"""
    from seismostats import ForecastCatalog
    _symtext(ctx)
    cols = _base(ctx, n, times=[TIMES[i % 3] for i in range(n)])
    cid = [ctx.pick(f'c{i}', (0, 1, 7)) for i in range(n)]
    cat = ForecastCatalog({**{
        k: v if k in ('time', 'magnitude_type') else [ctx.f(x) for x in v]
        for k, v in cols.items()}, 'catalog_id': cid})
    docs = cat.to_quakeml('A', 'B')
    which = sorted(set(cid))
    ctx.true(isinstance(docs, list) and len(docs) == len(which),
             'one document each')
    ctx.reach('forecast catalogs')
    for doc, c in zip(docs, which):
        rows = [i for i in range(n) if cid[i] == c]
        _ids(ctx, doc, len(rows))
        got = _read(doc)
        ctx.true(len(got) == len(rows), 'rows')
        for r, i in enumerate(rows):
            for k in NUM:
                ctx.eq(got[k].iloc[r], cols[k][i], f'{k} of {i}')
            ctx.true(str(got['time'].iloc[r]) == cols['time'][i], 'time')


def empty(ctx):
    from seismostats import Catalog, ForecastCatalog
    text = Catalog().to_quakeml()
    _ids(ctx, text, 0)
    ctx.true(len(_read(text)) == 0, 'no event')
    cat = ForecastCatalog({k: [] for k in (
        'longitude', 'latitude', 'depth', 'time', 'magnitude',
        'magnitude_type', 'catalog_id')})
    ctx.true(cat.to_quakeml() == [], 'no document')
    ctx.reach('empty catalog')


def jobs(tier):
    q = tier == 'quick'
    out = [('empty', {}), ('columns', {}), ('modes', {}),
           ('values', dict(n=1, index=None)),
           ('values', dict(n=1, index=[5])),
           ('values', dict(n=2, index=[1, 0])),
           ('values', dict(n=2, index=[3, 3])),
           ('uncertainties', dict(n=1)), ('uncertainties', dict(n=2)),
           ('ids', dict(n=1)), ('ids', dict(n=2))]
    for k in REALQ[:3] + INTQ:
        out.append(('quality', dict(which=(k,))))
    out.append(('quality', dict(which=REALQ[3:])))
    if not q:
        out.append(('values', dict(n=3, index=[0, 2, 1])))
        out.append(('quality', dict(which=REALQ[:3])))
        out.append(('ids', dict(n=3)))
    out += [('secondary', dict(types=('ML',), n=1, unc=True, ids=True,
                               none=True)),
            ('secondary', dict(types=('ML', 'MLv'), n=1, none=True)),
            ('secondary', dict(types=('Mw', 'ML'), n=1, unc=True, ids=True)),
            ('secondary', dict(types=('ML', 'MLv'), n=1, unc=True, ids=True)),
            ('secondary', dict(types=('ML',), n=2, ids=True)),
            ('secondary', dict(types=('u', 'm'), n=1, unc=True, ids=True)),
            ('secondary', dict(types=('ms_20', 'ms'), n=1, unc=True, ids=True)),
            ('secondary', dict(types=('mb_lg', 'mb_lg_2'), n=1, ids=True)),
            ('secondary', dict(types=('ML', 'Mw'), n=2))]
    if not q:
        out += [('secondary', dict(types=('ML', 'MLv', 'Mw'), n=2,
                                   none=True)),
                ('secondary', dict(types=('ML', 'MLv'), n=2, unc=True,
                                   ids=True))]
    for w in ('eventID', 'originID', 'magnitudeID', 'event_type',
              'magnitude_type', 'agencyID', 'author', 'evaluationmode'):
        out.append(('texts', dict(where=w)))
    for i in range(len(WHEN)):
        out.append(('times', dict(first=i, second=0)))
        if not q:
            for j in range(1, len(WHEN)):
                out.append(('times', dict(first=i, second=j)))
    out.append(('forecast', dict(n=2)))
    if not q:
        out.append(('forecast', dict(n=3)))
    return out
