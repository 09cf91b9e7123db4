"""C23  FDSN client: the query is the one asked for, batches are complete"""
import datetime
import io
import itertools
from fractions import Fraction as F

PROP = 'C23'
WITNESS = ['no events', 'one batch', 'several batches', 'full last batch',
           'partial last batch', 'one event per batch', 'bin correction',
           'no bin correction', 'extra parameters', 'times', 'second query',
           'quality', 'no quality', 'real response', 'ids', 'uncertainties']
ASSUMPTIONS = [
    'the service is a stand-in: N events in a fixed order, limit and a '
    '1-based offset as in the FDSN specification, status 204 and an empty '
    'body without events',
    'start and end times are whole seconds',
]
BOUNDS = dict(
    quick='any N and batch size with N <= 7 batches (N up to 7000, batch size '
          '1 to 1000; 36 batches of 1); every presence pattern of 4 parameter groups, any '
          'coordinates, magnitudes and bin size; QuakeML answers of 0-3 '
          'events in batches of 1-4',
    thorough='N <= 17 batches; every presence pattern of the ten parameters')
OUTSIDE = 'failing or changing services; fractions of seconds in the times; ' \
    'time zones'
BUDGET = dict(quick=90, thorough=900)
URL = 'http://service.test/fdsnws/event/1/query'


class Resp:
    def __init__(self, status, content, raw=None):
        self.status_code, self.content = status, content
        self.text = content
        self.ok = status < 400
        self.raw = raw

    def raise_for_status(self):
        pass


class Service:
    """requests: records the queries and answers them"""

    def __init__(self, ctx, answer):
        self.ctx, self.answer, self.calls = ctx, answer, []

    def get(self, url, params=None, **k):
        self.calls.append((url, dict(params or {})))
        return self.answer(dict(params or {}))

    # a session
    headers, params = {}, {}

    def request(self, method, url, **k):
        self.ctx.true(method.upper() == 'GET', 'a GET request')
        return self.get(url, **k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _num(p, k):
    """the number sent (numbers may be sent as text)"""
    v = p[k]
    return float(v) if isinstance(v, str) else v


def _client(ctx, service, parse=None):
    import seismostats.catalogs.client as mod
    import requests
    import seismostats.io.parser as parser
    for m in (requests, requests.api):
        ctx.replace(m, 'get', service.get)
        ctx.replace(m, 'request', service.request)
    for m in (requests, requests.sessions):
        ctx.replace(m, 'Session', lambda: service)
    if parse is not None:
        ctx.replace(parser, 'parse_quakeml_response', parse)
    client = mod.FDSNWSEventClient(URL)
    client.service = service
    return client


def batches(ctx, most, bmax):
    """N events in batches of b: every event once and in order. An event is
    a range of numbers here, the rows hold the ranges which were served"""
    b = ctx.int('batch', 1, bmax)
    n = ctx.int('N', 0, most * bmax)
    ctx.assume_le(n, b * most)

    def answer(p):
        off = p['offset'] if 'offset' in p else 1
        if not bool(ctx.const(0) + off <= n):
            return Resp(204, b'')
        last = n
        if 'limit' in p and bool(off + p['limit'] - 1 <= n):
            last = off + p['limit'] - 1
        return Resp(200, b'x', (off, last))

    def parse(r, *a, **k):
        if r.status_code == 204:
            return []
        return [dict(magnitude=1.0, first=r.raw[0], last=r.raw[1])]
    service = Service(ctx, answer)
    client = _client(ctx, service, parse)
    cat = client.get_events(min_magnitude=1.0, delta_m=None,
                            batch_size=b if ctx.symbolic else int(b))
    if bool(n == 0):
        ctx.reach('no events')
        ctx.true(len(cat) == 0, 'no event')
        return
    rows = list(zip(cat['first'], cat['last']))
    ctx.reach('one batch' if len(rows) == 1 else 'several batches')
    nxt = ctx.const(1)
    for i, (lo, hi) in enumerate(rows):
        ctx.eq(lo, nxt, f'first event of batch {i}')
        ctx.le(hi - lo + 1, b, f'size of batch {i}')
        nxt = hi + 1
    ctx.eq(nxt, n + 1, 'every event once')
    ctx.reach('full last batch' if bool(hi - lo + 1 == b) else
              'partial last batch')
    if bool(b == 1):
        ctx.reach('one event per batch')
    for url, p in service.calls:
        ctx.true(url == URL, 'url')
        ctx.true(p.get('minmagnitude') == 1.0, 'the query of every request')


NAMES = dict(min_latitude='minlatitude', max_latitude='maxlatitude',
             min_longitude='minlongitude', max_longitude='maxlongitude',
             min_magnitude='minmagnitude', max_magnitude='maxmagnitude')
FMT = '%Y-%m-%dT%H:%M:%S'


def query(ctx, keys, batch, delta):
    t0 = datetime.datetime(2020, 2, 29, 23, 59, 58)
    t1 = datetime.datetime(2021, 1, 1)
    client = _client(ctx, Service(ctx, lambda p: Resp(204, b'')),
                     lambda r, *a, **k: [])
    service = client.service
    first = {}
    for name in NAMES:
        first[name] = ctx.real('first_' + name, -90, 90)
    if ctx.flag('second_query'):
        # an earlier query leaves nothing behind
        client.get_events(start_time=t0, end_time=t1, event_type='explosion',
                          catalog='X', **{k: ctx.f(v)
                                          for k, v in first.items()})
        service.calls.clear()
        ctx.reach('second query')
    want, kw = {}, {}
    # any order of the two times
    t0, t1 = ctx.pick('times', ((t0, t1), (t1, t0), (t1, t1)))
    for k in keys:
        if k in NAMES:
            v = ctx.real(k, -90, 90)
            kw[k], want[NAMES[k]] = ctx.f(v), v
    if 'min_magnitude' in keys:
        if delta == 'any':
            d = ctx.real('delta_m', 0, 1)
            kw['delta_m'] = ctx.f(d)
        elif delta is None:
            kw['delta_m'], d = None, ctx.const(0)
            ctx.reach('no bin correction')
        else:
            d = ctx.const('0.1')
        if delta is not None:
            ctx.reach('bin correction')
        want['minmagnitude'] = want['minmagnitude'] - d / 2
    text = {}
    if 'start_time' in keys:
        kw['start_time'], text['starttime'] = t0, t0.strftime(FMT)
    if 'end_time' in keys:
        kw['end_time'], text['endtime'] = t1, t1.strftime(FMT)
    if 'event_type' in keys:
        kw['event_type'] = text['eventtype'] = 'earthquake'
    if 'other' in keys:
        kw['catalog'] = text['catalog'] = 'Z'
        kw['minazimuthalgap'] = text['minazimuthalgap'] = 0
        ctx.reach('extra parameters')
    allm = 'include_all_magnitudes' in keys
    if allm:
        kw['include_all_magnitudes'] = True
    if batch:
        kw['batch_size'] = batch
    cat = client.get_events(**kw)
    ctx.true(len(service.calls) >= 1, 'a request')
    for url, p in service.calls:
        ctx.true(url == URL, 'url')
        sent = {k for k in p if p[k] is not None}
        free = {'limit', 'offset'} if batch else set()
        need = set(want) | set(text)
        ctx.true(sent - free - {'includeallmagnitudes'} == need,
                 f'parameters sent {sorted(sent)}')
        for k, v in want.items():
            if k in p:
                ctx.eq(_num(p, k), v, k)
        for k, v in text.items():
            ctx.true(str(p.get(k)) == str(v), k)
        a = p.get('includeallmagnitudes', False)
        ctx.true(str(a).lower() == str(allm).lower(),
                 'all magnitudes only if asked for')
    for k, a in (('start_time', 'starttime'), ('end_time', 'endtime')):
        if k in keys:
            ctx.true(getattr(cat, a) == kw[k], f'{a} of the catalog')
            ctx.reach('times')


def _xml(events):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<q:quakeml><eventParame'
           'ters publicID="p">']
    for i in events:
        out.append(f'''<event publicID="ev{i}">
    <preferredOriginID>or{i}</preferredOriginID>
    <preferredMagnitudeID>ma{i}</preferredMagnitudeID>
    <type>earthquake</type>
    <origin publicID="or{i}"><time><value>2020-01-0{i}T00:00:0{i}Z</value>
    </time><latitude><value>4{i}.5</value><uncertainty>0.{i}</uncertainty>
    </latitude><longitude><value>8.{i}</value></longitude><depth>
    <value>{i}000</value></depth><quality><azimuthalGap>1{i}</azimuthalGap>
    </quality></origin>
    <magnitude publicID="ma{i}"><mag><value>1.{i}</value></mag>
    <type>ML</type></magnitude></event>''')
    out.append('</eventParameters></q:quakeml>')
    return ''.join(out).encode()


def response(ctx, n, batch):
    quality = ctx.flag('quality')
    ids = ctx.flag('ids')
    unc = ctx.flag('uncertainty')

    def answer(p):
        off = int(p.get('offset', 1))
        ev = list(range(off, n + 1))[:p.get('limit')]
        if not ev:
            return Resp(204, b'', io.BytesIO(b''))
        x = _xml(ev)
        return Resp(200, x, io.BytesIO(x))
    client = _client(ctx, Service(ctx, answer))
    cat = client.get_events(include_quality=quality, include_ids=ids,
                            include_uncertainty=unc, batch_size=batch)
    ctx.true(len(cat) == n, f'{len(cat)} instead of {n} events')
    ctx.reach('real response')
    if not n:
        return
    one = range(1, n + 1)
    ctx.true([float(x) for x in cat['magnitude']] ==
             [float(f'1.{i}') for i in one], 'magnitudes in order')
    ctx.true([float(x) for x in cat['latitude']] ==
             [float(f'4{i}.5') for i in one], 'latitudes')
    ctx.true([str(t) for t in cat['time']] ==
             [f'2020-01-0{i} 00:00:0{i}' for i in one], 'times')
    ctx.true(('azimuthalgap' in cat.columns) == quality, 'quality columns')
    ctx.true(('eventID' in cat.columns) == ids, 'id columns')
    ctx.true(('latitude_uncertainty' in cat.columns) == unc,
             'uncertainty columns')
    if ids:
        ctx.true(list(cat['eventID']) == [f'ev{i}' for i in one], 'ids')
    for name, f in (('quality', quality), ('no quality', not quality),
                    ('ids', ids), ('uncertainties', unc)):
        if f:
            ctx.reach(name)


GROUPS = (('start_time', 'end_time'), ('min_latitude', 'max_longitude',
                                       'other'),
          ('max_latitude', 'min_longitude', 'include_all_magnitudes'),
          ('min_magnitude', 'event_type'), ('max_magnitude',))


def jobs(tier):
    q = tier == 'quick'
    out = [('batches', dict(most=7 if q else 17, bmax=1000)),
           ('batches', dict(most=36 if q else 70, bmax=1))]
    k = 0
    if q:
        for flags in itertools.product((0, 1), repeat=len(GROUPS)):
            keys = [x for f, g in zip(flags, GROUPS) if f for x in g]
            out.append(('query', dict(keys=keys, batch=(None, 5)[k % 2],
                                      delta=('any', None, 'default')[k % 3])))
            k += 1
    else:
        names = [x for g in GROUPS for x in g]
        for flags in itertools.product((0, 1), repeat=len(names)):
            keys = [x for f, x in zip(flags, names) if f]
            out.append(('query', dict(keys=keys, batch=(None, 5)[k % 2],
                                      delta=('any', None, 'default')[k % 3])))
            k += 1
    for n in (0, 1, 2, 3):
        for b in (None, 1, 2) if q else (None, 1, 2, 3, 4):
            out.append(('response', dict(n=n, batch=b)))
    return out
