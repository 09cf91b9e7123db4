"""C24  reading QuakeML"""
import io
import os
import tempfile

PROP = 'C24'
WITNESS = ['preferred magnitude', 'no preferred magnitude',
           'dangling preferred magnitude', 'no preferred origin',
           'second origin', 'secondary magnitude', 'same type as preferred',
           'several of one type', 'higher version', 'other versions', 'later creation time',
           'first of equals', 'no type', 'uncertainty', 'no uncertainty',
           'quality', 'ids', 'no ids', 'preferred only', 'file', 'response',
           'chunks', 'no event', 'empty response', 'lower uncertainty',
           'missing value', 'words']
ASSUMPTIONS = [
    'printing and reading numbers is exact: a symbolic number is an opaque '
    'word in the document',
    'creation times of magnitudes are whole seconds',
]
BOUNDS = dict(
    quick='1-2 events of 0-2 origins and 0-3 magnitudes of two types or none; '
          'every preferred one, none or a dangling one; any values; any '
          'versions, with ties, and three creation times; elements in '
          'document order or preferred IDs last; element text split at every '
          'position; eight words per text',
    thorough='4 magnitudes; more combinations')
OUTSIDE = 'prefixed element names; nested events; other schema versions'
BUDGET = dict(quick=120, thorough=900)


def _symtext(ctx):
    if ctx.symbolic:
        from symex import core
        ctx.patch(core, 'TEXT_MODE', True)


class Doc:
    """builds a document and remembers what is in it"""

    def __init__(self, ctx):
        self.ctx, self.out, self.k = ctx, [], 0

    def num(self, tag, name, lo=-90, hi=90, unc=()):
        """a RealQuantity; returns {'' : value, '_uncertainty': ...}"""
        vals = {}
        self.out.append(f'<{tag}>')
        for el, col in (('value', ''),) + tuple(unc):
            v = self.ctx.real(f'{name}{col}', lo, hi)
            vals[col] = v
            self.out.append(f'\n   <{el}>{self.ctx.text(v)}</{el}>')
        self.out.append(f'</{tag}>\n')
        return vals

    def add(self, s):
        self.out.append(s)

    def text(self):
        return ('<?xml version="1.0" encoding="UTF-8"?>\n<q:quakeml xmlns="'
                'http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.'
                'org/xmlns/quakeml/1.2"><eventParameters publicID="p">\n'
                + ''.join(self.out) + '</eventParameters></q:quakeml>\n')


UNC = (('uncertainty', '_uncertainty'),)
ALL = UNC + (('lowerUncertainty', '_lowerUncertainty'),
             ('upperUncertainty', '_upperUncertainty'),
             ('confidenceLevel', '_confidenceLevel'))
NOISE = ('<comment><text>event origin magnitude</text><creationInfo><version>'
         '9</version></creationInfo></comment>')


EXTRA = '''<focalMechanism publicID="fm"><triggeringOriginID>o09
</triggeringOriginID><momentTensor publicID="mt"><derivedOriginID>o01
</derivedOriginID><scalarMoment><value>1e17</value></scalarMoment>
</momentTensor><creationInfo><version>3</version></creationInfo>
</focalMechanism><amplitude publicID="am"><genericAmplitude><value>0.5</value>
</genericAmplitude><type>AML</type></amplitude><stationMagnitude publicID="sm">
<originID>o00</originID><mag><value>7.5</value><uncertainty>0.25</uncertainty>
</mag><type>ML</type></stationMagnitude><pick publicID="pi"><time><value>
2019-01-01T00:00:00Z</value></time><evaluationMode>automatic</evaluationMode>
</pick>'''


def _origin(ctx, doc, i, j, unc, quality, drop=()):
    """one origin; returns its values"""
    v = {'originID': f'o{i}{j}'}
    doc.add(f'<origin publicID="o{i}{j}">{NOISE}<time><value>202{j}-0{i + 1}-'
            f'03T04:05:06.250000Z</value></time>')
    v['time'] = f'202{j}-0{i + 1}-03 04:05:06.250000'
    for name in ('latitude', 'longitude', 'depth'):
        if name in drop:
            continue
        for col, x in doc.num(name, f'{name}{i}{j}', unc=unc).items():
            v[name + col] = x
    if quality:
        for tag, col in (('usedPhaseCount', 'usedphasecount'),
                         ('azimuthalGap', 'azimuthalgap'),
                         ('minimumDistance', 'minimumdistance')):
            x = ctx.real(f'{col}{i}{j}', 0, 360)
            v[col] = x
            doc.add(f'<quality><{tag}>{ctx.text(x)}</{tag}></quality>')
    doc.add('<evaluationMode>manual</evaluationMode></origin>\n')
    v['evaluationmode'] = 'manual'
    return v


def _magnitude(ctx, doc, i, j, mtype, unc, info=''):
    v = {'magnitudeID': f'm{i}{j}', 'magnitude_type': mtype}
    doc.add(f'<magnitude publicID="m{i}{j}">{info}')
    for col, x in doc.num('mag', f'mag{i}{j}', -2, 10, unc).items():
        v['magnitude' + col] = x
    if mtype:
        doc.add(f' <type> {mtype} </type>\n')
    doc.add(f'<originID>o{i}0</originID>{NOISE}</magnitude>')
    return v


def _same(ctx, cat, row, want, label):
    """the row holds exactly the wanted values"""
    for col in cat.columns:
        got = cat[col].iloc[row]
        w = want.get(col)
        if w is None:
            ctx.true(_none(got), f'{label}: {col} is {got}')
        elif col == 'time' or isinstance(w, str):
            ctx.true(str(got) == w, f'{label}: {col} is {got}')
        else:
            ctx.eq(_value(ctx, got), w, f'{label}: {col}')
    for col, w in want.items():
        if w is not None:
            ctx.true(col in cat.columns, f'{label}: no column {col}')


def _none(x):
    import pandas as pd
    from symex.npshim import isnan1
    if x is None or x is pd.NaT:
        return True
    return not isinstance(x, str) and bool(isnan1(x))


def _value(ctx, x):
    if isinstance(x, str):
        from symex import core
        r = core.untext(x) if ctx.symbolic else None
        return float(x) if r is None else r
    return x


IDS = ('eventID', 'originID', 'magnitudeID')
QUAL = ('usedphasecount', 'azimuthalgap', 'minimumdistance')


def _expected(event, allmags=True, unc=True, ids=True, quality=True):
    """the columns of one event: {origin, magnitude, others, own}"""
    w = dict(event['own'])
    w.update(event['origin'] or {})
    w.update(event['magnitude'] or {})
    if allmags:
        for m in event['others']:
            t = m['magnitude_type']
            for k, v in m.items():
                if k != 'magnitude_type':
                    w[k.replace('magnitude', f'magnitude_{t}', 1)
                      if k != 'magnitudeID'
                      else f'magnitude_{t}_magnitudeID'] = v
    out = {}
    for k, v in w.items():
        if not ids and k.endswith(IDS):
            continue
        if not unc and k.endswith(tuple(c for _, c in ALL)):
            continue
        if not quality and k in QUAL:
            continue
        out[k] = v
    return out


def _pick_others(mags, pref):
    """preferred one for its own type, for others the first of each"""
    out = []
    for m in mags:
        t = m['magnitude_type']
        if t is None:
            continue
        if pref is not None and t == pref['magnitude_type']:
            if m is pref:
                out.append(m)
            continue
        if all(o['magnitude_type'] != t for o in out):
            out.append(m)
    return out


def structure(ctx, norig, types, last=False, events=1):
    """which origin and magnitude end up where"""
    from seismostats import Catalog
    _symtext(ctx)
    doc = Doc(ctx)
    want = []
    for i in range(events):
        po = ctx.pick(f'po{i}', (None, *range(norig), 'dangling'))
        pm = ctx.pick(f'pm{i}', (None, *range(len(types)), 'dangling'))
        doc.add(f'<event publicID="ev{i}">{NOISE}<description><type>region'
                '</type><text>x</text></description>')
        pref = ''
        if po is not None:
            pref += f'<preferredOriginID>o{i}{po}</preferredOriginID>'
        if pm is not None:
            pref += f'<preferredMagnitudeID>m{i}{pm}</preferredMagnitudeID>'
        pref += '<type>mining explosion</type>'
        if not last:
            doc.add(pref)
        mags = [_magnitude(ctx, doc, i, j, t, UNC if j == 0 else ())
                for j, t in enumerate(types)]
        doc.add(EXTRA)
        orig = [_origin(ctx, doc, i, j, ALL if j == 0 else (), j == 1,
                        ('depth',) if j == 1 else ())
                for j in range(norig)]
        if last:
            doc.add(pref)
        if events > 1:
            doc.add(EXTRA)
        doc.add('</event>\n')
        ev = dict(own={'eventID': f'ev{i}', 'event_type': 'mining explosion'},
                  origin=orig[po] if po in range(norig) else None,
                  magnitude=mags[pm] if pm in range(len(types)) else None)
        ev['others'] = _pick_others(mags, ev['magnitude'])
        want.append(ev)
        for lab, f in (
                ('preferred magnitude', ev['magnitude']),
                ('no preferred magnitude', pm is None),
                ('dangling preferred magnitude', pm == 'dangling'),
                ('no preferred origin', po is None), ('second origin', po == 1),
                ('secondary magnitude', [m for m in ev['others']
                                         if m is not ev['magnitude']]),
                ('same type as preferred', ev['magnitude'] and types.count(
                    ev['magnitude']['magnitude_type']) > 1),
                ('no type', None in types), ('missing value', po == 1)):
            if f:
                ctx.reach(lab)
    if not events:
        ctx.reach('no event')
    cat = Catalog.from_quakeml(doc.text(), include_uncertainties=True,
                               include_ids=True, include_quality=True)
    ctx.true(len(cat) == events, 'one row per event')
    for i, ev in enumerate(want):
        _same(ctx, cat, i, _expected(ev), f'event {i}')


def options(ctx, how):
    """what the flags leave out; documents, files and responses"""
    from seismostats import Catalog
    from seismostats.io.parser import (parse_quakeml_file,
                                       parse_quakeml_response)
    _symtext(ctx)
    allm, unc, ids, qual = [ctx.flag(k) for k in ('all', 'unc', 'ids', 'qu')]
    doc = Doc(ctx)
    doc.add('<event publicID="ev0"><preferredOriginID>o00</preferredOriginID>'
            '<preferredMagnitudeID>m01</preferredMagnitudeID>')
    mags = [_magnitude(ctx, doc, 0, j, t, ALL if j else UNC)
            for j, t in enumerate(('ML', 'Mw'))]
    orig = _origin(ctx, doc, 0, 0, ALL, True)
    doc.add('</event>')
    ev = dict(own={'eventID': 'ev0', 'event_type': None}, origin=orig,
              magnitude=mags[1], others=mags)
    flags = dict(include_all_magnitudes=allm, include_uncertainties=unc,
                 include_ids=ids, include_quality=qual)
    text = doc.text()
    if how == 'string':
        cat = Catalog.from_quakeml(text, **flags)
    else:
        data = None
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'x.xml')
            with open(path, 'w') as f:
                f.write(text)
            if how == 'file':
                cat = Catalog.from_quakeml(path, **flags)
                ctx.reach('file')
            elif how == 'parse':
                data = parse_quakeml_file(path, allm, qual)
            else:
                import types
                with open(path, 'rb') as f:
                    data = parse_quakeml_response(
                        types.SimpleNamespace(raw=f), allm, qual)
                ctx.reach('response')
        if data is not None:
            cat = Catalog.from_dict(data, include_uncertainties=unc,
                                    include_ids=ids)
    for lab, f in (('uncertainty', unc), ('no uncertainty', not unc),
                   ('quality', qual), ('ids', ids), ('no ids', not ids),
                   ('preferred only', not allm), ('lower uncertainty', unc)):
        if f:
            ctx.reach(lab)
    ctx.true(len(cat) == 1, 'one row')
    _same(ctx, cat, 0, _expected(ev, allm, unc, ids, qual), 'event')


DATES = ('2020-01-01T00:00:00', '2020-01-01T00:00:01.5Z',
         '2021-12-31T23:59:59Z')


VERSIONS = (None, '2', '10', '1.5', 'final', '2b', 'nan')


def versions(ctx, n, with_v, with_t, text=True, extra=()):
    """several secondary magnitudes of one type: highest version, then latest
    creation time, then first in the document"""
    from seismostats import Catalog
    _symtext(ctx)
    doc = Doc(ctx)
    doc.add('<event publicID="ev0"><preferredMagnitudeID>m09'
            '</preferredMagnitudeID>')
    mags = [_magnitude(ctx, doc, 0, 9, 'Mw', ())]
    key = []
    for j in range(n):
        info = ''
        v = t = None
        if with_v == 'mixed':
            # numbers, other texts or none; with or without a time
            v = ctx.pick(f'version{j}', VERSIONS)
            info += f'<version>{v}</version>' if v else ''
            t = ctx.pick(f'created{j}', (None, 0, 1))
            info += f'<creationTime>{DATES[t]}</creationTime>' \
                if t is not None else ''
        elif with_v:
            v = ctx.int(f'version{j}', 0, 20) if text else \
                ctx.pick(f'version{j}', (2, 9, 10, 100))
            info += f'<version>{ctx.text(v)}</version>' if ctx.symbolic and \
                text else f'<version>{int(v)}</version>'
        if with_t and with_v != 'mixed':
            t = ctx.pick(f'created{j}', range(len(DATES)))
            info += f'<creationTime>{DATES[t]}</creationTime>'
        if info:
            info = f'<creationInfo>{info}</creationInfo>'
        mags.append(_magnitude(ctx, doc, 0, j, 'ML', (), info))
        key.append((v, t))
    # other types, one magnitude each
    rest = [_magnitude(ctx, doc, 0, n + j, x, ()) for j, x in enumerate(extra)]
    doc.add('</event>')
    if with_v == 'mixed':
        # what not all of them have is not compared
        num = all(v in ('2', '10', '1.5') for v, t in key)
        has = all(t is not None for v, t in key)
        if not num and any(v for v, t in key):
            ctx.reach('other versions')
        key = [(float(v) if num else None, t if has else None)
               for v, t in key]
    best = 0
    for j in range(1, n):
        if _later(ctx, key[j], key[best]):
            best = j
    ctx.reach('several of one type')
    if best == 0:
        ctx.reach('first of equals')
    cat = Catalog.from_quakeml(doc.text(), include_ids=True)
    ev = dict(own={'eventID': 'ev0'}, origin=None, magnitude=mags[0],
              others=[mags[0], mags[1 + best], *rest])
    ctx.true(len(cat) == 1, 'one row')
    _same(ctx, cat, 0, _expected(ev), 'event')


def _later(ctx, a, b):
    if a[0] is not None:
        if bool(a[0] > b[0]):
            ctx.reach('higher version')
            return True
        if not bool(a[0] == b[0]):
            return False
    if a[1] is not None and a[1] > b[1]:
        ctx.reach('later creation time')
        return True
    return False


def chunks(ctx, n):
    """a parser may hand over the text of an element in any pieces"""
    from seismostats.io.parser import QuakeMLHandler
    txt = ''.join(ctx.pick(f'c{i}', 'a ') for i in range(n))
    cut = sorted(ctx.pick(f'cut{i}', range(n + 1)) for i in range(2))
    parts = [txt[:cut[0]], txt[cut[0]:cut[1]], txt[cut[1]:]]
    data = []
    h = QuakeMLHandler(data)

    def el(tag, text, attrs=None):
        h.startElement(tag, attrs or {})
        for p in text:
            h.characters(p)
        h.endElement(tag)
    h.startDocument()
    h.startElement('event', {'publicID': 'e'})
    h.characters('\n  ')
    el('type', ['\n ', *parts, ' '])
    el('preferredMagnitudeID', ['m', '0'])
    h.characters('\n')
    h.startElement('magnitude', {'publicID': 'm0'})
    h.characters('\n  ')
    h.startElement('mag', {})
    el('value', ['1', '.', '5'])
    h.endElement('mag')
    h.characters(' ')
    el('type', parts)
    h.endElement('magnitude')
    h.endElement('event')
    h.endDocument()
    ctx.true(len(data) == 1, 'one event')
    want = txt.strip() or None
    ctx.true(data[0].get('event_type') == want,
             f'event type {data[0].get("event_type")!r} from {parts}')
    ctx.true(data[0].get('magnitude_type') == want, 'magnitude type')
    ctx.true(data[0].get('magnitude') == '1.5', 'magnitude')
    ctx.reach('chunks')


WORDS = ('outside of  network interest', 'É  Å', 'Ml(ZÜR)', 'x\ty', 'mLg', '0',
         'nuclear explosion', 'a' * 300)


def words(ctx):
    """texts are read as they are"""
    from seismostats import Catalog
    from xml.sax.saxutils import escape
    w = {k: ctx.pick(k, WORDS) for k in ('event_type', 'magnitude_type')}
    m = ctx.pick('mode', ('manual', 'automatic'))
    text = (
        '<?xml version="1.0" encoding="UTF-8"?><q:quakeml><eventParameters>'
        '<event publicID="quakeml:Ev/A b"><preferredOriginID>Or1'
        '</preferredOriginID><preferredMagnitudeID>Ma1</preferredMagnitudeID>'
        f'<type>{escape(w["event_type"])}</type><origin publicID="Or1">'
        f'<evaluationMode>{m}</evaluationMode></origin>'
        '<magnitude publicID="Ma1"><mag><value>1.5</value></mag><type>'
        f'{escape(w["magnitude_type"])}</type></magnitude>'
        '</event></eventParameters></q:quakeml>')
    cat = Catalog.from_quakeml(text, include_ids=True)
    w.update(evaluationmode=m, eventID='quakeml:Ev/A b', originID='Or1',
             magnitudeID='Ma1')
    for k, v in w.items():
        ctx.true(k in cat.columns and cat[k].iloc[0] == v, f'{k} is {v}')
    ctx.reach('words')


def empty(ctx):
    import types
    from seismostats import Catalog
    from seismostats.io.parser import parse_quakeml_response
    got = parse_quakeml_response(types.SimpleNamespace(raw=io.BytesIO(b'')))
    ctx.true(list(got) == [], 'empty response')
    ctx.true(len(Catalog.from_dict(got)) == 0, 'empty catalog')
    ctx.true(len(Catalog.from_quakeml('')) == 0, 'empty document')
    ctx.reach('empty response')


def jobs(tier):
    q = tier == 'quick'
    out = [('empty', {}), ('words', {}), ('structure', dict(norig=0, types=(), events=0))]
    for norig, types in ((0, ()), (1, ('ML',)), (2, ('ML', 'Mw')),
                         (1, ('ML', 'ML', 'Mw')), (1, (None, 'ML')),
                         (1, ('Mw', 'ML', 'ML')), (0, (None, None))):
        for last in (False, True):
            if last and norig < 1:
                continue
            out.append(('structure', dict(norig=norig, types=types,
                                          last=last)))
    out.append(('structure', dict(norig=1, types=('ML', 'Mw'), events=2)))
    if not q:
        out.append(('structure', dict(norig=2, types=('ML', 'Mw', 'ML'),
                                      events=2, last=True)))
        out.append(('structure', dict(
            norig=2, types=('ML', 'Mw', None, 'ML'))))
    for how in ('string', 'file', 'parse', 'response'):
        out.append(('options', dict(how=how)))
    for with_v in (False, True):
        for with_t in (False, True):
            out.append(('versions', dict(n=2, with_v=with_v, with_t=with_t)))
            if with_v:
                out.append(('versions', dict(n=2, with_v=True, with_t=with_t,
                                             text=False)))
            if with_v or not q:
                out.append(('versions', dict(n=3, with_v=with_v,
                                             with_t=with_t and not q)))
    out.append(('versions', dict(n=2, with_v='mixed', with_t=True)))
    for n in (2, 3):
        out.append(('versions', dict(n=n, with_v=True, with_t=False,
                                     extra=('mb', 'MLv'))))
    for n in (0, 1, 3) if q else (0, 1, 2, 3, 4, 5):
        out.append(('chunks', dict(n=n)))
    return out
