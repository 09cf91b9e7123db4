"""C27  coordinate transformer and bounding boxes"""
from fractions import Fraction as F

import numpy as np

PROP = 'C27'
WITNESS = ['to local', 'from local', 'round trip', 'no altitude', 'altitude',
           'reference projection', 'polygon to local', 'polygon from local',
           'hole', 'external reference', 'any codes', 'polygon altitude',
           'bounding box', 'scalar', 'list',
           'array']
ASSUMPTIONS = [
    'pyproj is a stand-in: a fixed invertible map per pair of projections '
    '(affine, not a translation), which swaps the axes unless always_xy',
    'shapely polygons are stand-ins in the symbolic runs (rings of '
    'coordinates; transform and translate as documented)',
]
BOUNDS = dict(
    quick='1-3 points, scalars, lists and arrays, any coordinates, reference '
          'and altitudes; polygons of 3-4 vertices with and without a hole '
          'and altitude; any bounding box',
    thorough='the same with 5 points and vertices')
OUTSIDE = 'the projections themselves (pyproj); projections with a vertical ' \
    'component'
BUDGET = dict(quick=60, thorough=300)

# x' = a x + b y + c, y' = d x + e y + f
# external, local and reference projection
NAMES = (('E', 'L', 'R'), (4326, 2056, 21781), (4326, 21781, 2056),
         ('epsg:4326', '+proj=utm +zone=32', 'epsg:2056'),
         (4326, 2056, 4326))
MAPS = {('E', 'L'): (3, 1, 7, -1, 2, 11), ('R', 'L'): (1, 2, -5, 3, 1, 13)}


def _inv(m):
    a, b, c, d, e, f = [F(x) for x in m]
    D = a * e - b * d
    return (e / D, -b / D, (b * f - e * c) / D,
            -d / D, a / D, (d * c - a * f) / D)


def _map(key):
    key = tuple(key)
    return MAPS[key] if key in MAPS else _inv(MAPS[key[::-1]])


def _apply(key, x, y):
    a, b, c, d, e, f = [F(v) for v in _map(key)]
    return x * a + y * b + c, x * d + y * e + f


class Transformer:
    """stand-in for pyproj.Transformer"""
    names = NAMES[0]

    def __init__(self, src, dst, always_xy):
        # the reference projection may be the external one
        names = self.names
        k = [('E', 'L', 'R')[names.index(p)] for p in (src, dst)]
        self.key, self.xy = tuple(k), always_xy
        _map(self.key)

    @classmethod
    def from_proj(cls, proj_from, proj_to, always_xy=False, **k):
        return cls(proj_from, proj_to, always_xy)

    @classmethod
    def from_crs(cls, crs_from, crs_to, always_xy=False, **k):
        return cls(crs_from, crs_to, always_xy)

    def transform(self, xx, yy, zz=None, **k):
        x, y, z = xx, yy, zz
        a, b, c, d, e, f = _map(self.key)
        if not self._sym(x):
            a, b, c, d, e, f = [float(v) for v in (a, b, c, d, e, f)]

        def one(p, q):
            if not self.xy:
                p, q = q, p
            r = p * a + q * b + c, p * d + q * e + f
            return r if self.xy else r[::-1]
        if isinstance(x, (list, tuple)):
            r = [one(p, q) for p, q in zip(x, y, strict=True)]
            out = [type(x)(v) for v in zip(*r)]
        else:
            out = list(one(x, y))
        return tuple(out) if z is None else (*out, z)

    def _sym(self, x):
        from symex.core import R
        if isinstance(x, (list, tuple)):
            return any(type(v) is R for v in x)
        return type(x) is R or getattr(x, 'dtype', None) == object


class Ring:
    def __init__(self, pts):
        self.coords = [tuple(p) for p in pts]

    @property
    def xy(self):
        return [p[0] for p in self.coords], [p[1] for p in self.coords]


class Poly:
    """stand-in for a shapely polygon"""

    def __init__(self, shell, holes=()):
        shell = [tuple(p) for p in shell]
        self.exterior = Ring(self._close(shell))
        self.interiors = [Ring(self._close([tuple(p) for p in h]))
                          for h in holes or ()]

    def _close(self, pts):
        if all(a is b or bool(a == b) for a, b in zip(pts[0], pts[-1])):
            return pts
        return pts + pts[:1]

    @property
    def has_z(self):
        return len(self.exterior.coords[0]) == 3

    @property
    def bounds(self):
        x, y = [p[0] for p in self.exterior.coords], [
            p[1] for p in self.exterior.coords]
        return _mn(x), _mn(y), _mx(x), _mx(y)


def _mn(xs):
    b = xs[0]
    for x in xs[1:]:
        b = x if bool(x < b) else b
    return b


def _mx(xs):
    b = xs[0]
    for x in xs[1:]:
        b = x if bool(x > b) else b
    return b


def _transform(func, geom):
    poly = geom

    def ring(r):
        return list(zip(*func(*zip(*r.coords))))
    return Poly(ring(poly.exterior), [ring(h) for h in poly.interiors])


def _translate(geom, xoff=0.0, yoff=0.0, zoff=0.0):
    poly, off = geom, (xoff, yoff, zoff)

    def ring(r):
        return [tuple(v + o for v, o in zip(p, off)) for p in r.coords]
    return Poly(ring(poly.exterior), [ring(h) for h in poly.interiors])


def _box(minx, miny, maxx, maxy, ccw=True):
    pts = [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)]
    return Poly(pts if ccw else pts[::-1])


def _setup(ctx, refproj=False):
    import seismostats.utils.coordinates as mod
    import pyproj
    import shapely
    ctx.replace(pyproj, 'Transformer', Transformer)
    poly = None
    if ctx.symbolic:
        ctx.replace(shapely.ops, 'transform', _transform)
        ctx.replace(shapely.affinity, 'translate', _translate)
        for m in (shapely.geometry, shapely):
            for k, v in (('Polygon', Poly), ('box', _box)):
                ctx.replace(m, k, v)
        poly = Poly
    else:
        from shapely.geometry import Polygon as poly
    return mod, poly


def _default(names):
    return type(names) is tuple and names[0] == 4326


def _transformer(ctx, mod, refproj, zero=False):
    k = ctx.pick('names', range(len(NAMES) + 1))
    if k < len(NAMES):
        names = NAMES[k]
    else:
        # any codes; only the default one is special
        names = [ctx.int('code' + x, 1000, 40000) for x in 'elr']
        for a, b in ((0, 1), (0, 2), (1, 2)):
            ctx.assume_ne(names[a], names[b])
        names = names if ctx.symbolic else [int(x) for x in names]
        ctx.reach('any codes')
    ctx.replace(Transformer, 'names', names)
    if type(names) is tuple and names[2] == 4326:
        ctx.reach('external reference')
    ref = [ctx.real('ref' + k, -1000, 1000) for k in 'enz']
    if zero:
        ct = mod.CoordinateTransformer(
            names[1], **({} if _default(names) else
                         dict(external_proj=names[0])))
        return ct, [ctx.const(0)] * 3
    kw = dict(ref_proj=names[2]) if refproj else {}
    if not _default(names) or ctx.flag('external given'):
        kw['external_proj'] = names[0]
    ct = mod.CoordinateTransformer(
        names[1], *[ctx.f(r) for r in ref], **kw)
    if refproj:
        ctx.reach('reference projection')
        ref[:2] = _apply(('E' if type(names) is tuple and
                         names[2] == names[0] else 'R', 'L'),
                         ref[0], ref[1])
    return ct, ref


def _pack(ctx, kind, xs):
    ctx.reach(kind)
    if kind == 'scalar':
        return ctx.f(xs[0])
    return ctx.list(xs) if kind == 'list' else ctx.array(xs)


def _flat(x):
    return [x] if np.ndim(x) == 0 else list(x)


def points(ctx, n, kind, alt, refproj=False, zero=False):
    mod, _ = _setup(ctx)
    ct, ref = _transformer(ctx, mod, refproj, zero)
    x, y, z = [ctx.reals(k, n, -1000, 1000) for k in 'xyz']
    args = [_pack(ctx, kind, v) for v in (x, y)]
    zz = [_pack(ctx, kind, z)] if alt else []
    ctx.reach('altitude' if alt else 'no altitude')
    out = ct.to_local_coords(*args, *zz)
    ctx.true(len(out) == 3, 'three coordinates')
    loc = [_apply(('E', 'L'), a, b) for a, b in zip(x, y)]
    ctx.eqs(_flat(out[0]), [p[0] - ref[0] for p in loc], 'easting')
    ctx.eqs(_flat(out[1]), [p[1] - ref[1] for p in loc], 'northing')
    if alt:
        ctx.eqs(_flat(out[2]), [c - ref[2] for c in z], 'altitude')
    else:
        ctx.true(out[2] is None, 'no altitude')
    ctx.reach('to local')
    back = ct.from_local_coords(*out)
    ctx.eqs(_flat(back[0]), x, 'round trip longitude')
    ctx.eqs(_flat(back[1]), y, 'round trip latitude')
    if alt:
        ctx.eqs(_flat(back[2]), z, 'round trip altitude')
    ctx.reach('round trip')
    out = ct.from_local_coords(*args, *zz)
    ctx.true(len(out) == 3, 'three coordinates')
    ext = [_apply(('L', 'E'), a + ref[0], b + ref[1]) for a, b in zip(x, y)]
    ctx.eqs(_flat(out[0]), [p[0] for p in ext], 'longitude')
    ctx.eqs(_flat(out[1]), [p[1] for p in ext], 'latitude')
    if alt:
        ctx.eqs(_flat(out[2]), [c + ref[2] for c in z], 'altitude')
    else:
        ctx.true(out[2] is None, 'no altitude')
    ctx.reach('from local')


SHELLS = {3: ((0, 0), (90, 5), (40, 70)),
          4: ((0, 0), (90, 5), (100, 80), (-5, 70)),
          5: ((0, 0), (90, 5), (100, 80), (50, 95), (-5, 70))}
HOLE = ((30, 30), (40, 30), (35, 20))


def polygon(ctx, n, hole, alt, refproj, way):
    """vertices: a fixed shape moved by a symbolic amount"""
    mod, poly = _setup(ctx)
    ct, ref = _transformer(ctx, mod, refproj)
    sx, sy = ctx.real('sx', -1000, 1000), ctx.real('sy', -1000, 1000)
    z = ctx.reals('z', n + 3, -10, 10)
    rings = [[(sx + x, sy + y) for x, y in r]
             for r in ((SHELLS[n], HOLE) if hole else (SHELLS[n],))]
    if alt:
        ctx.reach('polygon altitude')
        rings = [[(x, y, z[i + n * k]) for i, (x, y) in enumerate(r)]
                 for k, r in enumerate(rings)]
    if hole:
        ctx.reach('hole')
    p = poly([[ctx.f(v) for v in q] for q in rings[0]],
             [[[ctx.f(v) for v in q] for q in r] for r in rings[1:]])
    if way == 'to':
        out = ct.polygon_to_local_coords(p)

        def ref_pt(q):
            x, y = _apply(('E', 'L'), q[0], q[1])
            return (x - ref[0], y - ref[1], *[c - ref[2] for c in q[2:]])
    else:
        out = ct.polygon_from_local_coords(p)

        def ref_pt(q):
            x, y = _apply(('L', 'E'), q[0] + ref[0], q[1] + ref[1])
            return (x, y, *[c + ref[2] for c in q[2:]])
    got = [out.exterior, *out.interiors]
    ctx.true(len(got) == len(rings), 'holes')
    for k, (g, r) in enumerate(zip(got, rings)):
        g = list(g.coords)
        ctx.true(len(g) == len(r) + 1, 'vertices')
        for a, b in zip(g, [*r, r[0]]):
            ctx.eqs(list(a), list(ref_pt(b)), f'vertex of ring {k}')
    ctx.reach(f'polygon {way} local')


def bbox(ctx):
    mod, poly = _setup(ctx)
    x0, y0 = ctx.real('x0', -400, 400), ctx.real('y0', -400, 400)
    w, h = ctx.real('w', 1, 50), ctx.real('h', 1, 50)
    x1, y1 = x0 + w, y0 + h
    p = mod.bounding_box_to_polygon(*[ctx.f(v) for v in (x0, x1, y0, y1)])
    ring = list(p.exterior.coords)
    ctx.true(len(ring) == 5, 'four corners')
    for i, want in enumerate(((x1, y0), (x1, y1), (x0, y1), (x0, y0),
                              (x1, y0))):
        ctx.eqs(list(ring[i]), list(want), f'corner {i}')
    ctx.eqs(list(mod.polygon_to_bounding_box(p)), [x0, y0, x1, y1],
            'bounding box')
    pts = [(x0, y0 + h / 2), (x0 + w / 3, y0), (x1, y0 + h / 4),
           (x0 + w / 2, y1)]
    q = poly([[ctx.f(v) for v in c] for c in pts])
    ctx.eqs(list(mod.polygon_to_bounding_box(q)), [x0, y0, x1, y1],
            'bounding box of a polygon')
    ctx.reach('bounding box')


def jobs(tier):
    q = tier == 'quick'
    out = [('bbox', {})]
    for kind in ('scalar', 'list', 'array'):
        for alt in (False, True):
            for refproj in (False, True):
                n = 1 if kind == 'scalar' else 3 if q else 5
                out.append(('points', dict(n=n, kind=kind, alt=alt,
                                           refproj=refproj)))
    out.append(('points', dict(n=1, kind='scalar', alt=True, zero=True)))
    for way in ('to', 'from'):
        for hole in (False, True):
            for alt in (False, True):
                out.append(('polygon', dict(
                    n=(4 if hole else 3) if q else 5, hole=hole, alt=alt,
                    refproj=alt != hole, way=way)))
    return out
