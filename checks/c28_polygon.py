"""C28  spatial filter: exactly the events in the polygon"""
from fractions import Fraction as F

import numpy as np

PROP = 'C28'
WITNESS = ['inside', 'outside', 'on an edge', 'corner', 'concave', 'Catalog',
           'other index', 'none kept', 'array of vertices', 'empty', 'same events',
           'close to an edge', 'south-west']
ASSUMPTIONS = ['shapely is a stand-in in the symbolic runs (exact '
               'point-in-polygon tests of simple polygons)']
BOUNDS = dict(
    quick='0-2 events at any points of the grid of eighths in [-1, 6]^2 '
          '(edges and corners included), 1 on a grid of 1e-6; rows that '
          'are equal; 4 polygons, convex and concave, there and '
          'in the corners of the globe, both '
          'orientations, lists and arrays of vertices; DataFrame and Catalog',
    thorough='3 events, 6 polygons')
OUTSIDE = 'polygons with holes; self-intersecting polygons'
BUDGET = dict(quick=60, thorough=600)

SHAPES = {
    'triangle': ((0, 0), (4, 1), (1, 5)),
    'square': ((0, 0), (5, 0), (5, 3), (0, 3)),
    'clockwise': ((0, 3), (5, 3), (5, 0), (0, 0)),
    'arrow': ((0, 0), (0, 5), (5, 5), (5, 0), (2.5, 2.5)),
    'steps': ((0, 0), (5, 0), (5, 2), (3, 2), (3, 4), (0, 4)),
    'closed': ((0, 0), (5, 0), (5, 3), (0, 3), (0, 0)),
}
# the regions as unions of convex pieces, each a list of a x + b y <= c
PIECES = {
    'triangle': [[(1, -4, 0), (4, 3, 19), (-5, 1, 0)]],
    'square': [[(-1, 0, 0), (1, 0, 5), (0, -1, 0), (0, 1, 3)]],
    'arrow': [[(-1, 0, 0), (1, -1, 0), (0, 1, 5)],
              [(1, 0, 5), (-1, -1, -5), (0, 1, 5)]],
    'steps': [[(-1, 0, 0), (1, 0, 5), (0, -1, 0), (0, 1, 2)],
              [(-1, 0, 0), (1, 0, 3), (0, -1, 0), (0, 1, 4)]],
}
PIECES['clockwise'] = PIECES['closed'] = PIECES['square']


class Pt:
    def __init__(self, *xy):
        self.x, self.y = xy if len(xy) == 2 else xy[0]

    def intersects(self, p):
        return p.intersects(self)

    def within(self, p):
        return p.contains(self)

    covered_by = intersects


class Pg:
    def __init__(self, pts):
        from fractions import Fraction as F
        self.v = [tuple(F(float(c)) for c in p) for p in pts]
        if self.v[0] == self.v[-1]:
            self.v = self.v[:-1]

    def _where(self, p):
        """1 inside, 0 on the boundary, -1 outside"""
        x, y, odd = p.x, p.y, False
        for (ax, ay), (bx, by) in zip(self.v, self.v[1:] + self.v[:1]):
            s = (x - ax) * (by - ay) - (y - ay) * (bx - ax)
            if s == 0 and x >= min(ax, bx) and x <= max(ax, bx) \
                    and y >= min(ay, by) and y <= max(ay, by):
                return 0
            if bool(y >= ay) != bool(y >= by):
                if (s < 0) == (by > ay):
                    odd = not odd
        return 1 if odd else -1

    def intersects(self, p):
        return self._where(p) >= 0

    def contains(self, p):
        return self._where(p) > 0

    covers = intersects

    def disjoint(self, p):
        return not self.intersects(p)

    def touches(self, p):
        return self._where(p) == 0


def _in(ctx, shape, x, y):
    hit = False
    for piece in PIECES[shape]:
        tight, ok = 0, True
        for a, b, c in piece:
            v = x * a + y * b
            if not bool(v <= ctx.const(c)):
                ok = False
                break
            if bool(v == ctx.const(c)):
                tight += 1
        if ok:
            hit = True
            if tight == 1:
                ctx.reach('on an edge')
            if tight == 2:
                ctx.reach('corner')
            break
    ctx.reach('inside' if hit else 'outside')
    if shape == 'arrow':
        ctx.reach('concave')
    return hit


def inside(ctx, n, shape, kind='frame', index=None, arr=False, fine=False,
           equal=False, at=(0, 0)):
    import pandas as pd
    import seismostats.utils.filtering as mod
    if ctx.symbolic:
        import shapely
        import shapely.prepared
        for m in (shapely.geometry, shapely):
            ctx.replace(m, 'Polygon', Pg)
            ctx.replace(m, 'Point', Pt)
        ctx.replace(shapely.prepared, 'prep', lambda p: p)
        ctx.replace(shapely, 'prepare', lambda p: None)
    g = F(1, 2**20 if fine else 8)
    lat = [ctx.grid(k, str(g)) for k in ctx.ints('lat', n, int(-1 / g),
                                                 int(6 / g))]
    lon = [ctx.grid(k, str(g)) for k in ctx.ints('lon', n, int(-1 / g),
                                                 int(6 / g))]
    mags, types = [1.5 + i for i in range(n)], list('abc'[:n])
    if equal:
        # rows that are the same in everything
        lat, lon, mags, types = [x[:1] * n for x in (lat, lon, mags, types)]
        ctx.reach('same events')
    if fine:
        ctx.reach('close to an edge')
    # the same events elsewhere on the globe
    ulat, ulon = lat, lon
    lat, lon = [x + at[0] for x in lat], [x + at[1] for x in lon]
    if min(at) < -10:
        ctx.reach('south-west')
    dt = object if ctx.symbolic else float
    data = dict(longitude=pd.Series(ctx.list(lon), dtype=dt),
                magnitude=list(mags),
                latitude=pd.Series(ctx.list(lat), dtype=dt),
                event_type=list(types))
    if kind == 'catalog':
        from seismostats import Catalog
        cat = Catalog(data, mc=1.0, name='x')
        ctx.reach('Catalog')
    else:
        cat = pd.DataFrame(data)
    if index:
        cat.index = index[:n]
        ctx.reach('other index')
    labels = list(cat.index)
    cols = list(cat.columns)
    v = tuple((x + at[0], y + at[1]) for x, y in SHAPES[shape])
    if arr:
        v = np.array(v, dtype=float)
        ctx.reach('array of vertices')
    out = mod.cat_intersect_polygon(cat, v)
    keep = [i for i in range(n) if _in(ctx, shape, ulat[i], ulon[i])]
    if not n:
        ctx.reach('empty')
    elif not keep:
        ctx.reach('none kept')
    ctx.true(list(out.index) == [labels[i] for i in keep], 'events kept')
    ctx.true(list(out.columns) == cols, 'columns kept')
    ctx.true(list(out['magnitude']) == [mags[i] for i in keep], 'magnitudes')
    ctx.true(list(out['event_type']) == [types[i] for i in keep], 'types')
    ctx.eqs(list(out['latitude']), [lat[i] for i in keep], 'latitudes')
    ctx.eqs(list(out['longitude']), [lon[i] for i in keep], 'longitudes')
    ctx.true(list(cat.columns) == cols and list(cat.index) == labels,
             'input unchanged')
    ctx.true(type(out) is type(cat), 'type kept')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for shape in ('triangle', 'square', 'clockwise', 'arrow') if q else SHAPES:
        out.append(('inside', dict(n=1, shape=shape)))
    out.append(('inside', dict(n=1, shape='arrow', index=(7,), arr=True)))
    out.append(('inside', dict(n=2, shape='square', index=(5, 2),
                               kind='catalog')))
    out.append(('inside', dict(n=2, shape='triangle', index=('b', 'a'))))
    out.append(('inside', dict(n=2, shape='square', index=(3, 3))))
    out.append(('inside', dict(n=1, shape='square', fine=True)))
    out.append(('inside', dict(n=1, shape='square', fine=True, arr=True,
                               kind='catalog')))
    out.append(('inside', dict(n=2, shape='square', equal=True)))
    out.append(('inside', dict(n=2, shape='arrow', equal=True, index=(4, 4),
                               kind='catalog')))
    for at in ((-40, -75), (80, 170), (-90, 170), (80, -179)):
        out.append(('inside', dict(n=1, shape='arrow', at=at)))
    for kind in ('frame', 'catalog'):
        out.append(('inside', dict(n=0, shape='square', kind=kind)))
    if not q:
        out.append(('inside', dict(n=3, shape='square', index=(3, 3, 1))))
        out.append(('inside', dict(n=2, shape='steps', arr=True)))
    return out
