"""C29 coordinate transformation: exact, invertible, point by point, and
relative to the reference point."""
import threading

import numpy as np
from pyproj import Transformer
from shapely.geometry import Polygon

from seismostats.utils import (CoordinateTransformer, bounding_box_to_polygon,
                               polygon_to_bounding_box)
from vlib.util import chance, choice, size

PROPERTY = 'C29'
LEVEL = 'exploration'
RULE = ('a case is one transformer with its sets of points and polygons; '
        'every coordinate is compared with pyproj plus the reference point, '
        'and mapped back; non-trivial when it has points')
ASSUMPTIONS = ['points lie in the area of use of the projection',
               'pyproj\'s (always_xy) transformation is right; Swiss '
               'coordinates are also compared with swisstopo\'s approximate '
               'formulas (5 m)']
MUST = {'points': 4000, 'round_trips': 4000, 'swiss': 300, 'polygons': 150,
        'holes': 30, 'altitudes': 1000, 'zero_altitude': 30, 'scalars': 80,
        'lists': 80, 'arrays': 80, 'reference': 100, 'ref_proj': 50,
        'bounding_boxes': 200, 'polygons_3d': 25, 'threads': 5,
        'interleaved': 80, 'projected_external': 40}

# local projection, (lon, lat) range
PROJ = [(2056, (6.5, 10), (46, 47.6)), ('epsg:2056', (6.5, 10), (46, 47.6)),
        (21781, (6.5, 10), (46, 47.6)), (32632, (6.2, 11.8), (-2, 70)),
        ('epsg:32719', (-71, -67), (-60, -5)), (3857, (-170, 170), (-70, 70)),
        ('+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84 +units=m +no_defs',
         (6.2, 11.8), (1, 70)),
        ('+proj=aeqd +lat_0=37 +lon_0=-122 +datum=WGS84 +units=m',
         (-125, -119), (34, 40)),
        ('+proj=aeqd +lat_0=-18 +lon_0=178 +datum=WGS84 +units=km',
         (175, 179.9), (-20, -15))]


def points(rng, lon, lat, n):
    return rng.uniform(*lon, n), rng.uniform(*lat, n), rng.uniform(
        -9000, 9000, n)


def same(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def swiss(lon, lat):
    """swisstopo's approximate formulas, WGS84 -> LV95"""
    p = (lat * 3600 - 169028.66) / 10000
    q = (lon * 3600 - 26782.5) / 10000
    return (2600072.37 + 211455.93 * q - 10938.51 * q * p - .36 * q * p * p
            - 44.54 * q ** 3,
            1200147.07 + 308807.95 * p + 3745.25 * q * q + 76.63 * p * p
            - 194.56 * q * q * p + 119.79 * p ** 3)


def make(m, rng):
    local, lon, lat = choice(rng, PROJ)
    ext = choice(rng, [None, 4326, 'epsg:4326', 4258, 'projected'])
    glon, glat = lon, lat
    if ext == 'projected':
        ext = choice(rng, [3857] + ([21781, 'epsg:2056', 32632]
                                    if lon == (6.5, 10) else []))
        m.saw('projected_external')
        # the range of coordinates inside of the area
        cx, cy = Transformer.from_proj(4326, ext, always_xy=True).transform(
            [lon[0], lon[0], lon[1], lon[1]], [lat[0], lat[1]] * 2)
        lon = (max(cx[:2]), min(cx[2:]))
        lat = (max(cy[0], cy[2]), min(cy[1], cy[3]))
    unit = .001 if 'km' in str(local) else 1.
    fwd = Transformer.from_proj(ext or 4326, local, always_xy=True)
    kw = {} if ext is None else {'external_proj': ext}
    ref = (0., 0., 0.)
    how = choice(rng, ['none', 'local', 'local', 'ref_proj'])
    alt = choice(rng, [0., -350.5, 1200., 0, 430, -7])
    if how == 'local':
        x, y = fwd.transform(rng.uniform(*lon), rng.uniform(*lat))
        ref = (round(x, 1), round(y, 1), alt)
        m.saw('reference')
        kw.update(ref_easting=ref[0], ref_northing=ref[1])
    elif how == 'ref_proj':
        rp = choice(rng, [4326, 'epsg:4326', 2056 if local in (
            2056, 'epsg:2056', 21781) else 4326])
        a, b = round(rng.uniform(*glon), 4), round(rng.uniform(*glat), 4)
        if rp == 2056:
            a, b = Transformer.from_proj(4326, 2056, always_xy=True).transform(
                a, b)
        elif chance(rng, .2):       # the origin is a place like any other
            a, b = choice(rng, [(0., b), (a, 0.), (0., 0.)])
            m.saw('ref_zero')
        kw.update(ref_easting=a, ref_northing=b, ref_proj=rp)
        ref = Transformer.from_proj(rp, local, always_xy=True).transform(
            a, b) + (alt,)
        if not np.all(np.isfinite(ref)):
            return make(m, rng)
        m.saw('ref_proj')
    if how != 'none' and chance(rng, .7):
        kw['ref_altitude'] = alt
    else:
        ref = ref[:2] + (0.,)
    args = (local,)
    if how == 'local' and chance(rng, .3):      # as positions
        args += (kw.pop('ref_easting'), kw.pop('ref_northing'))
        if 'ref_altitude' in kw:
            args += (kw.pop('ref_altitude'),)
    ct = CoordinateTransformer(*args, **kw)
    what = 'CoordinateTransformer%s with %s' % (args, kw)
    return ct, fwd, ref, lon, lat, unit, what, local


def back_tol(lon):
    """degrees or metres (which the inverse of projections reaches)"""
    return 1e-6 if max(map(abs, lon)) <= 180 else 5e-3


def one(m, rng, pack, n, form, zs):
    """transform n points there and back"""
    ct, fwd, ref, lon, lat, unit, what, local = pack
    x, y, z = points(rng, lon, lat, n)
    if zs and chance(rng, .2):
        z[:] = 0
        m.saw('zero_altitude')
    mk = {'scalar': lambda v: float(v[0]), 'list': list, 'array': lambda v: v,
          'int': lambda v: int(v[0])}[form]
    m.saw({'scalar': 'scalars', 'list': 'lists', 'array': 'arrays',
           'int': 'scalars'}[form])
    a = (mk(x), mk(y)) + ((mk(z),) if zs else ())
    keep = [np.array(v, copy=True) for v in a]
    got = ct.to_local_coords(*a)
    m.saw('points', n)
    m.saw('altitudes', n if zs else 0)
    m.check(all(np.array_equal(p, q) for p, q in zip(a, keep)), 'argument',
            'to_local_coords changes its arguments')
    e = fwd.transform(*a)
    want = (np.asarray(e[0]) - ref[0], np.asarray(e[1]) - ref[1])
    tol = 1e-6 * unit + 1e-12 * np.max(np.abs(e[:2]))
    m.require(len(got) == 3 and same(got[0], want[0], tol) and
              same(got[1], want[1], tol), 'to_local', '%s: %s becomes %s, '
              'expected %s' % (what, a, got, want))
    m.check(got[2] is None if not zs else same(
        got[2], np.asarray(a[2]) - ref[2], 1e-9), 'altitude', '%s: altitude '
        '%s becomes %s' % (what, a[2:], got[2]))
    if local in (2056, 'epsg:2056') and lon[1] < 180:
        s = swiss(np.asarray(a[0]), np.asarray(a[1]))
        m.saw('swiss', n)
        m.check(same(got[0], s[0] - ref[0], 5) and
                same(got[1], s[1] - ref[1], 5), 'to_local', '%s: %s becomes '
                '%s, expected about %s' % (what, a, got, s))
    back = ct.from_local_coords(*got) if zs or chance(rng, .5) else \
        ct.from_local_coords(got[0], got[1])
    m.saw('round_trips', n)
    tol = back_tol(lon)
    ok = same(back[0], a[0], tol) and same(back[1], a[1], tol)
    m.check(ok, 'round_trip', '%s: %s comes back as %s' % (what, a, back))
    m.check(back[2] is None if not zs else same(back[2], a[2], 1e-6),
            'altitude', '%s: altitude %s comes back as %s' % (what, a[2:],
                                                              back[2]))


def w_points(m, rng, i):
    packs = [make(m, rng) for _ in range(2)]
    for pack in packs:
        ct, fwd, ref, what = pack[0], pack[1], pack[2], pack[6]
        m.sample(transformer=what)
        r = ct.from_local_coords(0, 0, 0)
        e = fwd.transform(*r)
        if ref[0] or ref[1]:
            m.check(same(e[:2], ref[:2], 1e-2) and same(r[2], ref[2], 1e-6),
                    'reference', '%s: the local origin is %s, i.e. %s, not '
                    'the reference point %s' % (what, r, e, ref))
    for k in range(6):      # transformers used in turns
        m.saw('interleaved')
        n = size(rng, choice(rng, [1, 2, 30]), 2000, p=.01)
        m.case(i, k)
        one(m, rng, packs[k % 2], n, choice(rng, ['list', 'array'])
            if n > 1 or chance(rng, .3) else 'scalar', chance(rng, .5))


def ring(p):
    return np.array(p.coords)


def w_polygon(m, rng, i):
    pack = make(m, rng)
    ct, fwd, ref, lon, lat, unit, what, local = pack
    n = int(rng.integers(3, 9))
    c = (np.mean(lon), np.mean(lat))
    t = np.sort(rng.uniform(0, 2 * np.pi, n)) if chance(rng, .5) else \
        np.arange(n) / n * 2 * np.pi + .1
    rad = rng.uniform(.3, .9, n) * min(lon[1] - lon[0], lat[1] - lat[0]) / 2
    pts = [(c[0] + r * np.cos(a), c[1] + r * np.sin(a))
           for a, r in zip(t, rad)]
    three = chance(rng, .25)
    if three:
        pts = [p + (float(z),) for p, z in zip(pts, rng.uniform(-5, 5, n))]
        m.saw('polygons_3d')
    holes = []
    if chance(rng, .3) and not three:
        u = .002 * (lon[1] - lon[0])
        holes = [[(c[0] + u * a, c[1] + u * b)
                  for a, b in ((0, 0), (0, 1), (1, 0))]]
        m.saw('holes')
    poly = Polygon(pts, holes)
    wkt = poly.wkt
    m.saw('polygons')
    m.case(i)
    got = ct.polygon_to_local_coords(poly)
    m.check(poly.wkt == wkt, 'argument', 'the polygon is changed')
    m.require(isinstance(got, Polygon) and len(got.interiors) == len(holes),
              'polygon', '%s: %s becomes %s' % (what, poly, got))
    for a, b in zip([poly.exterior, *poly.interiors],
                    [got.exterior, *got.interiors]):
        a, b = ring(a), ring(b)
        m.require(a.shape == b.shape, 'polygon', '%s: ring with %s becomes %s'
                  % (what, a.shape, b.shape))
        e = ct.to_local_coords(a[:, 0], a[:, 1], a[:, 2] if three else None)
        tol = 1e-6 * unit + 1e-12 * np.max(np.abs(b))
        m.check(all(same(b[:, k], e[k], tol) for k in range(a.shape[1])),
                'polygon', '%s: vertices %s, the points become %s' % (
                    what, b[:2], [x[:2] for x in e if x is not None]))
    back = ct.polygon_from_local_coords(got)
    m.check(len(back.interiors) == len(holes) and all(
        same(ring(a), ring(b), back_tol(lon)) for a, b in zip(
            [poly.exterior, *poly.interiors],
            [back.exterior, *back.interiors])), 'polygon_round_trip',
        '%s: %s comes back as %s' % (what, poly, back))


def w_box(m, rng, i):
    """bounding boxes"""
    x = np.sort(rng.uniform(-180, 180, 2))
    y = np.sort(rng.uniform(-90, 90, 2))
    if chance(rng, .3):
        x, y = np.round(x), np.round(y)
        x[1] += 1
        y[1] += 1
    m.saw('bounding_boxes')
    m.case(i)
    p = bounding_box_to_polygon(x[0], x[1], y[0], y[1])
    what = 'box x %s..%s, y %s..%s' % (x[0], x[1], y[0], y[1])
    m.require(isinstance(p, Polygon) and p.is_valid, 'box', '%s: %s' % (what,
                                                                        p))
    corners = {(float(a), float(b)) for a in x for b in y}
    m.check(set(p.exterior.coords) == corners and p.exterior.is_ccw, 'box',
            '%s becomes %s' % (what, p))
    m.check(polygon_to_bounding_box(p) == (x[0], y[0], x[1], y[1]),
            'box_round_trip', '%s comes back as %s' % (
                what, polygon_to_bounding_box(p)))
    pts = np.column_stack([rng.uniform(-180, 180, 7), rng.uniform(-90, 90, 7)])
    b = polygon_to_bounding_box(Polygon(pts))
    e = (*pts.min(axis=0), *pts.max(axis=0))
    m.check(b == e, 'bounds', 'the bounding box of %s is %s, not %s' % (
        pts.tolist(), b, e))


def w_threads(m, rng, i):
    """the same points in several threads"""
    ct, fwd, ref, lon, lat, unit, what, local = make(m, rng)
    x, y, z = points(rng, lon, lat, 2000)
    want = ct.to_local_coords(x, y, z)
    res = [None] * 4

    def run(k):
        res[k] = [ct.to_local_coords(x, y, z) for _ in range(5)][-1]
    ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    m.saw('threads')
    m.case(i)
    m.check(all(r is not None and all(np.array_equal(a, b)
                                      for a, b in zip(r, want)) for r in res),
            'threads', '%s gives other results in threads' % what)


WORKLOADS = [('points', w_points, 150, 2500), ('polygons', w_polygon, 250, 4000),
             ('boxes', w_box, 300, 5000), ('threads', w_threads, 8, 60)]
