"""C31 cat_intersect_polygon returns exactly the rows within the polygon."""
import numpy as np
import pandas as pd

from seismostats import Catalog, ForecastCatalog
from seismostats.utils import cat_intersect_polygon
from vlib.util import chance, choice, size

PROPERTY = 'C31'
LEVEL = 'exploration'
RULE = ('a case is one table filtered with one polygon; every row is judged by '
        'a crossing-number test; non-trivial when some but not all rows are '
        'inside')
ASSUMPTIONS = ['the polygon is simple and its first coordinate is the '
               'latitude (as in the tests of the package)',
               'points nearer than 1e-9 to an edge are judged only if they '
               'are exactly on a vertex or an axis-parallel edge (inside)']
MUST = {'calls': 200, 'rows': 5000, 'inside': 1500, 'outside': 3000,
        'boundary': 150, 'missing': 150, 'empty': 10, 'none_inside': 15,
        'all_inside': 2, 'catalogs': 80, 'forecast': 25, 'concave': 80,
        'odd_index': 60, 'arrays': 35, 'attributes': 80}


def polygon(m, rng):
    """vertices (latitude, longitude) of a simple polygon"""
    c = np.array([choice(rng, [0, 46., -33.5, 0]),
                  choice(rng, [0, 8., -120., 170, 0])])
    kind = choice(rng, ['box', 'star', 'star', 'triangle', 'comb'])
    s = choice(rng, [.01, 1, 1, 8, 8, 1e-4, .0005])
    if kind == 'box':
        a, b = s * float(rng.integers(1, 4)), s * float(rng.integers(1, 9))
        v = [(-a, -b), (-a, b), (a, b), (a, -b)]
    elif kind == 'comb':
        m.saw('concave')
        v = [(0, 0), (4, 0), (4, 1), (1, 1), (1, 2), (4, 2), (4, 3), (0, 3)]
        v = [(s * a, s * b) for a, b in v]
    else:
        n = 3 if kind == 'triangle' else int(
            rng.integers(12, 200) if chance(rng, .3) else rng.integers(4, 12))
        t = (np.arange(n) + rng.uniform(.1, .9, n)) / n * 2 * np.pi
        r = s * rng.uniform(.3, 2, n)
        m.saw('concave', n > 3)
        v = [(x * np.cos(y), x * np.sin(y)) for x, y in zip(r, t)]
    v = [(float(c[0] + a), float(c[1] + b)) for a, b in v]
    if chance(rng, .5):
        v.reverse()
    k = int(rng.integers(0, len(v)))
    v = v[k:] + v[:k]
    return v, s


def inside(p, v):
    """True, False, 'edge' (exactly on it) or None (too close)"""
    x, y = p
    if x != x or y != y:
        return False
    res = False
    for (a, b), (c, d) in zip(v, v[1:] + v[:1]):
        if (x, y) == (a, b) or (
                a == c == x and min(b, d) <= y <= max(b, d)) or (
                b == d == y and min(a, c) <= x <= max(a, c)):
            return 'edge'
        length = np.hypot(c - a, d - b)
        t = ((x - a) * (c - a) + (y - b) * (d - b)) / length ** 2
        t = min(1, max(0, t))
        if np.hypot(a + t * (c - a) - x, b + t * (d - b) - y) < 1e-9:
            return None
        if (b > y) != (d > y) and x < a + (y - b) / (d - b) * (c - a):
            res = not res
    return res


def w_filter(m, rng, i):
    v, s = polygon(m, rng)
    n = size(rng, choice(rng, [0, 1, 5, 40, 100]), 5000)
    va = np.array(v)
    lo, hi = va.min(axis=0), va.max(axis=0)
    spread = choice(rng, [.2, 1, 1, 0])
    lat = rng.uniform(lo[0] - spread * s, hi[0] + spread * s, n)
    lon = rng.uniform(lo[1] - spread * s, hi[1] + spread * s, n)
    if chance(rng, .07):
        lat += 1000 * s
    for j in range(n):
        r = rng.random()
        if r < .06:
            lat[j], lon[j] = choice(rng, v)
        elif r < .1:        # middle of an edge
            k = int(rng.integers(0, len(v)))
            lat[j], lon[j] = (np.array(v[k]) + np.array(v[k - 1])) / 2
        elif r < .14:       # next to a vertex
            lat[j], lon[j] = np.array(choice(rng, v)) + rng.normal(
                0, .01 * s, 2)
        elif r < .18:
            choice(rng, [lat, lon])[j] = np.nan
            m.saw('missing')
    data = {'latitude': lat, 'longitude': lon, 'magnitude': rng.normal(2, 1, n),
            'time': pd.date_range('2020-01-01', periods=n, freq='h'),
            'event_type': [choice(rng, ['a', None]) for _ in range(n)]}
    if chance(rng, .2):
        data['inside_polygon'] = rng.integers(0, 9, n)
    if chance(rng, .2):     # swapped order of columns
        data = dict(reversed(list(data.items())))
    T = choice(rng, [pd.DataFrame, Catalog, ForecastCatalog])
    if T is ForecastCatalog:
        data['catalog_id'] = rng.integers(0, 3, n)
    ix = choice(rng, [None, None, 'labels', 'dups', 'strings'])
    index = {None: None, 'labels': rng.permutation(n) + 50,
             'dups': rng.integers(0, 3, n),
             'strings': ['e%d' % (j % 7) for j in range(n)]}[ix]
    df = T(data, index=index)
    if T is not pd.DataFrame:
        df.mc, df.delta_m, df.name = 1.5, .1, 'x'
    m.saw('odd_index', ix is not None)
    m.saw('catalogs', T is not pd.DataFrame)
    m.saw('forecast', T is ForecastCatalog)
    m.saw('calls')
    m.saw('rows', n)
    m.saw('empty', n == 0)
    given = choice(rng, [v, v, va, [list(p) for p in v], v + v[:1]])
    m.saw('arrays', isinstance(given, np.ndarray))
    before = pd.DataFrame(df).copy()
    got = cat_intersect_polygon(df, given)
    what = '%s with %d rows, polygon %s' % (T.__name__, n, np.round(
        va, 4).tolist())
    m.check(pd.DataFrame(df).equals(before) and
            list(df.columns) == list(before.columns), 'input',
            'the catalogue is changed')
    state = [inside(p, v) for p in zip(lat, lon)]
    m.saw('boundary', state.count('edge'))
    m.saw('inside', state.count(True))
    m.saw('outside', state.count(False))
    want = [s in (True, 'edge') for s in state]
    m.saw('none_inside', n > 0 and not any(want))
    m.saw('all_inside', n > 1 and all(want))
    m.case(i, nontrivial=any(want) and not all(want))
    m.sample(polygon=str(np.round(va, 3).tolist()), rows=n, inside=sum(want))
    m.require(type(got) is T, 'type', '%s: the result is a %s' % (
        what, type(got)))
    m.require(list(got.columns) == list(before.columns), 'columns',
              '%s: columns %s' % (what, list(got.columns)))
    close = [j for j in range(n) if state[j] is None]
    # rows are identified by their (distinct) times
    pos = {t: j for j, t in enumerate(data['time'])}
    js = [pos[t] for t in got['time']]
    m.require(js == sorted(js), 'order', '%s: the order is changed' % what)
    bad = [j for j in range(n) if j not in close and (j in js) != want[j]]
    m.require(not bad, 'rows', '%s: point %s is %s' % (
        what, bad and (lat[bad[0]], lon[bad[0]]), bad and (
            'left out' if want[bad[0]] else 'kept')))
    m.check(pd.DataFrame(got).equals(before.iloc[js]) and
            list(got.index) == list(before.index[js]), 'values',
            '%s: values or index of the rows are changed' % what)
    if T is not pd.DataFrame:
        m.saw('attributes')
        m.check((got.mc, got.delta_m, got.name) == (1.5, .1, 'x'),
                'attributes', '%s: attributes are lost' % what)
    if len(got):
        got.loc[:, 'magnitude'] = 99.
        m.check(pd.DataFrame(df).equals(before), 'shared', '%s: the result '
                'shares data with the catalogue' % what)


WORKLOADS = [('filter', w_filter, 400, 8000)]
