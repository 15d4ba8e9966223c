"""C19 construction of catalogues: every value of the raw data arrives, as a
number, a naive time, or None."""
import datetime as dt
import math

import numpy as np
import pandas as pd
import shapely

from seismostats import Catalog, ForecastCatalog
from vlib.util import chance, choice, same, size, snapshot

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('a case is one catalogue built from generated raw data (records, '
        'columns or DataFrame; numbers, numeric and other strings, times in '
        'all accepted notations, missing values); non-trivial when it has '
        'events')
ASSUMPTIONS = ['times are ISO 8601 strings, datetimes, Timestamps, '
               'datetime64 or missing; UTC offsets are dropped',
               'fractions beyond microseconds are judged only when all dates '
               'lie between 1678 and 2262']
MUST = {'catalogs': 400, 'values': 20000, 'unparsable_numbers': 300,
        'numeric_strings': 1000, 'time_strings': 1000, 'ancient': 40, 'mixed_zones': 15,
        'missing_times': 80, 'none_like': 300, 'kept_strings': 300,
        'empty': 20, 'forecast': 80, 'from_dict': 150, 'ids_excluded': 30,
        'uncertainties_excluded': 30, 'index': 30, 'from_rows': 20, 'rebuilt': 100}

TIMES = ['2020-01-02', '2020-01-02T03:04:05.678901', pd.Timestamp(
    '2021-01-01T03:00'), pd.Timestamp('1900-05-06T07:08:09.123456789'),
    dt.datetime(1969, 12, 31, 23, 59, 59, 999999)]

NUM = ['magnitude', 'latitude', 'longitude', 'depth', 'associatedphasecount',
       'usedphasecount', 'associatedstationcount', 'usedstationcount',
       'depthphasecount', 'standarderror', 'azimuthalgap',
       'secondaryazimuthalgap', 'maximumdistance', 'minimumdistance',
       'mediandistance']
STR = ['magnitude_type', 'event_type']
NONES = ['', 'nan', 'NaN', 'none', 'None', 'na', 'Na', 'NA', 'null', 'Null',
         'NULL', None]
KEPT = ['ML', 'Mw', 'earthquake', 'nano', 'N', 'not existing', 'Nan ', 'null1',
        'mNA', '0', 'explosion', 'ML,NA']
BAD = ['abc', '', '1,5', '--', 'NaN', None, '1.2.3', '5 km', 'None', 'm3']
OTHER = ['magnitude_Mw', 'eventID', 'originID', 'magnitudeID',
         'magnitude_uncertainty', 'depth_confidenceLevel', 'note', 'region',
         'magnitude_Mw_magnitudeID', 'evaluationmode', 'catalog_id']


def number(m, rng):
    """(raw value, expected float)"""
    r = rng.random()
    if r < .1:
        return choice(rng, BAD), math.nan
    v = choice(rng, [float(rng.normal(0, 50)), float(rng.integers(-5, 90)),
                     round(float(rng.uniform(-3, 9)), 1), 0.0,
                     float(rng.uniform(0, 1e-7)), 1e22])
    if r < .4:
        m.saw('numeric_strings')
        s = choice(rng, [repr(v), '%.3e' % v, ' %r' % v, '%+f' % v])
        return s, float(s)
    if r < .5:
        return int(v) if abs(v) < 1e6 else v, float(int(v)) \
            if abs(v) < 1e6 else v
    return (np.float64(v) if r < .7 else v), v


def moment(rng, era):
    lo, hi = {'new': (1900, 2030), 'old': (1700, 1900),
              'ancient': (2, 1600)}[era]
    d = dt.datetime(int(rng.integers(lo, hi)), int(rng.integers(1, 13)),
                    int(rng.integers(1, 29)), int(rng.integers(0, 24)),
                    int(rng.integers(0, 60)), int(rng.integers(0, 60)))
    if chance(rng, .7):
        d = d.replace(microsecond=choice(
            rng, [int(rng.integers(0, 10 ** 6)), 999999, 1, 500000,
                  1000 * int(rng.integers(0, 1000))]))
    return d


def time_column(m, rng, n):
    """(raw values, expected datetimes/None, tolerance in ns)"""
    ancient = chance(rng, .25)
    style = choice(rng, ['string', 'string', 'string', 'datetime', 'stamp',
                         'dt64', 'tzstamp'])
    zones = [choice(rng, ['', '', 'Z', '+00:00', '-05:00', '+05:30'])]
    if style == 'string' and chance(rng, .2):   # mixed notations
        zones = ['', 'Z', '+00:00', '-05:00', '+0530']
        m.saw('mixed_zones')
    mixed = len(zones) > 1
    raw, exp = [], []
    ns = []
    for j in range(n):
        if j and chance(rng, .05):      # events at the same time
            m.saw('same_times')
            k = int(rng.integers(0, j))
            raw.append(raw[k])
            exp.append(exp[k])
            ns.append(ns[k])
            continue
        if chance(rng, .06) and style != 'dt64':
            raw.append(choice(rng, [None, pd.NaT, ''] if style == 'string'
                              and not ancient and not mixed else [None, pd.NaT]))
            exp.append(None)
            ns.append(0)
            continue
        d = moment(rng, 'ancient' if ancient and chance(rng, .5) else
                   choice(rng, ['new', 'new', 'old']))
        extra = 0
        if style == 'string':
            s = '%04d-%02d-%02dT%02d:%02d:%02d' % (d.year, d.month, d.day,
                                                   d.hour, d.minute, d.second)
            if ancient and d.year < 1000 and chance(rng, .3):
                s = s.lstrip('0')
            us = d.microsecond
            if us:
                f = '%06d' % us
                if chance(rng, .3):
                    f = f.rstrip('0')
                elif chance(rng, .3):
                    extra = int(rng.integers(0, 1000))
                    f += '%03d' % extra
                s += '.' + f
            elif chance(rng, .3):
                s += '.0'
            elif not ancient and not mixed and d.hour == 0 \
                    and chance(rng, .5):
                s, d = s[:10], d.replace(minute=0, second=0)
                raw.append(s)
                exp.append(d)
                ns.append(0)
                continue
            if not ancient and not mixed and chance(rng, .2):
                s = s.replace('T', ' ')
            raw.append(s + choice(rng, zones))
            m.saw('time_strings')
        elif style == 'datetime':
            raw.append(d)
        elif style == 'dt64' or (style != 'datetime' and ancient):
            raw.append(np.datetime64(d, 'us'))
        elif style == 'stamp':
            raw.append(pd.Timestamp(d))
        else:
            raw.append(pd.Timestamp(d, tz='UTC'))
        exp.append(d)
        ns.append(extra)
    if ancient:
        m.saw('ancient')
    if style == 'dt64' or (ancient and style in ('stamp', 'tzstamp')):
        raw = np.array([np.datetime64('NaT') if e is None else
                        np.datetime64(e, 'us') for e in exp],
                       dtype='datetime64[us]')
    m.saw('missing_times', sum(e is None for e in exp))
    # a mixed date-only/offset column is not uniform
    zone = zones[0]
    if style == 'string' and zone not in ('', 'Z'):
        raw = [r + 'T00:00:00' + zone if isinstance(r, str) and len(r) == 10
               else r for r in raw]
    elif style == 'string' and zone == 'Z':
        raw = [r + 'T00:00:00Z' if isinstance(r, str) and len(r) == 10 else r
               for r in raw]
    return raw, exp, ns, ancient or mixed


def untime(data):
    """comparable (NaT is not equal to itself)"""
    if isinstance(data, dict):
        return {k: repr(v) if k == 'time' else v for k, v in data.items()}
    if isinstance(data, list):
        return [untime(r) for r in data]
    return data


def judge(m, cat, cols, exp, what, index=None):
    n = len(next(iter(exp.values()))) if exp else 0
    m.require(isinstance(cat, pd.DataFrame) and len(cat) == n, 'rows',
              '%s: %d rows from %d records' % (what, len(cat), n))
    m.check(sorted(cat.columns) == sorted(cols), 'columns',
            '%s: columns %s, expected %s' % (what, sorted(cat.columns),
                                             sorted(cols)))
    if index is not None:
        m.check(list(cat.index) == list(index), 'index', '%s: index %s, '
                'expected %s' % (what, list(cat.index), list(index)))
    for c in cols:
        if c not in cat.columns:
            continue
        got = list(cat[c])
        m.saw('values', len(got))
        if c in NUM:
            if n:
                m.check(pd.api.types.is_numeric_dtype(cat[c].dtype), 'dtype',
                        '%s: column %s has dtype %s' % (what, c, cat[c].dtype))
            bad = [(i, g, e) for i, (g, e) in enumerate(zip(got, exp[c]))
                   if not (isinstance(g, (int, float, np.number)) and
                           (abs(g - e) <= 1e-13 * abs(e) or
                            g != g and e != e))]
            mech = 'number'
        elif c == 'time':
            bad = []
            vals, ns, ancient = exp[c]
            for i, (g, e) in enumerate(zip(got, vals)):
                if e is None:
                    ok = pd.isna(g)
                elif pd.isna(g) or getattr(g, 'tzinfo', None) is not None:
                    ok = False
                else:
                    g = pd.Timestamp(g) if not isinstance(g, np.datetime64) \
                        else g
                    micro = np.datetime64(g, 'us') if isinstance(
                        g, dt.datetime) else g.astype('datetime64[us]')
                    ok = micro == np.datetime64(e, 'us')
                    if ok and not ancient and ns[i]:
                        ok = pd.Timestamp(g).nanosecond == ns[i]
                if not ok:
                    bad.append((i, g, e))
            mech = 'time'
        elif c in STR:
            bad = [(i, g, e) for i, (g, e) in enumerate(zip(got, exp[c]))
                   if not (pd.isna(g) if e is None else type(g) is str
                           and g == e)]
            mech = 'string'
        else:
            bad = [(i, g, e) for i, (g, e) in enumerate(zip(got, exp[c]))
                   if not (same(g, e) or e is None and pd.isna(g)
                           or isinstance(e, (int, float)) and g == e)]
            mech = 'other'
        m.check(not bad, mech, '%s: value(s) of column %s (row, got, '
                'expected): %s' % (what, c, bad[:3]))


def w_build(m, rng, i):
    n = size(rng, rng.integers(1, 25), 300, 1500, p=.03)
    if chance(rng, .06):
        n = 0
    cols = ['magnitude'] if chance(rng, .9) else []
    cols += [c for c in NUM[1:4] if chance(rng, .85)]
    cols += [c for c in NUM[4:] + STR if chance(rng, .4)]
    cols += [c for c in OTHER[:-1] if chance(rng, .3)]
    if chance(rng, .8):
        cols.append('time')
    cls = ForecastCatalog if chance(rng, .25) else Catalog
    if cls is ForecastCatalog:
        cols.append('catalog_id')
        m.saw('forecast')
    if not cols:
        cols = ['magnitude']
    cols = [cols[j] for j in rng.permutation(len(cols))]
    raw, exp = {}, {}
    for c in cols:
        if c in NUM:
            pairs = [number(m, rng) for _ in range(n)]
            if chance(rng, .3):     # a clean numeric column
                pairs = [(e, e) for _, e in pairs]
            raw[c], exp[c] = [p[0] for p in pairs], [p[1] for p in pairs]
            m.saw('unparsable_numbers', sum(
                p[1] != p[1] for p in pairs))
        elif c == 'time':
            raw[c], e, ns, ancient = time_column(m, rng, n)
            exp[c] = (e, ns, ancient)
        elif c in STR:
            e = []
            r = []
            for _ in range(n):
                if chance(rng, .35):
                    r.append(choice(rng, NONES))
                    e.append(None)
                    m.saw('none_like')
                else:
                    r.append(choice(rng, KEPT))
                    e.append(r[-1])
                    m.saw('kept_strings')
            raw[c], exp[c] = r, e
        elif c == 'catalog_id':
            raw[c] = [int(v) for v in rng.integers(0, 5, n)]
            exp[c] = list(raw[c])
        else:
            raw[c] = [choice(rng, ['nan', 'x y', '3.20', '', 'NULL', 1.5, 7,
                                   'smi:a/b']) for _ in range(n)]
            if chance(rng, .3):
                raw[c] = [float(v) for v in rng.normal(0, 1, n)]
            exp[c] = list(raw[c])
    how = choice(rng, ['columns', 'frame', 'records', 'from_dict',
                       'from_dict_records', 'from_dict'])
    index = None
    if how in ('columns', 'frame') and chance(rng, .4) and n:
        index = [int(v) for v in rng.permutation(n) * 2 + 1]
        m.saw('index')
    if 'time' in cols and isinstance(raw['time'], np.ndarray) and \
            'records' in how:       # as loose objects
        raw['time'] = list(exp['time'][0])
    records = [{c: raw[c][j] for c in cols} for j in range(n)]
    if how == 'columns':
        data, kw = raw, ({} if index is None else {'index': index})
    elif how == 'frame':
        data, kw = pd.DataFrame(raw, columns=cols, index=index), {}
    elif how == 'from_dict':
        data, kw = raw, {}
    else:
        data, kw = records, {}
    if n == 0:
        m.saw('empty')
    before = snapshot(data)
    inc_u, inc_id = not chance(rng, .25), not chance(rng, .25)
    keep = list(cols)
    what = '%s (%s, %d rows)' % (cls.__name__, how, n)
    meta = {}
    if how.startswith('from_dict'):
        m.saw('from_dict')
        if 'magnitude' not in cols:     # drops give a plain DataFrame
            inc_u = inc_id = True
        more = {}
        if how == 'from_dict' and n and chance(rng, .3) and all(
                isinstance(v, (list, np.ndarray)) for v in raw.values()):
            # rows by name
            m.saw('from_rows')
            more = dict(orient='index', columns=list(cols))
            index = ['r%d' % j for j in range(n)]
            if 'time' in cols and isinstance(raw['time'], np.ndarray):
                raw['time'] = list(exp['time'][0])
            data = {r: [raw[c][j] for c in cols]
                    for j, r in enumerate(index)}
            before = snapshot(data)
        cat = cls.from_dict(data, include_uncertainties=inc_u,
                            include_ids=inc_id, **more)
        if not inc_u:
            keep = [c for c in keep if not c.endswith(
                ('_uncertainty', '_lowerUncertainty', '_upperUncertainty',
                 '_confidenceLevel'))]
        if not inc_id:
            keep = [c for c in keep if not c.endswith(
                ('eventID', 'originID', 'magnitudeID'))]
        m.saw('ids_excluded', not inc_id)
        m.saw('uncertainties_excluded', not inc_u)
        if inc_u and inc_id:
            m.check(type(cat) is cls, 'type', '%s gives %s' % (
                what, type(cat)))
    else:
        meta = {k: v for k, v in dict(
            name=choice(rng, ['nm', '']), mc=choice(rng, [0, 1.5, -1.]),
            delta_m=choice(rng, [.1, 0, 0.]),
            b_value=choice(rng, [.9, 0., np.float64(1.1)]),
            a_value=choice(rng, [2.5, 0, -1.]),
            starttime=choice(rng, TIMES), endtime=choice(rng, TIMES),
            bounding_polygon=choice(rng, [
                'POLYGON((0 0))', '', shapely.box(0, 1, 2, 3),
                shapely.Polygon()]),
            depth_min=choice(rng, [-1.0, 0, 0., 1.25]),
            depth_max=choice(rng, [0, 20., 0.])).items()
            if chance(rng, .6)}
        if cls is ForecastCatalog and chance(rng, .6):
            meta['n_catalogs'] = choice(rng, [12, 0, 1])
        cat = cls(data, **meta, **kw)
        m.check(type(cat) is cls, 'type', '%s gives %s' % (what, type(cat)))
        for k in ['name', 'mc', 'delta_m', 'b_value', 'a_value',
                  'bounding_polygon', 'depth_min', 'depth_max'] + (
                      ['n_catalogs'] if cls is ForecastCatalog else []):
            m.check(same(getattr(cat, k), meta.get(k)), 'attribute',
                    '%s: attribute %s is %r, given %r' % (
                        what, k, getattr(cat, k), meta.get(k)))
        for k in ['starttime', 'endtime']:
            v = getattr(cat, k)
            m.check(v is None if k not in meta else isinstance(
                v, pd.Timestamp) and v == pd.Timestamp(meta[k]), 'attribute',
                '%s: attribute %s is %r, given %r' % (what, k, v,
                                                      meta.get(k)))
    m.sample(how=what, columns=cols, first={c: raw[c][:2] for c in cols[:6]})
    m.saw('catalogs')
    m.case(i, how, n, tuple(cols), nontrivial=n > 0)
    m.check(same(untime(data), untime(before)), 'input_modified',
            '%s: the data were modified' % what)
    if n == 0:
        want = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
                'magnitude_type'] if data is records else keep
        m.check(len(cat) == 0 and list(cat.columns) == want, 'columns',
                '%s: columns %s, expected %s' % (what, list(cat.columns),
                                                 want))
        return
    exp = {c: exp[c] for c in cols}
    e1 = {c: (v[0] if c == 'time' else v) for c, v in exp.items()}
    sizes = {c: len(v) for c, v in e1.items()}
    assert set(sizes.values()) == {n}
    full = dict(exp)
    first = next((c for c in cols if c != 'time'), None)
    if first is None:
        m.require(len(cat) == n, 'rows', 'rows lost')
    order = ([first] if first else []) + [c for c in cols if c != first]
    judge(m, cat, keep, {c: full[c] for c in order}, what,
          index if index is not None else range(n))
    if chance(rng, .4) and type(cat) is cls:   # interpreting twice is harmless
        m.saw('rebuilt')
        again = cls(pd.DataFrame(cat))
        judge(m, again, keep, {c: full[c] for c in order}, 'rebuilt ' + what,
              index if index is not None else range(n))


def w_defaults(m, rng, i):
    cls = [Catalog, ForecastCatalog][i % 2]
    make = [lambda: cls(), lambda: cls(None), lambda: cls({}),
            lambda: cls([]), lambda: cls(pd.DataFrame()),
            lambda: cls.from_dict([]), lambda: cls.from_dict({}),
            lambda: cls.from_quakeml('')][(i // 2) % 8]
    cat = make()
    m.saw('empty')
    m.case(i)
    m.check(isinstance(cat, Catalog) and len(cat) == 0 and list(cat.columns) == [
        'longitude', 'latitude', 'depth', 'time', 'magnitude',
        'magnitude_type'], 'empty', 'an empty catalogue is %s with columns %s'
        % (type(cat), list(cat.columns)))
    for k in ['name', 'mc', 'delta_m', 'b_value', 'a_value', 'starttime',
              'endtime', 'bounding_polygon', 'depth_min', 'depth_max']:
        m.check(getattr(cat, k) is None, 'attribute', 'attribute %s of an '
                'empty catalogue is %r' % (k, getattr(cat, k)))


WORKLOADS = [('build', w_build, 700, 9000), ('defaults', w_defaults, 16, 16)]
