"""C25 catalogues converted to OpenQuake and back keep every event and value."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from openquake.hmtk.seismicity.catalogue import Catalogue as OQCatalogue

from seismostats import Catalog, ForecastCatalog
from vlib.util import chance, choice, size

PROPERTY = 'C25'
LEVEL = 'exploration'
OPENQUAKE = True
RULE = ('a case is one catalogue converted to OpenQuake, used there and '
        'converted back, or one OpenQuake catalogue converted and back; '
        'every value of every event is compared; non-trivial with events')
ASSUMPTIONS = ['all events have a time', 'times are resolved to microseconds',
               'metadata of a catalogue is not part of the conversion']
MUST = {'to_openquake': 250, 'from_openquake': 500, 'events': 3000,
        'values': 20000, 'fractions': 1500, 'historic': 60, 'strings': 30,
        'ids_created': 100, 'ids_kept': 100, 'empty': 20, 'unsorted_index': 80,
        'repeated_index': 20,
        'sorted_there': 60, 'purged_there': 60, 'isolation': 60,
        'second_trip': 60, 'kept_time_columns': 80, 'empty_attributes': 60,
        'forecast': 20, 'object_values': 80, 'nullable': 15, 'carry': 10}

UNITS = ['year', 'month', 'day', 'hour', 'minute', 'second']
US = dt.timedelta(microseconds=1)


def moments(rng, n, historic):
    out = []
    few = historic and chance(rng, .2)  # years with three digits only
    for _ in range(n):
        lo = dt.datetime(1680, 1, 1)
        if few:
            out.append(dt.datetime(
                int(rng.integers(168, 226)), int(rng.integers(10, 13)),
                int(rng.integers(1, 10)), int(rng.integers(0, 24))))
            continue
        if historic and chance(rng, .5):
            lo = dt.datetime(int(rng.integers(1, 1677)), 1, 1)
        t = lo + dt.timedelta(seconds=int(rng.integers(0, 340 * 31556952))) \
            if lo.year == 1680 else lo + dt.timedelta(
                seconds=int(rng.integers(0, 31536000)))
        us = choice(rng, [0, 1, 999999, 500000, 123456,
                          int(rng.integers(0, 10 ** 6))])
        if chance(rng, .1):
            t = t.replace(second=59)
        if chance(rng, .05):
            t = t.replace(month=12, day=31, hour=23, minute=59, second=59)
        if chance(rng, .05):
            t = t.replace(year=max(4, t.year // 4 * 4), month=2, day=28)
        out.append(t.replace(microsecond=int(us)))
    return out


def values(rng, n, kind):
    if kind == 'float':
        v = rng.normal(size=n)
        v[rng.random(n) < .2] = np.nan
        return v
    if kind == 'int':
        return rng.integers(-10 ** 12, 10 ** 12, n)
    if kind == 'bool':
        return rng.random(n) < .5
    if kind == 'str':
        return [choice(rng, ['a', 'ü b', '', 'nan']) for _ in range(n)]
    if kind == 'mixed':
        return [choice(rng, ['a', None, 1.5, ('t', 1)]) for _ in range(n)]
    if kind == 'category':
        return pd.Categorical([choice(rng, ['x', 'y']) for _ in range(n)])
    if kind == 'nullable':
        return pd.array([choice(rng, [1, 2, None]) for _ in range(n)],
                        dtype='Int64')
    return pd.to_datetime([choice(rng, ['2020-01-01', '1999-03-03'])
                           for _ in range(n)])


def missing(v):
    return v is None or v is pd.NA or v is pd.NaT or (
        isinstance(v, (float, np.floating)) and bool(np.isnan(v)))


def eq(a, b):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    return bool(a == b)


def column(m, got, want, mech, name):
    got, want = list(got), list(want)
    m.check(len(got) == len(want), mech, f'{name}: number of values',
            got=len(got), want=len(want))
    for j, (a, b) in enumerate(zip(got, want)):
        m.saw('values')
        if not m.check(eq(a, b), mech, f'{name} of event {j} changed',
                       got=repr(a), want=repr(b)):
            return


def as_datetime(v):
    """to python's datetime, exactly (no rounding by pandas)"""
    if isinstance(v, pd.Timestamp):
        return v.to_pydatetime(warn=False)
    return v


def check_times(m, got, want, mech):
    got = [as_datetime(v) for v in got]
    m.check(len(got) == len(want), mech, 'number of times', got=len(got),
            want=len(want))
    for j, (a, b) in enumerate(zip(got, want)):
        m.saw('events')
        if b.microsecond:
            m.saw('fractions')
        if not m.check(a == b, mech, f'time of event {j} changed',
                       got=str(a), want=str(b)):
            return


def check_oq(m, oq, cat_cols, truth, times, ids):
    """the OpenQuake catalogue has exactly the values of the catalogue"""
    m.saw('to_openquake')
    d = oq.data
    n = len(times)
    for c in truth:
        if c == 'time' or c in UNITS:
            continue
        if not m.check(c in d, 'to:column missing', c):
            continue
        column(m, d[c], truth[c], 'to:values', c)
        if pd.api.types.is_numeric_dtype(cat_cols[c]):
            m.check(isinstance(d[c], np.ndarray), 'to:numeric not an array', c)
    for u in UNITS[:5]:
        column(m, d[u], [getattr(t, u) for t in times], 'to:time', u)
    sec = np.asarray(d['second'], float)
    want = np.array([t.second + t.microsecond / 1e6 for t in times])
    m.check(sec.shape == want.shape and bool(
        np.all(np.abs(sec - want) < 1e-8)), 'to:time', 'second', got=sec,
        want=want)
    m.check('eventID' in d and len(d['eventID']) == n, 'to:ids',
            'no eventID for every event')
    if not ids:
        m.saw('ids_created')
        m.check(len(set(d['eventID'])) == n, 'to:ids',
                'created ids are not unique')
    else:
        m.saw('ids_kept')
    m.check(oq.get_number_events() == n, 'to:number', 'events')
    years = [t.year for t in times]
    m.check(oq.start_year in (None, min(years))
            and oq.end_year == max(years), 'to:years', 'start/end year',
            got=(oq.start_year, oq.end_year), want=(min(years), max(years)))


def check_back(m, oq, cls, truth, times, extra_cols=(), keep=False, mech=''):
    back = cls.from_openquake(oq, keep_time_cols=True) if keep \
        else cls.from_openquake(oq)
    m.saw('from_openquake')
    m.check(type(back) is cls, f'{mech}from:type', f'{type(back)}')
    m.check(list(back.index) == list(range(len(times))), f'{mech}from:index',
            'index', got=list(back.index)[:5])
    check_times(m, back['time'], times, f'{mech}from:time')
    m.check(pd.api.types.is_datetime64_any_dtype(back['time'].dtype),
            f'{mech}from:time type', str(back['time'].dtype))
    for c in truth:
        if c == 'time':
            continue
        if c in UNITS + ['microsecond'] and not keep:
            continue
        if m.check(c in back.columns, f'{mech}from:column missing', c):
            if c not in ('second', 'microsecond'):
                column(m, back[c], truth[c], f'{mech}from:values', c)
    left = set(back.columns) - set(truth) - {'time', 'eventID'} \
        - set(extra_cols)
    if keep:
        m.saw('kept_time_columns')
        for u in UNITS:
            if m.check(u in back.columns, f'{mech}from:time columns',
                       f'{u} not kept'):
                column(m, np.floor(np.asarray(back[u], float)),
                       [getattr(t, u) for t in times],
                       f'{mech}from:time columns', u)
        left -= set(UNITS) | {'microsecond'}
    m.check(not left, f'{mech}from:columns', 'unexpected columns',
            got=sorted(map(str, left)))
    return back


def build(m, rng):
    n = size(rng, choice(rng, [0, 1, 2, 5, 20, 60]), 1500)
    if n == 0 and chance(rng, .5):
        n = 3
    historic = chance(rng, .3)
    times = moments(rng, n, historic)
    cols = {'longitude': rng.uniform(-180, 180, n),
            'latitude': rng.uniform(-90, 90, n),
            'depth': rng.uniform(-2, 700, n),
            'magnitude': np.round(rng.exponential(1, n), 2)}
    cols['depth'][rng.random(n) < .1] = np.nan
    how = choice(rng, ['us', 'str', 'datetime', 'ns'])
    if how == 'str':
        cols['time'] = [t.isoformat(timespec='microseconds')
                        for t in times]
    elif how == 'datetime' and n:
        cols['time'] = times
    else:
        t = np.array(times, dtype='datetime64[us]')
        if how == 'ns' and not historic:
            t = t.astype('datetime64[ns]')
        cols['time'] = t
    kinds = ['float', 'int', 'bool', 'str', 'mixed', 'category', 'nullable',
             'datetime']
    for j in range(int(rng.integers(0, 5))):
        kind = choice(rng, kinds)
        cols[choice(rng, ['x', 'note ', 'magnitude_ML', 'sigma']) + str(j)] = \
            values(rng, n, kind)
        m.saw('nullable', kind == 'nullable' and n > 0)
        m.saw('object_values', kind in ('str', 'mixed') and n > 0)
    ids = chance(rng, .5)
    if ids:
        cols['eventID'] = choice(rng, [
            [f'smi:x/{k}' for k in range(n)], [f'{k}' for k in range(n)],
            list(range(n))])
        if n > 1 and chance(rng, .2):   # known for some events
            cols['eventID'] = [None] + [f'q{k}' for k in range(1, n)]
    if chance(rng, .3):
        cols['magnitudeType'] = ['ML'] * n
    forecast = n and chance(rng, .12)
    if forecast:
        cols['catalog_id'] = rng.integers(0, 3, n)
        m.saw('forecast')
    keys = list(cols)
    rng.shuffle(keys)
    cls = ForecastCatalog if forecast else Catalog
    cat = cls({k: cols[k] for k in keys})
    if n and how == 'str':
        m.saw('strings')
    if historic and any(t.year < 1678 for t in times):
        m.saw('historic')
    # as catalogues look after selections
    order = np.arange(n)
    if n and chance(rng, .6):
        order = rng.permutation(n)[:max(1, int(rng.integers(1, n + 1)))]
        cat = cat.iloc[order]
        times = [times[k] for k in order]
        m.saw('unsorted_index')
    if len(cat) and chance(rng, .25):   # as after pd.concat
        cat.index = [choice(rng, [0, 1, 2]) for _ in range(len(cat))]
        m.saw('repeated_index', len(set(cat.index)) < len(cat))
    return cls, cat, times, ids


def forth_and_back(m, rng, i):
    cls, cat, times, ids = build(m, rng)
    n = len(times)
    truth = {c: list(cat[c]) for c in cat.columns if c != 'time'}
    before = pd.DataFrame(cat).copy(deep=True)
    oq = cat.to_openquake()
    if n == 0:
        m.saw('empty')
        m.case('empty', i, nontrivial=False)
        m.check(isinstance(oq, OQCatalogue)
                and oq.get_number_events() == 0, 'to:empty', 'not empty')
        back = Catalog.from_openquake(oq)
        m.check(type(back) is Catalog and len(back) == 0, 'from:empty',
                'not an empty catalogue')
        return
    m.case(n, tuple(cat.columns), tuple(times[:2]))
    m.sample(n=n, columns=list(cat.columns), first=str(times[0]))
    m.check(isinstance(oq, OQCatalogue), 'to:type', f'{type(oq)}')
    check_oq(m, oq, cat.dtypes, truth, times, ids)
    m.check(before.equals(pd.DataFrame(cat)), 'to:changed catalogue',
            'the catalogue changed')
    back = check_back(m, oq, cls, truth, times, keep=chance(rng, .3))
    if ids is False:
        column(m, back['eventID'], oq.data['eventID'], 'from:values',
               'eventID')
    for c in truth:
        # numbers keep being numbers
        if cat[c].dtype.kind in 'fib' and isinstance(cat[c].dtype, np.dtype):
            m.check(back[c].dtype == cat[c].dtype, 'from:dtype', c,
                    got=str(back[c].dtype), want=str(cat[c].dtype))
    act = choice(rng, ['sort', 'purge', 'isolate', 'again'])
    full = {c: list(oq.data[c]) for c in oq.data
            if c not in UNITS + ['microsecond', 'time']}
    if act == 'sort':
        # the order of the events changes there
        sec = times
        gaps = np.diff(sorted(t.toordinal() for t in sec))
        # (decimal years do not resolve everything)
        if np.all(gaps > 0):
            oq.sort_catalogue_chronologically()
            o = sorted(range(n), key=lambda k: times[k])
            check_back(m, oq, cls, {c: [v[k] for k in o]
                                    for c, v in full.items()},
                       [times[k] for k in o], mech='sorted ')
            m.saw('sorted_there')
    elif act == 'purge':
        flag = rng.random(n) < .6
        if flag.any():
            oq.purge_catalogue(flag)
            o = np.flatnonzero(flag)
            check_back(m, oq, cls, {c: [v[k] for k in o]
                                    for c, v in full.items()},
                       [times[k] for k in o], mech='purged ')
            m.saw('purged_there')
    elif act == 'isolate':
        # changing one does not change the others
        oq.data['magnitude'][:] = -9
        oq.data['year'][:] = 1999
        oq.data['longitude'][:] = -9
        m.check(before.equals(pd.DataFrame(cat)), 'to:shared values',
                'changing the OpenQuake catalogue changed the catalogue')
        m.check(not (back['magnitude'] == -9).any(), 'from:shared values',
                'changing the OpenQuake catalogue changed the result')
        back.loc[:, 'magnitude'] = -7
        m.check(bool(np.all(oq.data['magnitude'] == -9)),
                'from:shared values',
                'changing the result changed the OpenQuake catalogue')
        m.saw('isolation')
    else:
        oq2 = Catalog.from_openquake(oq).to_openquake()
        check_back(m, oq2, cls, full, times, mech='second ')
        m.saw('second_trip')


def from_there(m, rng, i):
    """catalogues made in OpenQuake"""
    n = size(rng, choice(rng, [0, 1, 3, 12, 50]), 1500)
    historic = chance(rng, .3)
    times = moments(rng, n, historic)
    d = OQCatalogue().data if chance(rng, .6) else {}
    m.saw('empty_attributes', int(bool(d) and n > 0))
    d['longitude'] = rng.uniform(-180, 180, n)
    d['latitude'] = rng.uniform(-90, 90, n)
    d['depth'] = rng.uniform(-2, 700, n)
    d['magnitude'] = np.round(rng.exponential(1, n), 2)
    if chance(rng, .5):
        d['sigmaMagnitude'] = np.full(n, np.nan)
    if chance(rng, .5):
        d['Agency'] = [choice(rng, ['', 'SED', 'x']) for _ in range(n)]
    if chance(rng, .5):
        d['flag'] = rng.integers(0, 2, n)
    d['eventID'] = choice(rng, [[f'e{k}' for k in range(n)],
                                np.arange(n),
                                np.array([f'e{k}' for k in range(n)])])
    if chance(rng, .15) and d.get('Agency') is None:
        del d['eventID']
    for u in UNITS[:5]:
        d[u] = np.array([getattr(t, u) for t in times], dtype=choice(
            rng, [int, np.int32, np.int64]))
    sec = np.array([t.second + t.microsecond / 1e6 for t in times], float)
    fine = chance(rng, .3)
    if fine and n:
        # finer than a microsecond: rounded to the next one
        times = list(times)
        for k in range(n):
            if chance(rng, .3) or k == 0:
                sec[k] = math.floor(sec[k]) + 1 - 1e-7
                times[k] = times[k].replace(microsecond=0) + dt.timedelta(
                    seconds=1)
                m.saw('carry')
            else:
                sec[k] += choice(rng, [2e-7, -2e-7]) * (
                    times[k].microsecond > 0)
    d['second'] = sec
    keep = chance(rng, .4) and not fine
    if chance(rng, .3):
        d['microsecond'] = np.array([t.microsecond for t in times], int)
    if historic and any(t.year < 1678 for t in times):
        m.saw('historic')
    truth = {c: list(v) for c, v in d.items() if len(v)}
    copy = {c: np.array(v, copy=True) if isinstance(v, np.ndarray)
            else list(v) for c, v in d.items()}
    oq = OQCatalogue()
    oq.data = d
    if n == 0:
        m.saw('empty')
        m.case('empty', i, nontrivial=False)
        back = Catalog.from_openquake(oq)
        m.check(type(back) is Catalog and len(back) == 0, 'from:empty',
                'not an empty catalogue')
        return
    m.case(n, tuple(d), tuple(times[:2]), fine)
    back = check_back(m, oq, Catalog, truth, times, keep=keep)
    for c in copy:
        column(m, d[c], copy[c], 'from:changed openquake', c)
    m.check(list(d) == list(copy), 'from:changed openquake', 'attributes')
    # and forth again
    oq2 = back.to_openquake()
    check_oq(m, oq2, back.dtypes,
             {c: list(back[c]) for c in back.columns
              if c not in UNITS + ['microsecond']}, times,
             'eventID' in back.columns)


WORKLOADS = [('forth and back', forth_and_back, 700, 9000),
             ('from there', from_there, 500, 7000)]
