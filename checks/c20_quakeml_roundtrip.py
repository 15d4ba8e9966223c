"""C20 QuakeML written from a catalogue reads back as the same catalogue."""
import datetime as dt
import math
import os
import tempfile
import xml.etree.ElementTree as ET

import numpy as np
import pandas as pd

from seismostats import Catalog, ForecastCatalog
from vlib.util import chance, choice, same

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('a case is one generated catalogue written to QuakeML and read back '
        '(as string or file) with a random choice of the include options; '
        'every row and column is compared; non-trivial when events remain')
ASSUMPTIONS = ['string values have no leading/trailing blanks and no line '
               'breaks; magnitude types are not substrings of the reserved '
               'suffixes (uncertainty, ...)',
               'one value per event of each magnitude type',
               'numbers may differ in the last digit (pandas\' to_numeric '
               'does not round correctly)']
MUST = {'documents': 150, 'events': 1500, 'values': 30000,
        'secondary_values': 1500, 'secondary_preferred': 300,
        'dropped_rows': 100, 'created_ids': 200, 'kept_ids': 1000,
        'markup': 200, 'missing_values': 500, 'quality_values': 2000,
        'file': 50, 'forecast': 20, 'large_documents': 2, 'empty': 5,
        'excluded': 100, 'second_trip': 60, 'column_all_missing': 20,
        'historic': 20}

NS = '{http://quakeml.org/xmlns/bed/1.2}'
COUNTS = ['associatedphasecount', 'usedphasecount', 'associatedstationcount',
          'usedstationcount', 'depthphasecount']
QUAL = ['standarderror', 'azimuthalgap', 'secondaryazimuthalgap',
        'maximumdistance', 'minimumdistance', 'mediandistance']
TYPES = ['ML', 'Mw', 'MLv', 'mb_Lg', 'Mw(mB)', 'M', 'mb', 'Md<1>', 'M & L',
         'Ml', 'ml']
TRICKY = ['a&b', '<x>', 'q"uote', "apo's", 'smi:org/ä?x=1&y=2', ']]>', '&amp;',
          'x  y', 'long/' * 30]


def floats(rng, n, lo, hi, missing=.0, edge=()):
    v = rng.uniform(lo, hi, n)
    for j in range(n):
        if edge and chance(rng, .1):
            v[j] = choice(rng, list(edge))
        elif chance(rng, .3):
            v[j] = round(v[j], int(rng.integers(0, 6)))
    v[rng.random(n) < missing] = np.nan
    return v


def make(m, rng, big=False):
    n = int(rng.integers(120, 400)) if big else int(rng.integers(0, 14))
    miss = choice(rng, [0, 0, .2])
    historic = chance(rng, .12)
    us = rng.integers(-10 ** 15 * 4, 10 ** 15, n)
    t = np.datetime64('2003-02-01', 'us') + us.astype('timedelta64[us]')
    if historic and n:
        m.saw('historic')
        t = t - (rng.random(n) < .5).astype(int) * np.timedelta64(
            300 * 31557600 * 10 ** 6, 'us')
        times = [dt.datetime.fromisoformat(str(v)) for v in t]
        times = pd.Series(times, dtype=object)
    else:
        times = pd.Series(t.astype('datetime64[ns]'))
        times[rng.random(n) < miss] = pd.NaT
    c = {'longitude': floats(rng, n, -180, 180, miss, (180., -180., 0., 1e-7)),
         'latitude': floats(rng, n, -90, 90, miss, (90., -90., 0.)),
         'depth': floats(rng, n, -3, 600, miss, (0., -1.5)),
         'time': times,
         'magnitude': floats(rng, n, -2, 9, miss, (0., -1., 1e-5, 10.)),
         'magnitude_type': [None if chance(rng, miss) else choice(rng, TYPES)
                            for _ in range(n)]}
    for k in ['depth', 'magnitude', 'magnitude_type']:
        if chance(rng, .07):
            c[k] = [None] * n if k == 'magnitude_type' else [np.nan] * n
            m.saw('column_all_missing')
    if chance(rng, .6):
        kinds = ['earthquake', 'quarry blast', None, 'ä < b & c',
                 'Induced Event']
        c['event_type'] = [choice(rng, kinds) for _ in range(n)]
    if chance(rng, .5):
        kinds = ['manual', 'automatic', 'Manual', None]
        c['evaluationmode'] = [choice(rng, kinds) for _ in range(n)]
    for k in ['longitude', 'latitude', 'depth', 'magnitude']:
        if chance(rng, .4):
            c[k + '_uncertainty'] = floats(rng, n, 0, 3, .2, (0.,))
    for k in COUNTS:
        if chance(rng, .4):
            v = rng.integers(0, choice(rng, [200, 200, 5000, 2 ** 31]),
                             n).astype(float)
            v[rng.random(n) < .2] = np.nan
            c[k] = v
            if n and not np.isnan(v).any() and chance(rng, .5):
                c[k] = v.astype(int)
    for k in QUAL:
        if chance(rng, .4):
            c[k] = floats(rng, n, 0, 360, .2, (0.,))
    for k in ['eventID', 'originID', 'magnitudeID']:
        if chance(rng, .6):
            c[k] = ['smi:%s/%d/%s' % (k, j, choice(rng, TRICKY))
                    for j in range(n)]
            if chance(rng, .3):
                c[k] = [None if chance(rng, .3) else v for v in c[k]]
    m.saw('markup', sum(k in c for k in ['eventID', 'originID']) * n)
    sec = [t for t in TYPES if chance(rng, .25)]
    for s in sec:
        c['magnitude_' + s] = floats(rng, n, -1, 9, .3)
        if chance(rng, .4):
            c['magnitude_%s_uncertainty' % s] = floats(rng, n, 0, 1, .3)
        if chance(rng, .4):
            c['magnitude_%s_magnitudeID' % s] = [
                None if chance(rng, .2) else 'smi:sec/%s/%d' % (s, j)
                for j in range(n)]
    if chance(rng, .3):     # not part of QuakeML
        c['note'] = ['x'] * n
    if n > 2 and chance(rng, .3):   # alike events
        m.saw('alike')
        a, b = rng.choice(n, 2, replace=False)
        for k in c:
            if not k.endswith('ID') and (k != 'note'):
                if k == 'time':
                    c[k].iloc[b] = c[k].iloc[a]
                else:
                    c[k][b] = c[k][a]
    if n > 2 and chance(rng, .15):   # two events with the same ID
        a, b = rng.choice(n, 2, replace=False)
        for k in ['eventID', 'originID', 'magnitudeID']:
            if k in c and chance(rng, .6):
                m.saw('shared_ids')
                c[k][b] = c[k][a]
    keys = list(c)
    c = {keys[j]: c[keys[j]] for j in rng.permutation(len(keys))}
    return n, c, sec


def expected(c, sec, j):
    """the values which have to be read back for row j"""
    e = {}
    for k in ['longitude', 'latitude', 'depth', 'magnitude']:
        e[k] = float(c[k][j])
        if k + '_uncertainty' in c:
            e[k + '_uncertainty'] = float(c[k + '_uncertainty'][j])
    e['time'] = c['time'].iloc[j]
    for k in ['magnitude_type', 'event_type', 'evaluationmode']:
        e[k] = c[k][j] if k in c else None
    for k in COUNTS + QUAL:
        if k in c:
            e[k] = float(c[k][j])
    for k in ['eventID', 'originID', 'magnitudeID']:
        e[k] = c[k][j] if k in c else None
    pref = e['magnitude_type']
    for s in sec:
        key = 'magnitude_' + s
        if s == pref:
            e[key] = e['magnitude']
            e[key + '_magnitudeID'] = ('same', 'magnitudeID')
            if 'magnitude_uncertainty' in e:
                e[key + '_uncertainty'] = e['magnitude_uncertainty']
            continue
        e[key] = float(c[key][j])
        given = not math.isnan(e[key])
        if key + '_uncertainty' in c:
            v = float(c[key + '_uncertainty'][j])
            e[key + '_uncertainty'] = v if given else math.nan
        v = c[key + '_magnitudeID'][j] if key + '_magnitudeID' in c else None
        e[key + '_magnitudeID'] = (('created',) if v is None else v) \
            if given else ('none',)
    if pref is not None and pref not in sec:
        e['magnitude_' + pref] = e['magnitude']
    return e


def eq(g, e):
    if isinstance(e, float):
        try:
            g = float(g)
        except (TypeError, ValueError):
            g = math.nan if g is None or pd.isna(g) else 'x'
        return g == e or (e != e and g != g) or (
            isinstance(g, float) and abs(g - e) <= 1e-14 + 1e-13 * abs(e))
    if e is None:
        return g is None or pd.isna(g)
    if isinstance(e, (dt.datetime, pd.Timestamp)):
        return not pd.isna(g) and np.datetime64(g, 'us') == \
            np.datetime64(e, 'us')
    return g == e


ID = ['eventID', 'originID', 'magnitudeID']


def judge(m, r, c, sec, rows, what, opts):
    allm, unc, ids, qual = opts
    m.require(len(r) == len(rows), 'events', '%s: %d events read, %d written '
              'events are complete' % (what, len(r), len(rows)))
    seen = set()
    for pos, j in enumerate(rows):
        m.saw('events')
        row = {k: r[k].iloc[pos] for k in r.columns}
        for k, e in expected(c, sec, j).items():
            is_id = k.endswith(('eventID', 'originID', 'magnitudeID'))
            is_unc = k.endswith('_uncertainty')
            is_sec = k.startswith('magnitude_') and k not in (
                'magnitude_type', 'magnitude_uncertainty')
            is_q = k in COUNTS + QUAL
            if (is_id and not ids) or (is_unc and not unc) or \
                    (is_sec and not allm) or (is_q and not qual):
                m.saw('excluded')
                m.check(k not in r.columns, 'excluded', '%s: column %s was '
                        'not asked for' % (what, k))
                continue
            g = row.get(k)
            m.saw('values')
            if is_id:
                if isinstance(e, str):
                    m.saw('kept_ids')
                    ok = g == e
                elif e == ('none',):
                    ok = g is None or pd.isna(g)
                elif isinstance(e, tuple) and e[0] == 'same':
                    ok = g == row['magnitudeID']
                else:       # created
                    m.saw('created_ids')
                    ok = isinstance(g, str) and len(g) > 8 and g not in seen
                    seen.add(g)
                m.check(ok, 'id:' + ('secondary' if is_sec else k),
                        '%s: %s of event %d is %r, expected %r' % (
                            what, k, j, g, e))
                continue
            if isinstance(e, float) and e != e or e is None:
                m.saw('missing_values')
            if is_q:
                m.saw('quality_values')
            if is_sec:
                m.saw('secondary_values')
                m.saw('secondary_preferred',
                      k == 'magnitude_%s' % c['magnitude_type'][j])
            mech = 'secondary' if is_sec else k
            m.check(eq(g, e), 'value:' + mech, '%s: %s of event %d is %r, '
                    'written %r' % (what, k, j, g, e))
    extra = set(r.columns) - set(c) - set(ID) - {
        'event_type', 'evaluationmode'} - {
        'magnitude_' + t for t in TYPES} - {
        'magnitude_%s_%s' % (t, s) for t in TYPES
        for s in ('magnitudeID', 'uncertainty')}
    m.check(not extra and 'note' not in r.columns, 'extra_columns',
            '%s: unexpected columns %s' % (what, extra))
    for k in ['longitude', 'latitude', 'depth', 'time', 'magnitude',
              'magnitude_type']:
        m.check(k in r.columns, 'columns', '%s: column %s is missing'
                % (what, k))


def w_trip(m, rng, i):
    n, c, sec = make(m, rng, big=i % 40 == 7)
    cls = ForecastCatalog if chance(rng, .15) else Catalog
    data = pd.DataFrame({k: (v if k == 'time' else pd.Series(
        v, dtype=object if isinstance(v, list) and k not in (
            'depth', 'magnitude') else None)) for k, v in c.items()})
    if n == 0:
        data = pd.DataFrame(columns=list(c))
        data['time'] = pd.to_datetime(data['time'])
    if cls is ForecastCatalog:
        cid = rng.integers(0, 3, n)
        data['catalog_id'] = cid
        m.saw('forecast')
    cat = cls(data)
    if n and chance(rng, .5):
        cat.index = rng.permutation(n) + 10
    rows = [j for j in range(n) if not (
        math.isnan(c['longitude'][j]) or math.isnan(c['latitude'][j])
        or pd.isna(c['time'].iloc[j]))]
    m.saw('dropped_rows', n - len(rows))
    kw = {}
    if chance(rng, .5):
        kw = dict(agencyID=choice(rng, TRICKY), author=choice(rng, TRICKY))
    docs = cat.to_quakeml(**kw)
    if cls is Catalog:
        groups = [rows]
        docs = [docs]
    else:
        groups = [[j for j in rows if cid[j] == g]
                  for g in sorted(set(cid.tolist()))]
        m.check(isinstance(docs, list) and len(docs) == len(groups),
                'documents', '%r documents for %d catalogue ids' % (
                    len(docs), len(groups)))
    if n == 0:
        m.saw('empty')
    for doc, rw in zip(docs, groups):
        m.saw('documents')
        m.saw('large_documents', len(doc) > 150000)
        try:
            tree = ET.fromstring(doc.encode('utf8'))
        except ET.ParseError as e:
            m.fail('not_well_formed', 'the document is not well-formed: %s'
                   % e)
            continue
        evs = tree.findall('%seventParameters/%sevent' % (NS, NS))
        m.check(len(evs) == len(rw), 'events', '%d events in the document, %d '
                'expected' % (len(evs), len(rw)))
        if kw:
            texts = {a.text for a in tree.iter(NS + 'agencyID')}
            m.check(texts <= {kw['agencyID']} and {
                a.text for a in tree.iter(NS + 'author')} <= {kw['author']},
                'agency', 'agency/author are %s, given %s' % (texts, kw))
        opts = (True,) * 4 if chance(rng, .5) else tuple(
            chance(rng, .5) for _ in range(4))
        o = dict(zip(['include_all_magnitudes', 'include_uncertainties',
                      'include_ids', 'include_quality'], opts))
        src = doc
        if chance(rng, .3):
            m.saw('file')
            with tempfile.TemporaryDirectory(prefix='c20-') as d:
                src = os.path.join(d, 'a.xml')
                with open(src, 'w', encoding='utf8') as f:
                    f.write(doc)
                r = Catalog.from_quakeml(src, **o)
        else:
            r = Catalog.from_quakeml(doc, **o)
        what = 'round trip (%d events, %s)' % (
            len(rw), '' if all(opts) else 'with ' + ', '.join(
                k for k in o if o[k]))
        m.case(i, len(rw), nontrivial=len(rw) > 0)
        m.sample(columns=list(c), n=n, complete=len(rw), options=o)
        judge(m, r, c, sec, rw, what, opts)
        if all(opts) and rw and chance(rng, .6):
            m.saw('second_trip')
            r2 = Catalog.from_quakeml(r.to_quakeml(), **o)
            r1 = pd.DataFrame(r)[sorted(r.columns)]
            r2 = pd.DataFrame(r2)[sorted(r2.columns)]
            m.check(list(r1.columns) == list(r2.columns) and all(
                eq2(x, y) for k in r1 for x, y in zip(r1[k], r2[k])),
                'second_trip', 'a second round trip changed the catalogue',
                differences=[(k, x, y) for k in r1 if k in r2
                             for x, y in zip(r1[k], r2[k])
                             if not eq2(x, y)][:3],
                columns=set(r1) ^ set(r2))


def eq2(a, b):
    if same(a, b) or (pd.isna(a) and pd.isna(b)):
        return True
    try:
        return abs(float(a) - float(b)) <= 1e-14 + 1e-13 * abs(float(a))
    except (TypeError, ValueError):
        return False


WORKLOADS = [('round_trip', w_trip, 360, 4000)]
