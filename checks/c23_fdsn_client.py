"""C23 the FDSN client returns exactly the requested events of the service,
in one request or in batches of any size."""
import datetime as dt
import threading

import numpy as np
import pandas as pd

from seismostats import Catalog, FDSNWSEventClient
from vlib import fdsn
from vlib.util import chance, choice

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('a case is one get_events call against a service on the loopback '
        'interface which implements the FDSN query parameters over a generated '
        'list of events; the catalogue is compared event by event with the '
        'selection computed from the arguments; non-trivial when some but not '
        'all events are selected, or in batches')
ASSUMPTIONS = ['the service honours limit and offset (1-based) and answers '
               '204, an empty 200 or, with nodata=404, 404 without data',
               'no event lies within 1e-9 of a magnitude bound']
MUST = {'requests': 3000, 'calls': 300, 'selected_some': 80, 'empty': 30,
        'batched': 150, 'multi_batch': 60, 'exact_multiple': 25,
        'zero_bounds': 80, 'delta_m': 60, 'reused': 80, 'threads': 8,
        'kwargs': 60, 'raw_name': 20, 'fractions': 60, 'historic': 2, 'events': 3000,
        'values': 20000, 'batch_of_one': 12, 'larger_than_all': 15,
        'nodata404': 20, 'close_bounds': 30}


def arguments(m, rng, evs):
    """(keyword arguments, query the user means)"""
    kw, q = {}, {}
    times = [e['time'] for e in evs] or [dt.datetime(2000, 1, 1)]
    lo, hi = min(times), max(times)
    span = (hi - lo).total_seconds() + 10
    for arg, par in (('start_time', 'starttime'), ('end_time', 'endtime')):
        if chance(rng, .5):
            t = lo + dt.timedelta(microseconds=int(
                1e6 * span * rng.uniform(-.1, .6) if par == 'starttime' else
                1e6 * span * rng.uniform(.4, 1.1)))
            if chance(rng, .5):     # just before/after/at an event
                t = choice(rng, times) + dt.timedelta(
                    microseconds=int(choice(rng, [-300000, -1, 0, 1, 300000])))
            if chance(rng, .2):
                t = t.replace(microsecond=0)
            elif chance(rng, .2):
                t = t.replace(microsecond=int(choice(rng, [1, 123, 999, 1000])))
            m.saw('fractions', t.microsecond > 0)
            kw[arg] = pd.Timestamp(t) if chance(rng, .3) and t.year > 1700 \
                else t
            q[par] = t
    for k in ('latitude', 'longitude'):
        for s, a, b in (('min', -11, 2), ('max', -2, 11)):
            if chance(rng, .25):
                v = choice(rng, [0, 0., round(float(rng.uniform(a, b)), 2),
                                 np.float64(round(float(rng.uniform(a, b)), 4))
                                 ])
                m.saw('zero_bounds', v == 0)
                kw['%s_%s' % (s, k)] = v
                q[s + k] = float(v)
    delta = .1
    if chance(rng, .5):
        delta = choice(rng, [.1, 0, 0., .5, 1, None, .01, .05, .2])
        kw['delta_m'] = delta
    if chance(rng, .4):
        v = choice(rng, [0, 0., round(float(rng.uniform(-1, 4)), 1)])
        if evs and chance(rng, .5):     # the bound is close to an event
            v = round(choice(rng, evs)['magnitude'] + (delta or 0) / 2,
                      choice(rng, [2, 3]))
            m.saw('close_bounds')
        m.saw('zero_bounds', v == 0)
        m.saw('delta_m', bool(delta))
        kw['min_magnitude'] = v
        q['minmagnitude'] = v - (delta or 0) / 2
    if chance(rng, .2):
        v = choice(rng, [0, 0., round(float(rng.uniform(0, 6)), 1)])
        m.saw('zero_bounds', v == 0)
        kw['max_magnitude'] = v
        q['maxmagnitude'] = v
    if chance(rng, .3):
        kw['event_type'] = q['eventtype'] = choice(
            rng, ['earthquake', 'explosion'])
    if chance(rng, .5):
        kw['include_all_magnitudes'] = chance(rng, .6)
    elif chance(rng, .3):   # by the name of the service
        m.saw('raw_name')
        kw['includeallmagnitudes'] = True
    if chance(rng, .3):
        m.saw('kwargs')
        kw['orderby'] = q['orderby'] = choice(
            rng, ['time', 'time-asc', 'magnitude'])
    if chance(rng, .15):
        m.saw('kwargs')
        kw['maxdepth'] = q['maxdepth'] = choice(rng, [0, 5, 10.5])
    if chance(rng, .3):
        m.saw('nodata404')
        kw['nodata'] = 404
    for o in ('include_uncertainty', 'include_ids', 'include_quality'):
        if chance(rng, .4):
            kw[o] = chance(rng, .7)
    return kw, q


def judge(m, cat, want, kw, what):
    m.require(isinstance(cat, Catalog), 'type', '%s gives %s' % (
        what, type(cat)))
    m.saw('calls')
    m.saw('events', len(want))
    m.saw('empty', not want)
    m.require(len(cat) == len(want), 'count', '%s: %d events, the service has '
              '%d' % (what, len(cat), len(want)))
    cols = {'time': 'time', 'latitude': 'latitude', 'longitude': 'longitude',
            'depth': 'depth', 'magnitude': 'magnitude', 'event_type': 'type'}
    kw = dict(kw)
    if kw.get('includeallmagnitudes'):
        kw['include_all_magnitudes'] = True
    if kw.get('include_all_magnitudes'):
        cols['magnitude_Mw'] = 'other'
    if kw.get('include_uncertainty'):
        cols['latitude_uncertainty'] = 'unc'
    if kw.get('include_quality'):
        cols['usedphasecount'] = 'phases'
    if kw.get('include_ids'):
        cols['eventID'] = 'id'
    if want:
        for c, k in cols.items():
            m.require(c in cat.columns, 'column', '%s: no column %s' % (
                what, c))
            bad = []
            for g, e in zip(cat[c], want):
                e = e[k]
                ok = (abs(float(g) - e) < 1e-9 if isinstance(e, float)
                      else int(g) == e if isinstance(e, int) else g == e)
                if not ok:
                    bad.append((g, e))
            m.saw('values', len(want))
            m.check(not bad, 'value', '%s: column %s (got, expected): %s' % (
                what, c, bad[:3]))
        for opt, c in (('include_all_magnitudes', 'magnitude_Mw'),
                       ('include_uncertainty', 'latitude_uncertainty'),
                       ('include_quality', 'usedphasecount'),
                       ('include_ids', 'eventID')):
            m.check(bool(kw.get(opt)) == (c in cat.columns), 'options',
                    '%s: column %s with %s=%s' % (what, c, opt, kw.get(opt)))
    for a in ('start', 'end'):
        v = kw.get(a + '_time')
        got = getattr(cat, a + 'time')
        m.check(got == v if v is not None else got is None or pd.isna(got),
                'attributes', '%s: %stime is %s for %s' % (what, a, got, v))


def describe(kw):
    return 'get_events(%s)' % ', '.join('%s=%s' % i for i in kw.items())


def paging(m, srv, log, want, size, what):
    """every event is downloaded once, within a bounded number of requests"""
    loads = [e for e in log if e['params'].get('limit') == size]
    probes = [e for e in log if e['params'].get('limit') == 1]
    most = max(len(e['served'] or []) for e in log)
    m.check(most <= size, 'requests', '%s: one request asks for %d events'
            % (what, most))
    if size == 1:
        return
    got = [x for e in loads for x in e['served'] or []]
    m.check(got == [e['id'] for e in want], 'downloads', '%s: the batches '
            'delivered %d events, selected are %d' % (what, len(got),
                                                      len(want)))
    bound = 4 + 2 * max(1, int(np.ceil(np.log2(len(want) / size + 2)) + 1))
    m.check(len(probes) <= bound, 'requests', '%s: %d requests to count %d '
            'events in batches of %d' % (what, len(probes), len(want), size))
    m.check(len(loads) <= len(want) // size + 1, 'requests',
            '%s: %d batches of %d for %d events' % (what, len(loads), size,
                                                    len(want)))


def sizes(rng, n):
    s = [1, 2, 3, 7, n - 1, n, n + 1, 2 * n, (n + 1) // 2, n // 3, 100]
    return [int(x) for x in s if x >= 1]


def w_calls(m, rng, i):
    n = int(choice(rng, [0, 1, 2, 3, 8, 20, 40, 64]))
    era = 850 if i % 12 == 5 else None
    evs = fdsn.events(rng, n, era)
    m.saw('historic', era is not None and n > 0)
    with fdsn.Server(rng, evs, fdsn.style(rng)) as srv:
        client = FDSNWSEventClient(srv.url)
        for c in range(4):
            kw, q = arguments(m, rng, evs)
            want = fdsn.select(evs, q)
            m.saw('selected_some', 0 < len(want) < n)
            m.saw('reused', c > 0)
            what = describe(kw)
            a = len(srv.log)
            cat = client.get_events(**kw)
            m.case(i, c, nontrivial=0 < len(want) < n)
            m.saw('requests', len(srv.log) - a)
            m.check(len(srv.log) - a == 1, 'requests', '%s sent %d requests'
                    % (what, len(srv.log) - a))
            judge(m, cat, want, kw, what)
            m.sample(call=what, selected='%d of %d' % (len(want), n))
            k = len(want)
            for size in {choice(rng, sizes(rng, max(k, 1))) for _ in '12'}:
                a = len(srv.log)
                both = client.get_events(batch_size=size, **kw)
                m.case(i, c, size)
                m.saw('batched')
                m.saw('multi_batch', k > size)
                m.saw('exact_multiple', k > 0 and k % size == 0)
                m.saw('batch_of_one', size == 1)
                m.saw('larger_than_all', size > k)
                m.saw('requests', len(srv.log) - a)
                w = what + ' in batches of %d' % size
                judge(m, both, want, kw, w)
                paging(m, srv, srv.log[a:], want, size, w)
                m.check(len(both) == len(cat) and both.equals(cat), 'batched',
                        '%s differs from the unbatched catalogue' % w)


def w_counts(m, rng, i):
    """all batch sizes for one number of events"""
    n = i
    evs = fdsn.events(rng, n)
    with fdsn.Server(rng, evs, {'empty200': i % 3 == 0}) as srv:
        client = FDSNWSEventClient(srv.url)
        for size in range(1, n + 3):
            kw = {'nodata': 404} if size % 2 else {}
            a = len(srv.log)
            cat = client.get_events(batch_size=size, include_ids=True, **kw)
            m.case(i, size)
            m.saw('batched')
            m.saw('exact_multiple', n > 0 and n % size == 0)
            m.saw('requests', len(srv.log) - a)
            w = '%d events in batches of %d' % (n, size)
            got = list(cat.eventID) if len(cat) else []
            m.check(got == [e['id'] for e in evs], 'batched', '%s: %d events, '
                    '%d distinct' % (w, len(got), len(set(got))))
            paging(m, srv, srv.log[a:], evs, size, w)


def w_many(m, rng, i):
    """more than 64 batches"""
    n = int(rng.integers(66, 300))
    evs = fdsn.events(rng, n)
    with fdsn.Server(rng, evs, {'empty200': bool(i % 2)}) as srv:
        client = FDSNWSEventClient(srv.url)
        size = max(1, n // int(rng.integers(65, 150)))
        a = len(srv.log)
        cat = client.get_events(batch_size=size, include_ids=True, nodata=404)
        m.case(i, n, size)
        m.saw('batched')
        m.saw('many_batches', n > 64 * size)
        m.saw('requests', len(srv.log) - a)
        w = '%d events in batches of %d' % (n, size)
        got = list(cat.eventID) if len(cat) else []
        m.check(got == [e['id'] for e in evs], 'batched', '%s: %d events, '
                '%d distinct' % (w, len(got), len(set(got))))
        paging(m, srv, srv.log[a:], evs, size, w)


def w_threads(m, rng, i):
    """concurrent clients"""
    evs = fdsn.events(rng, 30)
    with fdsn.Server(rng, evs, fdsn.style(rng)) as srv:
        jobs = []
        for _ in range(4):
            kw, q = arguments(m, rng, evs)
            if chance(rng, .5):
                kw['batch_size'] = choice(rng, [1, 4, 10])
            jobs.append((kw, q, FDSNWSEventClient(srv.url)))
        res = [None] * len(jobs)

        def run(j):
            try:
                res[j] = jobs[j][2].get_events(**jobs[j][0])
            except Exception as e:
                res[j] = e
        ts = [threading.Thread(target=run, args=(j,))
              for j in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        m.saw('requests', len(srv.log))
        for (kw, q, _), r in zip(jobs, res):
            if isinstance(r, Exception):
                raise r
            m.saw('threads')
            m.case(i, repr(sorted(q)))
            judge(m, r, fdsn.select(evs, q), kw, describe(kw) +
                  ' next to other clients')


WORKLOADS = [('calls', w_calls, 110, 1200),
             ('counts', w_counts, 20, 60),
             ('many', w_many, 5, 40),
             ('threads', w_threads, 12, 150)]
