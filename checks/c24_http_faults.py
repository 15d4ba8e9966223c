"""C24 a failing service or connection makes get_events raise; it never
returns a smaller catalogue."""
import requests

from seismostats import FDSNWSEventClient
from vlib import fdsn
from vlib.util import chance, choice

PROPERTY = 'C24'
LEVEL = 'fault_enumeration'
RULE = ('a case is one get_events call with one fault at one of its requests '
        '(every request in turn); it has to raise or to return the complete '
        'catalogue; non-trivial always')
ASSUMPTIONS = ['a service which reports no data (204, an empty body with '
               'status 200, or 404 if nodata=404 was requested) has none',
               'hanging connections are not judged (no timeout is documented)']
MUST = {'faults': 1500, 'raised': 800, 'statuses': 600, 'cuts': 300,
        'closed': 50, 'texts': 50, 'redirects': 50, 'probe_faults': 500,
        'download_faults': 500, 'recovered': 150, 'unbatched': 15,
        'complete_anyway': 40}

STATUS = [400, 401, 403, 404, 408, 410, 413, 414, 429, 500, 501, 502, 503, 504]
FAULTS = STATUS + ['close', 'text', 'redirect'] + [
    ('cut', f) for f in (0., .01, .3, .6, .9, .97, .999)]
STYLES = [{}, {'gzip': True}, {'chunked': 100}, {'nolength': True},
          {'chunked': 40, 'gzip': True}, {'pieces': 100}]


def ids(cat):
    return list(cat.eventID) if len(cat) else []


def w_enumerate(m, rng, i):
    n = int(rng.integers(1, 16))
    batch = choice(rng, [None, 1, 2, 3, 4, 5, n, n + 1])
    if batch in (1, 2):
        n = min(n, 5)
    evs = fdsn.events(rng, n)
    style = dict(STYLES[i % len(STYLES)])
    kw = {'include_ids': True}
    if batch:
        kw['batch_size'] = batch
    if chance(rng, .3):
        kw['nodata'] = choice(rng, [404, 204])
    if chance(rng, .3):
        kw['min_magnitude'] = 1
    q = {'minmagnitude': .95} if 'min_magnitude' in kw else {}
    want = [e['id'] for e in fdsn.select(evs, q)]
    with fdsn.Server(rng, evs, style) as srv:
        client = FDSNWSEventClient(srv.url)
        m.require(ids(client.get_events(**kw)) == want, 'undisturbed',
                  'an undisturbed service is not read completely')
        total = len(srv.log)
        kind = ['download' if e['params'].get('limit') in (batch, None)
                and batch != 1 else 'probe' for e in srv.log]
        if batch == 1:      # the last requests download
            k = -(-len(want) // 1) or 1
            kind = ['probe'] * (total - k) + ['download'] * k
        statuses = [e['status'] for e in srv.log]
        served = [e['served'] for e in srv.log]
        for at in range(total):
            for f in FAULTS:
                if f == kw.get('nodata'):
                    continue
                if isinstance(f, tuple) and not served[at]:
                    continue    # nothing to cut
                srv.log.clear()
                srv.faults = {at: f}
                what = '%d events, %s, %s: %s at request %d (%s)' % (
                    n, kw, style, f, at + 1, kind[at])
                m.saw('faults')
                m.saw('statuses', isinstance(f, int))
                m.saw('cuts', isinstance(f, tuple))
                m.saw('closed', f == 'close')
                m.saw('texts', f == 'text')
                m.saw('redirects', f == 'redirect')
                m.saw('probe_faults', kind[at] == 'probe')
                m.saw('download_faults', kind[at] == 'download')
                m.saw('unbatched', batch is None)
                m.case(i, at, str(f))
                try:
                    got = ids(client.get_events(**kw))
                except Exception as e:
                    m.saw('raised')
                    m.check(f != 'redirect', 'redirect', '%s raises %r' % (
                        what, e))
                    m.check(not isinstance(f, int) or isinstance(
                        e, requests.HTTPError), 'error_type', '%s raises %r '
                        'instead of an HTTPError' % (what, e))
                else:
                    m.saw('complete_anyway')
                    m.check(got == want, 'smaller', '%s: returns %d of %d '
                            'events' % (what, len(got), len(want)))
                    hit = f == 'redirect' or isinstance(f, tuple) or \
                        kind[at] == 'probe' and f == 'text'
                    m.check(hit, 'ignored', '%s: the '
                            'fault was ignored' % what)
                if chance(rng, .15):
                    srv.faults = {}
                    m.saw('recovered')
                    m.check(ids(client.get_events(**kw)) == want, 'recovery',
                            '%s: the next call is wrong' % what)
        m.sample(events=n, call=str(kw), style=str(style),
                 statuses=str(statuses))


def w_always(m, rng, i):
    """the service fails from some request on, permanently"""
    n = int(rng.integers(1, 30))
    evs = fdsn.events(rng, n)
    f = choice(rng, [x for x in FAULTS if x != 'redirect'])
    batch = choice(rng, [None, 1, 2, 5, 30])
    kw = {} if batch is None else {'batch_size': batch}
    with fdsn.Server(rng, evs, {}) as srv:
        client = FDSNWSEventClient(srv.url)
        client.get_events(**kw)
        total = len(srv.log)
        at = int(rng.integers(0, total))
        srv.log.clear()
        srv.faults = {k: f for k in range(at, 10 ** 4)}
        m.case(i, str(f), at)
        m.saw('faults')
        try:
            got = client.get_events(**kw)
        except Exception:
            m.saw('raised')
        else:
            m.check(isinstance(f, tuple) and len(got) == n, 'smaller', '%d events, %s: service with permanent %s from '
                   'request %d on: %d events returned' % (n, kw, f, at + 1,
                                                           len(got)))


WORKLOADS = [('every_request', w_enumerate, 24, 240),
             ('permanent', w_always, 60, 600)]
