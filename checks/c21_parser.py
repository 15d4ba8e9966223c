"""C21 the QuakeML parser extracts the preferred origin and magnitude (and the
secondary magnitudes) of every event, however the document is written,
delivered or split into chunks."""
import io
import numbers
import os
import tempfile
import xml.etree.ElementTree as ET

import pandas as pd

from seismostats import Catalog
from seismostats.io.parser import (parse_quakeml, parse_quakeml_file,
                                   parse_quakeml_response)
from vlib import qml
from vlib.util import chance, choice

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('a case is one generated QuakeML document (random structure, notation '
        'and encoding) parsed by one entry point; every key of every event is '
        'compared with the generator\'s description of the document; '
        'non-trivial when the document has events')
ASSUMPTIONS = ['events use the default namespace and every origin and '
               'magnitude has its publicID (both required by QuakeML)',
               'versions are numeric; creation times are compared to the '
               'second']
MUST = {'documents': 200, 'events': 2000, 'strings': 70, 'files': 30,
        'responses': 60, 'tiny_chunks': 20, 'large': 6, 'other_encodings': 10,
        'no_preferred_origin': 100, 'no_preferred_magnitude': 100,
        'duplicate_types': 200, 'untyped': 50, 'secondary': 500,
        'several_origins': 200, 'values': 20000, 'catalogs': 60,
        'boundary_splits': 10}


class Raw:
    """file-like body of a response, delivering pieces of arbitrary size"""

    def __init__(self, data, rng, kmax):
        self.f, self.rng, self.kmax = io.BytesIO(data), rng, kmax
        self.decode_content = False

    def read(self, n=-1, *a, **k):
        if self.kmax and n and n > 0:
            n = min(n, int(self.rng.integers(1, self.kmax + 1)))
        return self.f.read(n)

    def close(self):
        pass


class Response:
    def __init__(self, raw):
        self.raw = raw


def deliver(m, rng, text, encoding, allm, qual):
    """parse by one of the entry points: (name, events)"""
    data = text.encode(encoding)
    how = choice(rng, ['string', 'string', 'file', 'response', 'response'])
    if how == 'string':
        m.saw('strings')
        return how, parse_quakeml(text, allm, qual)
    if how == 'file':
        m.saw('files')
        with tempfile.TemporaryDirectory(prefix='c21-') as d:
            p = os.path.join(d, 'q.xml')
            with open(p, 'wb') as f:
                f.write(data)
            return how, parse_quakeml_file(p, allm, qual)
    kmax = choice(rng, [0, 3, 17, 1000])
    if kmax and len(data) > 30000:
        kmax = 1000
    m.saw('responses')
    m.saw('tiny_chunks', 0 < kmax < 100)
    raw = Raw(data, rng, kmax)
    out = parse_quakeml_response(Response(raw), allm, qual)
    m.check(raw.decode_content is True, 'decode_content', 'a compressed '
            'response would not be decoded')
    return 'response (reads of <= %s bytes)' % (kmax or 'any'), out


def judge(m, got, descr, allm, qual, what):
    m.require(isinstance(got, list) and len(got) == len(descr), 'events',
              '%s: %d events, the document has %d' % (what, len(got),
                                                      len(descr)))
    for g, d in zip(got, descr):
        e, alt = qml.expected(d, allm, qual)
        m.saw('events')
        m.saw('values', len(e))
        m.saw('several_origins', len(d['origins']) > 1)
        m.saw('no_preferred_origin', e.get('originID') is None)
        m.saw('no_preferred_magnitude', e.get('magnitudeID') is None)
        types = [x['type'] for x in d['magnitudes']]
        m.saw('untyped', None in types)
        m.saw('duplicate_types', len(set(types)) < len(types))
        m.saw('secondary', len(alt))
        bad = [(k, g.get(k), v) for k, v in e.items() if g.get(k) != v]
        m.check(not bad, 'value', '%s: event %s: (key, parsed, in the '
                'document): %s' % (what, d['id'], bad[:4]))
        keys = set(e)
        for t, options in alt.items():
            ok = any(all(g.get(k) == v for k, v in a.items())
                     and not any(k.startswith('magnitude_%s' % t + s)
                                 and k not in a for k in g
                                 for s in ('_upperU', '_lowerU', '_unc',
                                           '_conf', '_magnitudeID')
                                 if k == 'magnitude_' + t + s)
                     for a in options)
            m.check(ok, 'secondary', '%s: event %s: magnitudes of type %s are '
                    '%s, expected %s' % (what, d['id'], t, {
                        k: v for k, v in g.items()
                        if k.startswith('magnitude_' + t)}, options))
            for a in options:
                keys |= set(a)
        extra = {k for k, v in g.items() if v is not None} - keys
        m.check(not extra, 'extra', '%s: event %s has keys which are not in '
                'the document: %s' % (what, d['id'], {
                    k: g[k] for k in extra}))


def w_parse(m, rng, i):
    large = i % 25 == 3
    n = int(rng.integers(60, 130)) if large else int(rng.integers(0, 16))
    root, descr = qml.document(rng, n, rich=chance(rng, .7))
    enc = choice(rng, ['UTF-8'] * 4 + ['ISO-8859-1', 'UTF-16'])
    w = qml.Writer(rng, plain=chance(rng, .3), pad=500 if large else 0)
    text = w.doc(root, enc, declared=enc != 'UTF-8' or chance(rng, .8))
    try:
        text.encode(enc)
    except UnicodeEncodeError:
        enc = 'UTF-8'
        text = text.replace('ISO-8859-1', enc, 1)
    m.saw('other_encodings', enc != 'UTF-8')
    m.saw('large', len(text) > 140000)
    m.saw('documents')
    # the generator is checked against an independent parser
    tree = ET.fromstring(text.encode(enc))
    assert len(list(tree.iter('{%s}event' % qml.NS))) == n
    allm, qual = chance(rng, .7), chance(rng, .7)
    how, got = deliver(m, rng, text, enc, allm, qual)
    what = '%s, %s, %d events' % (how, enc, n)
    m.case(i, n, nontrivial=n > 0)
    m.sample(delivered=what, all_magnitudes=allm, quality=qual,
             document=text[:300])
    judge(m, got, descr, allm, qual, what)


def w_boundary(m, rng, i):
    """values split exactly where the reader starts a new chunk"""
    root, descr = qml.document(rng, 2, rich=False)
    w = qml.Writer(rng, plain=True)
    text = w.doc(root)
    body = text.encode('utf8')
    head = body.index(b'?>') + 2
    # somewhere inside the events, most interesting within text
    cut = int(rng.integers(body.index(b'<event ') + 1, len(body) - 40))
    size = choice(rng, [65516, 65536, 32768, 8192, 16384])
    pad = (size - cut) % size
    if pad < 8:
        pad += size
    data = body[:head] + b'<!--' + b'x' * (pad - 7) + b'-->' + body[head:]
    m.saw('boundary_splits')
    m.case(i)
    for kind in ('file', 'response', 'string'):
        if kind == 'string':
            got = parse_quakeml(data.decode('utf8'))
        elif kind == 'response':
            got = parse_quakeml_response(Response(Raw(data, rng, 0)))
        else:
            with tempfile.TemporaryDirectory(prefix='c21-') as d:
                p = os.path.join(d, 'q.xml')
                with open(p, 'wb') as f:
                    f.write(data)
                got = parse_quakeml_file(p)
        judge(m, got, descr, True, True, '%s with a chunk boundary at byte %d'
              % (kind, size))


def w_catalog(m, rng, i):
    """from_quakeml: the parsed values, with the options applied"""
    root, descr = qml.document(rng, int(rng.integers(1, 12)),
                               rich=chance(rng, .5))
    text = qml.Writer(rng, plain=True).doc(root)
    o = dict(zip(['include_all_magnitudes', 'include_uncertainties',
                  'include_ids', 'include_quality'],
                 [chance(rng, .5) for _ in range(4)]))
    with tempfile.TemporaryDirectory(prefix='c21-') as dd:
        src = text
        if chance(rng, .4):
            src = os.path.join(dd, 'q.xml')
            with open(src, 'w', encoding='utf8') as f:
                f.write(text)
        cat = Catalog.from_quakeml(src, **o)
    m.saw('catalogs')
    m.case(i)
    m.require(isinstance(cat, Catalog) and len(cat) == len(descr), 'events',
              'from_quakeml gives %s with %d rows for %d events' % (
                  type(cat), len(cat), len(descr)))
    cols = set()
    for pos, d in enumerate(descr):
        e, alt = qml.expected(d, o['include_all_magnitudes'],
                              o['include_quality'])
        for a in alt.values():
            cols |= set(a[0])
        cols |= set(e)
        for k, v in e.items():
            if k.endswith(('eventID', 'originID', 'magnitudeID')) and \
                    not o['include_ids']:
                continue
            if k.endswith(('certainty', 'confidenceLevel')) and \
                    not o['include_uncertainties']:
                continue
            g = cat[k].iloc[pos] if k in cat.columns else None
            if v is None:
                ok = g is None or pd.isna(g)
            elif k == 'time':
                ok = g == pd.Timestamp(v).tz_localize(None)
            elif isinstance(g, numbers.Number):
                ok = abs(g - float(v)) <= 1e-12 * max(1, abs(float(v)))
            else:
                ok = g == v
            m.check(ok, 'catalog_value', 'column %s of event %s is %r, in the '
                    'document %r' % (k, d['id'], g, v))
    if not o['include_ids']:
        cols = {c for c in cols if not c.endswith(
            ('eventID', 'originID', 'magnitudeID'))}
    if not o['include_uncertainties']:
        cols = {c for c in cols if not c.endswith(
            ('certainty', 'confidenceLevel'))}
    miss = {c for c in cols - set(cat.columns)
            if c in ('longitude', 'latitude', 'depth', 'time', 'magnitude',
                     'magnitude_type', 'event_type')}
    m.check(not miss, 'catalog_columns', 'columns %s are missing' % miss)
    unasked = {c for c in cat.columns if (
        not o['include_ids'] and c.endswith(('eventID', 'originID',
                                             'magnitudeID'))
        or not o['include_uncertainties'] and c.endswith(
            ('certainty', 'confidenceLevel'))
        or not o['include_quality'] and c in qml.QUALITY.values()
        or not o['include_all_magnitudes'] and c.startswith('magnitude_')
        and c not in ('magnitude_type',) and not c.endswith(
            ('certainty', 'confidenceLevel')))}
    m.check(not unasked, 'unasked_columns', 'columns %s were not asked for '
            '(%s)' % (unasked, o))


WORKLOADS = [('documents', w_parse, 400, 5000),
             ('boundaries', w_boundary, 40, 600),
             ('from_quakeml', w_catalog, 150, 2000)]
