"""C22 truncated, corrupted or interrupted QuakeML never reads as a (smaller)
catalogue."""
import gzip
import io
import os
import tempfile
import zlib
from xml.parsers import expat

import requests
import urllib3

from seismostats import Catalog
from seismostats.io.parser import (parse_quakeml, parse_quakeml_file,
                                   parse_quakeml_response)
from vlib import qml
from vlib.util import chance, choice

PROPERTY = 'C22'
LEVEL = 'fault_enumeration'
RULE = ('a case is one document cut at one byte, damaged or interrupted at one '
        'point, and read by one entry point: it has to raise unless nothing '
        'but trailing white space is missing (or not even the root element '
        'has begun); non-trivial when the root element has begun')
ASSUMPTIONS = ['whether a damaged document is still well-formed is decided by '
               'expat without the parser under test',
               'an empty body or a mere prolog may read as no events']
MUST = {'prefixes': 15000, 'raised': 15000, 'complete': 20, 'string': 5000,
        'file': 300, 'response': 4000, 'gzip': 1500, 'catalog_string': 50,
        'catalog_file': 50, 'prolog': 200, 'read_faults': 150,
        'damaged': 400, 'damaged_rejected': 200, 'damaged_accepted': 30,
        'cut_between_events': 10, 'after_failure': 15}


def raw_response(data, encoding=None):
    r = requests.Response()
    r.status_code = 200
    r.raw = urllib3.HTTPResponse(
        body=io.BytesIO(data), status=200, preload_content=False,
        headers={'content-encoding': encoding} if encoding else {})
    return r


def outcome(f, *args):
    try:
        return 'value', f(*args)
    except Exception as e:
        return 'raised', e


def judge(m, kind, got, full, state, cut, n):
    """state: 'prolog', 'partial' or 'complete'"""
    how, val = got
    m.saw(kind)
    m.saw('prefixes')
    m.saw('raised', how == 'raised')
    if state == 'complete':
        m.saw('complete')
        m.check(how == 'value', 'complete_rejected', '%s: a document complete '
                'but for trailing white space raises %r' % (kind, val))
        if how == 'value':
            m.check(same_events(val, full), 'complete_differs', '%s: a '
                    'document complete but for trailing white space reads '
                    'differently' % kind)
        return
    if state == 'prolog':
        m.saw('prolog')
        m.check(how == 'raised' or len(val) == 0, 'prolog', '%s: %s events '
                'from a mere prolog' % (kind, val))
        return
    m.check(how == 'raised', 'truncated', '%s: the first %d of %d bytes read '
            'as %s events without an error' % (
                kind, cut, n, len(val) if how == 'value' else '?'))


def same_events(a, b):
    if isinstance(a, Catalog):
        return len(a) == len(b)
    return a == b


def layout(body):
    """(position where the root element begins, where it ends)"""
    pos = {}
    p = expat.ParserCreate()
    depth = [0]

    def start(tag, attrs):
        if not depth[0]:
            pos['start'] = p.CurrentByteIndex
        depth[0] += 1

    def end(tag):
        depth[0] -= 1
        if not depth[0]:
            pos['end'] = p.CurrentByteIndex

    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(body, True)
    return pos['start'], body.index(b'>', pos['end']) + 1


def state_of(cut, start, end):
    return 'complete' if cut >= end else \
        'prolog' if cut <= start else 'partial'


def w_prefix(m, rng, i):
    """every prefix"""
    root, descr = qml.document(rng, int(rng.integers(1, 4)), rich=False)
    text = qml.Writer(rng, plain=i % 2 == 0).doc(root)
    text = text.rstrip() + choice(rng, ['', '\n', '\n\n  '])
    body = text.encode('utf8')
    n = len(body)
    start, end = layout(body)
    full = parse_quakeml(text)
    m.require(len(full) == len(descr), 'events', 'document with %d events '
              'reads as %d' % (len(descr), len(full)))
    boundaries = {body.index(b'<event ')}
    p = body.find(b'</event>')
    while p >= 0:
        boundaries.add(p + 8)
        p = body.find(b'</event>', p + 1)
    step_file = max(1, n // 60)
    with tempfile.TemporaryDirectory(prefix='c22-') as d:
        path = os.path.join(d, 'q.xml')
        for cut in range(n + 1):
            st = state_of(cut, start, end)
            part = body[:cut]
            m.case(i, cut, nontrivial=st != 'prolog')
            edge = cut in boundaries or cut in (0, start, end, end - 1, n)
            m.saw('cut_between_events', cut in boundaries)
            try:
                s = part.decode('utf8')
            except UnicodeDecodeError:
                s = None
            if s is not None:
                got = outcome(parse_quakeml, s)
                judge(m, 'string', got, full, st, cut, n)
                if s == '':
                    m.check(got == ('value', []), 'empty', 'an empty string '
                            'does not read as no events')
            if cut % 2 == 0 or edge:
                judge(m, 'response', outcome(
                    parse_quakeml_response, raw_response(part)), full, st,
                    cut, n)
            if cut % step_file == 0 or edge:
                with open(path, 'wb') as f:
                    f.write(part)
                judge(m, 'file', outcome(parse_quakeml_file, path), full, st,
                      cut, n)
                if cut % (8 * step_file) == 0 or edge:
                    judge(m, 'catalog_file', outcome(
                        Catalog.from_quakeml, path), full, st, cut, n)
                    if s is not None:
                        judge(m, 'catalog_string', outcome(
                            Catalog.from_quakeml, s), full, st, cut, n)
            if edge:    # no trace of earlier failures
                m.saw('after_failure')
                m.check(parse_quakeml(text) == full, 'after_failure',
                        'a complete document reads differently after failed '
                        'ones')
    m.sample(bytes=n, events=len(descr), root='%d..%d' % (start, end))


def w_gzip(m, rng, i):
    """every prefix of a compressed body"""
    root, descr = qml.document(rng, int(rng.integers(1, 6)), rich=False)
    text = qml.Writer(rng, plain=True).doc(root).strip()
    body = text.encode('utf8')
    start, end = layout(body)
    kind = choice(rng, ['gzip', 'deflate'])
    comp = gzip.compress(body) if kind == 'gzip' else zlib.compress(body)
    full = parse_quakeml(text)
    for cut in range(len(comp) + 1):
        # what a lenient decoder gets out of it
        d = zlib.decompressobj(31 if kind == 'gzip' else 15)
        plain = d.decompress(comp[:cut]) + d.flush()
        st = state_of(len(plain), start, end)
        m.case(i, cut, nontrivial=st != 'prolog')
        m.saw('gzip')
        how, val = outcome(parse_quakeml_response,
                           raw_response(comp[:cut], kind))
        if cut == len(comp):
            m.check(how == 'value' and val == full, 'compressed',
                    'a compressed response does not read as the document')
        elif st == 'complete':      # only the checksum is missing
            m.check(how == 'raised' or val == full, 'compressed', 'a '
                    'compressed response reads differently')
        elif st == 'partial':
            m.check(how == 'raised', 'truncated_compressed', 'the first %d of '
                    '%d compressed bytes (%d of %d bytes of text) read as %s '
                    'events' % (cut, len(comp), len(plain), len(body),
                                len(val) if how == 'value' else '?'))
        else:
            m.check(how == 'raised' or len(val) == 0, 'prolog', 'events from '
                    'a mere prolog')


class Faulty:
    """body which fails at a given byte"""

    def __init__(self, data, at, exc, size):
        self.f, self.at, self.exc, self.size = io.BytesIO(data), at, exc, size

    def read(self, n=-1, *a, **k):
        left = self.at - self.f.tell()
        if left <= 0:
            raise self.exc
        n = self.size if n is None or n < 0 else min(n, self.size)
        return self.f.read(min(n, left))

    def close(self):
        pass


def w_fault(m, rng, i):
    """the connection breaks while the body is read"""
    root, descr = qml.document(rng, int(rng.integers(1, 6)), rich=False)
    body = qml.Writer(rng, plain=True).doc(root).strip().encode('utf8')
    for _ in range(5):
        at = int(rng.integers(0, len(body) + 1))
        exc = choice(rng, [
            urllib3.exceptions.ProtocolError('connection broken'),
            urllib3.exceptions.ReadTimeoutError(None, None, 'timed out'),
            urllib3.exceptions.IncompleteRead(at, len(body) - at),
            urllib3.exceptions.DecodeError('bad data'),
            requests.exceptions.ConnectionError('reset'),
            OSError('reset'), TimeoutError('timed out')])
        r = requests.Response()
        r.raw = Faulty(body, at, exc, choice(rng, [10, 500, 10 ** 6]))
        m.saw('read_faults')
        m.case(i, at, type(exc).__name__)
        how, val = outcome(parse_quakeml_response, r)
        m.check(how == 'raised', 'interrupted', 'a body failing with %s after '
                '%d of %d bytes reads as %s events' % (
                    type(exc).__name__, at, len(body), val if how == 'raised'
                    else len(val)))


def wellformed(body):
    """None or the number of events, by expat alone"""
    p = expat.ParserCreate()
    n = [0]

    def start(tag, attrs):
        n[0] += tag == 'event'

    p.StartElementHandler = start
    try:
        p.Parse(body, True)
    except (expat.ExpatError, LookupError, ValueError):
        return None     # the last two: an encoding which does not exist
    return n[0]


def damage(rng, body):
    a, b = sorted(int(x) for x in rng.integers(0, len(body) + 1, 2))
    kind = choice(rng, ['hole', 'small hole', 'flip', 'restart', 'twice',
                        'swap', 'zeros', 'junk', 'lost tag', 'blanks'])
    if kind == 'hole':
        return kind, body[:a] + body[b:]
    if kind == 'small hole':
        return kind, body[:a] + body[a + int(rng.integers(1, 12)):]
    if kind == 'flip':
        out = bytearray(body)
        a = min(a, len(body) - 1)
        out[a] ^= 1 << int(rng.integers(0, 8))
        return kind, bytes(out)
    if kind == 'restart':       # a retry appended to a broken download
        return kind, body[:a] + body
    if kind == 'twice':
        return kind, body + body
    if kind == 'swap':
        return kind, body[:a] + body[b:] + body[a:b]
    if kind == 'zeros':
        return kind, body[:a] + b'\0' * (b - a) + body[b:]
    if kind == 'junk':
        return kind, body + choice(rng, [b'<', b'x', b'</q:quakeml>',
                                         b'HTTP/1.1 500', b'<!-- -->'])
    if kind == 'lost tag':
        tags = [b'</event>', b'</origin>', b'</magnitude>', b'<event ',
                b'</eventParameters>', b'</q:quakeml>', b'</value>']
        return kind, body.replace(choice(rng, tags), b'', 1)
    return kind, body[:a] + b'  \n' + body[a:]


def w_damage(m, rng, i):
    root, descr = qml.document(rng, int(rng.integers(1, 5)), rich=False)
    body = qml.Writer(rng, plain=True).doc(root).strip().encode('utf8')
    for _ in range(8):
        kind, bad = damage(rng, body)
        want = wellformed(bad)
        if b'<!DOCTYPE' in bad or b'<!ENTITY' in bad:
            continue
        m.saw('damaged')
        m.saw('damaged_rejected', want is None)
        m.saw('damaged_accepted', want is not None)
        m.case(i, kind, len(bad))
        how, val = outcome(parse_quakeml_response, raw_response(bad))
        if want is None:
            # an empty document (nothing but blanks or a prolog) is no damage
            if how == 'value' and not val and b'<event' not in bad and \
                    b'<q:' not in bad:
                continue
            m.check(how == 'raised', 'damaged', 'a damaged document (%s) which '
                    'is not well-formed reads as %s events' % (
                        kind, len(val) if how == 'value' else '?'))
        elif how == 'value':
            m.check(len(val) == want, 'damaged_count', 'a document (%s) with '
                    '%d events reads as %d' % (kind, want, len(val)))


WORKLOADS = [('prefixes', w_prefix, 12, 160),
             ('compressed', w_gzip, 8, 100),
             ('faults', w_fault, 60, 600),
             ('damage', w_damage, 100, 3000)]
