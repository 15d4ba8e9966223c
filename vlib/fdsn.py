"""An FDSN event web service on the loopback interface over a generated list
of events, with a request log and injectable faults."""
import datetime as dt
import gzip
import socket
import socketserver
import threading
import time
from urllib.parse import parse_qs, urlsplit

from vlib import qml
from vlib.util import chance, choice

El = qml.El


def events(rng, n, era=None):
    """records, newest first (the usual order of the services)"""
    out = []
    year = era or int(rng.integers(1990, 2024))
    for j in range(n):
        t = dt.datetime(year, 1, 1) + dt.timedelta(
            microseconds=int(rng.integers(0, 30 * 86400 * 10 ** 6)))
        if chance(rng, .2):
            t = t.replace(microsecond=int(choice(rng, [1, 5, 998, 20000])))
        out.append({
            'id': 'smi:e/%d' % j, 'time': t,
            'latitude': round(float(rng.uniform(-10, 10)), 3) + 1e-4,
            'longitude': round(float(rng.uniform(-10, 10)), 3) + 1e-4,
            'depth': round(float(rng.uniform(0, 20)), 1),
            'magnitude': round(float(rng.uniform(-1, 6)), 1) + (
                .0132 if chance(rng, .6) else
                choice(rng, [-.05, -.005, 0, .005, .05]) +
                choice(rng, [-.0013, .0013, -.0004, .0004])),
            'other': round(float(rng.uniform(-1, 6)), 2),
            'type': choice(rng, ['earthquake', 'explosion']),
            'unc': round(float(rng.uniform(0, 1)), 3),
            'phases': int(rng.integers(0, 90))})
    out.sort(key=lambda e: e['time'], reverse=True)
    return out


def element(e, allm):
    def real(tag, v, u=None):
        kids = [El('value', v if isinstance(v, str) else repr(v))]
        if u is not None:
            kids.append(El('uncertainty', repr(u)))
        return El(tag, kids=kids)
    kids = [El('preferredOriginID', e['id'] + '/o'),
            El('preferredMagnitudeID', e['id'] + '/m'),
            El('type', e['type']),
            El('origin', kids=[
                real('time', e['time'].isoformat() + 'Z'),
                real('latitude', e['latitude'], e['unc']),
                real('longitude', e['longitude']), real('depth', e['depth']),
                El('quality', kids=[El('usedPhaseCount', str(e['phases']))]),
            ], publicID=e['id'] + '/o'),
            El('magnitude', kids=[real('mag', e['magnitude'], .1),
                                  El('type', 'ML')], publicID=e['id'] + '/m')]
    if allm:
        kids.append(El('magnitude', kids=[real('mag', e['other']),
                                          El('type', 'Mw')],
                       publicID=e['id'] + '/n'))
    return El('event', kids=kids, publicID=e['id'])


def document(evs, allm, writer):
    return writer.doc(El('q:quakeml', kids=[El(
        'eventParameters', kids=[element(e, allm) for e in evs],
        publicID='smi:ep')]))


def parse_time(s):
    if len(s) < 19:
        raise ValueError(s)
    return dt.datetime.fromisoformat(s.replace('Z', ''))


KNOWN = {'starttime': parse_time, 'endtime': parse_time,
         'minlatitude': float, 'maxlatitude': float, 'minlongitude': float,
         'maxlongitude': float, 'minmagnitude': float, 'maxmagnitude': float,
         'includeallmagnitudes': lambda s: {'true': True, 'false': False}[
             s.lower()],
         'eventtype': str, 'limit': int, 'offset': int, 'nodata': int,
         'orderby': str, 'mindepth': float, 'maxdepth': float}


def select(evs, q):
    """the events a service returns for the (parsed) query, before paging"""
    out = [e for e in evs
           if q.get('starttime', dt.datetime.min) <= e['time']
           <= q.get('endtime', dt.datetime.max)
           and all(q.get('min' + k, -1e9) <= e[k] <= q.get('max' + k, 1e9)
                   for k in ('latitude', 'longitude', 'magnitude', 'depth'))
           and q.get('eventtype', e['type']) == e['type']]
    if q.get('orderby') == 'time-asc':
        out.reverse()
    elif q.get('orderby') == 'magnitude':
        out.sort(key=lambda e: -e['magnitude'])
    return out


class Server:
    """`faults`: {number of the request: fault}, see `answer`"""

    def __init__(self, rng, evs, style=None):
        self.evs, self.log, self.faults = evs, [], {}
        self.lock = threading.Lock()
        self.style = style or {}
        self.writer = qml.Writer(rng, plain=True)
        self.cache = {}
        outer = self

        class Handler(socketserver.BaseRequestHandler):
            def handle(self):
                outer.serve(self.request)

        class Srv(socketserver.ThreadingTCPServer):
            allow_reuse_address = True
            daemon_threads = True
            request_queue_size = 64

        self.srv = Srv(('127.0.0.1', 0), Handler)
        self.url = 'http://127.0.0.1:%d/fdsnws/event/1/query' % \
            self.srv.server_address[1]
        self.thread = threading.Thread(
            target=self.srv.serve_forever, kwargs={'poll_interval': .01},
            daemon=True)
        self.thread.start()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.srv.shutdown()
        self.srv.server_close()

    def serve(self, sock):
        sock.settimeout(20)
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        data = b''
        while b'\r\n\r\n' not in data:
            part = sock.recv(65536)
            if not part:
                return
            data += part
        target = data.split(b' ', 2)[1].decode()
        with self.lock:
            number = len(self.log)
            entry = {'target': target, 'params': {}, 'served': None,
                     'status': None}
            self.log.append(entry)
            fault = self.faults.get(number)
        try:
            self.answer(sock, target, entry, fault)
        except OSError:
            pass

    def page(self, target, entry):
        """(status, body)"""
        raw = parse_qs(urlsplit(target).query, keep_blank_values=True)
        q = {}
        for k, v in raw.items():
            if k not in KNOWN or len(v) != 1:
                return 400, b'Error 400: ' + k.encode()
            try:
                q[k] = KNOWN[k](v[0])
            except (ValueError, KeyError):
                return 400, b'Error 400: ' + k.encode()
        entry['params'] = q
        if q.get('limit', 1) < 1 or q.get('offset', 1) < 1:
            return 400, b'Error 400: paging'
        if q.get('offset', 1) > 10 ** 7:    # a client which never ends
            return 500, b'Error 500'
        out = select(self.evs, q)
        first = q.get('offset', 1) - 1
        out = out[first:first + q.get('limit', 10 ** 9)]
        entry['served'] = [e['id'] for e in out]
        if not out:
            if self.style.get('empty200'):
                return 200, b''
            return q.get('nodata', 204), b''
        return 200, document(out, q.get('includeallmagnitudes', False),
                             self.writer).encode('utf8')

    def answer(self, sock, target, entry, fault):
        if fault == 'close':        # no answer at all
            return
        if isinstance(fault, int):
            entry['status'] = fault
            body = b'<html><body>Error</body></html>'
            sock.sendall(b'HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: '
                         b'close\r\n\r\n%s' % (fault, len(body), body))
            return
        if fault == 'redirect':
            entry['status'] = 302
            sock.sendall(b'HTTP/1.1 302 X\r\nLocation: %s\r\nContent-Length: '
                         b'0\r\nConnection: close\r\n\r\n' % (
                             target.encode()))
            return
        status, body = self.page(target, entry)
        if fault == 'text' and status < 500:    # an error text with status 200
            status, body = 200, b'Error: the service is overloaded\n'
            fault = None
        entry['status'] = status
        head = b'HTTP/1.1 %d X\r\nConnection: close\r\n' % status
        if status == 204:
            sock.sendall(head + b'\r\n')
            return
        if self.style.get('gzip') and body:
            head += b'Content-Encoding: gzip\r\n'
            body = gzip.compress(body, 1)
        cut = len(body)
        if isinstance(fault, tuple):        # ('cut', fraction)
            cut = max(min(int(len(body) * fault[1]), len(body) - 1), 0)
            if self.style.get('nolength') or self.style.get('gzip'):
                cut = max(cut, min(len(body), 30))
        if self.style.get('chunked'):
            sock.sendall(head + b'Transfer-Encoding: chunked\r\n\r\n')
            size = self.style['chunked']
            for a in range(0, cut, size):
                part = body[a:min(a + size, cut)]
                sock.sendall(b'%x\r\n%s\r\n' % (len(part), part))
            if cut == len(body):
                sock.sendall(b'0\r\n\r\n')
            return
        elif not self.style.get('nolength'):
            head += b'Content-Length: %d\r\n' % len(body)
        sock.sendall(head + b'\r\n')
        size = self.style.get('pieces') or max(cut, 1)
        for a in range(0, cut, size):
            sock.sendall(body[a:min(a + size, cut)])
            if self.style.get('pieces'):
                time.sleep(.0002)


def style(rng):
    return {'gzip': chance(rng, .3),
            'chunked': choice(rng, [0, 0, 50, 700, 10 ** 6]),
            'nolength': chance(rng, .2),
            'pieces': choice(rng, [0, 0, 0, 400]),
            'empty200': chance(rng, .2)}
