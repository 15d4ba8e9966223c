"""C16 Gardner-Knopoff declustering against a direct quadratic reference;
windows and distances against their published formulas."""
import math

import numpy as np
import pandas as pd

from seismostats import Catalog
from seismostats.analysis.declustering import (GardnerKnopoffType1,
                                               GardnerKnopoffWindow,
                                               GruenthalWindow,
                                               UhrhammerWindow)
from seismostats.analysis.declustering.distance_time_windows import (
    BaseDistanceTimeWindow)
from seismostats.analysis.declustering.utils import haversine
from vlib.util import chance, choice, close, same, size, snapshot

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('a case is one declustering (or window / distance evaluation) on a '
        'generated catalogue, compared with a quadratic reference in plain '
        'Python; non-trivial when at least one event is removed')
ASSUMPTIONS = ['distinct (magnitude, time) pairs', 'no pair within 2 s / 1 m '
               'of a window edge', 'magnitude >= 0 for the Gruenthal window']
MUST = {'declustered': 250, 'removed': 500, 'foreign_index': 80,
        'historic': 20, 'cutoff': 60, 'foreshock_fraction': 60,
        'permuted': 60, 'windows': 30, 'distances': 300, 'antipodal': 20,
        'chains': 30, 'missing_column': 10, 'catalogs': 50,
        'own_window': 15}


class SamePlace(BaseDistanceTimeWindow):
    """a window of a user: events at the very same place, within 40 days"""

    def _calc(self, magnitude):
        return np.zeros(len(magnitude)), np.full(len(magnitude), 40.)


class Everywhere(BaseDistanceTimeWindow):
    """a window of a user: in time only, which grows with the magnitude"""

    def _calc(self, magnitude):
        return np.full(len(magnitude), np.inf), 2. * np.abs(
            np.asarray(magnitude))


def win(kind, mag):
    """space (km), time (days)"""
    if kind is SamePlace:
        return 0., 40.
    if kind is Everywhere:
        return math.inf, 2. * abs(mag)
    if kind is GardnerKnopoffWindow:
        s = 10 ** (.1238 * mag + .983)
        t = 10 ** (.032 * mag + 2.7389) if mag >= 6.5 else \
            10 ** (.5409 * mag - .547)
    elif kind is GruenthalWindow:
        s = math.exp(1.77 + math.sqrt(.037 + 1.02 * mag))
        t = 10 ** (2.8 + .024 * mag) if mag >= 6.5 else \
            abs(math.exp(-3.95 + math.sqrt(.62 + 17.32 * mag)))
    else:
        s = math.exp(-1.024 + .804 * mag)
        t = math.exp(-2.87 + 1.235 * mag)
    return s, t


def dist(lo1, la1, lo2, la2, R=6371.227):
    """great-circle distance through the chord of unit vectors"""
    def vec(lo, la):
        lo, la = math.radians(lo), math.radians(la)
        return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
                math.sin(la))
    a, b = vec(lo1, la1), vec(lo2, la2)
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0])
    return R * math.atan2(math.sqrt(sum(c * c for c in cr)),
                          sum(p * q for p, q in zip(a, b)))


def w_decl(m, rng, i):
    n = size(rng, choice(rng, [1, 2, 5, 15, 40, 80]), 250, 450)
    kind = choice(rng, [GardnerKnopoffWindow, GruenthalWindow,
                        UhrhammerWindow])
    own = chance(rng, .08)
    if own:
        kind = choice(rng, [SamePlace, Everywhere])
    mag = np.round(rng.uniform(0, 5) + rng.exponential(.6, n), 1)
    mag = np.minimum(mag, 8.8)
    if chance(rng, .3):
        mag[rng.integers(0, n, max(1, n // 6))] = np.round(
            rng.uniform(6, 8, max(1, n // 6)), 1)
    span = choice(rng, [5, 60, 900, 20000])
    hist = chance(rng, .12)
    day = rng.uniform(0, span, n)
    if hist:
        day[rng.integers(0, n, max(1, n // 2))] -= rng.uniform(2e5, 4e5)
        m.saw('historic')
    sec = np.round(day * 86400)
    if chance(rng, .3):     # several events of one magnitude
        mag[:] = mag[rng.integers(0, n, n)]
    fs = float(choice(rng, [1, 1, 1, 0, .5, .2, 1.7]))
    cut = choice(rng, [None, None, 0.0, 10, 100.5])
    edge = n > 2 and not own and chance(rng, .4)
    if edge:        # just inside or outside the window of a large event
        big = int(np.argmax(mag))
        s, t = win(kind, mag[big])
        if cut is not None:
            t = min(max(t, 0), cut)
        at = rng.choice([j for j in range(n) if j != big],
                        min(n - 1, int(rng.integers(1, 12))), replace=False)
        u = rng.choice([.95, .985, .997, 1.003, 1.015, 1.05], len(at))
        far = rng.random(len(at)) < .3
        sgn = np.where(rng.random(len(at)) < .5, 1., -fs)
        sec[at] = np.round(sec[big] + 86400 * t * sgn * np.where(
            far, rng.uniform(.1, .8, len(at)), u))
        m.saw('window_edges', len(at))
    if len({(a, b) for a, b in zip(mag, sec)}) < n:
        return m.saw('discarded')
    spread = choice(rng, [.05, .5, 3])
    c = (rng.uniform(-179, 179), rng.uniform(-80, 80))
    if chance(rng, .2):
        c = (179.9, c[1])
    lon = c[0] + rng.normal(0, spread, n)
    lat = np.clip(c[1] + rng.normal(0, spread, n), -90, 90)
    if edge:
        lon[at] = lon[big]
        lat[at] = np.clip(lat[big] + rng.choice([-1, 1], len(at)) *
                          s / 111.195 * np.where(far, u, rng.uniform(
                              0, .8, len(at))), -90, 90)
    elif chance(rng, .15):    # rounded coordinates and times
        lon, lat = np.round(lon / spread) * spread, np.clip(
            np.round(lat / spread) * spread, -90, 90)
        sec = sec // 86400 * 86400
        if len({(a, b) for a, b in zip(mag, sec)}) < n:
            return m.saw('discarded')
        m.saw('simultaneous', n - len(set(sec.tolist())))
    if own:
        m.saw('own_window')
        lon, lat = lon[rng.integers(0, min(n, 4), n)], lat[
            rng.integers(0, min(n, 2), n)]
    lon = (lon + 180) % 360 - 180
    order = sorted(range(n), key=lambda j: (-mag[j], sec[j]))
    main, done = [None] * n, [False] * n
    near = False
    chain = 0
    for j in order:
        if done[j]:
            continue
        s, t = win(kind, mag[j])
        if cut is not None:
            t = min(max(t, 0), cut)
        main[j] = True
        done[j] = True
        for q in range(n):
            if q == j or done[q]:
                continue
            dt = sec[q] - sec[j]
            dd = dist(lon[q], lat[q], lon[j], lat[j])
            if min(abs(dt - t * 86400), abs(dt + t * fs * 86400)) < 2 or \
                    abs(dd - s) < 1e-3 and dd > 0:
                if not (dt == 0 or fs == 0 and dt < 0 or t == 0):
                    near = True
            if -t * fs * 86400 <= dt <= t * 86400 and dd <= s:
                done[q] = True
                main[q] = False
    if near:
        return m.saw('discarded')
    m.saw('chains', int(n - sum(main) > 2))
    base = np.datetime64('1995-02-03T04:05:06')
    time = base + sec.astype('int64').astype('timedelta64[s]')
    if not hist and chance(rng, .6):
        time = time.astype('datetime64[ns]')
        if chance(rng, .5):     # fractions of seconds
            time = time + rng.integers(0, 9 * 10 ** 8, n).astype(
                'timedelta64[ns]')
    data = dict(longitude=lon, latitude=lat, magnitude=mag, time=time)
    idx = None
    if chance(rng, .5) or n == 1:
        m.saw('foreign_index')
        idx = choice(rng, [rng.permutation(n), np.arange(n) + 7,
                           rng.permutation(n) * 3,
                           np.array(['e%d' % q for q in range(n)]),
                           rng.integers(0, max(1, n // 2), n)])
    df = pd.DataFrame(data, index=idx)
    if chance(rng, .5) and not hist:
        df = Catalog(df)
        m.saw('catalogs')
    if chance(rng, .3):
        df['depth'] = 5.0
    wkw = {}
    if cut is not None:
        m.saw('cutoff')
        wkw['time_cutoff'] = cut
    fkw = {}
    if fs != 1:
        m.saw('foreshock_fraction')
        fkw['fs_time_prop'] = fs
    snap = snapshot(df)
    dec = GardnerKnopoffType1(kind(**wkw), **fkw)
    got = dec(df)
    m.saw('declustered')
    m.saw('removed', n - sum(main))
    det = dict(window=kind.__name__, cutoff=cut, fs=fs, mag=mag, sec=sec,
               lon=lon, lat=lat, index=None if idx is None else list(idx),
               got=got, want=main)
    m.check(same(snap, df), 'mutated', 'the catalogue was modified', **det)
    m.check(isinstance(got, np.ndarray) and got.dtype == bool and
            got.shape == (n,), 'flags_type', 'flags are not a boolean array '
            'of the length of the catalogue', **det)
    m.check(list(got) == main, 'flags', 'mainshock flags differ from the '
            'Gardner-Knopoff reference', **det)
    m.check(list(dec(df)) == list(got), 'reuse', 'second call of the same '
            'declusterer differs', **det)
    if chance(rng, .4):
        p = rng.permutation(n)
        m.saw('permuted')
        m.check(list(dec(df.iloc[p])) == [main[q] for q in p], 'row_order',
                'flags depend on the storage order of the events',
                permutation=p, **det)
    if chance(rng, .1):
        m.saw('missing_column')
        try:
            dec(df.drop(columns=choice(rng, ['time', 'magnitude', 'longitude',
                                             'latitude'])))
        except ValueError:
            pass
        else:
            m.fail('missing_column', 'a catalogue without a required column '
                   'was accepted')
    m.case(kind.__name__, cut, fs, mag.tobytes(), sec.tobytes(),
           nontrivial=sum(main) < n)
    m.sample(window=kind.__name__, mags=mag[:8], mainshocks=main[:8])


def w_windows(m, rng, i):
    kind = [GardnerKnopoffWindow, GruenthalWindow, UhrhammerWindow][i % 3]
    mag = np.r_[rng.uniform(0 if kind is GruenthalWindow else -2, 9, 10),
                6.5, 6.4999, 0.0, 5.]
    cut = choice(rng, [None, 0, 3.3, 500])
    arg = mag if chance(rng, .5) else pd.Series(
        mag, index=rng.permutation(len(mag)))
    snap = snapshot(arg)
    s, t = kind(cut)(arg) if cut is not None else kind()(arg)
    m.check(same(snap, arg), 'mutated', 'magnitudes modified')
    m.saw('windows')
    ws, wt = zip(*[win(kind, q) for q in mag])
    if cut is not None:
        wt = np.clip(wt, 0, cut)
    m.check(close(np.asarray(s), ws, 1e-9), 'space_window', 'space window '
            'formula wrong', kind=kind.__name__, mag=mag, got=s, want=ws)
    m.check(close([q.total_seconds() for q in t], np.array(wt) * 86400, 1e-8,
                  1e-5), 'time_window', 'time window formula or cutoff wrong',
            kind=kind.__name__, mag=mag, cutoff=cut, got=t, want=wt)
    m.case('window', kind.__name__, mag.tobytes(), cut)


def w_dist(m, rng, i):
    n = size(rng, rng.integers(1, 20), 500, p=.05)
    lo, la = rng.uniform(-180, 180, n), rng.uniform(-90, 90, n)
    a, b = float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))
    r = i % 4
    if r == 0:      # antipodes
        la[:] = -b
        lo[:] = a + 180 + rng.normal(0, 1e-7, n) * rng.integers(0, 2, n)
        m.saw('antipodal')
    elif r == 1:    # close
        lo, la = a + rng.normal(0, 1e-4, n), b + rng.normal(0, 1e-4, n)
    elif r == 2:    # across the date line
        lo = np.where(rng.random(n) < .5, 179.9, -179.9)
        a = 179.95
    R = choice(rng, [None, 1.0, 6371.0])
    kw = {} if R is None else dict(earth_rad=R)
    snap = snapshot((lo, la))
    got = haversine(lo, la, a, b, **kw)
    m.check(same(snap, (lo, la)), 'mutated', 'coordinates modified')
    R = 6371.227 if R is None else R
    want = [dist(p, q, a, b, R) for p, q in zip(lo, la)]
    m.saw('distances', n)
    m.check(close(got, want, 1e-6, R * 2e-8 + 1e-9), 'distance', 'not the '
            'great-circle distance', lon=lo, lat=la, target=(a, b), R=R,
            got=got, want=want)
    back = [float(haversine(np.array([a]), np.array([b]), p, q, **kw)[0])
            for p, q in zip(lo, la)]
    m.check(close(back, got, 1e-6, R * 2e-8), 'distance_symmetry',
            'distance is not symmetric', lon=lo, lat=la, target=(a, b))
    m.case('dist', lo.tobytes(), la.tobytes())


WORKLOADS = [('decluster', w_decl, 700, 12000),
             ('windows', w_windows, 90, 900), ('dist', w_dist, 200, 3000)]
