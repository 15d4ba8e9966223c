"""Generators of magnitude samples (integer bin indices are kept, so that the
references work in integers)."""
import numpy as np

from vlib.ref import canon
from vlib.util import chance, choice

DELTAS = ['0.1', '0.01', '0.2', '0.05', '0.5', '0.25', '1', '0.3']


def binned(rng, nmax=300, nmin=1, deltas=DELTAS, big=0):
    """(delta string, integer bins k, canonical floats x); |x| < 10"""
    ds = choice(rng, deltas)
    d = float(ds)
    n = int(rng.integers(nmin, nmax + 1)) if chance(rng, .7) else \
        int(rng.integers(nmin, max(nmin + 1, min(nmax, 12)) + 1))
    if big and chance(rng, .03):    # the size of real catalogues
        n = int(rng.integers(nmax, big))
    beta = rng.uniform(0.7, 2.0) * np.log(10)
    kc = int(rng.integers(int(-2 / d), int(3.5 / d)))
    k = kc + np.floor(rng.exponential(1 / (beta * d), n)).astype(int)
    if chance(rng, .3):     # incomplete part below
        k = k - rng.integers(0, 2, n) * rng.integers(0, max(1, int(1 / d)) + 1,
                                                     n)
    k = np.minimum(k, int(9.9 / d))
    return ds, k, canon(k, ds)


def continuous(rng, nmax=300, nmin=1, big=0):
    n = int(rng.integers(nmin, nmax + 1))
    if big and chance(rng, .03):
        n = int(rng.integers(nmax, big))
    x = rng.uniform(-2, 4) + rng.exponential(
        1 / (rng.uniform(.7, 2) * np.log(10)), n)
    if chance(rng, .3):
        x = x - rng.integers(0, 2, n) * rng.uniform(0, 1, n)
    return x


def weights(rng, n):
    r = int(rng.integers(0, 4))
    w = [rng.uniform(0.1, 3, n), rng.integers(1, 5, n), np.ones(n),
         rng.integers(0, 4, n).astype(float)][r]
    return w


def times(rng, n, kind=None):
    """Distinct event times, not sorted: (argument, order, seconds)"""
    import pandas as pd
    fine = kind is None and chance(rng, .2)     # fractions of seconds
    kind = kind or choice(rng, ['float', 'int', 'dt64', 'dt64ns', 'dates',
                                'ts', 'days'])
    if fine and kind in ('dt64', 'dt64ns', 'ts'):
        return _fine(rng, n, kind)
    span = 10 ** 8 if chance(rng, .75) else max(4 * n, 7200)    # one day
    sec = rng.choice(span, n, replace=False).astype(float)
    if kind == 'dates':     # one event per day at most
        sec = rng.choice(10 ** 4, n, replace=False).astype(float) * 86400
    if chance(rng, .4):
        sec = np.sort(sec)
    base = np.datetime64('2001-03-04T05:06:07')
    if kind == 'float':
        t = sec / 86400.0
    elif kind == 'days':
        t = sec + 1e9
    elif kind == 'int':
        t = sec.astype(int)
    elif kind == 'dates':
        t = base.astype('datetime64[D]') + (sec / 86400).astype(
            int).astype('timedelta64[D]')
    elif kind == 'dt64ns':
        t = (base + sec.astype(int).astype('timedelta64[s]')).astype(
            'datetime64[ns]')
    elif kind == 'dt64':
        t = base + sec.astype(int).astype('timedelta64[s]')
    else:
        t = [pd.Timestamp(base + np.timedelta64(int(s), 's')) for s in sec]
    return kind, t, np.argsort(sec, kind='stable'), sec


def _fine(rng, n, kind):
    """times that differ by milli-, micro- or nanoseconds"""
    import pandas as pd
    unit = choice(rng, ['ms', 'us', 'ns'])
    if unit == 'ns' and kind == 'ts' or kind == 'dt64ns':
        unit = choice(rng, ['ms', 'us'])
    step = rng.choice(max(3 * n, 5000), n, replace=False)
    if chance(rng, .4):
        step = np.sort(step)
    t = np.datetime64('2001-03-04T05:06:07', unit) + step.astype(
        'timedelta64[%s]' % unit)
    sec = step * {'ms': 1e-3, 'us': 1e-6, 'ns': 1e-9}[unit]
    if kind == 'dt64ns':
        t = t.astype('datetime64[ns]')
    elif kind == 'ts':
        t = [pd.Timestamp(v) for v in t]
    return kind, t, np.argsort(step, kind='stable'), sec
