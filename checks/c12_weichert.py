"""C12 Weichert b-value for unequal completeness periods."""
import datetime
import math

import numpy as np
import pandas as pd
from scipy.optimize import brentq

from seismostats.analysis.bvalue.weichert import estimate_b_weichert
from vlib import ref
from vlib.util import chance, choice, close, same, size, snapshot

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('a case is one Weichert estimate on a generated catalogue and '
        'completeness table, compared with the root of the likelihood '
        'equation over all bins counted in integers; non-trivial when at '
        'least two bins are occupied')
ASSUMPTIONS = ['magnitudes are bin centres between the first completeness '
               'edge (or below) and mag_max', 'years after 0']
MUST = {'estimates': 100, 'incomplete_events': 200, 'below_table': 50,
        'empty_bins': 100, 'replications': 30, 'default_last_year': 30,
        'beta': 40, 'single_row': 10}


def catalog(m, rng, order='asc'):
    """edges in bins, completeness years, integer bin and year per event"""
    ds = choice(rng, ['0.1', '0.1', '0.2', '0.5'])
    d = float(ds)
    rows = int(rng.integers(1, 5))
    if rows == 1:
        m.saw('single_row')
    e0 = int(rng.integers(int(2 / d), int(5 / d)))
    e = e0 + np.cumsum(np.r_[0, rng.integers(1, int(1.5 / d) + 2, rows - 1)])
    last = int(rng.integers(1990, 2025))
    y = last - np.cumsum(rng.integers(5, 150, rows))
    if chance(rng, .15):    # complete since some day of a year
        y = y + rng.choice([0, .25, .5, .75], rows)
    nb = int(e[-1] - e0 + rng.integers(2, int(2 / d) + 3))
    if chance(rng, .1):     # far more bins than events need
        nb += int(3 / d)
    n = size(rng, choice(rng, [8, 40, 200]), 2000, 9000)
    b = rng.uniform(.6, 1.5)
    # bins below the table as well
    k = e0 - 3 + np.floor(rng.exponential(1 / (b * ref.LN10 * d), n)).astype(
        int)
    k = np.minimum(k, e0 + nb - 1)
    if chance(rng, .12):    # hardly any event
        k[:] = e0 - 3
        j = rng.integers(0, n, int(rng.integers(1, 4)))
        k[j] = e0 + rng.integers(1, max(2, min(nb, 8)), len(j))
    year = rng.integers(int(y[-1]) - 50, last + 1, n)
    recent = rng.random(n) < .5
    year[recent] = rng.integers(int(y[0]), last + 1, int(recent.sum()))
    m.saw('fractional_start', int(np.any(y % 1)))
    return ds, d, e, y, nb, k, year, last


def times_of(rng, year):
    n = len(year)
    kind = choice(rng, ['D', 's', 'ns', 'py', 'series'])
    md = [(a, b) for a, b in zip(rng.integers(1, 13, n),
                                 rng.integers(1, 29, n))]
    if chance(rng, .3):     # at the turn of the year
        md = [(1, 1) if chance(rng, .5) else (12, 31) for _ in range(n)]
    s = ['%04d-%02d-%02d' % (y, a, b) for y, (a, b) in zip(year, md)]
    t = np.array(s, dtype='datetime64[D]')
    if kind == 's':
        return kind, t.astype('datetime64[s]')
    if kind == 'ns' and year.min() > 1700:
        return kind, t.astype('datetime64[ns]')
    if kind == 'py':
        return kind, [datetime.datetime.fromisoformat(x) for x in s]
    if kind == 'series' and year.min() > 1700:
        return kind, pd.Series(t, index=rng.permutation(n) + 2)
    return 'D', t


def w_est(m, rng, i):
    from decimal import Decimal
    ds, d, e, y, nb, k, year, last = catalog(m, rng)
    D = Decimal(ds)
    half = D / 2
    # bin k has its left edge at k*d - d/2 and its centre at k*d
    mags = ref.canon(k, ds)
    table = np.array([[float(int(a) * D - half), b] for a, b in zip(e, y)],
                     dtype=float)
    mmax = float((int(e[0]) + nb) * D - half)
    row = np.searchsorted(e, k, side='right') - 1
    ok = (row >= 0) & (year >= y[np.maximum(row, 0)])
    m.saw('incomplete_events', int(((row >= 0) & ~ok).sum()))
    m.saw('below_table', int((row < 0).sum()))
    if ok.sum() < 1 or ok.sum() < 3 and chance(rng, .5):
        return m.saw('discarded')
    m.saw('single_event', ok.sum() == 1)
    kw = {}
    ly = last
    if chance(rng, .5):
        ly = int(year.max())
        m.saw('default_last_year')
    else:
        ly = last + int(rng.integers(0, 3))
        if chance(rng, .3):     # observed until some day of the last year
            ly = ly + float(choice(rng, [.25, .5, .9]))
        kw['last_year'] = ly
    bins = np.arange(int(e[0]), int(e[0]) + nb)
    start = y[np.searchsorted(e, bins, side='right') - 1]
    cnt = np.array([(ok & (k == q)).sum() for q in bins])
    m.saw('empty_bins', int((cnt == 0).sum()))
    dur = (ly - start).astype(float)
    if np.any(dur <= 0):
        return m.saw('discarded')
    c = (bins - bins[0]) * d        # relative to the first bin
    N = int(cnt.sum())
    mean = float((cnt * c).sum() / N)

    def eq(beta):
        w = dur * np.exp(-beta * c)
        return (w * c).sum() / w.sum() - mean
    try:
        beta = brentq(eq, -20, 80, xtol=1e-13)
    except ValueError:
        return m.saw('discarded')
    if not 0.3 < beta < 12:
        return m.saw('discarded')
    w = dur * np.exp(-beta * c)
    rate = N * np.exp(-beta * c).sum() / w.sum()
    var = 1 / N * w.sum() ** 2 / (w.sum() * (w * c ** 2).sum() -
                                  (w * c).sum() ** 2)
    b = beta / ref.LN10
    a = math.log10(rate) + b * table[0, 0]
    std, want_b = math.sqrt(var), beta
    par = choice(rng, [None, 'b_value', 'beta'])
    if par == 'beta':
        m.saw('beta')
    else:
        want_b, std = b, std / ref.LN10
    if par:
        kw['b_parameter'] = par
    if ds != '0.1' or chance(rng, .5):
        kw['delta_m'] = d
    kind, t = times_of(rng, year)
    arg = mags if chance(rng, .8) else pd.Series(
        mags, index=rng.permutation(len(mags)))
    snap = snapshot((arg, t, table))
    got = estimate_b_weichert(arg, t, table, mmax, **kw)
    m.saw('estimates')
    det = dict(mags=mags, years=year, times=kind, table=table, mag_max=mmax,
               kw=kw, got=got, want=(want_b, std, rate, rate / math.sqrt(N),
                                     a))
    m.check(same(snap, (arg, t, table)), 'mutated', 'input modified')
    m.check(close(got[0], want_b, 1e-5), 'b', 'b is not the root of the '
            'likelihood equation over all bins up to mag_max', **det)
    m.check(close(got[1], std, 1e-4), 'std', 'standard error wrong', **det)
    m.check(close(got[2], rate, 1e-4), 'rate', 'rate at the lowest '
            'completeness magnitude wrong', **det)
    m.check(close(got[3], rate / math.sqrt(N), 1e-4), 'std_rate',
            'standard error of the rate wrong', **det)
    m.check(close(got[4], a, 0, 1e-4), 'a', 'a-value is not the extrapolation '
            'of the rate to magnitude zero', **det)
    if chance(rng, .4):
        # order of events and replication
        q = int(rng.integers(2, 5))
        idx = rng.permutation(np.tile(np.arange(len(k)), q))
        tt = np.array(t)[idx]
        g2 = estimate_b_weichert(mags[idx], tt, table, mmax,
                                 **dict(kw, last_year=ly))
        m.saw('replications')
        m.check(close(g2[0], got[0], 1e-5) and close(g2[2], q * got[2], 1e-4)
                and close(g2[1], got[1] / math.sqrt(q), 1e-4),
                'replication', 'replicating every event changes b or does not '
                'multiply the rate', q=q, g2=g2, **det)
        # events outside completeness do not matter
        if len(set(k[ok].tolist())) > 1:
            g3 = estimate_b_weichert(mags[ok], np.array(t)[ok], table, mmax,
                                     **dict(kw, last_year=ly))
            m.check(close(g3, got, 1e-7), 'incomplete', 'events outside the '
                    'completeness periods influence the estimate', g3=g3,
                    **det)
    m.case(ds, mags.tobytes(), year.tobytes(), table.tobytes(), par)
    m.sample(mags=mags[:8], years=year[:8], table=table, got=got)


WORKLOADS = [('estimate', w_est, 400, 8000)]
