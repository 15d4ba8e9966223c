"""C13 Kijko & Smit b-value for sub-catalogues of different completeness."""
import math

import numpy as np
import pandas as pd

from seismostats.analysis.bvalue.kijko_smit import estimate_b_kijko_smit
from checks.c12_weichert import catalog, times_of
from vlib import ref
from vlib.util import chance, choice, close, same, snapshot

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('a case is one Kijko-Smit estimate on a generated catalogue and '
        'completeness table, compared with the published closed form over '
        'non-overlapping sub-catalogues; non-trivial when at least three '
        'events are complete')
ASSUMPTIONS = ['magnitudes are bin centres', 'years after 0']
MUST = {'estimates': 200, 'incomplete_events': 200, 'empty_subcatalogue': 20,
        'permutations': 60, 'default_last_year': 40, 'beta': 40,
        'recovered_rate': 5}


def w_est(m, rng, i):
    from decimal import Decimal
    ds, d, e, y, nb, k, year, last = catalog(m, rng)
    D = Decimal(ds)
    half = D / 2
    mags = ref.canon(k, ds)
    if chance(rng, .2):     # drop all events of one period
        j = int(rng.integers(0, len(y)))
        hi = y[j - 1] if j else 10 ** 6
        keep = ~((year >= y[j]) & (year < hi))
        if keep.sum() > 5:
            k, mags, year = k[keep], mags[keep], year[keep]
    table = np.array([[float(int(a) * D - half), b] for a, b in zip(e, y)],
                     dtype=float)
    # sub-catalogue of a year: first row whose completeness year is reached
    sub = np.array([next((j for j in range(len(y)) if yy >= y[j]), -1)
                    for yy in year])
    ok = (sub >= 0) & (k >= e[np.maximum(sub, 0)])
    n = int(ok.sum())
    m.saw('incomplete_events', int((~ok).sum()))
    if n < 3:
        return m.saw('discarded')
    m.saw('empty_subcatalogue', int(any((ok & (sub == j)).sum() == 0
                                        for j in range(len(y)))))
    kw = {}
    if chance(rng, .5):
        ly = int(year.max())
        m.saw('default_last_year')
    else:
        ly = last + int(rng.integers(0, 3))
        if chance(rng, .3):     # observed until some day of the last year
            ly = ly + float(choice(rng, [.25, .5, .9]))
        kw['last_year'] = ly
    if ly <= y[0]:
        return m.saw('discarded')
    exc = (k[ok] - e[sub[ok]] + .5) * d
    beta = 1 / (math.fsum(exc) / n)
    ends = np.r_[ly, y[:-1]]
    den = math.fsum((ends - y) * np.exp(-beta * (e - e[0]) * d))
    rate = n / den
    a = math.log10(rate) + beta / ref.LN10 * float(int(e[0]) * D)
    want, std = beta, beta / math.sqrt(n)
    par = choice(rng, [None, 'b_value', 'beta'])
    if par == 'beta':
        m.saw('beta')
    else:
        want, std = want / ref.LN10, std / ref.LN10
    if par:
        kw['b_parameter'] = par
    if ds != '0.1' or chance(rng, .5):
        kw['delta_m'] = d
    kind, t = times_of(rng, year)
    arg = mags if chance(rng, .8) else pd.Series(
        mags, index=rng.permutation(len(mags)))
    snap = snapshot((arg, t, table))
    got = estimate_b_kijko_smit(arg, t, table, **kw)
    m.saw('estimates')
    det = dict(mags=mags, years=year, times=kind, table=table, kw=kw, got=got,
               want=(want, std, rate, a))
    m.check(same(snap, (arg, t, table)), 'mutated', 'input modified')
    m.check(close(got[0], want, 1e-8), 'b', 'b is not the weighted harmonic '
            'combination of the sub-catalogue estimates', **det)
    m.check(close(got[1], std, 1e-8), 'std', 'standard error is not '
            'b/sqrt(n complete events)', **det)
    m.check(close(got[2], rate, 1e-8), 'rate', 'rate is not the number of '
            'complete events over the weighted durations of the '
            'sub-catalogues', **det)
    m.check(close(got[3], a, 0, 1e-7), 'a', 'a-value wrong', **det)
    p = rng.permutation(len(k))
    g2 = estimate_b_kijko_smit(mags[p], np.array(t)[p], table, **kw)
    m.saw('permutations')
    m.check(close(g2, got, 1e-9), 'order', 'result depends on the order of '
            'the events', g2=g2, **det)
    g3 = estimate_b_kijko_smit(mags[ok], np.array(t)[ok], table,
                               **dict(kw, last_year=ly))
    m.check(close(g3, got, 1e-9), 'incomplete', 'events outside the '
            'completeness periods influence the estimate', g3=g3, **det)
    m.case(ds, mags.tobytes(), year.tobytes(), table.tobytes(), par)
    m.sample(mags=mags[:8], years=year[:8], table=table, got=got)


def w_recover(m, rng, i):
    """The estimated rate and b recover those of a simulated Poisson
    catalogue (statistical tolerance: 6 standard errors)."""
    table = np.array([[3.95, 1970], [4.95, 1900], [5.95, 1700]])
    b, rate = rng.uniform(.8, 1.2), rng.uniform(20, 80)
    n = rng.poisson(rate * 320)
    k = 40 + np.floor(rng.exponential(1 / (b * ref.LN10 * .1), n)).astype(int)
    year = rng.integers(1700, 2020, n)
    mags = ref.canon(k, '0.1')
    mc = np.where(year >= 1970, 40, np.where(year >= 1900, 50, 60))
    ok = k >= mc
    got = estimate_b_kijko_smit(mags[ok], np.array(
        ['%d-03-03' % q for q in year[ok]], dtype='datetime64[D]'), table,
        last_year=2020)
    se = rate / math.sqrt(ok.sum()) * 2
    m.saw('recovered_rate')
    m.check(abs(got[2] - rate) < 6 * se + .02 * rate, 'rate_bias', 'estimated '
            'rate does not recover the rate of the simulated process',
            rate=rate, got=got, n=int(ok.sum()))
    m.check(abs(got[0] - b) < 6 * b / math.sqrt(ok.sum()) + .03 * b, 'b_bias',
            'estimated b does not recover the simulated one', b=b, got=got)
    m.case('recover', mags.tobytes())


WORKLOADS = [('estimate', w_est, 500, 12000), ('recover', w_recover, 10, 100)]
