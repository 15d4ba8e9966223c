"""C33 conversion of local to moment magnitudes (Edwards et al., 2010)."""
from fractions import Fraction

import numpy as np
import pandas as pd

from seismostats import Catalog
from seismostats.analysis.magnitudes import apply_edwards
from vlib.util import chance, choice, size

PROPERTY = 'C33'
LEVEL = 'exploration'
RULE = ('a case is one table of magnitudes converted row by row; every row is '
        'compared with the published polynomial in exact arithmetic; '
        'non-trivial when local and moment magnitudes occur')
ASSUMPTIONS = ['local magnitude types contain an l, moment magnitude types a '
               'w (and no l); other types are not judged']
MUST = {'conversions': 1500, 'converted': 800, 'kept': 500, 'negative': 80,
        'missing': 30, 'catalogs': 80, 'twice': 500, 'integers': 80}

LOCAL = ['ML', 'Ml', 'ml', 'MLv', 'MLhc', 'mL', 'MLSed', 'local', 'L',
         'l']
MOMENT = ['Mw', 'MW', 'mw', 'Mww', 'Mwc', 'Mw(mB)', 'Mw_converted', 'w',
          'W']


def exact(x):
    if x != x:
        return float('nan')
    x = Fraction(float(x))
    return float(Fraction('1.02') + Fraction('0.472') * x +
                 Fraction('0.0491') * x * x)


def equal(a, b):
    return abs(a - b) <= 1e-13 * (1 + abs(b)) or a != a and b != b


def value(m, rng):
    r = rng.random()
    if r < .03:
        m.saw('missing')
        return float('nan')
    if r < .12:
        m.saw('integers')
        return choice(rng, [int, np.int64, float])(rng.integers(-3, 10))
    v = float(rng.uniform(-4, 9))
    return choice(rng, [v, round(v, 1), np.float64(v), 0., -0.])


def judge(m, t, x, r, what):
    m.saw('conversions')
    m.require(isinstance(r, pd.Series) and len(r) == 2, 'form', '%s gives %r'
              % (what, r))
    local = t in LOCAL
    m.saw('negative', x < 0)
    m.saw('converted', local)
    m.saw('kept', not local)
    e = ('Mw_converted', exact(x)) if local else (t, float(x))
    m.check(r[0] == e[0], 'magnitude_type', '%s gives type %r, expected %r' % (
        what, r[0], e[0]))
    m.check(equal(float(r[1]), e[1]), 'value', '%s gives %r, expected %r' % (
        what, r[1], e[1]))


def w_convert(m, rng, i):
    n = size(rng, rng.integers(1, 15), 800)
    types = [choice(rng, LOCAL if chance(rng, .6) else MOMENT)
             for _ in range(n)]
    mags = [value(m, rng) for _ in range(n)]
    m.case(i, nontrivial=len({t in LOCAL for t in types}) > 1)
    m.sample(types=types, magnitudes=str(mags))
    for t, x in zip(types, mags):
        r = apply_edwards(t, x)
        judge(m, t, x, r, 'apply_edwards(%r, %r)' % (t, x))
        m.saw('twice')
        again = apply_edwards(*r)
        m.check(again[0] == r[0] and equal(float(again[1]), float(r[1])),
                'twice', 'converting %r %r twice gives %r' % (t, x, list(
                    again)))
    # the documented use on a catalogue
    m.saw('catalogs')
    cat = Catalog({'magnitude': np.array(mags, float), 'mag_type': types})
    if chance(rng, .5):
        cat[['mag_type', 'magnitude']] = cat.apply(
            lambda x: apply_edwards(x['mag_type'], x['magnitude']), axis=1)
    else:
        for index, row in cat.iterrows():
            c = apply_edwards(row['mag_type'], row['magnitude'])
            cat.at[index, 'mag_type'] = c[0]
            cat.at[index, 'magnitude'] = c[1]
    for j in range(n):
        judge(m, types[j], mags[j], pd.Series(
            [cat['mag_type'].iloc[j], cat['magnitude'].iloc[j]]),
            'row %d (%s %r) of a converted catalogue' % (j, types[j], mags[j]))


WORKLOADS = [('convert', w_convert, 200, 3000)]
