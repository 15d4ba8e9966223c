"""C01 binning law: reference in exact rational arithmetic."""
from fractions import Fraction
from decimal import Decimal

import numpy as np
import pandas as pd

from seismostats import Catalog, ForecastCatalog
from seismostats.utils import bin_to_precision
from vlib.util import chance, choice, same, snapshot

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('a case is one call of bin_to_precision or Catalog.bin_magnitudes on a '
        'generated array/catalog; non-trivial when it has at least one value '
        'that is not already a multiple of the bin width')
ASSUMPTIONS = ['bin widths are decimal numbers between 5e-6 and 100; '
               '|value/width| <= 1e5; exact-half ties are only judged for '
               '|value/width| <= 1000 (double precision of the quotient)']
MUST = {'values_compared': 2000, 'ties_compared': 200, 'catalog_calls': 50,
        'idempotence_pairs': 1000}

DELTAS = [0.1, 0.01, 0.001, 0.05, 0.2, 0.25, 0.5, 1, 1.0, 2, 0.3, 0.02, 0.7,
          0.125, 10, 5.0, 0.15, 0.0125, 1e-4, 1e-5, 2.5e-05, 5e-6,
          1e-7, 2e-8, 0.12, 0.201,
          0.36, 2.5, 100, 20.0]


def gen(rng, d):
    n = int(choice(rng, [1, 2, 3, 17, 60, 300]))
    if chance(rng, .02):
        n = 3000
    kind = int(rng.integers(0, 6))
    D = Decimal(str(d))
    if kind == 0:       # continuous magnitudes
        x = rng.normal(1.5, 2.0, n)
    elif kind == 1:     # already multiples, small float noise
        k = rng.integers(-200, 900, n)
        x = np.array([float(int(i) * D) for i in k])
        if chance(rng, .5):
            x = x + rng.normal(0, 1e-15, n)
    elif kind == 2:     # exact halves
        k = rng.integers(-300, 900, n)
        x = np.array([float((int(i) + Decimal('0.5')) * D) for i in k])
    elif kind == 3:     # just off the halves
        k = rng.integers(-300, 900, n)
        x = np.array([float((int(i) + Decimal('0.5')) * D) for i in k])
        x = x + rng.choice([-1, 1], n) * d * 10.0 ** rng.integers(-8, -2, n)
    elif kind == 4:     # wide range (quotients up to 1e5)
        x = rng.uniform(-1e5, 1e5, n) * d
    else:               # integers
        x = rng.integers(-5, 10, n)
    return x, kind


def oracle(m, x, d, r, what):
    x = np.asarray(x, dtype=float)
    r = np.asarray(r)
    if not m.check(r.shape == x.shape, 'shape', what + ' changed the shape',
                   x=x, r=r):
        return
    F = Fraction(Decimal(str(d)))
    x, r = x.ravel(), r.ravel()
    canon = {}
    order = np.argsort(x, kind='stable')
    m.check(bool(np.all(np.diff(r[order][~np.isnan(x[order])]) >= 0)),
            'monotone', what + ' is not monotone', x=x, r=r, d=d)
    for xi, ri in zip(x.ravel(), r.ravel()):
        if np.isnan(xi):
            m.check(bool(np.isnan(ri)), 'nan', 'NaN did not stay NaN')
            continue
        m.saw('values_compared')
        q = Fraction(float(xi)) / F
        k = round(Fraction(float(ri)) / F)
        ref = float(F * k)
        # result is the canonical double of a multiple
        m.check(abs(float(ri) - ref) <= 4e-15 * max(1, abs(ref)), 'multiple',
                what + ' returned a value that is not a multiple of the bin',
                x=xi, r=ri, d=d)
        canon.setdefault(k, set()).add(float(ri))
        off = q - k         # in bins; must lie in [-1/2, 1/2) up to rounding
        tol = Fraction(1, 10**10) + abs(q) / 10**13
        m.check(-Fraction(1, 2) - tol <= off <= Fraction(1, 2) + tol,
                'nearest', what + ' did not return the nearest multiple',
                x=xi, r=ri, d=d, off=float(off))
        if abs(q) <= 1000 and abs(abs(off) - Fraction(1, 2)) < Fraction(
                1, 10**12) * 2 and Decimal(repr(float(xi))) == \
                (Decimal(int(np.floor(float(q)))) + Decimal('0.5')) * Decimal(
                    str(d)):
            # written as an exact decimal half: goes to the upper multiple
            m.saw('ties_compared')
            m.check(off < 0, 'half_up', what + ' did not round a half upward',
                    x=xi, r=ri, d=d)
    m.check(all(len(s) == 1 for s in canon.values()), 'canonical',
            what + ' returned different doubles for the same bin', d=d,
            bins={k: s for k, s in canon.items() if len(s) > 1})


def w_array(m, rng, i):
    d = choice(rng, DELTAS)
    if chance(rng, .2):
        d = np.float64(d)
    x, kind = gen(rng, d)
    if x.dtype.kind == 'f' and chance(rng, .15):
        x = x.copy()
        x[rng.integers(0, len(x))] = np.nan
    form = int(rng.integers(0, 4))
    arg = [x, list(x), pd.Series(x, index=rng.permutation(len(x)) + 5),
           x.reshape(1, -1)][form]
    before = snapshot(arg)
    r = bin_to_precision(arg, d)
    m.check(same(before, arg), 'mutated', 'the input was modified', d=d)
    oracle(m, x.reshape(1, -1) if form == 3 else x, d, np.asarray(r),
           'bin_to_precision')
    r2 = bin_to_precision(np.asarray(r), d)
    m.saw('idempotence_pairs', len(x))
    m.check(np.array_equal(np.asarray(r), r2, equal_nan=True), 'idempotent',
            'binning a binned array changed it', d=d, r=r, r2=r2)
    if form == 2:
        m.check(list(r.index) == list(arg.index), 'index',
                'Series index not preserved')
    if form < 3 and chance(rng, .03):   # values do not depend on each other
        idx = rng.integers(0, len(x), int(choice(rng, [5000, 2e4, 7e4])))
        rb = bin_to_precision(x[idx], d)
        m.saw('long_arrays')
        m.check(np.array_equal(rb, np.asarray(r)[idx], equal_nan=True),
                'long_array', 'values of a long array are binned differently',
                d=d, n=len(idx))
    # a scalar gives the same as the array element
    j = int(rng.integers(0, len(x)))
    s = bin_to_precision(float(x[j]), d)
    m.check(np.array_equal(float(s), float(np.asarray(r).ravel()[j]),
                           equal_nan=True), 'scalar',
            'scalar and array results differ', x=x[j], s=s)
    m.case('array', d, kind, form, float(np.nansum(x)),
           nontrivial=not np.array_equal(np.asarray(r).ravel(), x,
                                         equal_nan=True))
    m.sample(delta=d, x=x[:6], result=np.asarray(r).ravel()[:6])


def w_errors(m, rng, i):
    x, _ = gen(rng, 0.1)
    for bad in (0, 0.0, -0.1, 1e-13):
        try:
            bin_to_precision(x, bad)
        except ValueError:
            m.saw('rejected_width')
        else:
            m.fail('width_accepted', 'a non-positive bin width was accepted',
                   width=bad)
    m.case('err', i, float(np.sum(x)))


def w_catalog(m, rng, i):
    d = choice(rng, DELTAS)
    x, kind = gen(rng, d)
    n = len(x)
    data = {'magnitude': x.astype(float), 'latitude': rng.uniform(-90, 90, n),
            'longitude': rng.uniform(-180, 180, n),
            'depth': rng.uniform(0, 30, n),
            'time': pd.Timestamp('2000-01-01') +
            pd.to_timedelta(rng.integers(0, 10**9, n), unit='s'),
            'note': ['e%d' % j for j in range(n)]}
    idx = rng.permutation(n) + int(rng.integers(0, 4))
    cls = Catalog
    if chance(rng, .3):
        data['catalog_id'] = rng.integers(0, 3, n)
        cls = ForecastCatalog
    cat = cls(pd.DataFrame(data, index=idx), name='cat', mc=1.5, b_value=1.1,
              delta_m=choice(rng, [None, 0.3]))
    use_attr = chance(rng, .4)
    if use_attr:
        cat.delta_m = d
    inplace = chance(rng, .5)
    before = snapshot(cat)
    args = dict(inplace=inplace) if use_attr else dict(delta_m=d,
                                                       inplace=inplace)
    out = cat.bin_magnitudes(**args)
    m.saw('catalog_calls')
    if inplace:
        m.check(out is None, 'inplace_return', 'in-place call returned a value')
        out = cat
    else:
        m.check(same(before, cat), 'original_modified',
                'the original catalog was modified by a copy operation',
                d=d)
    m.check(type(out) is cls, 'type', 'result type changed', got=type(out))
    oracle(m, x, d, out['magnitude'].to_numpy(), 'bin_magnitudes')
    m.check(np.array_equal(out['magnitude'].to_numpy(),
                           bin_to_precision(x.astype(float), d)),
            'catalog_vs_function', 'catalog method differs from the function')
    m.check(out.delta_m == d, 'delta_m', 'delta_m was not recorded',
            got=out.delta_m, d=d)
    rest = [c for c in before.columns if c != 'magnitude']
    m.check(list(out.columns) == list(before.columns) and
            same(pd.DataFrame(before)[rest], pd.DataFrame(out)[rest]),
            'other_columns', 'binning changed something else than magnitudes')
    m.check(out.name == 'cat' and out.mc == 1.5 and out.b_value == 1.1,
            'metadata', 'metadata lost', name=out.name, mc=out.mc)
    z = choice(rng, [0, 0., -.1])
    c2 = cls(pd.DataFrame(data, index=idx), delta_m=.3)
    try:
        c2.bin_magnitudes(z, inplace=chance(rng, .5))
    except ValueError:
        m.saw('rejected_zero')
        m.check(np.array_equal(c2['magnitude'], data['magnitude'])
                and c2.delta_m == .3, 'rejected_changed',
                'a rejected bin width changed the catalogue')
    else:
        m.fail('no_delta', 'binning with bin width %r was accepted' % z)
    if not use_attr and before.delta_m is None:
        c2 = cls(pd.DataFrame(data, index=idx))
        try:
            c2.bin_magnitudes()
        except ValueError:
            m.saw('rejected_missing_delta')
        else:
            m.fail('no_delta', 'binning without any bin width was accepted')
    m.case('cat', d, kind, inplace, use_attr, float(x.sum()))
    m.sample(delta=d, inplace=inplace, cls=cls.__name__, x=x[:5])


WORKLOADS = [('array', w_array, 1500, 40000), ('errors', w_errors, 20, 200),
             ('catalog', w_catalog, 200, 4000)]
