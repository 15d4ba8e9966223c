"""C02 binning test: accepts exactly the arrays that lie on the grid, and every
estimator rejects exactly what it rejects."""
from decimal import Decimal

import numpy as np
import pandas as pd

import seismostats.analysis as A
from seismostats.utils import binning_test
from seismostats.analysis import (
    AMorePositiveAValueEstimator, APositiveAValueEstimator,
    BMorePositiveBValueEstimator, BPositiveBValueEstimator,
    ClassicAValueEstimator, ClassicBValueEstimator, UtsuBValueEstimator)
from vlib.util import chance, choice, same, snapshot

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('a case is one array with a bin width, built on the grid (integer '
        'arithmetic) or with one value displaced; non-trivial when the array '
        'has at least two different values')
ASSUMPTIONS = ['|magnitude| <= 10, bin width between 0.0001 and 5',
               'displacements between 1e-12 and half a bin']
MUST = {'accepted_on_grid': 300, 'rejected_off_grid': 300,
        'larger_grid_true': 100, 'larger_grid_false': 100,
        'estimator_rejections': 100, 'estimator_acceptances': 100}

DELTAS = ['0.1', '0.01', '0.001', '0.05', '0.2', '0.25', '0.5', '1', '0.3',
          '0.02', '2', '0.0001', '0.0125', '0.00025', '0.7', '5']
TEN = {'0.1': '1', '0.01': '0.1', '0.001': '0.01', '0.05': '0.1', '0.2': '1',
       '0.25': '1', '0.5': '1', '1': '10', '0.3': '1', '0.02': '0.1',
       '2': '10', '0.0001': '0.001', '0.0125': '0.1', '0.00025': '0.001',
       '0.7': '1', '5': '10'}


def grid(rng, ds, span=None, step=1):
    D = Decimal(ds)
    off = choice(rng, [Decimal(0), D / 2, Decimal('0.037'), D / 5])
    lo = int(Decimal(-5) / D)
    hi = int(Decimal(9) / D)
    n = int(choice(rng, [2, 3, 10, 80, 400]))
    if chance(rng, .03):
        n = int(choice(rng, [1500, 3000, 12000]))
    if span is not None:
        lo = int(rng.integers(lo, max(lo + 1, hi - span)))
        hi = min(hi, lo + span)
    k = rng.integers(lo, hi + 1, n)
    k = (k // step) * step
    return k, off, np.array([float(int(i) * D + off) for i in k])


def form(rng, x):
    f = int(rng.integers(0, 3))
    return [x, list(x), pd.Series(x, index=rng.permutation(len(x)))][f]


def w_accept(m, rng, i):
    ds = choice(rng, DELTAS)
    k, off, x = grid(rng, ds, span=choice(rng, [None, 3, 30]))
    y = x.copy()
    if chance(rng, .2):
        y = np.insert(y, rng.integers(0, len(y)), np.nan)
    arg = form(rng, y)
    before = snapshot(arg)
    r = binning_test(arg, float(ds), check_larger_binning=False)
    m.saw('accepted_on_grid')
    m.check(bool(r), 'on_grid_rejected', 'an array on the grid was rejected',
            delta=ds, x=x)
    m.check(same(before, arg), 'mutated', 'binning_test modified its input')
    # the default also wants that no ten times coarser grid fits
    D, T = Decimal(ds), Decimal(TEN[ds])
    kk = k - k.min()
    larger = all((Decimal(int(j)) * D) % T == 0 for j in kk)
    r2 = binning_test(arg, float(ds))
    m.saw('larger_grid_%s' % str(larger).lower())
    m.check(bool(r2) == (not larger), 'larger_grid',
            'default test wrong about the next larger power of ten',
            delta=ds, x=x, larger=larger, got=r2)
    m.case('acc', ds, off, x.tobytes(), nontrivial=len(set(k)) > 1)
    m.sample(delta=ds, x=x[:6], accepted=bool(r), default=bool(r2))


def w_larger(m, rng, i):
    ds = choice(rng, ['0.1', '0.01', '0.001', '0.5', '0.2'])
    step = int(Decimal(TEN[ds]) / Decimal(ds))
    k, off, x = grid(rng, ds, step=step)
    if len(set(k)) < 2:
        x = np.append(x, x[0] + float(TEN[ds]))
        k = np.append(k, k[0] + step)
    m.saw('larger_grid_true')
    m.check(not binning_test(x, float(ds)), 'larger_grid',
            'array on a coarser power-of-ten grid accepted by default',
            delta=ds, x=x)
    m.check(binning_test(x, float(ds), check_larger_binning=False),
            'on_grid_rejected', 'array on the grid rejected', delta=ds, x=x)
    m.case('larger', ds, x.tobytes())


def displaced(rng, ds):
    k, off, x = grid(rng, ds)
    D = float(ds)
    j = int(rng.integers(0, len(x)))
    lo = choice(rng, [-9, -9, -12])
    hi = np.log10(D / 2 * 0.98) if lo > -12 or chance(rng, .3) else -10
    e = 10 ** rng.uniform(lo, hi) * choice(rng, [-1, 1])
    x = x.copy()
    x[j] += e
    return x, e


def w_reject(m, rng, i):
    ds = choice(rng, DELTAS)
    x, e = displaced(rng, ds)
    m.saw('rejected_off_grid')
    for larger in (False, True):
        m.check(not binning_test(form(rng, x), float(ds),
                                 check_larger_binning=larger),
                'off_grid_accepted', 'an array off the grid was accepted',
                delta=ds, x=x, displacement=e)
    # reversing / shuffling does not change the answer
    m.check(not binning_test(rng.permutation(x), float(ds),
                             check_larger_binning=False),
            'order_dependent', 'answer depends on the order', delta=ds, x=x)
    m.case('rej', ds, x.tobytes())
    m.sample(delta=ds, x=x[:6], displacement=e)


def _calls(x, mc, d, rng):
    n = len(x)
    t = np.arange(n) + 0.5
    yield 'ClassicB', lambda: ClassicBValueEstimator().calculate(x, mc, d)
    yield 'UtsuB', lambda: UtsuBValueEstimator().calculate(x, mc, d)
    yield 'BPositive', lambda: BPositiveBValueEstimator().calculate(
        x, mc, d, times=t)
    yield 'BMorePositive', lambda: BMorePositiveBValueEstimator().calculate(
        x, mc, d, times=t)
    yield 'ClassicA', lambda: ClassicAValueEstimator().calculate(x, mc, d)
    yield 'APositive', lambda: APositiveAValueEstimator().calculate(
        x, mc, d, times=t)
    yield 'AMorePositive', lambda: AMorePositiveAValueEstimator().calculate(
        x, mc, d, times=t, b_value=1.0)
    yield 'estimate_b', lambda: A.estimate_b(x, mc, d)
    yield 'estimate_a', lambda: A.estimate_a(x, mc, d)
    yield 'mc_b_stability', lambda: A.estimate_mc_b_stability(
        x, d, mcs_test=[mc])
    yield 'mc_ks', lambda: A.estimate_mc_ks(x, d, mcs_test=[mc], n=5)


def w_estimators(m, rng, i):
    ds = choice(rng, ['0.1', '0.01', '0.2', '0.05', '0.5'])
    bad = chance(rng, .5)
    D = float(ds)
    if bad:
        x, e = displaced(rng, ds)
    else:
        _, _, x = grid(rng, ds)
        # enough variation for every estimator to be defined
        x = np.concatenate([x, x[0] + D * np.array([0, 3, 1, 6, 2, 9])])
        x = np.array([float(round(Decimal(v), 6)) for v in x])
        if np.max(x) > 10 or not binning_test(x, D,
                                              check_larger_binning=False):
            x = x[:-6]
    mc = float(np.sort(x)[0]) if chance(rng, .5) else \
        float(np.sort(x)[len(x) // 3])
    for name, call in _calls(x, mc, D, rng):
        try:
            call()
            err = None
        except ValueError as ex:
            err = ex
        if bad:
            m.saw('estimator_rejections')
            m.check(isinstance(err, ValueError), 'estimator_accepts:' + name,
                    name + ' accepted magnitudes that are not binned',
                    delta=ds, x=x, displacement=e)
        else:
            m.saw('estimator_acceptances')
            m.check(err is None or 'binned' not in str(err).lower(),
                    'estimator_rejects:' + name,
                    name + ' rejected correctly binned magnitudes',
                    delta=ds, x=x, error=err)
    m.case('est', ds, bad, x.tobytes())
    m.sample(delta=ds, displaced=bad, x=x[:6], mc=mc)


def w_misc(m, rng, i):
    try:
        binning_test([], 0.1)
    except ValueError:
        m.saw('empty_rejected')
    else:
        m.fail('empty', 'empty array accepted')
    # continuous values are not binned, but pass with width 0
    x = rng.exponential(0.5, int(rng.integers(20, 200)))
    m.check(binning_test(x, 0), 'continuous', 'continuous array said to be '
            'binned', x=x)
    m.check(not binning_test(x, 0.1, check_larger_binning=False),
            'off_grid_accepted', 'continuous array accepted as binned', x=x)
    m.check(binning_test(x, 0, check_larger_binning=False), 'zero_width',
            'width zero must accept any array', x=x)
    # width 0 asks whether ANY power-of-ten grid fits
    ds = choice(rng, ['0.1', '0.01', '0.001', '0.5', '0.2', '1'])
    k, off, y = grid(rng, ds, span=choice(rng, [30, None]))
    if len(set(k)) > 1 and off == 0:
        m.saw('zero_width_on_grid')
        m.check(not binning_test(y, 0), 'zero_width_binned',
                'width 0 accepted an array that lies on a power-of-ten grid',
                delta=ds, x=y)
    # ... also if the values span exactly one or a few of its steps
    p = int(choice(rng, [-10, -9, -8, -7, -6, -5, -4, -3, -2, -1,
                         0]))
    k = rng.integers(0, 2, int(rng.integers(2, 9))) * int(choice(
        rng, [1, 1, 2, 5, 10]))
    k[:2] = 0, choice(rng, [1, 10])
    step = Decimal(10) ** p
    off = int(rng.integers(-9, 10)) * step if chance(rng, .5) else 0
    if max(k) * step <= 10:
        y = np.array([float(int(j) * step + off) for j in rng.permutation(k)])
        m.saw('zero_width_power')
        m.check(not binning_test(y, 0), 'zero_width_binned',
                'width 0 accepted an array that lies on a power-of-ten grid',
                delta=str(step), x=y)
    m.case('misc', x.tobytes())


WORKLOADS = [('accept', w_accept, 900, 30000), ('larger', w_larger, 200, 5000),
             ('reject', w_reject, 700, 20000),
             ('estimators', w_estimators, 150, 3000),
             ('misc', w_misc, 120, 2000)]
