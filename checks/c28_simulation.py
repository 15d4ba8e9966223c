"""C28 simulated magnitudes follow the requested distribution, and dithering
moves every magnitude within its bin only."""
import numpy as np
from scipy import stats

from seismostats.analysis import (BPositiveBValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator)
from seismostats.utils.simulate_distributions import (
    dither_magnitudes, simulate_magnitudes, simulate_magnitudes_binned)
from vlib.ref import LN10
from vlib.util import chance, choice

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('a case is one simulated or dithered sample; support, bin membership '
        'and counts are checked for every magnitude, the distribution by a '
        'Kolmogorov-Smirnov (binned: chi-squared) test against the exact cdf; '
        'non-trivial when the sample has more than one magnitude')
ASSUMPTIONS = ['beta > 0; the order of dithered magnitudes is free',
               'distributions are rejected at p < 1e-9, so that deviations '
               'of the cdf of less than about 0.008 pass unnoticed']
MUST = {'samples': 300, 'magnitudes': 400000, 'truncated': 50,
        'per_element': 50, 'binned': 100, 'binned_truncated': 30,
        'dithered': 150, 'dithered_magnitudes': 20000, 'offset_bins': 50, 'single_bins': 20,
        'negative': 100, 'estimates': 30, 'reproducible': 100,
        'extreme': 10, 'empty': 8, 'distribution_tests': 250,
        'zero_bounds': 3, 'wide_range': 3}
ALPHA = 1e-9


def cdf(x, beta, lo, hi=None):
    """exact cdf of the (truncated) exponential distribution"""
    f = -np.expm1(-beta * (x - lo))
    if hi is not None:
        f = f / -np.expm1(-beta * (hi - lo))
    return f


def ks(m, u, mech, what):
    """u is to be uniform on [0, 1]"""
    m.saw('distribution_tests')
    u = np.asarray(u, float)
    m.require(bool(np.all((u >= -1e-9) & (u <= 1 + 1e-9))), mech,
              '%s: probabilities from %r to %r' % (what, u.min(), u.max()))
    p = stats.kstest(u, 'uniform').pvalue
    m.check(p > ALPHA, mech, '%s: does not follow the distribution (p=%.1e, '
            'mean probability %.4f)' % (what, p, u.mean()))
    # consecutive magnitudes are independent
    if len(u) > 500:
        r = np.corrcoef(u[:-1], u[1:])[0, 1] * np.sqrt(len(u))
        m.check(abs(r) < 7, 'independence', '%s: consecutive magnitudes are '
                'correlated (%.1f sigma)' % (what, r))


def parameters(m, rng):
    beta = choice(rng, [LN10, 1., .5 * LN10, 1.7 * LN10,
                        float(rng.uniform(.3, 8))])
    mc = choice(rng, [0, 0., -1.5, 1, 2.35, float(rng.uniform(-3, 6))])
    if chance(rng, .12):
        m.saw('extreme')
        mc = choice(rng, [300., -400., 50.])
        beta = choice(rng, [.01, 40., LN10])
    hi = None
    if chance(rng, .5):
        hi = mc + choice(rng, [.1, 1, 3, 10, .001 if abs(mc) < 10 else .5,
                               float(rng.uniform(.05, 8))])
        if chance(rng, .1):    # wide range, slow decay
            beta = choice(rng, [.05, .1, .02])
            hi = mc + float(rng.uniform(15, 45))
            m.saw('wide_range')
        if chance(rng, .15):
            mc, hi = -float(rng.uniform(.5, 3)), choice(rng, [0, 0.])
            m.saw('zero_bounds')
    return beta, mc, hi


def seed(rng):
    s = int(rng.integers(0, 2 ** 31))
    np.random.seed(s)
    return s


def w_continuous(m, rng, i):
    beta, mc, hi = parameters(m, rng)
    n = choice(rng, [0, 1, 2, 50, 1000, 3000, 20000, 200000])
    s = seed(rng)
    args = (n, beta, mc) + (() if hi is None and chance(rng, .5) else (hi,))
    x = simulate_magnitudes(*args)
    what = 'simulate_magnitudes(%s)' % ', '.join('%r' % a for a in args)
    m.saw('samples')
    m.saw('magnitudes', n)
    m.saw('truncated', hi is not None)
    m.saw('empty', n == 0)
    m.saw('negative', mc < 0)
    m.case(i, nontrivial=n > 1)
    m.sample(call=what, first=str(x[:3]))
    m.require(isinstance(x, np.ndarray) and x.shape == (n,), 'length',
              '%s has shape %s' % (what, np.shape(x)))
    eps = 1e-12 * (1 + abs(mc))
    m.check(bool(np.all(np.isfinite(x)) and np.all(x >= mc - eps) and (
        hi is None or np.all(x <= hi + eps))), 'support', '%s ranges from %r '
        'to %r' % (what, x.min() if n else None, x.max() if n else None))
    if n >= 50:
        u = cdf(x, beta, mc, hi)
        # far above the origin magnitudes are rounded
        if beta * abs(mc) * 1e-15 < 1e-6:
            ks(m, u, 'distribution', what)
        m.check(len(set(x)) > .9 * n, 'independence', '%s repeats magnitudes'
                % what)
    # the seed of numpy decides, and only it
    np.random.seed(s)
    y = simulate_magnitudes(*args)
    m.saw('reproducible')
    m.check(np.array_equal(x, y), 'reproducible', '%s differs for the same '
            'seed' % what)
    if n >= 50:
        z = simulate_magnitudes(*args)
        m.check(not np.array_equal(z, y), 'reproducible', '%s repeats itself '
                'without a new seed' % what)


def w_element(m, rng, i):
    """one b-value per magnitude"""
    n = choice(rng, [2, 300, 5000, 40000])
    b = rng.uniform(.4, 2.5, n)
    if chance(rng, .3):
        b = np.sort(b)
    par = choice(rng, ['b_value', 'beta'])
    mc = choice(rng, [0, -1, 2.5])
    hi = choice(rng, [None, mc + 3, mc + .5])
    before = b.copy()
    seed(rng)
    x = simulate_magnitudes_binned(n, b, mc, 0, hi, b_parameter=par)
    what = '%d magnitudes of individual %s above %s up to %s' % (n, par, mc,
                                                                 hi)
    m.saw('samples')
    m.saw('per_element')
    m.saw('magnitudes', n)
    m.case(i)
    m.check(np.array_equal(b, before), 'argument', 'the b-values are changed')
    m.require(x.shape == (n,), 'length', '%s: shape %s' % (what, x.shape))
    beta = b * LN10 if par == 'b_value' else b
    u = cdf(x, beta, mc, hi)
    m.require(bool(np.all(u >= -1e-9) and np.all(u <= 1 + 1e-9)), 'support',
              '%s range from %r to %r' % (what, x.min(), x.max()))
    if n >= 300:
        ks(m, u, 'distribution', what)
        half = n // 2
        o = np.argsort(b, kind='stable')
        ks(m, u[o[:half]], 'distribution', what + ', smaller half of b')
        ks(m, u[o[half:]], 'distribution', what + ', larger half of b')


def w_binned(m, rng, i):
    delta = choice(rng, [.1, .01, .2, .5, 1, .05])
    k = int(rng.integers(-20, 40))
    mc = round(k * delta, 10)
    if chance(rng, .2):
        mc = choice(rng, [0, 0., int(rng.integers(-2, 5))])
    b = choice(rng, [1, .7, 1.3, float(rng.uniform(.4, 2.5))])
    par = choice(rng, ['b_value', 'beta', None])
    hi = None
    if chance(rng, .4):
        hi = round(mc + choice(rng, [5, 40, 13]) * delta, 10) + choice(
            rng, [0, delta / 2])
    n = choice(rng, [0, 1, 500, 5000, 30000, 300000])
    kw = {} if par is None else {'b_parameter': par}
    s = seed(rng)
    x = simulate_magnitudes_binned(n, b, mc, delta, hi, **kw)
    what = 'simulate_magnitudes_binned(%d, %r, %r, %r, %r, %s)' % (
        n, b, mc, delta, hi, par)
    m.saw('samples')
    m.saw('binned')
    m.saw('magnitudes', n)
    m.saw('binned_truncated', hi is not None)
    m.saw('negative', mc < 0)
    m.saw('empty', n == 0)
    m.case(i, nontrivial=n > 1)
    m.require(x.shape == (n,), 'length', '%s: shape %s' % (what, x.shape))
    np.random.seed(s)
    m.saw('reproducible')
    m.check(np.array_equal(x, simulate_magnitudes_binned(
        n, b, mc, delta, hi, **kw)), 'reproducible', '%s differs for the same '
        'seed' % what)
    if n == 0:
        return
    q = x / delta
    m.check(bool(np.all(np.abs(q - np.round(q)) < 1e-6)), 'binned',
            '%s: %s is not on the grid' % (what, x[np.argmax(
                np.abs(q - np.round(q)))]))
    beta = b if par == 'beta' else b * LN10
    lo = mc - delta / 2
    j = np.round(q).astype(int)
    m.check(j.min() >= round(mc / delta) and (
        hi is None or x.max() <= hi + delta / 2 + 1e-9), 'support',
        '%s ranges from %r to %r' % (what, x.min(), x.max()))
    if n < 500:
        return
    # chi-squared test over bins with enough expected counts
    m.saw('distribution_tests')
    js = np.arange(round(mc / delta), j.max() + 2)
    left = np.clip((js - .5) * delta, lo, hi)
    right = np.clip((js + .5) * delta, lo, hi)
    e = n * (cdf(right, beta, lo, hi) - cdf(left, beta, lo, hi))
    o = np.array([np.sum(j == v) for v in js], float)
    good = e >= 8
    rest_e, rest_o = n - e[good].sum(), n - o[good].sum()
    ee, oo = e[good], o[good]
    if rest_e >= 8:
        ee, oo = np.append(ee, rest_e), np.append(oo, rest_o)
    elif rest_o > 60:
        m.fail('distribution', '%s: %d magnitudes in improbable bins' % (
            what, rest_o))
    if len(ee) > 1:
        chi = float(np.sum((oo - ee) ** 2 / ee))
        p = stats.chi2.sf(chi, len(ee) - 1)
        m.check(p > ALPHA, 'distribution', '%s: bins %s have counts %s, '
                'expected %s (p=%.1e)' % (what, js[good][:5] * delta, oo[:5],
                                          ee[:5].round(1), p))


def w_rejected(m, rng, i):
    m.case(i)
    try:
        r = simulate_magnitudes_binned(3, 1, 0, .1, b_parameter=choice(
            rng, ['b', 'Beta', '', None, 'bvalue']))
    except ValueError:
        return
    m.fail('b_parameter', 'an unknown b_parameter gives %s' % r)


def w_dither(m, rng, i):
    delta = choice(rng, [.1, .01, .2, .5, 1, .05, .25])
    off = choice(rng, [0, 0, 0, .5, .3, .1, rng.uniform(-.49, .49)])
    n = int(choice(rng, [1, 2, 30, 300, 3000, 30000]))
    k = np.minimum(rng.exponential(.6 / delta, n), 9 / delta).astype(int)
    if chance(rng, .3):     # gaps
        k = k * int(rng.integers(2, 9))
    if chance(rng, .2):     # every magnitude alone in its bin
        n = int(choice(rng, [300, 800]))
        k = np.arange(n) * int(rng.integers(1, 5))
        m.saw('single_bins')
    k += int(rng.integers(-30, 40))
    x = np.round((k + off) * float(delta), 10)
    x = x[rng.permutation(n)]
    b = choice(rng, [1., .5, 1.6, 3.])
    given = choice(rng, [x, list(x), x])
    before = list(x)
    s = seed(rng)
    y = dither_magnitudes(given, delta, b)
    what = 'dithering %d magnitudes from %s to %s in bins of %s' % (
        n, x.min(), x.max(), delta)
    m.saw('dithered')
    m.saw('dithered_magnitudes', n)
    m.saw('offset_bins', off != 0)
    m.saw('negative', x.min() < 0)
    m.case(i, nontrivial=n > 1)
    m.check(list(given) == before, 'argument', '%s changes them' % what)
    m.require(isinstance(y, np.ndarray) and y.shape == (n,), 'length',
              '%s gives shape %s' % (what, np.shape(y)))
    sx, sy = np.sort(x), np.sort(y)
    bad = np.nonzero(np.abs(sx - sy) > delta / 2 * (1 + 1e-6))[0]
    m.require(len(bad) == 0, 'bin', '%s: magnitudes leave their bins, e.g. %s'
              % (what, [(sx[j], sy[j]) for j in bad[:3]]))
    m.saw('reproducible')
    np.random.seed(s)
    m.check(np.array_equal(y, dither_magnitudes(given, delta, b)),
            'reproducible', '%s differs for the same seed' % what)
    if n >= 300:
        u = cdf(sy - sx + delta / 2, b * LN10, 0, delta)
        u = u[rng.permutation(n)]
        ks(m, u, 'dither_distribution', what)
    # magnitudes off the grid are rejected
    if n > 2:
        z = x.copy()
        z[0] += delta * choice(rng, [.2, .37, -.4])
        try:
            dither_magnitudes(z, delta, b)
        except ValueError:
            m.saw('rejected')
        else:
            m.fail('not_binned', '%s: a magnitude off the grid (%r) is '
                   'accepted' % (what, z[0]))


def w_recovery(m, rng, i):
    """the estimators find the b-value of simulated catalogues"""
    b = float(rng.uniform(.6, 1.8))
    delta = choice(rng, [.1, .01, 0, .2])
    mc = round(choice(rng, [-1, 0, 1.2, 3]), 2)
    n = 20000
    seed(rng)
    x = simulate_magnitudes_binned(n, b, mc, delta)
    what = 'n=%d, b=%.3f, mc=%s, delta_m=%s' % (n, b, mc, delta)
    m.case(i)
    for cls in (ClassicBValueEstimator, BPositiveBValueEstimator,
                UtsuBValueEstimator):
        e = cls()
        if cls is BPositiveBValueEstimator:
            e.calculate(x, mc, delta, dmc=delta or None) if delta else \
                e.calculate(x, mc, delta)
        else:
            e.calculate(x, mc, delta)
        m.saw('estimates')
        # Utsu's formula neglects terms of second order in delta_m
        bias = (b * LN10 * delta) ** 2 / 12 * b \
            if cls is UtsuBValueEstimator else 0
        m.check(abs(e.b_value - b) < 7 * b / np.sqrt(e.n) + bias, 'recovery',
                '%s: %s estimates %.4f +- %.4f from %d values' % (
                    what, cls.__name__, e.b_value, e.std, e.n))
        m.check(.5 < e.std / (b / np.sqrt(e.n)) < 2, 'std', '%s: %s has std '
                '%r' % (what, cls.__name__, e.std))


WORKLOADS = [('continuous', w_continuous, 300, 20000),
             ('individual', w_element, 80, 6000),
             ('binned', w_binned, 200, 16000),
             ('rejected', w_rejected, 5, 20),
             ('dither', w_dither, 240, 16000),
             ('recovery', w_recovery, 24, 1000)]
