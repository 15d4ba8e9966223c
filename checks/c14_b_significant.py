"""C14 significance of b-value variations (b_significant_1D): partitioning,
autocorrelation, null moments and p-value against a reference that estimates
every partition with a fresh estimator."""
import math

import numpy as np
import pandas as pd
from scipy.stats import norm

from seismostats.analysis import (APositiveAValueEstimator,
                                  BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator,
                                  ClassicAValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator,
                                  b_significant_1D)
from seismostats.analysis.avalue.base import AValueEstimator
from vlib import ref, samples
from vlib.util import chance, choice, close, same, size, snapshot

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('a case is one significance test on a generated series, compared '
        'with the mean autocorrelation over all n_m offsets recomputed from '
        'the partitions; non-trivial when the p-value is finite')
ASSUMPTIONS = ['distinct event times and x values', 'no partition whose '
               'b-value is infinite (all magnitudes equal)',
               'the estimators themselves are decided by C04-C06']
MUST = {'finite': 60, 'too_few': 10, 'x_variable': 60, 'mc_array': 60,
        'mc_array_x': 25, 'positive_methods': 8, 'a_methods': 8,
        'below_mc': 60, 'min_num_nan': 5, 'non_conservative': 15,
        'relabel_invariance': 30}


def morans(v):
    v = np.asarray(v, float)
    ok = ~np.isnan(v)
    mu = v[ok].mean()
    d = np.where(ok, v - mu, 0)
    prod, npairs = 0.0, 0
    for a in range(len(v) - 1):
        if ok[a] and ok[a + 1]:
            prod += d[a] * d[a + 1]
            npairs += 1
    n = int(ok.sum())
    with np.errstate(all='ignore'):
        return (n - 1) / npairs * prod / (d @ d) if npairs else math.nan, \
            n, npairs


def reference(x, mc, d, tsec, targ, n_m, min_num, cls, conservative, kw):
    """x, mc, times already in the dimension of interest and filtered"""
    if len(x) / n_m < 3:
        return None
    acs, ns, nps = [], [], []
    for off in range(n_m):
        vals, cnts = [], []
        for s in range(off, len(x) - n_m + 1, n_m):
            sl = np.arange(s, s + n_m)
            o = sl[np.argsort(tsec[sl])]
            e = cls()
            args = dict(kw)
            if issubclass(cls, AValueEstimator) and \
                    cls is not ClassicAValueEstimator:
                args['times'] = targ[o]
            e.calculate(x[o], float(np.max(mc[sl])), d, **args)
            vals.append(e.value)
            cnts.append(e.n)
        vals = np.array(vals, float)
        cnts = np.array(cnts)
        if np.any(np.isinf(vals)):
            return 'inf'
        vals[cnts < min_num] = np.nan
        if (cnts >= min_num).sum() < 3:
            acs.append(np.nan), ns.append(np.nan), nps.append(np.nan)
        else:
            a, n, q = morans(vals)
            acs.append(a), ns.append(n), nps.append(q)
    if np.all(np.isnan(nps)):
        return (math.nan,) * 4
    mnp = np.nanmean(nps)
    if not mnp > 2:
        return (math.nan,) * 4
    mac = np.nanmean(acs)
    mu = -1 / np.nanmean(ns)
    std = (mnp - 2) / (mnp * math.sqrt(mnp))
    if not conservative:
        std *= .81
    return 1 - norm.cdf((mac - mu) / std), mac, mu, std


def w_main(m, rng, i):
    n = size(rng, choice(rng, [30, 80, 200]), 600)
    cont = chance(rng, .15)
    if cont:
        ds, d = None, 0.0
        x = rng.uniform(-1, 3) + rng.exponential(1 / 2.3, n)
        x = np.round(x * 4096) / 4096
    else:
        ds = choice(rng, ['0.1', '0.1', '0.01', '0.2'])
        d = float(ds)
        k = int(rng.integers(-10, 30)) + np.floor(
            rng.exponential(1 / (rng.uniform(.7, 1.5) * ref.LN10 * d),
                            n)).astype(int)
        x = ref.canon(k, ds)
    if chance(rng, .15):
        x = x.copy()
        x[rng.integers(0, n)] = np.nan
    lo = np.nanmin(x)
    q = np.sort(x[~np.isnan(x)])[n // 3] if chance(rng, .5) else lo
    mcf = float(q)
    tkind, targ, order, tsec = samples.times(rng, n)
    tarr = np.array(targ)
    cls = choice(rng, [ClassicBValueEstimator] * 3 + [
        UtsuBValueEstimator, BPositiveBValueEstimator,
        ClassicAValueEstimator, APositiveAValueEstimator])
    if n == 30 and chance(rng, .1):     # slow: bootstraps every partition
        cls = BMorePositiveBValueEstimator
    kw = {}
    min_num = int(choice(rng, [2, 2, 2, 4]))
    n_m = int(choice(rng, [min_num, 5, 8, 15, max(min_num, n // 3),
                           n // 2]))
    n_m = max(n_m, min_num)
    if cls in (BPositiveBValueEstimator, APositiveAValueEstimator) and d and \
            chance(rng, .3):
        kw['dmc'] = float(ref.canon([2], ds)[0])
    args = {}
    if min_num != 2 or chance(rng, .3):
        args['min_num'] = min_num
    if cls is not ClassicBValueEstimator or chance(rng, .3):
        args['method'] = cls
    cons = chance(rng, .6)
    if not cons or chance(rng, .3):
        args['conservative'] = cons
    mc = np.full(n, mcf)
    mcarg = mcf
    if chance(rng, .4):
        if cont:
            mc = np.where(rng.random(n) < .5, mcf, mcf + .25)
        else:
            kc = int(round(mcf / d))
            mc = ref.canon(kc + rng.integers(0, 3, n), ds)
        mcarg = mc.copy() if chance(rng, .6) else list(mc)
        m.saw('mc_array')
    xs = np.arange(n)
    if chance(rng, .5):
        xs = rng.choice(10 * n, n, replace=False) / 7.0
        if chance(rng, .3):     # any scale and origin
            xs = xs * 10. ** int(rng.integers(-10, 6)) + choice(rng, [0, 0, -5])
            if len(set(xs.tolist())) < n:
                return m.saw('discarded')
        args['x_variable'] = choice(rng, [xs, list(xs)])
        m.saw('x_variable')
        if not isinstance(mcarg, float):
            m.saw('mc_array_x')
    o = np.argsort(xs)
    with np.errstate(invalid='ignore'):
        keep = o[x[o] >= mc[o] - d / 2 - (1e-9 if d else 0)]
    m.saw('below_mc', int(len(keep) < n))
    want = reference(x[keep], mc[keep], d, tsec[keep], tarr[keep], n_m,
                     min_num, cls, cons, kw)
    snap = snapshot((x, mcarg, targ, args))
    got = b_significant_1D(x, mcarg, d, targ, n_m, **args, **kw)
    m.check(same(snap, (x, mcarg, targ, args)), 'mutated', 'input modified')
    det = dict(cls=cls.__name__, x=x, mc=mcarg, delta=d, times=tkind, n_m=n_m,
               args=args, kw=kw, got=got, want=want)
    if want == 'inf':
        return m.saw('discarded')
    if want is None:
        m.saw('too_few')
        m.check(np.all(np.isnan(got)), 'too_few', 'fewer than three '
                'partitions must give NaN', **det)
        return m.case('few', x.tobytes(), n_m, nontrivial=False)
    if min_num > 2 and any(np.isnan(w) for w in want):
        m.saw('min_num_nan')
    for nm, g, w in zip(('p', 'mac', 'mu', 'std'), got, want):
        m.check(close(g, w, 1e-6, 1e-9), nm, '%s is not that of the '
                'autocorrelation of the partitioned series' % nm, **det)
    if np.isfinite(want[0]):
        m.saw('finite')
        m.saw('non_conservative', int(not cons))
        m.saw('positive_methods', int('Positive' in cls.__name__))
        m.saw('a_methods', int(issubclass(cls, AValueEstimator)))
    # storing the events in another order (with x_variable) changes nothing
    if 'x_variable' in args:
        p = rng.permutation(n)
        a2 = dict(args, x_variable=xs[p])
        g2 = b_significant_1D(
            x[p], mcarg if isinstance(mcarg, float) else mc[p], d, tarr[p],
            n_m, **a2, **kw)
        m.saw('relabel_invariance')
        m.check(close(g2, got, 1e-9, 1e-12), 'storage_order', 'result depends '
                'on the storage order although x_variable is given', g2=g2,
                **det)
    m.case(cls.__name__, x.tobytes(), n_m, min_num, cons,
           nontrivial=bool(np.isfinite(want[0])))
    m.sample(cls=cls.__name__, x=x[:8], n_m=n_m, result=got)


def w_errors(m, rng, i):
    x = ref.canon(rng.integers(0, 20, 40), '0.1')
    t = np.arange(40)

    def rejects(exc, mech, *a, **k):
        try:
            b_significant_1D(*a, **k)
        except exc:
            m.saw('rejected')
        else:
            m.fail(mech, 'invalid call accepted', args=a[3:], kw=k)
    rejects(IndexError, 'len_times', x, .0, .1, t[:-1], 5)
    rejects(ValueError, 'n_m_min_num', x, .0, .1, t, 5, min_num=6)
    rejects(ValueError, 'len_x', x, .0, .1, t, 5, x_variable=t[:-1])
    m.case('err', x.tobytes())


WORKLOADS = [('main', w_main, 500, 7000), ('errors', w_errors, 10, 50)]
