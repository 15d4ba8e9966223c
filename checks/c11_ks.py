"""C11 KS test of the Gutenberg-Richter law, the Mc estimate built on it, and
the Lilliefors test."""
import math

import numpy as np
import pandas as pd
from statsmodels.stats.diagnostic import lilliefors

from seismostats import Catalog
from seismostats.analysis import (BPositiveBValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator,
                                  estimate_mc_ks)
from seismostats.analysis.estimate_mc import cdf_discrete_exp, ks_test_gr
from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
from seismostats.utils._config import get_option, set_option
from vlib import ref, samples
from vlib.util import chance, choice, close, same, size, snapshot

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('a case is one KS test, one KS-based mc estimate or one Lilliefors '
        'p-value on a generated sample, compared with a reference in integer '
        'bins; non-trivial when the sample has at least two distinct values')
ASSUMPTIONS = ['magnitudes and mc are multiples of the bin width', 'random '
               'null distributions are judged by their mean with a 6-sigma '
               'tolerance']
MUST = {'ks_given': 250, 'ks_weights': 60, 'ks_simulated': 30,
        'degenerate': 10, 'mc_ks': 200, 'mc_ks_passed': 60, 'mc_ks_none': 20,
        'mc_ks_simulated': 20, 'passed_on': 30, 'lilliefors_dithered': 20,
        'lilliefors_continuous': 40, 'catalog_calls': 40, 'cdf': 30,
        'all_tested': 40, 'fixed_b': 40}
DELTAS = ['0.1', '0.1', '0.2', '0.05', '0.25', '0.5', '1', '0.01']


def ks_ref(k, c, d, b, w=None):
    """KS distance over the bins c .. max(k) of the empirical and the
    discretised exponential CDF."""
    beta = b * ref.LN10
    k = np.asarray(k)
    w = np.ones(len(k)) if w is None else np.asarray(w, float)
    w = w[k >= c]
    k = k[k >= c]
    tot = math.fsum(w)
    cnt = np.bincount(k - c, weights=w)
    emp = np.cumsum(cnt) / tot
    th = 1 - np.exp(-beta * d * (np.arange(len(cnt)) + 1))
    return float(np.max(np.abs(emp - th)))


def sample(rng, n, ds, far=False):
    d = float(ds)
    b = rng.uniform(.6, 1.7)
    # k in [-20, 60] magnitude tenths around usual magnitudes
    c = int(rng.integers(int(-2 / d), int(4 / d)))
    if chance(rng, .15):
        c = 0
    kind = rng.random()
    if kind < .7:
        k = c + np.floor(rng.exponential(1 / (b * ref.LN10 * d), n)).astype(
            int)
    else:
        k = c + rng.integers(0, max(2, int(1.5 / d)), n)
    k = np.minimum(k, c + int(5 / d))
    if far and chance(rng, .1):     # an event far above all others
        k[rng.integers(0, n)] = c + int(choice(rng, [9, 12, 20]) / d)
    return b, c, k


def w_ks(m, rng, i):
    ds = choice(rng, DELTAS)
    d = float(ds)
    n = size(rng, choice(rng, [2, 5, 20, 100, 400]), 3000, 12000)
    b, c, k = sample(rng, n, ds, far=True)
    btest = b * choice(rng, [1, 1, .8, 1.3])
    x = ref.canon(k, ds)
    mc = float(ref.canon([c], ds)[0])
    w = None
    if chance(rng, .35):
        w = rng.uniform(.1, 3, n)
        m.saw('ks_weights')
    warn = chance(rng, .5)
    set_option('warnings', warn)
    det = dict(x=x, mc=mc, delta=ds, b=btest, w=w)
    try:
        if len(set(k.tolist())) == 1:
            m.saw('degenerate')
            m.check(ks_test_gr(x, mc, d, btest, n=5) == (0, 1, []),
                    'degenerate', 'single-valued sample must give (0, 1, [])',
                    **det)
            m.check(ks_test_gr(x[:0], mc, d, btest, n=5) == (0, 1, []),
                    'degenerate', 'empty sample must give (0, 1, [])', **det)
            return m.case('deg', x.tobytes(), nontrivial=False)
        null = rng.uniform(0, 1.2 / math.sqrt(n) + .1, int(rng.integers(1,
                                                                    200)))
        want = ks_ref(k, c, d, btest, w)
        if np.any(np.abs(null - want) < 1e-9):
            return m.saw('discarded')
        snap = snapshot((x, w, null))
        arg = pd.Series(x, index=rng.permutation(n)) if w is None and \
            chance(rng, .2) else x
        kw = {} if w is None else dict(weights=w)
        nl = list(null) if chance(rng, .2) else null
        p, dobs, ds_ = ks_test_gr(arg, mc, d, btest, ks_ds=nl, **kw)
        m.check(same(snap, (x, w, null)), 'mutated', 'input modified')
    finally:
        set_option('warnings', True)
    m.saw('ks_given')
    det.update(p=p, ks_d=dobs, want=want)
    m.check(close(dobs, want, 1e-9, 1e-9), 'ks_distance', 'KS distance is not '
            'the largest difference between the empirical and the discretised '
            'exponential CDF', **det)
    m.check(close(p, np.mean(null >= want), 1e-12), 'ks_p', 'p-value is not '
            'the fraction of null distances at or above the observed', **det)
    m.check(np.array_equal(ds_, null), 'ks_null', 'given null distances are '
            'not returned')
    m.case('ks', ds, c, btest, x.tobytes(), w is None)
    m.sample(x=x[:8], mc=mc, delta=ds, b=btest, ks=dobs, p=p)


def sim_null(rng, n, reps, d, b, w=None):
    out = np.empty(reps)
    for r in range(reps):
        k = np.floor(rng.exponential(1 / (b * ref.LN10 * d), n)).astype(int)
        out[r] = ks_ref(k, 0, d, b, w)
    return out


def w_ks_sim(m, rng, i):
    """The simulated null distribution and the p-value drawn from it."""
    ds = choice(rng, ['0.1', '0.1', '0.2', '0.5', '0.05'])
    d = float(ds)
    n = int(choice(rng, [10, 40, 150]))
    if chance(rng, .08):
        n = int(rng.integers(6000, 15000))
        m.saw('large_null')
    b, c, k = sample(rng, n, ds)
    if len(set(k.tolist())) == 1:
        return m.saw('discarded')
    x = ref.canon(k, ds)
    mc = float(ref.canon([c], ds)[0])
    if (k.max() - c) * d > math.log10(n * 3e5) / b - d:
        return m.saw('discarded')       # beyond the simulated range
    w = rng.uniform(.1, 3, n) if chance(rng, .3) else None
    reps = 600 if m.thorough else 300
    kw = {} if w is None else dict(weights=w)
    p, dobs, null = ks_test_gr(x, mc, d, b, n=reps, **kw)
    m.saw('ks_simulated')
    det = dict(x=x, mc=mc, delta=ds, b=b, p=p, ks_d=dobs, w=w)
    m.check(len(null) == reps, 'null_size', 'number of null distances differs '
            'from n', got=len(null), **det)
    m.check(close(dobs, ks_ref(k, c, d, b, w), 1e-9, 1e-9), 'ks_distance',
            'KS distance wrong (simulated null)', **det)
    m.check(close(p, np.mean(np.asarray(null) >= dobs), 1e-12), 'ks_p',
            'p-value is not the fraction of null distances', **det)
    mine = sim_null(rng, n, reps, d, b, w)
    se = math.sqrt((np.var(null) + np.var(mine)) / reps) + 1e-12
    m.check(abs(np.mean(null) - np.mean(mine)) < 6 * se + 1e-6,
            'null_distribution', 'simulated null distances are not those of '
            'the Gutenberg-Richter law', mean=np.mean(null),
            reference_mean=np.mean(mine), se=se, **det)
    m.case('kssim', ds, c, x.tobytes())


def w_cdf(m, rng, i):
    ds = choice(rng, DELTAS)
    _, c, k = sample(rng, int(rng.integers(1, 50)), ds)
    d = float(ds)
    x = ref.canon(k, ds)
    mc = float(ref.canon([c], ds)[0])
    beta = rng.uniform(1, 4)
    gx, gy = cdf_discrete_exp(x, mc, d, beta)
    u = np.unique(k)
    m.saw('cdf')
    m.check(close(gx, ref.canon(u, ds), 0, 0), 'cdf_x', 'x are not the sorted '
            'distinct magnitudes', x=x, got=gx)
    m.check(close(gy, -np.expm1(-beta * d * (u - c + 1)), 1e-9, 1e-12),
            'cdf_y', 'CDF of the discretised exponential is wrong', x=x, mc=mc,
            delta=d, beta=beta, got=gy)
    m.case('cdf', ds, x.tobytes(), beta)


def w_mc(m, rng, i):
    ds = choice(rng, ['0.1', '0.1', '0.2', '0.25', '0.5'])
    d = float(ds)
    n = size(rng, choice(rng, [15, 60, 250]), 3000)
    b, c, k = sample(rng, n, ds)
    if chance(rng, .6):     # incomplete part below
        ex = c - rng.integers(1, 8, int(rng.integers(1, n)))
        k = rng.permutation(np.r_[k, ex])
    kmin, kmax = int(k.min()), int(k.max())
    if kmin == kmax:
        return m.saw('discarded')
    x = ref.canon(k, ds)
    custom = chance(rng, .5)
    simulated = chance(rng, .12)
    kw = {}
    if custom:
        hi = kmax - 1 if simulated else kmax + 2
        cand = np.arange(kmin - (0 if simulated else 1), hi + 1)
        cand = rng.choice(cand, int(rng.integers(1, min(8, len(cand)) + 1)),
                          replace=chance(rng, .2))
        mcs = ref.canon(cand, ds)
        kw['mcs_test'] = choice(rng, [mcs, list(mcs)])
        tests = sorted(set(cand.tolist()))
    else:
        if len(np.arange(x.min(), x.max(), d)) != kmax - kmin:
            return m.saw('discarded')
        tests = list(range(kmin, kmax))
    stop = chance(rng, .6)
    if not stop or chance(rng, .3):
        kw['stop_when_passed'] = stop
    thr = choice(rng, [None, .1, .05, .5])
    if thr is not None:
        kw['p_value_pass'] = thr
    else:
        thr = .1
    fixb = None
    rf = ref.mle_b
    if chance(rng, .35):
        fixb = kw['b_value'] = float(b * choice(rng, [1, 1.2]))
        m.saw('fixed_b')
    elif chance(rng, .3):
        kw['b_method'] = UtsuBValueEstimator
        rf = ref.utsu_b
    need = None
    if fixb is None and chance(rng, .25):   # with arguments passed on
        m.saw('passed_on')
        kw['b_method'] = BPositiveBValueEstimator
        need = int(choice(rng, [1, 2, 3]))
        if need > 1 or chance(rng, .3):
            kw['dmc'] = round(need * d, 10)
        rf = ref.mle_b
    if simulated:
        kw['n'] = 60
        nulls = None
    else:
        nulls = [np.sort(rng.uniform(0, 1.3 / math.sqrt(max(1, sum(k >= t)))
                                     + .02, 50)) for t in tests]
        kw['ks_ds_list'] = nulls
    if chance(rng, .1):
        kw['verbose'] = True

    exp, passed = [], None
    for j, t in enumerate(tests):
        kk = k[k >= t]
        if len(kk) == 0:
            bb = math.nan if fixb is None else fixb
            exp.append((t, bb, 1.0, 0.0))
            continue
        ex = kk - t
        if need:
            ex = np.diff(kk)
            ex = ex[ex >= need] - need
            if not len(ex) or not ex.any():
                return m.saw('discarded')
        bb = rf(ex * d, d) if fixb is None else fixb
        if len(set(kk.tolist())) == 1:
            exp.append((t, bb, 1.0, 0.0))
            continue
        dist = ks_ref(kk, t, d, bb)
        if nulls is None and (kmax - t) * d > math.log10(
                len(kk) * 60 * 1e3) / bb - d:
            return m.saw('discarded')   # beyond the simulated range
        if nulls is None:
            exp.append((t, bb, dist, None))
            continue
        if np.any(np.abs(nulls[j] - dist) < 1e-8):
            return m.saw('discarded')
        p = float(np.mean(nulls[j] >= dist))
        exp.append((t, bb, dist, p))
        if p >= thr and passed is None:
            passed = j
            if stop:
                break
    det = dict(x=x, delta=ds, kw={a: v for a, v in kw.items()
                                  if a != 'ks_ds_list'}, want=exp)
    arg = x
    if chance(rng, .3):
        cat = Catalog({'magnitude': x}, index=rng.permutation(len(x)) + 1,
                      mc=choice(rng, [None, 7.7]))
        if fixb is not None and chance(rng, .5):
            kw.pop('b_value')
            cat.b_value = fixb
        if chance(rng, .5):
            cat.delta_m = d
        else:
            cat.delta_m = choice(rng, [None, 7.])
            kw['delta_m'] = d
        best, info = cat.estimate_mc_ks(**kw)
        m.saw('catalog_calls')
        m.check(same(cat.mc, best), 'catalog_mc', 'Catalog.mc is not the '
                'returned estimate', mc=cat.mc, best=best, **det)
    else:
        if chance(rng, .3):
            arg = pd.Series(x, index=rng.permutation(len(x)) + 1)
        snap = snapshot((arg, kw.get('mcs_test')))
        best, info = estimate_mc_ks(arg, d, **kw)
        m.check(same(snap, (arg, kw.get('mcs_test'))), 'mutated',
                'input modified')
    m.saw('mc_ks')
    det.update(best=best, info=info)
    pv = info['p_values']
    if nulls is None:
        m.saw('mc_ks_simulated')
        # decisions must be consistent with the p-values it reports
        L = len(pv)
        ok = [j for j in range(L) if pv[j] >= thr]
        passed = ok[0] if ok else None
        m.check(L == len(tests) or (stop and passed == L - 1), 'mc_ks_tested',
                'candidates are missing', **det)
        m.check(not stop or not ok or ok[0] == L - 1, 'mc_ks_tested',
                'testing went on after a candidate passed', **det)
        exp = exp[:L]
        for j, (t, bb, dist, p) in enumerate(exp):
            if p is not None:
                m.check(pv[j] == p, 'mc_ks_p', 'degenerate candidate must have '
                        'p = 0', **det)
            elif j < 3 and m.index % 4 == 0:
                kk = k[k >= t]
                mine = sim_null(rng, len(kk), 300, d, bb)
                p0 = float(np.mean(mine >= dist))
                se = math.sqrt(max(p0 * (1 - p0), .02) * (1 / 60 + 1 / 300))
                m.check(abs(p0 - pv[j]) < 6 * se, 'mc_ks_p', 'p-value of a '
                        'candidate is not that of the Gutenberg-Richter law',
                        p=pv[j], reference=p0, mc=t, **det)
    L = len(exp)
    if L == len(tests):
        m.saw('all_tested')
    m.require(len(pv) == L and len(info['mcs_tested']) == L and
              len(info['b_values_tested']) == L and len(info['ks_ds']) == L,
              'mc_ks_tested', 'tested completeness magnitudes are not those '
              'requested (in increasing order, up to the first that passes)',
              **det)
    m.check(close(info['mcs_tested'], ref.canon([e[0] for e in exp], ds), 0,
                  1e-9), 'mc_ks_tested', 'tested mc wrong', **det)
    bt = [e[1] if abs(e[1]) > 1e6 and not abs(b) < 1e3 else b for e, b in
          zip(exp, info['b_values_tested'])]  # all at mc: unbounded
    m.check(close(bt, [e[1] for e in exp], 1e-8), 'mc_ks_b', 'b_values_tested are not the b-values at the tested mc',
            **det)
    m.check(close(info['ks_ds'], [e[2] for e in exp], 1e-8, 1e-9), 'mc_ks_d',
            'ks_ds are not the KS distances at the tested mc', **det)
    if nulls is not None:
        m.check(close(pv, [e[3] for e in exp], 1e-9), 'mc_ks_p', 'p-values '
                'wrong', **det)
    if passed is None:
        m.saw('mc_ks_none')
        m.check(best is None and info['best_b_value'] is None, 'mc_ks_best',
                'an mc was returned although no candidate passes', **det)
    else:
        m.saw('mc_ks_passed')
        t = float(ref.canon([exp[passed][0]], ds)[0])
        m.check(best is not None and close(best, t, 0, 1e-9), 'mc_ks_best',
                'best mc is not the smallest tested magnitude that passes',
                want_best=t, **det)
        m.check(info['best_b_value'] is not None and (close(
            info['best_b_value'], exp[passed][1], 1e-8) or abs(
                exp[passed][1]) > 1e6 and not abs(info['best_b_value']) < 1e3),
            'mc_ks_best_b',
            'best_b_value does not belong to the returned mc', **det)
    m.case('mc', ds, stop, thr, custom, x.tobytes(), fixb,
           nontrivial=len(tests) > 1)
    m.sample(x=x[:8], delta=ds, best=best, p=pv[:5], tested=info[
        'mcs_tested'][:5])


def lil(x, mc):
    return float(lilliefors(np.asarray(x) - mc, dist='exp',
                            pvalmethod='table')[1])


def w_lilliefors(m, rng, i):
    n = int(choice(rng, [6, 30, 120]))
    cls = choice(rng, [ClassicBValueEstimator, UtsuBValueEstimator,
                       BPositiveBValueEstimator])
    if i % 3:
        mc = float(rng.uniform(-2, 4))
        x = mc + rng.exponential(1 / (rng.uniform(.7, 1.6) * ref.LN10), n)
        if chance(rng, .4):
            x = mc + rng.uniform(0, 1, n)
        m.saw('lilliefors_continuous')
        p = ks_test_gr_lilliefors(x, mc)
        m.check(close(ks_test_gr_lilliefors(x, float(x.min())),
                      lil(x, float(x.min())), 1e-9), 'lilliefors', 'p-value '
                'for mc at the smallest magnitude is wrong', x=x)
        m.check(close(p, lil(x, mc), 1e-9), 'lilliefors', 'p-value is not the '
                'Lilliefors test of the excess over mc', x=x, mc=mc, p=p)
        try:
            ks_test_gr_lilliefors(x, float(x.min()) + 1e-6)
        except ValueError:
            pass
        else:
            m.fail('lilliefors_below', 'magnitudes below mc accepted')
        e = cls()
        dmc = 0
        if cls is BPositiveBValueEstimator and chance(rng, .6):
            dmc = choice(rng, [0., .1, .03])
            e.calculate(x, mc, 0, dmc=dmc)
        else:
            e.calculate(x, mc, 0)
        if e.n < 4:
            return m.saw('discarded')
        mm = mc if cls is not BPositiveBValueEstimator else dmc
        used = x[x >= mc] if cls is not BPositiveBValueEstimator else \
            np.diff(x)[np.diff(x) >= dmc]
        m.check(close(e.p_lilliefors(), lil(used, mm), 1e-9),
                'p_lilliefors', 'p_lilliefors of a continuous sample wrong',
                cls=cls.__name__, x=x, mc=mc, p=e.p_lilliefors())
        return m.case('lilc', cls.__name__, x.tobytes())
    ds = choice(rng, ['0.1', '0.2', '0.5', '0.05'])
    d = float(ds)
    b, c, k = sample(rng, n, ds)
    if chance(rng, .3):         # sample that also lies on a coarser grid
        q = max(1, int(round(1 / d)))
        k = c + (k - c) // q * q
        k = k // q * q
        c = int(k.min())
    x = ref.canon(k, ds)
    mc = float(ref.canon([c], ds)[0])
    e = cls()
    c2 = 1
    if cls is BPositiveBValueEstimator and chance(rng, .6):
        c2 = int(choice(rng, [0, 2, 3]))
        m.saw('lilliefors_dmc')
        e.calculate(x, mc, d, dmc=float(ref.canon([c2], ds)[0]))
    else:
        e.calculate(x, mc, d)
    if cls is BPositiveBValueEstimator:
        kk = np.diff(k)
        kk = kk[kk >= c2]
        bb = e.b_value
    else:
        kk, c2, bb = k, c, e.b_value
    if len(kk) < 4 or not math.isfinite(bb):
        return m.saw('discarded')
    reps = 120
    p = e.p_lilliefors(n=reps)
    m.saw('lilliefors_dithered')
    ps = np.empty(reps)
    beta = bb * ref.LN10
    for r in range(reps):
        u = rng.random(len(kk))
        v = -np.log1p(u * np.expm1(-beta * d)) / beta   # truncated to a bin
        ps[r] = lil((kk - c2) * d + v, 0)
    se = math.sqrt(2 * np.var(ps) / reps) + .004
    m.check(abs(p - ps.mean()) < 6 * se, 'p_lilliefors_dithered',
            'p_lilliefors of a binned sample is not the mean over dithered '
            'samples', cls=cls.__name__, x=x, p=p, reference=ps.mean(), se=se)
    if i % 2:               # single samples
        one = np.mean([e.p_lilliefors(n=1) for _ in range(40)])
        se = math.sqrt(np.var(ps) * (1 / 40 + 1 / reps)) + .004
        m.check(abs(one - ps.mean()) < 6.5 * se, 'p_lilliefors_dithered',
                'p_lilliefors(n=1) is not the p-value of a dithered sample',
                cls=cls.__name__, x=x, p=one, reference=ps.mean(), se=se)
    m.case('lild', cls.__name__, x.tobytes())
    m.sample(cls=cls.__name__, x=x[:8], p=p, reference=ps.mean())


WORKLOADS = [('ks', w_ks, 500, 15000), ('ks_sim', w_ks_sim, 60, 1200),
             ('cdf', w_cdf, 60, 1000), ('mc', w_mc, 600, 10000),
             ('lilliefors', w_lilliefors, 150, 3000)]
