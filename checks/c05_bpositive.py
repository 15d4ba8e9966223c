"""C05 b-positive family: pair selection against a brute-force reference on
integer bins, and the MLE of the selected differences."""
import math

import numpy as np
from scipy import stats
import pandas as pd

import seismostats.analysis as A
from seismostats.analysis import (BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator, find_next_larger,
                                  make_more_incomplete)
from seismostats.analysis.bvalue.utils import bootstrap_std
from vlib import ref, samples
from vlib.util import chance, choice, close, same, snapshot

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('a case is one estimator call (or helper call) on a generated '
        'catalogue: integer bins, unsorted distinct times of several types, '
        'dmc in whole bins; non-trivial when at least 2 pairs are selected')
ASSUMPTIONS = ['distinct event times (the order of simultaneous events is not '
               'defined)', 'at least one selected pair of positive weight for '
               'weighted estimates']
MUST = {'positive': 250, 'more_positive': 250, 'unsorted_times': 150,
        'with_weights': 150, 'pairs': 3000, 'continuous': 80,
        'no_pair': 60, 'no_pair_weighted': 25, 'next_larger_arrays': 50, 'incomplete_calls': 50,
        'bootstrap_std': 15, 'dense': 5, 'bootstraps': 15,
        'bootstrap_weights': 10}


def build(m, rng, nmax=150, cont=None):
    """magnitudes with an exact integer representation in steps of `u`."""
    if cont if cont is not None else chance(rng, .2):
        # delta_m = 0: magnitudes on a binary grid so that differences are
        # exact in floating point
        n = int(rng.integers(2, nmax))
        k = np.floor(rng.exponential(150, n)).astype(int) + \
            int(rng.integers(0, 500))
        x = k / 256.0
        m.saw('continuous')
        return 0.0, 1 / 256.0, k, x, None
    ds, k, x = samples.binned(rng, nmax=nmax, nmin=2, big=1500)
    return float(ds), float(ds), k, x, ds


def w_pairs(m, rng, i):
    d, u, k, x, ds = build(m, rng)
    n = len(k)
    more = chance(rng, .5)
    cls = BMorePositiveBValueEstimator if more else BPositiveBValueEstimator
    kc = int(choice(rng, [k.min(), k.min() + 1, int(np.sort(k)[n // 3])]))
    mc = kc * u if ds is None else float(ref.canon([kc], ds)[0])
    # dmc in whole bins
    need = choice(rng, [None, 0, 1, 2, 5])
    if d == 0 and need is not None:
        need = int(need * 10)
    kw = {}
    if need is not None or chance(rng, .5):
        kw['dmc'] = None if need is None else (
            need * u if ds is None else float(ref.canon([need], ds)[0]))
    if need is None:
        need = 1 if d > 0 else 0
    dmc = need * u if ds is None else float(ref.canon([need], ds)[0])
    tk, order = None, np.arange(n)
    if chance(rng, .7):
        tk, t, order, sec = samples.times(rng, n)
        ts = t
        if chance(rng, .3):
            ts = pd.Series(t, index=rng.permutation(n) + 3)
        kw['times'] = ts
        if np.any(np.diff(order) < 0):
            m.saw('unsorted_times')
    w = samples.weights(rng, n) if chance(rng, .4) else None
    if chance(rng, .15):
        nanpos = int(rng.integers(0, n))
        x = x.copy()
        x[nanpos] = np.nan
        keep = np.arange(n) != nanpos
    else:
        keep = np.ones(n, bool)
    sel = [j for j in order if keep[j] and k[j] >= kc]     # time ordered
    ks = k[sel]
    pr = (ref.next_larger_pairs if more else ref.positive_pairs)(ks, need)
    second = [sel[b] for _, b in pr]
    diffs = np.array([(ks[b] - ks[a]) * u for a, b in pr])
    ws = None if w is None else np.asarray(w, float)[second]
    if w is not None:
        kw['weights'] = w
        if len(second) and math.fsum(ws) == 0:
            return m.saw('discarded')
        m.saw('with_weights')
    snap = snapshot((x, kw))
    e = cls()
    got = e.calculate(x, mc, d, **kw)
    m.check(same(snap, (x, kw)), 'mutated', 'input modified')
    m.saw('more_positive' if more else 'positive')
    m.saw('pairs', len(pr))
    if not pr:
        m.saw('no_pair')
    want = ref.mle_b(diffs - dmc, d, ws)
    det = dict(cls=cls.__name__, delta=d, mc=mc, dmc=dmc, x=x, times=tk,
               order=order, w=w, got=got, want=want)
    mech = ':more' if more else ':pos'
    if len(sel) == 0 or not pr:
        m.check(isinstance(got, float) and math.isnan(got), 'no_pair' + mech,
                'without any pair the b-value must be NaN', **det)
        m.check(math.isnan(e.std), 'no_pair_std' + mech,
                'without any pair the standard error must be NaN', **det)
        m.saw('no_pair_weighted', w is not None)
    elif len(pr) and abs(ref.wmean(diffs - dmc, ws)) < 1e-9:
        m.check(not 0 <= got <= 1e3, 'b_value' + mech,
                'all differences at dmc must give a huge b-value', **det)
    else:
        m.check(close(got, want, 1e-8), 'b_value' + mech,
                'b-value is not the MLE of the selected differences', **det)
    m.check(close(e.b_value, got, 0, 0) and close(e.value, got, 0, 0),
            'attr_b' + mech, 'b_value differs from the returned value', **det)
    if pr:
        m.check(e.n == len(pr), 'attr_n' + mech,
                'n is not the number of pairs', n=e.n, pairs=len(pr), **det)
        m.check(np.array_equal(np.asarray(e.idx), second), 'attr_idx' + mech,
                'idx does not point at the later event of each pair',
                idx=e.idx, second=second, **det)
        m.check(close(e.magnitudes, diffs, 1e-9, 1e-9),
                'attr_magnitudes' + mech,
                'magnitudes are not the selected differences',
                diffs=e.magnitudes, want_diffs=diffs, **det)
        if w is not None:
            m.check(close(e.weights, ws, 0, 0), 'attr_weights' + mech,
                    'weights are not those of the later events',
                    weights=e.weights, **det)
        if tk is not None:
            tt = np.array(kw['times'])[second]
            m.check(np.array_equal(np.asarray(e.times), tt),
                    'attr_times' + mech,
                    'times are not those of the later events', **det)
        if not more and len(pr) > 2 and got < 1e3 and \
                (w is None or math.fsum(ws) > 1.5):
            s = ref.shi_bolt(diffs, got, ws)
            m.check(close(e.std, s, 1e-6, 1e-8), 'std' + mech,
                    'std is not the Shi & Bolt uncertainty of the '
                    'differences', std=e.std, want_std=s, **det)
            m.check(close(e.std_beta, s * ref.LN10, 1e-6, 1e-8), 'std' + mech,
                    'std_beta is not std*ln(10)', **det)
    m.check(e.dmc == dmc, 'attr_dmc' + mech, 'dmc attribute wrong',
            dmc_attr=e.dmc, **det)
    # estimate_b with the method gives the same
    if not more or n < 60:
        b2 = A.estimate_b(x, mc, d, method=cls, **kw)
        m.check(close(b2, got, 0, 0), 'estimate_b' + mech,
                'estimate_b(method=...) differs from the estimator', b2=b2,
                **det)
    # shuffling the events together with their times changes nothing
    if tk is not None:
        p = rng.permutation(n)
        kw2 = dict(kw, times=np.array(kw['times'])[p])
        if w is not None:
            kw2['weights'] = np.asarray(w)[p]
        b3 = cls().calculate(x[p], mc, d, **kw2)
        m.check(close(b3, got, 1e-9), 'time_order' + mech,
                'result depends on the storage order of timed events',
                b3=b3, **det)
    m.case(cls.__name__, d, mc, dmc, x.tobytes(), tk, w is None,
           nontrivial=len(pr) >= 2)
    m.sample(cls=cls.__name__, delta=d, mc=mc, dmc=dmc, x=x[:8], times=tk,
             pairs=len(pr), b=got)


def w_helpers(m, rng, i):
    d, u, k, x, ds = build(m, rng, nmax=60)
    need = int(choice(rng, [1, 2, 4]))
    dmc = need * u if ds is None else float(ref.canon([need], ds)[0])
    if need == 1 and d > 0 and chance(rng, .5):
        r = find_next_larger(x, d, None)
    else:
        r = find_next_larger(x, d, dmc)
    want = np.zeros(len(k), int)
    for a, b in ref.next_larger_pairs(k, need):
        want[a] = b
    m.saw('next_larger_arrays')
    m.check(np.array_equal(r, want), 'find_next_larger',
            'find_next_larger is not the first later event that is larger by '
            'dmc', x=x, delta=d, dmc=dmc, got=r, want=want)
    # make_more_incomplete: an event is dropped iff an earlier larger one is
    # closer in time than the window
    n = len(k)
    dense = chance(rng, .3)     # many events within the window
    sec = rng.choice(np.arange(0, (2 if dense else 40) * n), n, replace=False)
    if chance(rng, .5):
        sec = np.sort(sec)
    t = np.datetime64('2020-01-01T00:00:00') + sec.astype('timedelta64[s]')
    win = int(choice(rng, [60, 300] if dense else [10, 60, 300]))
    m.saw('dense', dense and n > 30)
    o = np.argsort(sec)
    ks, ss = k[o], sec[o]
    keep = [not any(ss[j] - ss[a] < win and ks[a] > ks[j] for a in range(j))
            for j in range(n)]
    args = {} if win == 60 and chance(rng, .5) else \
        dict(delta_t=np.timedelta64(win, 's'))
    snap = snapshot((x, t))
    m1, t1, idx = make_more_incomplete(x, t, return_idx=True, **args)
    m2, t2 = make_more_incomplete(x, t, **args)
    m.saw('incomplete_calls')
    m.check(same(snap, (x, t)), 'mutated', 'input modified')
    m.check(np.array_equal(m1, x[o][keep]) and np.array_equal(t1, t[o][keep])
            and np.array_equal(np.asarray(idx), keep) and
            np.array_equal(m1, m2) and np.array_equal(t1, t2),
            'make_more_incomplete', 'make_more_incomplete keeps the wrong '
            'events', x=x, sec=sec, window=win, got=idx, want=keep)
    m.case('helpers', d, need, x.tobytes(), sec.tobytes(), win)


def w_bootstrap(m, rng, i):
    """The more-positive std is the spread of the estimate over resamples of
    the events that keep their time order (statistical tolerance)."""
    n = int(rng.integers(60, 110))
    k = np.floor(rng.exponential(1 / (2.3 * .1), n)).astype(int)
    kw, need, w, order = {}, 1, None, np.arange(n)
    if i % 4 != 3:
        # a sequence whose order matters: magnitudes decay, or grow, in time
        trend = np.linspace(0, 12, n).astype(int)
        sec = rng.choice(10 ** 7, n, replace=False)
        k[np.argsort(sec)] += trend if i % 2 else trend[::-1]
        order = np.argsort(sec)
        kw['times'] = np.datetime64('2003-02-01') + sec.astype(
            'timedelta64[s]')
    if i % 3:
        need = int(choice(rng, [2, 4, 6]))
        kw['dmc'] = float(ref.canon([need], '0.1')[0])
    if i % 5 < 3:
        w = np.where(rng.random(n) < .35, rng.uniform(2, 3, n),
                     rng.uniform(.01, .1, n))
        # as weights of the largest events differ most from their order
        kw['weights'] = w
        m.saw('bootstrap_weights')
    x = ref.canon(k, '0.1')
    kk, ww = k[order], np.ones(n) if w is None else w[order]
    boots, npairs = [], []
    upper = np.triu(np.ones((n, n), bool), 1)
    for _ in range(1500):
        idx = np.sort(rng.integers(0, n, n))
        q, v = kk[idx], ww[idx]
        hit = (q[None] - q[:, None] >= need) & upper
        has = hit.any(axis=1)
        to = hit.argmax(axis=1)[has]
        if not len(to):
            continue
        mean = np.average(q[to] - q[has] - need, weights=v[to]) * .1
        if mean > 0:
            boots.append(np.log1p(.1 / mean) / .1 / ref.LN10)
        npairs.append(v[to].sum() ** 2 / (v[to] ** 2).sum())
    if len(boots) < 1499 or np.percentile(npairs, 1) < 10 or \
            stats.kurtosis(boots) > 2:
        return m.saw('discarded')
    e = BMorePositiveBValueEstimator()
    e.calculate(x, float(x.min()), .1, **kw)
    s, sb = e.std, e.std_beta
    s0 = np.std(boots, ddof=1)
    m.saw('bootstrap_std')
    m.check(0.65 < s / s0 < 1.54 and .65 < sb / (s0 * ref.LN10) < 1.54,
            'bootstrap_std', 'more-positive std is not the bootstrap spread',
            std=s, std_beta=sb, reference=s0, args=kw)
    m.case('boot', x.tobytes())


def w_errors(m, rng, i):
    _, k, x = samples.binned(rng, nmin=3, deltas=['0.1'])
    for cls in (BPositiveBValueEstimator, BMorePositiveBValueEstimator):
        try:
            cls().calculate(x, float(x.min()), .1, dmc=-.1)
        except ValueError:
            m.saw('rejected_dmc')
        else:
            m.fail('negative_dmc', 'negative dmc accepted')
    m.case('err', x.tobytes())


def w_resample(m, rng, i):
    """bootstrap_std: the spread of an estimate, invalid ones left out"""
    n = int(rng.integers(8, 40))
    x = rng.normal(float(rng.uniform(5, 20)), 1, n)
    low, high = np.quantile(x, rng.uniform(0, .3)), np.quantile(
        x, rng.uniform(.7, 1))
    some = chance(rng, .7)

    def func(s):            # undefined for some resamples
        if some and s[0] < low:
            return np.nan
        if some and s[0] > high:
            return choice(rng, [np.inf, -np.inf])
        return np.mean(s)
    before = x.copy()
    r = int(rng.integers(0, 1000)) * (i % 3)
    got = bootstrap_std(choice(rng, [x, list(x)]), func, n=600,
                        random_state=r)
    m.saw('bootstraps')
    m.check(np.array_equal(x, before), 'mutated', 'input modified')
    m.check(got == bootstrap_std(x, func, n=600, random_state=r),
            'random_state', 'bootstrap_std differs for the same random_state '
            '(%d)' % r)
    own = []
    while len(own) < 1500:
        v = func(rng.choice(x, n))
        if np.isfinite(v):
            own.append(v)
    m.check(.75 < got / np.std(own, ddof=1) < 1.33, 'bootstrap', 'bootstrap_std'
            ' is not the standard deviation of the valid estimates', x=x,
            got=got, reference=np.std(own, ddof=1))
    m.case('resample', x.tobytes(), r)
    try:
        bootstrap_std(x, lambda s: np.nan, n=5)
    except ValueError:
        pass
    else:
        m.fail('bootstrap', 'no valid estimate, but a standard deviation')


WORKLOADS = [('resample', w_resample, 20, 400),
             ('pairs', w_pairs, 1000, 25000), ('helpers', w_helpers, 150, 4000),
             ('bootstrap', w_bootstrap, 120, 600), ('errors', w_errors, 20, 200)]
