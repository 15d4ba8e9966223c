"""C10 completeness magnitude: maximum curvature and b-value stability."""
import math

import numpy as np
import pandas as pd

from seismostats import Catalog
from seismostats.analysis import (BPositiveBValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator,
                                  estimate_mc_b_stability, estimate_mc_maxc)
from vlib import ref, samples
from vlib.util import chance, choice, close, same, size, snapshot

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('a case is one mc estimate by maximum curvature or b-stability on a '
        'generated sample, compared with a reference recomputed in integer '
        'bins; non-trivial when at least two candidate mc / occupied bins')
ASSUMPTIONS = ['magnitudes are multiples of the bin width',
               'decisions whose criterion is within 1e-6 of its threshold are '
               'not judged']
MUST = {'maxc': 200, 'bstab': 250, 'bstab_passed': 60, 'bstab_none': 10,
        'bstab_all_tested': 60, 'custom_mcs': 60, 'fractional_range': 60, 'passed_on': 40, 'mc_zero': 5,
        'too_small_range': 10, 'no_uncertainty': 60, 'catalog_calls': 60}


def w_maxc(m, rng, i):
    ds, k, x = samples.binned(rng, nmin=1, big=20000)
    q = int(choice(rng, [1, 1, 2, 5]))      # fmd bin = q magnitude bins
    from decimal import Decimal
    bs = str(Decimal(ds) * q)
    kb = (2 * k + q) // (2 * q)
    cf = choice(rng, [None, 0.0, .1, .3, -.2])
    lo = int(kb.min())
    cnt = np.bincount(kb - lo)
    top = lo + int(np.argmax(cnt))      # first of the largest bins
    want = float(top * Decimal(bs)) + (0.2 if cf is None else cf)
    y = x
    if chance(rng, .3):
        y = np.insert(x, rng.integers(0, len(x) + 1), np.nan)
    kw = {} if cf is None else dict(correction_factor=cf)
    form = int(rng.integers(0, 3))
    det = dict(x=x, fmd_bin=bs, cf=cf, want=want)
    if form == 2:
        cat = Catalog({'magnitude': y}, index=rng.permutation(len(y)))
        got, info = cat.estimate_mc_maxc(float(bs), **kw)
        m.saw('catalog_calls')
        m.check(cat.mc == got, 'catalog_mc', 'Catalog.mc is not the returned '
                'estimate', mc=cat.mc, got=got, **det)
    else:
        arg = y if form == 0 else pd.Series(y, index=rng.permutation(len(y)))
        snap = snapshot(arg)
        got, info = estimate_mc_maxc(arg, float(bs), **kw)
        m.check(same(snap, arg), 'mutated', 'input modified')
    m.saw('maxc')
    m.check(close(got, want, 0, 1e-9), 'maxc', 'mc is not the first most '
            'populated bin plus the correction factor', got=got, **det)
    m.check(info == {'correction_factor': .2 if cf is None else cf},
            'maxc_info', 'info wrong', info=info)
    m.case('maxc', bs, cf, x.tobytes(), nontrivial=len(cnt) > 1)
    m.sample(x=x[:8], fmd_bin=bs, mc=got)


def w_bstab(m, rng, i):
    ds = choice(rng, ['0.1', '0.1', '0.2', '0.05', '0.25', '0.5', '0.01'])
    d = float(ds)
    n = size(rng, choice(rng, [40, 150, 600]), 3000, 8000)
    beta = rng.uniform(.6, 1.8) * ref.LN10
    kc = int(rng.integers(int(-2 / d), int(4 / d)))
    if chance(rng, .2):
        kc = 0
    k = kc + np.floor(rng.exponential(1 / (beta * d), n)).astype(int)
    # incomplete lower part
    if chance(rng, .8):
        drop = rng.random(n) < np.exp(-(k - kc) * d * rng.uniform(1, 6))
        if chance(rng, .8):
            k = k[~drop]
        else:
            k = np.r_[k, np.arange(kc - 8, kc)]
    k = np.minimum(k, int(9.9 / d))
    if len(k) < 5 or len(set(k.tolist())) < 3:
        return m.saw('discarded')
    x = ref.canon(k, ds)
    steps = int(choice(rng, [1, 2, 3, 5, 5, 7]))
    if chance(rng, .15):    # a range of many bins
        m.saw('long_range')
        steps = int(rng.integers(4, max(5, .9 * (k.max() - k.min()))))
    from decimal import Decimal
    srange = float(steps * Decimal(ds))
    if chance(rng, .25):    # the window [mc, mc + range) ends between bins
        m.saw('fractional_range')
        srange = float((steps - Decimal(choice(rng, ['.5', '.25', '.8'])))
                       * Decimal(ds))
    cls = choice(rng, [ClassicBValueEstimator, UtsuBValueEstimator])
    rf = ref.mle_b if cls is ClassicBValueEstimator else ref.utsu_b
    if chance(rng, .15):    # arguments of the estimator are passed on
        m.saw('passed_on')
        cls, rf = BPositiveBValueEstimator, ref.mle_b
        need = int(choice(rng, [1, 2, 3]))
    stop = chance(rng, .6)
    kw = dict(stability_range=srange)
    if not stop or chance(rng, .3):
        kw['stop_when_passed'] = stop
    if cls is BPositiveBValueEstimator and (need > 1 or chance(rng, .3)):
        kw['dmc'] = float(need * Decimal(ds))
    if cls is not ClassicBValueEstimator or chance(rng, .3):
        kw['b_method'] = cls
    kmax, kmin = int(k.max()), int(k.min())
    custom = chance(rng, .4)
    if custom:
        cand = np.arange(kmin - 2, kmax + 1)
        cand = rng.choice(cand, int(rng.integers(1, min(9, len(cand)) + 1)),
                          replace=False)
        # the rule "mc + range <= largest magnitude" at equality hinges on
        # the last bit of a sum: not generated
        cand = cand[cand + steps != kmax]
        if not len(cand):
            return m.saw('discarded')
        mcs = ref.canon(cand, ds)
        kw['mcs_test'] = choice(rng, [mcs, list(mcs)])
        m.saw('custom_mcs')
        tests = [int(c) for c in cand if c + steps <= kmax]
        empty = not tests
    else:
        full = list(range(kmin, kmax))
        empty = len(full) <= steps
        tests = full[:len(full) - steps + 1]
        if len(full) == steps:
            return m.saw('discarded')   # float length of the grid decides
        # the property leaves the float end of the default grid open
        if len(np.arange(x.min(), x.max(), d)) != len(full):
            return m.saw('discarded')
    det = dict(cls=cls.__name__, delta=ds, x=x, kw=kw)
    arg = x
    cat = None
    if chance(rng, .35):
        cat = Catalog({'magnitude': x}, index=rng.permutation(len(x)) + 2,
                      mc=7.7)
        if chance(rng, .5):
            cat.delta_m = d

            def call():
                return cat.estimate_mc_b_stability(**kw)
        else:
            cat.delta_m = choice(rng, [None, 3.0])

            def call():
                return cat.estimate_mc_b_stability(delta_m=d, **kw)
        m.saw('catalog_calls')
    else:
        if chance(rng, .3):
            arg = pd.Series(x, index=rng.permutation(len(x)) + 2)

        def call():
            return estimate_mc_b_stability(arg, d, **kw)
    snap = snapshot(arg)
    if empty:
        try:
            call()
        except ValueError:
            m.saw('too_small_range')
        else:
            m.fail('small_range', 'a sample narrower than the stability range '
                   'was accepted', **det)
        return
    if cat is None:
        best, info = call()
    else:
        best, info = call()
        m.check(same(cat.mc, best), 'catalog_mc',
                'Catalog.mc is not the returned estimate', mc=cat.mc,
                best=best, **det)
    m.check(same(snap, arg), 'mutated', 'input modified')
    m.saw('bstab')

    def used(c):            # bins above the threshold
        kk = k[k >= c]
        if cls is not BPositiveBValueEstimator:
            return kk - c
        kk = np.diff(kk)
        return kk[kk >= need] - need

    def bval(c):
        kk = used(c)
        return rf(kk * d, d) if len(kk) else math.nan

    def val(c):
        return float(ref.canon([c], ds)[0])
    bs, diffs = [], []
    passed = None
    near = False
    for j, c in enumerate(tests):
        b = bval(c)
        kk = used(c)
        std = ref.shi_bolt(kk * d, b) if len(kk) > 1 else math.nan
        avg = math.fsum(bval(c + s) for s in range(steps)) / steps
        diff = abs(avg - b) / std if std > 1e-9 else math.inf
        bs.append(b)
        if not math.isfinite(diff):     # fewer than two distinct magnitudes
            if steps == 1:
                return m.saw('discarded')
            m.saw('no_uncertainty')
            diff = math.nan
        diffs.append(diff)
        near |= abs(diff - 1) < 1e-6
        if diff <= 1 and stop:
            break
    det.update(best=best, info=info, want_b=bs, want_diffs=diffs)
    tested = tests[:len(bs)]
    if near:
        return m.saw('not_judged')
    ok = [j for j, v in enumerate(diffs) if v <= 1]
    if stop:
        passed = tested[ok[0]] if ok else None
    elif ok:
        j = min(ok, key=lambda j: diffs[j])
        srt = sorted(v for v in diffs if v == v)
        if len(srt) > 1 and srt[1] - srt[0] < 1e-9:
            return m.saw('not_judged')
        passed = tested[j]
    if len(tested) == len(tests):
        m.saw('bstab_all_tested')
    nt = len(info['mcs_tested'])
    # a default grid may carry the largest magnitude itself (float length)
    extra_ok = not custom and nt == len(tested) + 1 and passed is None or \
        not custom and not stop and nt == len(tested) + 1
    m.check(nt == len(tested) or extra_ok, 'bstab_tested',
            'tested completeness magnitudes are not those requested', **det)
    L = len(tested)
    m.check(close(info['mcs_tested'][:L], [val(c) for c in tested], 0, 1e-9),
            'bstab_tested', 'tested completeness magnitudes are wrong', **det)
    m.check(len(info['diff_bs']) == nt == len(info['b_values_tested']),
            'bstab_tested', 'the lists have different lengths', **det)
    for want, got in zip(diffs, info['diff_bs']):
        if want != want:
            m.check(not got <= 1, 'bstab_undefined', 'a candidate without an '
                    'uncertainty cannot be stable', **det)
    und = [v != v for v in diffs]
    diffs = [0 if u else v for v, u in zip(diffs, und)]
    info = dict(info, diff_bs=[0 if u else v for v, u in zip(
        info['diff_bs'], und)] + list(info['diff_bs'])[L:],
        b_values_tested=[b if not math.isfinite(b) else v for v, b in zip(
            info['b_values_tested'], bs)] + list(info['b_values_tested'])[L:])
    m.check(close(info['b_values_tested'][:L], bs, 1e-8), 'bstab_b',
            'b_values_tested are not the b-values at the tested mc', **det)
    m.check(close(info['diff_bs'][:L], diffs, 1e-6, 1e-7), 'bstab_diff',
            'diff_bs is not |mean b over the stability range - b| / std',
            **det)
    if passed is None:
        m.saw('bstab_none')
        m.check(best is None and info['best_b_value'] is None, 'bstab_best',
                'an mc was returned although no candidate is stable', **det)
    else:
        m.saw('bstab_passed')
        if passed == 0:
            m.saw('mc_zero')
        m.check(best is not None and close(best, val(passed), 0, 1e-9),
                'bstab_best', 'returned mc is not the stable candidate',
                want=val(passed), **det)
        m.check(info['best_b_value'] is not None and close(
            info['best_b_value'], bval(passed), 1e-8), 'bstab_best_b',
            'best_b_value does not belong to the returned mc', **det)
    m.case('bstab', cls.__name__, ds, steps, stop, custom, x.tobytes(),
           nontrivial=len(tests) > 1)
    m.sample(cls=cls.__name__, delta=ds, range=srange, best=best,
             tested=info['mcs_tested'][:5], diffs=diffs[:5])


WORKLOADS = [('maxc', w_maxc, 400, 10000), ('bstab', w_bstab, 700, 12000)]
