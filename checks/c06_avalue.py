"""C06 a-value estimators against a brute-force reference."""
import math

import numpy as np
import pandas as pd

import seismostats.analysis as A
from seismostats.analysis import (AMorePositiveAValueEstimator,
                                  APositiveAValueEstimator,
                                  ClassicAValueEstimator)
from vlib import ref, samples
from vlib.util import chance, choice, close, same, snapshot

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('a case is one a-value estimate of one of the three methods on a '
        'generated catalogue (integer bins, unsorted distinct times); '
        'non-trivial when at least 2 events or pairs enter the estimate')
ASSUMPTIONS = ['distinct event times']
MUST = {'mc_between_bins': 60, 'classic': 150, 'positive': 250, 'more_positive': 250,
        'unsorted_times': 150, 'm_ref': 150, 'scaling': 150,
        'continuous': 60, 'datetime_times': 100, 'nan_result': 5}


def w_estimate(m, rng, i):
    if chance(rng, .2):
        n = int(rng.integers(2, 120))
        k = np.floor(rng.exponential(120, n)).astype(int) + 300
        x, d, u, ds = k / 256.0, 0.0, 1 / 256., None
        m.saw('continuous')
    else:
        ds, k, x = samples.binned(rng, nmax=120, nmin=2, big=1500)
        n, d = len(k), float(ds)
        u = d
    kind = int(rng.integers(0, 3))
    cls = [ClassicAValueEstimator, APositiveAValueEstimator,
           AMorePositiveAValueEstimator][kind]
    kc = int(choice(rng, [k.min(), k.min() + 1, int(np.sort(k)[n // 3])]))

    def val(j):
        return j * u if ds is None else float(ref.canon([j], ds)[0])
    mc = val(kc)
    if d > 0 and chance(rng, .12):    # between two bins
        mc += float(rng.uniform(-.45, .45)) * d
        m.saw('mc_between_bins')
    need = choice(rng, [None, 1, 2, 4, 0])
    if need is not None and d == 0:
        need *= 9
    kw = {}
    if kind and (need is not None or chance(rng, .5)):
        kw['dmc'] = None if need is None else val(need)
    if need is None:
        need = 1 if d > 0 else 0
    dmc = val(need)
    order = np.arange(n)
    sec = None
    if kind:
        tk, t, order, sec = samples.times(rng, n)
        kw['times'] = pd.Series(t, index=rng.permutation(n) + 3) \
            if chance(rng, .3) else t
        if np.any(np.diff(order) < 0):
            m.saw('unsorted_times')
        if tk in ('dt64', 'dt64ns', 'dates', 'ts'):
            m.saw('datetime_times')
    b = float(rng.uniform(.5, 2))
    mref = None
    if chance(rng, .5):
        mref = float(rng.uniform(-1, 6)) if chance(rng, .7) else 0.0
        kw['m_ref'] = mref
        m.saw('m_ref')
    if kind == 2 or mref is not None or chance(rng, .2):
        kw['b_value'] = b
    sf = None
    if chance(rng, .5):
        sf = float(choice(rng, [365.25, 10., .37, rng.uniform(.01, 99),
                                10 ** rng.uniform(-12, 9)]))
        kw['scaling_factor'] = sf
        m.saw('scaling')
    keep = np.ones(n, bool)
    if chance(rng, .15):
        keep[int(rng.integers(0, n))] = False
        x = np.where(keep, x, np.nan)
    sel = [j for j in order if keep[j] and k[j] >= kc]
    ks = k[sel]
    second = []
    if kind == 0:
        a = math.log10(len(sel)) if sel else math.nan
        second = sel
    elif len(sel) < 2:
        a = math.nan
    else:
        tt = sec[sel]
        total = tt[-1] - tt[0]
        if kind == 1:
            pr = ref.positive_pairs(ks, need)
            second = [sel[q] for _, q in pr]
            s = math.fsum((tt[q] - tt[p]) / total for p, q in pr)
            a = math.log10(len(pr) / s) if pr else math.nan
        else:
            pr = ref.next_larger_pairs(ks, need)
            second = [sel[q] for _, q in pr]
            nxt = dict(pr)
            s = math.fsum(
                (tt[nxt.get(p, len(ks) - 1)] - tt[p]) / total *
                10 ** (-b * (val(ks[p]) + dmc - mc)) for p in range(len(ks)))
            a = math.log10(len(pr) / s) if pr else math.nan
    raw = a
    if mref is not None:
        a = a - b * (mref - mc)
    if sf is not None:
        a = a - math.log10(sf)
    snap = snapshot((x, kw))
    xa = [x, list(x), pd.Series(x, index=rng.permutation(n))][
        int(rng.integers(0, 3))]
    e = cls()
    got = e.calculate(xa, mc, d, **kw)
    m.check(same(snap, (x, kw)), 'mutated', 'input modified')
    name = ['classic', 'positive', 'more_positive'][kind]
    m.saw(name)
    det = dict(cls=cls.__name__, delta=d, mc=mc, x=x, kw=kw, got=got, want=a)
    tol = 1e-9
    if math.isnan(a):
        m.saw('nan_result')
    m.check(close(got, a, tol, tol), 'a_value:' + name,
            'a-value differs from the definition', raw=raw, **det)
    m.check(close(e.a_value, got, 0, 0) and close(e.value, got, 0, 0),
            'attr_a:' + name, 'a_value/value differ from the result', **det)
    if len(second):
        m.check(e.n == len(second), 'attr_n:' + name,
                'n is not the number of events used', n=e.n,
                want_n=len(second), **det)
        m.check(np.array_equal(np.asarray(e.idx), sorted(second) if kind == 0
                               else second), 'attr_idx:' + name,
                'idx does not point at the events used', idx=e.idx,
                want_idx=second, **det)
        m.check(close(e.magnitudes, x[second] if kind else x[sorted(second)],
                      0, 0), 'attr_magnitudes:' + name,
                'magnitudes are not those of the events used', **det)
        if kind:
            m.check(np.array_equal(np.asarray(e.times),
                                   np.array(kw['times'])[second]),
                    'attr_times:' + name, 'times are not those of the events '
                    'used', **det)
    kw2 = dict(kw)
    g2 = A.estimate_a(x, mc, d, method=cls, **kw2)
    m.check(close(g2, got, 1e-13, 1e-13), 'estimate_a:' + name,
            'estimate_a(method=...) differs from the estimator', g2=g2, **det)
    if kind == 0 and chance(rng, .5):
        kw3 = {q: v for q, v in kw.items()}
        g3 = A.estimate_a(x, mc, d, **kw3)
        m.check(close(g3, got, 1e-13, 1e-13), 'estimate_a:default',
                'default method of estimate_a is not the classic one', **det)
    p = rng.permutation(n)
    kw4 = dict(kw)
    if kind:
        kw4['times'] = np.array(kw['times'])[p]
    g4 = cls().calculate(x[p], mc, d, **kw4)
    m.check(close(g4, got, tol, tol), 'order:' + name,
            'a-value depends on the storage order of the events', g4=g4,
            **det)
    if kind:        # stretching the time axis changes nothing
        if isinstance(kw['times'], np.ndarray) and \
                kw['times'].dtype.kind == 'f':
            kw5 = dict(kw, times=kw['times'] * 7.5 - 3)
            g5 = cls().calculate(x, mc, d, **kw5)
            m.check(close(g5, got, 1e-6, 1e-6), 'time_scale:' + name,
                    'a-value depends on the unit or origin of time', g5=g5,
                    **det)
    m.case(name, d, mc, dmc, x.tobytes(), mref, sf, sec is None or
           sec.tobytes(), nontrivial=len(second) >= 2)
    m.sample(cls=cls.__name__, delta=d, mc=mc, x=x[:6], a=got, used=len(second),
             kw={q: v for q, v in kw.items() if q != 'times'})


def w_errors(m, rng, i):
    _, k, x = samples.binned(rng, nmin=4, deltas=['0.1'])
    t = np.arange(len(x)) * 1.0
    mc = float(x.min())
    calls = [
        ('m_ref_without_b', lambda: ClassicAValueEstimator().calculate(
            x, mc, .1, m_ref=1.0)),
        ('more_positive_without_b',
         lambda: AMorePositiveAValueEstimator().calculate(
             x, mc, .1, times=t, b_value=None)),
        ('dmc', lambda: APositiveAValueEstimator().calculate(
            x, mc, .1, times=t, dmc=-.1)),
        ('dmc', lambda: AMorePositiveAValueEstimator().calculate(
            x, mc, .1, times=t, dmc=-.1, b_value=1.)),
    ]
    for what, f in calls:
        try:
            f()
        except ValueError:
            m.saw('rejected_' + what)
        else:
            m.fail('accepted_' + what, 'invalid call accepted: ' + what)
    for cls in (ClassicAValueEstimator, APositiveAValueEstimator,
                AMorePositiveAValueEstimator):
        e = cls()
        for a in ('a_value', 'value', 'n'):
            try:
                getattr(e, a)
            except AttributeError:
                m.saw('unset_attribute')
            else:
                m.fail('unset', a + ' readable before calculate')
    m.case('err', x.tobytes())


WORKLOADS = [('estimate', w_estimate, 1500, 40000), ('errors', w_errors, 20,
                                                     200)]
