"""C04 classic and Utsu b-value: maximum-likelihood reference on exactly the
complete part of the sample."""
import math

import numpy as np
import pandas as pd

import seismostats.analysis as A
from seismostats.analysis import (ClassicBValueEstimator, UtsuBValueEstimator,
                                  b_value_to_beta, beta_to_b_value,
                                  shi_bolt_confidence)
from vlib import ref, samples
from vlib.util import chance, choice, close, same, snapshot

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('a case is one estimator call on a generated sample (bins in integers,'
        ' mc on the bin grid or a fraction of a bin off, optional NaN and '
        'weights); non-trivial when at least 3 events are selected and at '
        'least one is excluded or weighted')
ASSUMPTIONS = ['|magnitude| < 10', 'mc is never exactly half a bin from a '
               'magnitude bin']
MUST = {'estimates': 600, 'with_weights': 150, 'excluded_below_mc': 200,
        'with_nan': 50, 'continuous': 100, 'estimate_b_calls': 200,
        'empty_selection': 10}


def sample(rng, m):
    if chance(rng, .3):
        m.saw('continuous')
        x = samples.continuous(rng, big=20000)
        mc = float(choice(rng, [np.min(x), np.median(x), np.min(x) - .3,
                                np.sort(x)[len(x) // 4]]))
        if chance(rng, .3):     # events just below and above mc
            x[rng.integers(0, len(x), 3)] = mc + np.array([-1, -1, 1]) * \
                10. ** -rng.integers(3, 10, 3)
        sel = x >= mc
        ds, d = '0', 0.0
    else:
        ds, k, x = samples.binned(rng, big=20000)
        d = float(ds)
        kc = int(choice(rng, [k.min(), k.min() + 1, int(np.median(k)),
                              k.min() - 2]))
        off = choice(rng, [0, 0, 0, 1])
        mc = float(ref.canon([kc], ds)[0])
        if off:
            f = rng.uniform(-.499, .499)
            mc += f * d
        sel = k >= kc
    return ds, d, x, mc, sel


def form(rng, x):
    f = int(rng.integers(0, 3))
    return [x, x.tolist() if isinstance(x, np.ndarray) else list(x),
            pd.Series(x, index=rng.permutation(len(x)))][f]


def w_estimators(m, rng, i):
    ds, d, x, mc, sel = sample(rng, m)
    cls = choice(rng, [ClassicBValueEstimator, UtsuBValueEstimator])
    rf = ref.mle_b if cls is ClassicBValueEstimator else ref.utsu_b
    w = samples.weights(rng, len(x)) if chance(rng, .5) else None
    if chance(rng, .15):        # missing magnitudes are ignored
        pos = rng.integers(0, len(x) + 1, int(rng.integers(1, 4)))
        x = np.insert(x, pos, np.nan)
        sel = np.insert(sel, pos, False)
        if w is not None:
            w = np.insert(w.astype(float), pos, rng.uniform(.5, 2, len(pos)))
        m.saw('with_nan')
    xs = x[sel]
    ws = None if w is None else np.asarray(w)[sel]
    if ws is not None and len(ws) and math.fsum(ws) == 0:
        return m.saw('discarded')
    if len(xs) and abs(mc / d - round(mc / d)) > 1e-6 \
            and ref.wmean(xs - mc, ws) < d / 100 if d else False:
        return m.saw('discarded')   # mc above the mean of the sample
    xa, wa = form(rng, x), None if w is None else form(rng, w)
    sx, sw = snapshot(xa), snapshot(wa)
    e = cls()
    got = e.calculate(xa, mc, d) if wa is None and chance(rng, .5) else \
        e.calculate(xa, mc=mc, delta_m=d, weights=wa)
    m.saw('estimates')
    m.check(same(sx, xa) and same(sw, wa), 'mutated', 'input modified')
    want = rf(xs - mc, d, ws)
    det = dict(cls=cls.__name__, delta=ds, mc=mc, x=x, w=w, got=got,
               want=want)
    if not len(xs):
        m.saw('empty_selection')
    if len(xs) < len(x):
        m.saw('excluded_below_mc')
    if w is not None:
        m.saw('with_weights')
    # the excess can be a rounding error when all magnitudes equal mc
    mean = ref.wmean(xs - mc, ws) if len(xs) else 1
    if abs(mean) > 1e-9 or cls is UtsuBValueEstimator and d > 0:
        m.check(close(got, want), 'b_value:' + cls.__name__,
                'b-value is not the maximum-likelihood estimate of the events '
                'at or above mc - delta_m/2', **det)
        tol = want
    else:
        m.saw('degenerate_all_at_mc')
        tol = got
        m.check(got > 1e3 or math.isinf(got) or
                d > 0 and got > 5 / d or mean < 0, 'b_value:' + cls.__name__,
                'all magnitudes at mc must give a huge b-value', **det)
    m.check(close(e.b_value, got, 0, 0) and close(e.value, got, 0, 0),
            'attr_b', 'b_value/value differ from the returned estimate', **det)
    if not len(xs):
        m.check(math.isnan(e.std) and math.isnan(e.std_beta), 'std_empty',
                'std must be NaN without magnitudes above mc', **det)
    if len(xs):
        m.check(close(e.beta, got * ref.LN10, 1e-12), 'attr_beta',
                'beta is not b*ln(10)', beta=e.beta, **det)
    m.check(e.n == len(xs), 'attr_n', 'n is not the number of selected events',
            n=e.n, want_n=len(xs), **det)
    m.check(np.array_equal(np.asarray(e.idx), np.nonzero(sel)[0]), 'attr_idx',
            'idx does not point at the selected events', idx=e.idx, **det)
    m.check(close(e.magnitudes, xs, 0, 0), 'attr_magnitudes',
            'magnitudes are not the selected ones', **det)
    m.check(close(e.weights, ws, 0, 0) if w is not None else e.weights is None,
            'attr_weights', 'weights are not those of the selected events',
            weights=e.weights, **det)
    m.check(e.mc == mc and e.delta_m == d, 'attr_mc',
            'mc / delta_m attribute wrong', **det)
    tot = len(xs) if ws is None else math.fsum(ws)
    if len(xs) >= 2 and tot > 1.01 and math.isfinite(tol) and \
            abs(mean) > 1e-9:
        s = ref.shi_bolt(xs, got, ws)
        m.check(close(e.std, s, 1e-7, 1e-9), 'std',
                'std is not the Shi & Bolt uncertainty', std=e.std, want_s=s,
                **det)
        m.check(close(e.std_beta, s * ref.LN10, 1e-7, 1e-9), 'std_beta',
                'std_beta is not std*ln(10)', std=e.std_beta, **det)
        m.check(close(shi_bolt_confidence(xs, got, ws), s, 1e-7, 1e-9) and
                close(shi_bolt_confidence(xs, got * ref.LN10, ws,
                                          b_parameter='beta'),
                      s * ref.LN10, 1e-7, 1e-9), 'shi_bolt',
                'shi_bolt_confidence wrong', **det)
    m.case(cls.__name__, ds, mc, x.tobytes(), w is None,
           nontrivial=len(xs) >= 3 and (len(xs) < len(x) or w is not None))
    m.sample(**{k: (v[:6] if isinstance(v, np.ndarray) else v)
                for k, v in det.items()})


def w_metamorphic(m, rng, i):
    """Relations that need no formula: replication, weights scale, order,
    removal of everything below mc, magnitude shift by whole bins."""
    ds, k, x = samples.binned(rng, nmin=5)
    d = float(ds)
    kc = int(np.sort(k)[len(k) // 4])
    mc = float(ref.canon([kc], ds)[0])
    if not np.any(k > kc):
        return m.saw('discarded')
    cls = choice(rng, [ClassicBValueEstimator, UtsuBValueEstimator])

    def b(x, mc=mc, w=None):
        return cls().calculate(x, mc, d, weights=w)
    b0 = b(x)
    det = dict(cls=cls.__name__, delta=ds, mc=mc, x=x, b=b0)
    m.saw('estimates')
    p = rng.permutation(len(x))
    m.check(close(b(x[p]), b0), 'order', 'depends on event order', **det)
    m.check(close(b(x[k >= kc]), b0, 0, 0), 'below_mc',
            'events below mc influence the b-value', **det)
    r = rng.integers(1, 4, len(x))
    m.check(close(b(np.repeat(x, r)), b(x, w=r)), 'replication',
            'integer weights differ from replicated events', r=r, **det)
    c = rng.uniform(.1, 9)
    m.check(close(b(x, w=r * c), b(x, w=r)), 'weight_scale',
            'b-value depends on the scale of the weights', c=c, **det)
    m.check(close(b(x, w=np.full(len(x), c)), b0), 'unit_weights',
            'equal weights differ from no weights', c=c, **det)
    sh = int(rng.integers(-3, 4))
    y, mc2 = ref.canon(k + sh, ds), float(ref.canon([kc + sh], ds)[0])
    if np.abs(y).max() < 10:
        m.check(close(b(y, mc2), b0, 1e-8), 'shift',
                'shifting magnitudes and mc changes the b-value', sh=sh, **det)
    # exactly the likelihood maximum: no nearby beta is more likely
    if cls is ClassicBValueEstimator:
        e = (k[k >= kc] - kc).astype(float)

        def ll(beta):
            return math.fsum(-beta * d * e) + len(e) * math.log(
                -math.expm1(-beta * d))
        beta = b0 * ref.LN10
        best = ll(beta)
        m.check(all(ll(beta * f) <= best + 1e-9 * abs(best)
                    for f in (.98, .999, 1.001, 1.02)), 'not_mle',
                'another b-value has a higher likelihood', **det)
    m.case('meta', cls.__name__, ds, mc, x.tobytes())


def w_estimate_b(m, rng, i):
    ds, d, x, mc, sel = sample(rng, m)
    xs = x[sel]
    if len(xs) < 3 or len(set(xs.tolist())) < 2 or \
            np.mean(xs) - mc < d / 20:
        return m.saw('discarded')
    cls = choice(rng, [None, ClassicBValueEstimator, UtsuBValueEstimator])
    rf = ref.utsu_b if cls is UtsuBValueEstimator else ref.mle_b
    w = samples.weights(rng, len(x)) + .5 if chance(rng, .4) else None
    par = choice(rng, [None, 'b_value', 'beta'])
    kw = {}
    if cls is not None:
        kw['method'] = cls
    if par is not None:
        kw['b_parameter'] = par
    if w is not None:
        kw['weights'] = w
    ws = None if w is None else w[sel]
    rs, rn = chance(rng, .5), chance(rng, .5)
    if rs or chance(rng, .5):
        kw['return_std'] = rs
    if rn or chance(rng, .5):
        kw['return_n'] = rn
    out = A.estimate_b(x, mc, d, **kw)
    m.saw('estimate_b_calls')
    f = ref.LN10 if par == 'beta' else 1.0
    b = rf(xs - mc, d, ws)
    want = [b * f]
    if rs:
        want.append(ref.shi_bolt(xs, b, ws) * f)
    if rn:
        want.append(len(xs))
    got = list(out) if isinstance(out, tuple) else [out]
    m.check(len(got) == len(want) and close(got, want, 1e-7, 1e-9),
            'estimate_b', 'estimate_b returned something else than (b[, std]'
            '[, n])', kw={k: v for k, v in kw.items() if k != 'weights'},
            x=x, mc=mc, delta=ds, w=w, got=got, want=want)
    m.check(close(b_value_to_beta(b), b * ref.LN10, 1e-13) and
            close(beta_to_b_value(b * ref.LN10), b, 1e-13), 'conversion',
            'b/beta conversion wrong', b=b)
    m.case('eb', ds, mc, x.tobytes(), par, rs, rn, w is None)
    m.sample(kw=kw, out=out, n=len(xs), mc=mc, delta=ds)


def w_errors(m, rng, i):
    ds, k, x = samples.binned(rng, nmin=3)
    d, mc = float(ds), float(x.min())
    for cls in (ClassicBValueEstimator, UtsuBValueEstimator):
        for what, kw, exc in (
                ('short', dict(weights=np.ones(len(x) - 1)), IndexError),
                ('negative', dict(weights=np.r_[-float(choice(
                    rng, [1, 1e-3, 1e-9])), np.ones(len(x) - 1)]),
                 ValueError)):
            try:
                cls().calculate(x, mc, d, **kw)
            except exc:
                m.saw('rejected_' + what)
            else:
                m.fail('bad_weights', 'invalid weights accepted: ' + what,
                       cls=cls.__name__)
        e = cls()
        for a in ('b_value', 'value', 'beta', 'std', 'std_beta', 'n'):
            try:
                getattr(e, a)
            except AttributeError:
                m.saw('unset_attribute')
            else:
                m.fail('unset', 'attribute %s readable before calculate' % a,
                       cls=cls.__name__)
    try:
        A.estimate_b(x, mc, d, b_parameter='x')
    except ValueError:
        m.saw('rejected_parameter')
    else:
        m.fail('bad_parameter', 'unknown b_parameter accepted')
    m.case('err', ds, x.tobytes())


WORKLOADS = [('estimators', w_estimators, 1500, 40000),
             ('metamorphic', w_metamorphic, 400, 10000),
             ('estimate_b', w_estimate_b, 600, 12000),
             ('errors', w_errors, 30, 500)]
