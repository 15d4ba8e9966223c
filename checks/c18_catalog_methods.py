"""C18 catalogue methods: the analysis functions applied to the columns and
attributes, plus exactly the documented attribute update."""
import numpy as np
import pandas as pd

import matplotlib.pyplot as plt
from seismostats import Catalog, ForecastCatalog
from seismostats.analysis import (AMorePositiveAValueEstimator,
                                  APositiveAValueEstimator,
                                  BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator,
                                  ClassicAValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator,
                                  estimate_mc_b_stability, estimate_mc_ks,
                                  estimate_mc_maxc)
from seismostats.plots.basics import (plot_cum_count, plot_cum_fmd, plot_fmd,
                                      plot_mags_in_time)
from seismostats.plots.seismicity import plot_in_space
from seismostats.plots.statistical import plot_mc_vs_b
from vlib import api
from vlib.ref import canon
from vlib.util import chance, choice, close, same, snapshot

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('a case is one catalogue method called with a random choice of '
        'explicit arguments, attributes and columns, compared with the '
        'function called with the arguments the documentation resolves; '
        'non-trivial when the call succeeds')
ASSUMPTIONS = ['the functions themselves are decided by C03-C11 and C30']
MUST = {'b_calls': 200, 'b_attr_mc': 60, 'b_attr_delta': 60,
        'b_weight_column': 30, 'b_weights_explicit': 30, 'b_zero_mc': 8, 'b_zero_delta': 4,
        'plot_zero': 4,
        'b_time_column': 40, 'b_times_explicit': 12, 'unresolved': 40,
        'a_calls': 150, 'a_attr_mc': 40, 'a_time_column': 40, 'a_m_ref': 40,
        'maxc': 40, 'stability': 40, 'ks': 40, 'ks_b_attribute': 12,
        'ks_b_explicit': 8, 'plots': 100, 'plot_attr': 40, 'strip': 60,
        'strip_forecast': 20, 'dropped_ids': 40, 'dropped_unc': 40,
        'same_exception': 4}

B = [ClassicBValueEstimator, UtsuBValueEstimator, BPositiveBValueEstimator,
     BMorePositiveBValueEstimator]
A = [ClassicAValueEstimator, APositiveAValueEstimator,
     AMorePositiveAValueEstimator]
META = ['name', 'mc', 'a_value', 'delta_m', 'b_value', 'starttime', 'endtime',
        'bounding_polygon', 'depth_min', 'depth_max']


def build(rng, deltas=('0.1', '0.2', '0.5'), k0=None):
    """catalogue with a random choice of attributes; its grid and columns"""
    ds = choice(rng, list(deltas))
    x, d, mc = api.mags(rng, delta=ds, k0=k0)
    n = len(x)
    cols = {'magnitude': x}
    if chance(rng, .8):
        cols['time'] = api.times(rng, n)
    if chance(rng, .4):
        cols['weight'] = rng.uniform(.2, 3, n)
        if chance(rng, .15):
            cols['weight'][rng.integers(0, n)] = choice(rng, [np.nan, 0])
    if chance(rng, .3):     # incomplete information on the events
        cols['note'] = np.where(rng.random(n) < .5, np.nan, 1.)
    full = chance(rng, .5)
    if not full and 'time' in cols and chance(rng, .2):
        cols['times'] = cols.pop('time')    # the name of the argument
    if full:
        cols.update(longitude=rng.uniform(5, 11, n), magnitude_type='ML',
                    latitude=rng.uniform(45, 48, n), depth=5.0)
        cols.setdefault('time', api.times(rng, n))
    kw = {}
    if chance(rng, .5):
        kw['index'] = rng.permutation(n) * 2 + 3
    cls = Catalog
    if full and chance(rng, .25):
        cls = ForecastCatalog
        cols['catalog_id'] = rng.integers(0, 3, n)
    cat = cls(cols, **kw)
    cat.name = 'x'
    cat.depth_max = 7.5
    if chance(rng, .6):
        cat.mc = mc
    if chance(rng, .6):
        cat.delta_m = d
    if chance(rng, .5):
        cat.b_value = float(rng.uniform(.6, 1.6))
    if chance(rng, .5):
        cat.a_value = 3.3
    if chance(rng, .2):     # gone through pandas
        cat = cat[list(cat.columns)].copy()
    return cat, ds, d, mc


def outcome(f):
    try:
        return 'ok', f()
    except Exception as e:      # noqa
        return 'raised', e


def state(cat):
    return pd.DataFrame(cat).copy(), {k: snapshot(getattr(cat, k, None))
                                      for k in META}


def judge_state(m, cat, before, update, what):
    """nothing but the attributes of `update` changed"""
    data, meta = before
    exp = dict(meta, **update)
    now = {k: getattr(cat, k, None) for k in META}
    bad = [k for k in META if not (
        same(now[k], exp[k]) or (isinstance(exp[k], float)
                                 and close(now[k], exp[k])))]
    m.check(not bad, 'attributes', '%s: attributes %s are %r, expected %r' % (
        what, bad, [now[k] for k in bad], [exp[k] for k in bad]))
    m.check(same(pd.DataFrame(cat).copy(), data), 'data_changed',
            '%s changed the data of the catalogue' % what)


def compare(m, got, exp, what):
    m.check(equalish(got, exp), 'result', '%s: the method gives %r, the '
            'function with the resolved arguments %r' % (what, got, exp))


def equalish(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equalish(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return all(equalish(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bool, type)) or isinstance(b, (str, bool, type)):
        return a == b
    if close(a, b):
        return True
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype.kind in 'MmO' and a.shape == b.shape and \
        bool(np.all((a == b) | (pd.isna(a) & pd.isna(b))))


def resolve(rng, cat, ds, d, mc):
    """explicit mc/delta_m and what the method has to use"""
    kw = {}
    if chance(rng, .4):
        r = rng.random()
        k = round(mc / d)
        kw['mc'] = 0.0 if r < .25 else float(
            canon(np.array([k + int(rng.integers(0, 4))]), ds)[0])
    if chance(rng, .4):
        kw['delta_m'] = 0.0 if chance(rng, .2) else d
    use = (kw.get('mc', cat.mc), kw.get('delta_m', cat.delta_m))
    return kw, use


def w_b(m, rng, i):
    zero = chance(rng, .3)
    cat, ds, d, mc = build(rng, k0=0 if zero else None)
    kw, (umc, ud) = resolve(rng, cat, ds, d, mc)
    cls = choice(rng, B)
    n = len(cat)
    ref = {}
    if chance(rng, .3):
        kw['weights'] = rng.uniform(.2, 3, n)
        if chance(rng, .3):
            kw['weights'] = list(kw['weights'])
    if cls in B:    # all of them support weights
        if 'weights' in kw:
            ref['weights'] = np.array(kw['weights'])
            m.saw('b_weights_explicit')
        elif 'weight' in cat.columns:
            ref['weights'] = cat['weight'].to_numpy(copy=True)
            m.saw('b_weight_column')
    needs_times = cls in B[2:]
    if needs_times:
        if chance(rng, .3):
            kw['times'] = api.times(rng, n)
            ref['times'] = kw['times'].copy()
            m.saw('b_times_explicit')
        elif 'time' in cat.columns or 'times' in cat.columns:
            col = 'time' if 'time' in cat.columns else 'times'
            ref['times'] = cat[col].to_numpy(copy=True)
            m.saw('b_time_column')
            m.saw('plural_column', col == 'times')
        if chance(rng, .5):
            kw['dmc'] = ref['dmc'] = d * int(rng.integers(1, 4))
    if cls is not ClassicBValueEstimator or chance(rng, .5):
        kw['method'] = cls
    before = state(cat)
    np.random.seed(i)
    ok, est = outcome(lambda: cat.estimate_b(**kw))
    what = '%s.estimate_b(%s)' % (type(cat).__name__, ', '.join(sorted(kw)))
    m.sample(call=what, explicit={k: v for k, v in kw.items() if k != 'times'
                                  and k != 'weights'}, used=(umc, ud))
    if umc is None or ud is None:
        m.saw('unresolved')
        m.case(i, nontrivial=False)
        m.check(ok == 'raised' and isinstance(est, ValueError), 'unset',
                '%s without mc (%r) or delta_m (%r): %r' % (what, umc, ud, est))
        return judge_state(m, cat, before, {}, what)

    def f():
        e = cls()
        e.calculate(np.array(before[0]['magnitude']), umc, ud, **ref)
        return e
    np.random.seed(i)
    rok, rest = outcome(f)
    m.case(i, nontrivial=ok == 'ok')
    if not m.check(ok == rok and (ok == 'ok' or type(est) is type(rest)),
                   'raised', '%s: %s %r, but the estimator with the resolved '
                   'arguments: %s %r' % (what, ok, est, rok, rest)):
        return
    if ok == 'raised':
        m.saw('same_exception')
        return judge_state(m, cat, before, {}, what)
    m.saw('b_calls')
    m.saw('b_zero_mc', umc == 0)
    m.saw('b_zero_delta', ud == 0)
    m.saw('b_attr_mc', 'mc' not in kw)
    m.saw('b_attr_delta', 'delta_m' not in kw)
    m.check(isinstance(est, cls), 'type', '%s returned %r' % (what, type(est)))
    compare(m, api.norm(est), api.norm(rest), what)
    judge_state(m, cat, before, {'b_value': rest.b_value}, what)


def w_a(m, rng, i):
    cat, ds, d, mc = build(rng, k0=0 if chance(rng, .3) else None)
    kw, (umc, ud) = resolve(rng, cat, ds, d, mc)
    cls = choice(rng, A)
    n = len(cat)
    ref = {}
    if cls in A[1:]:
        if chance(rng, .3):
            kw['times'] = api.times(rng, n)
            ref['times'] = kw['times'].copy()
        elif 'time' in cat.columns or 'times' in cat.columns:
            col = 'time' if 'time' in cat.columns else 'times'
            ref['times'] = cat[col].to_numpy(copy=True)
            m.saw('a_time_column')
        if chance(rng, .5):
            kw['dmc'] = ref['dmc'] = d * int(rng.integers(1, 4))
    if chance(rng, .5) or cls is A[2]:
        kw['b_value'] = ref['b_value'] = float(rng.uniform(.6, 1.6))
        if chance(rng, .7):
            kw['m_ref'] = ref['m_ref'] = choice(rng, [0.0, 2.0, -1.0])
            m.saw('a_m_ref')
    elif chance(rng, .15):      # (rejected without a b-value)
        kw['m_ref'] = ref['m_ref'] = choice(rng, [0.0, 2.0])
    if chance(rng, .5):
        kw['scaling_factor'] = ref['scaling_factor'] = float(
            choice(rng, [1.0, .5, 30.]))
    if cls is not A[0] or chance(rng, .5):
        kw['method'] = cls
    before = state(cat)
    ok, est = outcome(lambda: cat.estimate_a(**kw))
    what = '%s.estimate_a(%s)' % (type(cat).__name__, ', '.join(sorted(kw)))
    if umc is None or ud is None:
        m.saw('unresolved')
        m.case(i, nontrivial=False)
        m.check(ok == 'raised' and isinstance(est, ValueError), 'unset',
                '%s without mc (%r) or delta_m (%r): %r' % (what, umc, ud, est))
        return judge_state(m, cat, before, {}, what)

    def f():
        e = cls()
        e.calculate(np.array(before[0]['magnitude']), mc=umc, delta_m=ud,
                    **ref)
        return e
    rok, rest = outcome(f)
    m.case(i, nontrivial=ok == 'ok')
    if not m.check(ok == rok and (ok == 'ok' or type(est) is type(rest)),
                   'raised', '%s: %s %r, but the estimator with the resolved '
                   'arguments: %s %r' % (what, ok, est, rok, rest)):
        return
    if ok == 'raised':
        m.saw('same_exception')
        return judge_state(m, cat, before, {}, what)
    m.saw('a_calls')
    m.saw('a_attr_mc', 'mc' not in kw)
    compare(m, api.norm(est), api.norm(rest), what)
    judge_state(m, cat, before, {'a_value': rest.a_value}, what)


def w_mc(m, rng, i):
    cat, ds, d, mc = build(rng, deltas=('0.1', '0.2'))
    kind = choice(rng, ['maxc', 'stability', 'ks'])
    mag = np.array(cat['magnitude'])
    kw, ref = {}, {}

    def both(k, v):
        kw[k], ref[k] = v, snapshot(v)
    ud = cat.delta_m
    if kind == 'maxc':
        both('fmd_bin', choice(rng, [d, 2 * d]))
        if chance(rng, .5):
            both('correction_factor', choice(rng, [0.0, .3, .2]))
        fun, meth, ud = estimate_mc_maxc, cat.estimate_mc_maxc, d
    else:
        if chance(rng, .5):
            kw['delta_m'] = ud = 0. if chance(rng, .1) else d
        if chance(rng, .5):
            k = np.unique(round(mc / d) + rng.integers(-1, 6, 3))
            both('mcs_test', canon(k, ds))
        if chance(rng, .5):
            both('stop_when_passed', chance(rng, .5))
        if chance(rng, .3):
            both('b_method', UtsuBValueEstimator)
        elif chance(rng, .3) and 'time' in cat.columns:
            both('b_method', BPositiveBValueEstimator)
            both('times', cat['time'].to_numpy(copy=True))
        elif chance(rng, .3):
            both('weights', rng.uniform(.5, 2, len(mag)))
        if kind == 'stability':
            if chance(rng, .5):
                both('stability_range', choice(rng, [.4, .8]))
            fun, meth = estimate_mc_b_stability, cat.estimate_mc_b_stability
        else:
            both('n', 30)
            if chance(rng, .5):
                both('p_value_pass', choice(rng, [0.01, .5]))
            if chance(rng, .3):
                both('b_value', float(choice(rng, [.8, 1.1])))
                m.saw('ks_b_explicit')
            elif cat.b_value is not None:
                ref['b_value'] = cat.b_value
                m.saw('ks_b_attribute')
            fun, meth = estimate_mc_ks, cat.estimate_mc_ks
        ref['delta_m'] = ud
    before = state(cat)
    np.random.seed(i)
    ok, r = outcome(lambda: meth(**kw))
    what = 'estimate_mc_%s(%s)' % (kind, ', '.join(sorted(kw)))
    if ud is None:
        m.saw('unresolved')
        m.case(i, nontrivial=False)
        m.check(ok == 'raised' and isinstance(r, ValueError), 'unset',
                '%s without delta_m: %r' % (what, r))
        return judge_state(m, cat, before, {}, what)
    np.random.seed(i)
    rok, rr = outcome(lambda: fun(mag, **ref))
    m.case(i, nontrivial=ok == 'ok')
    if not m.check(ok == rok and (ok == 'ok' or type(r) is type(rr)),
                   'raised', '%s: %s %r, but the function with the resolved '
                   'arguments: %s %r' % (what, ok, r, rok, rr)):
        return
    if ok == 'raised':
        m.saw('same_exception')
        return judge_state(m, cat, before, {}, what)
    m.saw(kind)
    compare(m, api.norm(r), api.norm(rr), what)
    judge_state(m, cat, before, {'mc': rr[0] if rr[0] is None
                                 else float(rr[0])}, what)


def w_plots(m, rng, i):
    cat, ds, d, mc = build(rng)
    if len(cat) > 80:
        cat = cat[:80]
    kind = choice(rng, ['cum_fmd', 'fmd', 'mc_vs_b', 'cum_count',
                        'mags_in_time', 'in_space'])
    need = {'cum_count': ['time'], 'mags_in_time': ['time'],
            'in_space': ['longitude']}.get(kind, [])
    n = len(cat)
    for c in need:
        if c not in cat.columns:
            cat[c] = api.times(rng, n) if c == 'time' else \
                rng.uniform(5, 11, n)
    if kind == 'in_space' and 'latitude' not in cat.columns:
        cat['latitude'] = rng.uniform(45, 48, n)
    x = np.array(cat['magnitude'])
    kw, ref = {}, {}

    def both(k, v):
        kw[k], ref[k] = v, snapshot(v)
    if kind in ('cum_fmd', 'fmd', 'cum_count') and chance(rng, .4):
        both('weights', rng.uniform(.5, 2, n))
    if kind in ('cum_fmd', 'fmd'):
        if chance(rng, .5):
            both('bin_position', choice(rng, ['left', 'center']))
        if chance(rng, .5):
            both('color', 'red')
        if chance(rng, .3):
            both('label', choice(rng, ['abc', False]))
        if chance(rng, .3):
            both('grid', True)
        if chance(rng, .3):
            both('size', 4)
    if kind == 'cum_fmd':
        for k, v, attr in [('mc', choice(rng, [mc, mc, 0.0]), 'mc'),
                           ('fmd_bin', choice(rng, [d, 2 * d, 0]), 'delta_m'),
                           ('b_value', 1.3, 'b_value')]:
            if chance(rng, .4):
                both(k, v)
                m.saw('plot_zero', v == 0)
            else:
                ref[k] = getattr(cat, attr)
                m.saw('plot_attr', ref[k] is not None)
        if chance(rng, .3):
            both('color_line', 'green')
        if chance(rng, .3):
            both('label_line', 'def')
        fun, args = plot_cum_fmd, (x,)
    elif kind == 'fmd':
        both('fmd_bin', d)
        fun, args = plot_fmd, (x,)
    elif kind == 'mc_vs_b':
        both('mcs', canon(np.unique(round(mc / d) + rng.integers(0, 4, 3)),
                          ds))
        if chance(rng, .5):
            both('delta_m', choice(rng, [d, d, 0]))
        else:
            ref['delta_m'] = cat.delta_m
            m.saw('plot_attr', cat.delta_m is not None)
        if chance(rng, .4):
            both('confidence_interval', .8)
        if chance(rng, .3):
            both('b_method', UtsuBValueEstimator)
        if chance(rng, .3):
            both('color', 'red')
            both('label', 'u')
        if chance(rng, .3):
            both('weights', rng.uniform(.5, 2, n))
        fun, args = plot_mc_vs_b, (x,)
    elif kind == 'cum_count':
        if chance(rng, .5):
            both('mcs', canon(np.unique(round(mc / d) + rng.integers(
                0, 4, 2)), ds))
        if chance(rng, .5):
            both('delta_m', choice(rng, [d, 0, 3 * d, 5 * d]))
        else:
            ref['delta_m'] = cat.delta_m
            m.saw('plot_attr', cat.delta_m is not None)
        if chance(rng, .4):
            both('normalize', False)
        if chance(rng, .3):
            both('color', 'red')
        fun, args = plot_cum_count, (cat['time'].copy(), x)
    else:
        if chance(rng, .4):
            both('dot_smallest', 5)
        if chance(rng, .4):
            both('dot_largest', 50)
        if chance(rng, .4):
            both('dot_interpolation_power', 3)
        if chance(rng, .3):
            both('color_dots', 'red')
        elif chance(rng, .4):
            both('color_dots', rng.uniform(0, 9, n))
            if chance(rng, .7):
                both('cmap', 'magma')
        if kind == 'mags_in_time':
            if chance(rng, .5):
                t = np.sort(api.times(rng, 2))
                both('mc_change_times', [pd.Timestamp(v) for v in t])
                both('mcs', [1.5, 1.0])
                if chance(rng, .5):
                    both('color_line', 'green')
            fun, args = plot_mags_in_time, (cat['time'].copy(), x)
        else:
            both('dot_labels', None)
            fun, args = plot_in_space, (cat['longitude'].to_numpy(copy=True),
                                        cat['latitude'].to_numpy(copy=True),
                                        x)
    before = state(cat)
    try:
        ok, r = outcome(lambda: api.axes_data(
            getattr(cat, 'plot_' + kind)(**kw)))
        plt.close('all')
        rok, rr = outcome(lambda: api.axes_data(fun(*args, **ref)))
    finally:
        plt.close('all')
    what = 'plot_%s(%s)' % (kind, ', '.join(sorted(kw)))
    m.case(i, nontrivial=ok == 'ok')
    if not m.check(ok == rok and (ok == 'ok' or type(r) is type(rr)),
                   'raised', '%s: %s %r, but the function with the resolved '
                   'arguments: %s %r' % (what, ok, r, rok, rr)):
        return
    if ok == 'ok':
        m.saw('plots')
        m.saw('plot_' + kind)
        bad = [k for k in r if not same(r[k], rr[k])]
        m.check(not bad, 'plot', '%s draws something else than the function: '
                '%s' % (what, bad), method={k: r[k] for k in bad},
                function={k: rr[k] for k in bad})
    judge_state(m, cat, before, {}, what)


IDS = ('eventID', 'originID', 'magnitudeID')
UNC = ('_uncertainty', '_lowerUncertainty', '_upperUncertainty',
       '_confidenceLevel')
REQ = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
       'magnitude_type']
POOL = ['eventID', 'originID', 'magnitudeID', 'magnitude_Mw_magnitudeID',
        'magnitude_uncertainty', 'depth_lowerUncertainty',
        'time_upperUncertainty', 'longitude_confidenceLevel',
        'magnitude_Mw_uncertainty', 'magnitude_Mw', 'uncertainty_note',
        'eventID_note', 'event_type', 'depth_uncertainty_kind',
        'time_confidenceLevels', 'old_originID_of', 'magnitudeIDs', 'mc', 'weight', 'times', 'ids',
        'event id', 'evaluationMode', 'azimuthalgap', 'catalog_id']


def w_columns(m, rng, i):
    n = int(rng.integers(0, 6))
    cls = choice(rng, [Catalog, ForecastCatalog])
    cols = list(REQ) + [c for c in POOL if chance(rng, .45)]
    if cls is ForecastCatalog and 'catalog_id' not in cols:
        cols.append('catalog_id')
    cols = [cols[j] for j in rng.permutation(len(cols))]
    data = {c: ['2020-01-01'] * n if c == 'time' else
            ['ML'] * n if c == 'magnitude_type' else
            rng.uniform(0, 5, n) for c in cols}
    cat = cls(data)
    cat.mc, cat.name, cat.delta_m = 1.5, 'nm', .1
    fc = cls is ForecastCatalog
    if fc:
        cat.n_catalogs = 9
    if chance(rng, .4):     # gone through pandas operations
        cat = choice(rng, [lambda c: c.copy(), lambda c: c[c.depth > -1],
                           lambda c: c.sort_values('magnitude')])(cat)
    if not fc and chance(rng, .3):     # becomes a forecast catalogue
        cat['catalog_id'] = 1
        cat = cat.copy()
        fc = isinstance(cat, ForecastCatalog)
        if 'catalog_id' not in cols:
            cols.append('catalog_id')
        m.check(fc, 'type', 'a catalogue with catalog_id did not become a '
                'ForecastCatalog by copy()')
    elif not fc:
        fc = isinstance(cat, ForecastCatalog)
    op = choice(rng, ['strip', 'strip_inplace', 'drop_ids',
                      'drop_uncertainties'])
    before = state(cat)
    if op == 'strip':
        r = cat.strip()
    elif op == 'strip_inplace':
        work = cat.copy()
        fc = isinstance(work, ForecastCatalog)
        r = work
        m.check(work.strip(inplace=True) is None, 'result', 'strip in place '
                'returned something')
    else:
        r = getattr(cat, op)()
    if op.startswith('strip'):
        m.saw('strip')
        m.saw('strip_forecast', fc)
        exp = [c for c in cols if c in REQ or (fc and c == 'catalog_id')]
    elif op == 'drop_ids':
        exp = [c for c in cols if not c.endswith(IDS)]
        m.saw('dropped_ids', len(exp) < len(cols))
    else:
        exp = [c for c in cols if not c.endswith(UNC)]
        m.saw('dropped_unc', len(exp) < len(cols))
    m.case(op, tuple(cols), fc, nontrivial=len(exp) < len(cols))
    m.check(list(r.columns) == exp, 'columns', '%s of columns %s keeps %s, '
            'expected %s' % (op, cols, list(r.columns), exp))
    m.check(same(pd.DataFrame(r).copy(),
                 before[0][[c for c in exp if c in before[0]]]),
            'values', '%s changed values or rows' % op)
    m.check(all(same(getattr(r, k, None), before[1][k]) for k in META),
            'attributes', '%s lost attributes' % op)
    m.check(isinstance(r, ForecastCatalog if fc and 'catalog_id' in exp
                       else Catalog), 'type', '%s returned %s' % (op, type(r)))
    if op != 'strip_inplace':
        judge_state(m, cat, before, {}, op)


WORKLOADS = [('estimate_b', w_b, 700, 7000), ('estimate_a', w_a, 500, 5000),
             ('estimate_mc', w_mc, 400, 3000), ('plots', w_plots, 600, 3000),
             ('columns', w_columns, 600, 4000)]
