"""The public API as a universe of calls, shared by the monitors of
cross-cutting properties (history independence, argument purity, warnings
option).

An entry is  name -> maker(rng) -> Call(fn, args, kwargs, sig)  where fn(*args,
**kwargs) returns something that `norm` turns into plain comparable data.
All randomness of the code under test goes through numpy's global generator,
which `Call.run` seeds.
"""
import re

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from seismostats import (Catalog, ForecastCatalog,  # noqa: E402
                         ForecastGRRateGrid, GRRateGrid)
from seismostats.analysis import (  # noqa: E402
    AMorePositiveAValueEstimator, APositiveAValueEstimator,
    BMorePositiveBValueEstimator, BPositiveBValueEstimator,
    ClassicAValueEstimator, ClassicBValueEstimator, UtsuBValueEstimator,
    estimate_a, estimate_b, estimate_mc_b_stability, estimate_mc_ks,
    estimate_mc_maxc)
from seismostats.analysis.b_significant import (  # noqa: E402
    b_significant_1D, cut_constant_idx, est_morans_i, transform_n,
    values_from_partitioning)
from seismostats.analysis.bvalue.kijko_smit import \
    estimate_b_kijko_smit  # noqa: E402
from seismostats.analysis.bvalue.utils import (  # noqa: E402
    bootstrap_std, find_next_larger, make_more_incomplete,
    shi_bolt_confidence)
from seismostats.analysis.bvalue.weichert import \
    estimate_b_weichert  # noqa: E402
from seismostats.analysis.declustering.dec_gardner_knopoff import \
    GardnerKnopoffType1  # noqa: E402
from seismostats.analysis.declustering.distance_time_windows import (  # noqa
    GardnerKnopoffWindow, GruenthalWindow, UhrhammerWindow)
from seismostats.analysis.declustering.utils import haversine  # noqa: E402
from seismostats.analysis.estimate_mc import (cdf_discrete_exp,  # noqa: E402
                                              ks_test_gr)
from seismostats.analysis.magnitudes import apply_edwards  # noqa: E402
from seismostats.io import parse_quakeml  # noqa: E402
from seismostats.analysis.lilliefors import \
    ks_test_gr_lilliefors  # noqa: E402
from seismostats.plots.basics import (dot_size, gutenberg_richter,  # noqa
                                      plot_cum_count, plot_cum_fmd, plot_fmd,
                                      plot_mags_in_time, reverse_dot_size)
from seismostats.plots.seismicity import plot_in_space  # noqa: E402
from seismostats.plots.statistical import (  # noqa: E402
    plot_b_series_constant_nm, plot_b_significant_1D, plot_mc_vs_b)
from seismostats.utils import cat_intersect_polygon  # noqa: E402
from seismostats.utils.binning import (bin_to_precision,  # noqa: E402
                                       binning_test, get_cum_fmd, get_fmd)
from seismostats.utils.coordinates import (  # noqa: E402
    CoordinateTransformer, bounding_box_to_polygon, polygon_to_bounding_box)
from seismostats.utils.simulate_distributions import (  # noqa: E402
    dither_magnitudes, simulate_magnitudes, simulate_magnitudes_binned)

from vlib.ref import canon  # noqa: E402
from vlib.util import chance, choice, same, snapshot  # noqa: E402

B_SIMPLE = [ClassicBValueEstimator, UtsuBValueEstimator]
B_POS = [BPositiveBValueEstimator, BMorePositiveBValueEstimator]
A_ALL = [ClassicAValueEstimator, APositiveAValueEstimator,
         AMorePositiveAValueEstimator]


class Call:
    def __init__(self, name, fn, args, kwargs, seed):
        self.name, self.fn = name, fn
        self.args, self.kwargs, self.seed = args, kwargs, seed

    def run(self, args=None, kwargs=None):
        """Normalised outcome ('ok', data) or ('raised', type, text)"""
        np.random.seed(self.seed)
        try:
            r = self.fn(*(self.args if args is None else args),
                        **(self.kwargs if kwargs is None else kwargs))
            return ('ok', norm(r))
        except Exception as e:          # noqa
            return ('raised', type(e).__name__, str(e))
        finally:
            plt.close('all')

    def fresh(self):
        """deep copies of the arguments"""
        return snapshot(self.args), snapshot(self.kwargs)


def norm(r):
    """Detached plain data of a result"""
    if isinstance(r, tuple(B_SIMPLE + B_POS)):
        d = {}
        for k in ['b_value', 'beta', 'n', 'idx', 'magnitudes', 'weights',
                  'times', 'mc', 'delta_m', 'dmc']:
            if hasattr(r, k):
                d[k] = norm(getattr(r, k))
        if not isinstance(r, BMorePositiveBValueEstimator):
            d['std'] = norm(r.std)      # else bootstrapped, unseeded
        return d
    if isinstance(r, tuple(A_ALL)):
        return {k: norm(getattr(r, k)) for k in [
            'a_value', 'n', 'idx', 'magnitudes', 'times', 'mc', 'delta_m',
            'dmc', 'scaling_factor', 'm_ref', 'b_value'] if hasattr(r, k)}
    if isinstance(r, plt.Axes):
        return axes_data(r)
    if isinstance(r, tuple):
        return tuple(norm(x) for x in r)
    if isinstance(r, list):
        return [norm(x) for x in r]
    if isinstance(r, dict):
        return {k: norm(v) for k, v in r.items()}
    if type(r).__name__ == 'Catalogue' and isinstance(
            getattr(r, 'data', None), dict):        # OpenQuake's
        return {str(k): norm(v) for k, v in r.data.items()}
    if isinstance(r, str):      # created IDs are random
        return re.sub(r'\b[0-9a-f]{32}\b', 'UUID', r)
    return snapshot(r)


def axes_data(ax):
    d = {'lines': [], 'points': [], 'title': ax.get_title(),
         'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(),
         'xscale': ax.get_xscale(), 'yscale': ax.get_yscale(),
         'xlim': tuple(map(float, ax.get_xlim())),
         'ylim': tuple(map(float, ax.get_ylim()))}
    for ln in ax.lines:
        d['lines'].append((np.array(ln.get_xdata(orig=False), dtype=float),
                           np.array(ln.get_ydata(orig=False), dtype=float),
                           str(ln.get_color()), str(ln.get_label())))
    for c in ax.collections:
        d['points'].append((np.array(np.ma.filled(np.ma.asarray(
            c.get_offsets(), dtype=float), np.nan)),
            np.array(c.get_sizes(), dtype=float)
            if hasattr(c, 'get_sizes') else None,
            np.array(c.get_facecolor(), dtype=float),
            None if c.get_array() is None else (
                c.get_cmap().name, np.array(c.get_array(), dtype=float))))
    leg = ax.get_legend()
    d['legend'] = None if leg is None else [t.get_text()
                                            for t in leg.get_texts()]
    return d


# ---------------------------------------------------------------- ingredients
def mags(rng, n=None, delta=None, k0=None):
    """(magnitude array, delta, mc): GR-like binned sample complete from mc"""
    ds = delta or choice(rng, ['0.1', '0.2', '0.01', '0.5', '0.12', '0.125',
                               '0.201', '0.1', '0.05'])
    d = float(ds)
    n = n or int(rng.integers(40, 160))
    k0 = int(rng.integers(0, int(2.5 / d))) if k0 is None else k0
    k = k0 + np.floor(rng.exponential(1 / (2.3 * d), n)).astype(int)
    below = max(1, int(0.3 / d))
    cut = chance(rng, .5)
    mc_k = k0 + (int(rng.integers(0, below + 1)) if cut else 0)
    x = canon(k, ds)
    if chance(rng, .3):         # with the rounding errors of a computation
        x = k * d
    return x, d, float(canon(np.array([mc_k]), ds)[0])


def weights(rng, n):
    return rng.uniform(.5, 2, n) * choice(rng, [1, 1, 1e-3, 1e4])


def box(rng, x, lists=False):
    """one of the accepted containers around an array"""
    r = int(rng.integers(0, 3 if lists else 2))
    if r == 0:
        return np.array(x)
    if r == 1:
        s = pd.Series(x)
        if chance(rng, .5):
            s.index = rng.permutation(len(s)) + 7
        return s
    return list(x)


def times(rng, n, sort=None):
    sec = rng.choice(10 ** 7, n, replace=False)
    if chance(rng, .5) if sort is None else sort:
        sec = np.sort(sec)
    t = np.datetime64('2003-02-01T00:00:00', 'ns') + \
        (sec * 10 ** 9).astype('timedelta64[ns]')
    return t


def catalog(rng, n=None, extra=True, cls=Catalog, index=True):
    """A catalogue with all kinds of columns and all metadata set"""
    m, d, mc = mags(rng, n, '0.1')
    n = len(m)
    df = {'longitude': rng.uniform(5, 11, n), 'latitude':
          rng.uniform(45, 48, n), 'depth': rng.uniform(0, 30, n),
          'time': times(rng, n), 'magnitude': m,
          'magnitude_type': [choice(rng, ['ML', 'Mw', 'Md'])
                             for _ in range(n)]}
    if extra:
        df['event_type'] = [choice(rng, ['earthquake', 'explosion', None])
                            for _ in range(n)]
        df['magnitude_uncertainty'] = np.where(rng.random(n) < .2, np.nan,
                                               rng.uniform(.01, .3, n))
        df['depth_uncertainty'] = rng.uniform(.1, 3, n)
        for c in ['eventID', 'originID', 'magnitudeID']:
            df[c] = ['smi:x/%s/%d' % (c, i) for i in range(n)]
        df['magnitude_Mw'] = np.where(rng.random(n) < .3, np.nan, m + .1)
        df['usedphasecount'] = rng.integers(3, 40, n).astype(float)
    if cls is ForecastCatalog:
        df['catalog_id'] = rng.integers(0, 4, n)
    from shapely.geometry import box as sbox
    kw = dict(name='c%d' % n, mc=mc, delta_m=d, b_value=1.1, a_value=2.5,
              starttime='2003-01-01', endtime='2004-01-01',
              bounding_polygon=sbox(5, 45, 11, 48), depth_min=0.0,
              depth_max=30.0)
    if cls is ForecastCatalog:
        kw['n_catalogs'] = 7
    if index and chance(rng, .5):
        kw['index'] = rng.permutation(n) * 3 + 5
    return cls(df, **kw)


def grid(rng, cls=GRRateGrid, n=None):
    n = n or int(rng.integers(2, 9))
    reps = int(rng.integers(2, 5)) if cls is ForecastGRRateGrid else 1
    lo = np.arange(n, dtype=float)
    df = pd.DataFrame({
        'longitude_min': np.tile(lo, reps),
        'longitude_max': np.tile(lo + 1, reps), 'latitude_min': 45.0,
        'latitude_max': 46.0, 'depth_min': 0.0, 'depth_max': 10.0,
        'number_events': rng.integers(0, 50, n * reps).astype(float),
        'a': rng.uniform(0, 4, n * reps), 'b': rng.uniform(.5, 2, n * reps),
        'mc': np.round(rng.uniform(0, 3, n * reps), 1)})
    kw = dict(name='g', starttime='2020-01-01', endtime='2020-01-02')
    if cls is ForecastGRRateGrid:
        df['grid_id'] = np.repeat(np.arange(reps), n)
        kw['n_grids'] = reps + 1
    return cls(df, **kw)


def completeness(rng):
    """table rows [magnitude bin edge, year] for Weichert / Kijko-Smit"""
    return np.array([[2.0, 1990], [3.0, 1960], [4.0, 1900]])


def dated(rng, n):
    y = rng.integers(1900, 2010, n)
    return [np.datetime64('%d-%02d-%02d' % (a, b, c)) for a, b, c in zip(
        y, rng.integers(1, 13, n), rng.integers(1, 28, n))]


# -------------------------------------------------------------------- entries
def _entries():
    E = {}

    def add(name):
        def deco(f):
            E[name] = f
            return f
        return deco

    @add('bin_to_precision')
    def _(rng):
        x, d, mc = mags(rng)
        x = box(rng, x + rng.uniform(-d, d, len(x)), lists=True)
        return bin_to_precision, (x, d), {}

    @add('binning_test')
    def _(rng):
        x, d, mc = mags(rng)
        if chance(rng, .3):
            x[int(rng.integers(0, len(x)))] = np.nan
        kw = {}
        if chance(rng, .3):
            kw['tolerance'] = 1e-9
        return binning_test, (box(rng, x, True), choice(rng, [d, d, 0])), \
            dict(kw, check_larger_binning=chance(rng, .5))

    @add('get_fmd')
    def _(rng):
        x, d, mc = mags(rng)
        kw = {}
        if chance(rng, .5):
            kw['weights'] = box(rng, weights(rng, len(x)), False)
        kw['bin_position'] = choice(rng, ['center', 'left'])
        f = choice(rng, [get_fmd, get_cum_fmd])
        return f, (box(rng, x), 0 if f is get_cum_fmd and chance(rng, .3)
                   else d), kw

    def b_call(rng, method, functional):
        x, d, mc = mags(rng)
        n = len(x)
        if chance(rng, .3):
            x[int(rng.integers(0, n))] = np.nan
        kw = {}
        if method in B_POS:
            kw['times'] = times(rng, n)
            if chance(rng, .5):
                kw['dmc'] = d * int(rng.integers(1, 3))
        if chance(rng, .5):
            kw['weights'] = box(rng, weights(rng, n), True)
        if functional:
            kw['method'] = method
            kw['return_std'] = chance(rng, .5)
            kw['return_n'] = chance(rng, .5)
            kw['b_parameter'] = choice(rng, ['b_value', 'beta'])

            def g(*a, **k):
                r = estimate_b(*a, **k)
                if k.get('method') is BMorePositiveBValueEstimator and \
                        isinstance(r, tuple) and k.get('return_std'):
                    r = r[:1] + r[2:]   # the bootstrapped one is not seeded
                return r
            return g, (box(rng, x, True), mc, d), kw

        def f(x, mc, d, **k):
            e = method()
            e.calculate(x, mc, d, **k)
            return e
        return f, (box(rng, x, True), mc, d), kw

    for mth in B_SIMPLE + B_POS:
        for fun in (False, True):
            E['%s%s' % ('estimate_b:' if fun else '', mth.__name__)] = \
                (lambda rng, mth=mth, fun=fun: b_call(rng, mth, fun))

    def a_call(rng, method, functional):
        x, d, mc = mags(rng)
        n = len(x)
        kw = {}
        if method is not ClassicAValueEstimator:
            kw['times'] = times(rng, n)
            if chance(rng, .5):
                kw['dmc'] = d * int(rng.integers(1, 3))
        if method is AMorePositiveAValueEstimator or chance(rng, .5):
            kw['b_value'] = float(rng.uniform(.6, 1.6))
            if chance(rng, .5):
                kw['m_ref'] = choice(rng, [0.0, 3.0])
        if chance(rng, .5):
            kw['scaling_factor'] = float(rng.uniform(.1, 50))
        if functional:
            kw['method'] = method
            return estimate_a, (box(rng, x, True), mc, d), kw

        def f(x, mc, d, **k):
            e = method()
            e.calculate(x, mc, d, **k)
            return e
        return f, (box(rng, x, True), mc, d), kw

    for mth in A_ALL:
        for fun in (False, True):
            E['%s%s' % ('estimate_a:' if fun else '', mth.__name__)] = \
                (lambda rng, mth=mth, fun=fun: a_call(rng, mth, fun))

    @add('estimate_mc_maxc')
    def _(rng):
        x, d, mc = mags(rng)
        return estimate_mc_maxc, (box(rng, x), d), dict(
            correction_factor=choice(rng, [.2, 0, -.1]))

    @add('estimate_mc_ks')
    def _(rng):
        x, d, mc = mags(rng, delta='0.1')
        kw = dict(n=20, stop_when_passed=chance(rng, .5))
        if chance(rng, .5):
            kw['mcs_test'] = np.array([mc, canon(np.array(
                [round(mc / d) + 2]), '0.1')[0]])
        if chance(rng, .4):
            kw['b_value'] = 1.0
        elif chance(rng, .6):
            kw['b_method'] = choice(rng, [UtsuBValueEstimator,
                                          BPositiveBValueEstimator])
            if kw['b_method'] is BPositiveBValueEstimator:
                kw['times'] = times(rng, len(x))
        if 'mcs_test' in kw and chance(rng, .3):
            kw['ks_ds_list'] = [[float(v) for v in rng.uniform(0, .3, 15)]
                                for _ in kw['mcs_test']]
            if chance(rng, .4):
                kw['ks_ds_list'] = [np.array(v) for v in kw['ks_ds_list']]
        if 'mcs_test' in kw and chance(rng, .3):
            kw['mcs_test'] = kw['mcs_test'][::-1].copy()
        if 'mcs_test' in kw and chance(rng, .3):
            kw['mcs_test'] = list(kw['mcs_test'])
        if chance(rng, .3):
            kw['verbose'] = True
        return estimate_mc_ks, (box(rng, x), d), kw

    @add('estimate_mc_b_stability')
    def _(rng):
        x, d, mc = mags(rng, delta='0.1')
        kw = dict(stop_when_passed=chance(rng, .5))
        if chance(rng, .5):
            kw['mcs_test'] = np.array([mc, canon(np.array(
                [round(mc / d) + 2]), '0.1')[0]])
        if chance(rng, .3):
            kw['verbose'] = True
        return estimate_mc_b_stability, (box(rng, x), d), kw

    @add('ks_test_gr')
    def _(rng):
        x, d, mc = mags(rng, delta='0.1')
        if chance(rng, .2):
            x = x[:1]
        elif chance(rng, .1):
            x = x[:0]
        elif chance(rng, .5):
            x = x[x >= mc - d / 2]
        kw = dict(n=20)
        if chance(rng, .5):
            kw['ks_ds'] = [float(v) for v in rng.uniform(0, .3, 15)]
            if chance(rng, .4):
                kw['ks_ds'] = np.array(kw['ks_ds'])
        return ks_test_gr, (x, mc, d, 1.0), kw

    @add('ks_test_gr_lilliefors')
    def _(rng):
        x = 1.0 + rng.exponential(.4, 60)
        return ks_test_gr_lilliefors, (x, 1.0), {}

    @add('cdf_discrete_exp')
    def _(rng):
        x, d, mc = mags(rng)
        return cdf_discrete_exp, (x[x >= mc - d / 2], mc, d, 2.3), {}

    @add('p_lilliefors')
    def _(rng):
        x, d, mc = mags(rng, delta='0.1')

        def f(x, mc, d):
            e = ClassicBValueEstimator()
            e.calculate(x, mc, d)
            return e.p_lilliefors(n=5)
        return f, (x, mc, d), {}

    @add('estimate_b_weichert')
    def _(rng):
        x, d, mc = mags(rng, 120, '0.1', 20)
        return estimate_b_weichert, (
            x, dated(rng, 120), completeness(rng), 7.0), dict(
            last_year=choice(rng, [None, 2011, 1980]), delta_m=0.1,
            b_parameter=choice(rng, ['b_value', 'beta']))

    @add('estimate_b_kijko_smit')
    def _(rng):
        x, d, mc = mags(rng, 120, '0.1', 20)
        return estimate_b_kijko_smit, (
            x, dated(rng, 120), completeness(rng)), dict(
            last_year=choice(rng, [None, 2011, 1980]), delta_m=0.1,
            b_parameter=choice(rng, ['b_value', 'beta']))

    @add('shi_bolt_confidence')
    def _(rng):
        x, d, mc = mags(rng)
        kw = {'weights': weights(rng, len(x))} if chance(rng, .5) \
            else {}
        return shi_bolt_confidence, (x, 1.0), kw

    @add('bootstrap_std')
    def _(rng):
        x, d, mc = mags(rng)
        return bootstrap_std, (x, np.mean), dict(
            n=20, random_state=choice(rng, [0, 1, 42]))

    @add('find_next_larger')
    def _(rng):
        x, d, mc = mags(rng)
        return find_next_larger, (x, d, choice(rng, [None, d, 2 * d])), {}

    @add('make_more_incomplete')
    def _(rng):
        x, d, mc = mags(rng)
        return make_more_incomplete, (x, times(rng, len(x))), dict(
            delta_t=np.timedelta64(int(rng.integers(10, 10 ** 5)), 's'),
            return_idx=chance(rng, .5))

    @add('est_morans_i')
    def _(rng):
        n = int(rng.integers(3, 12))
        v = rng.normal(size=n)
        if chance(rng, .3):
            v[int(rng.integers(0, n))] = np.nan
        kw = {}
        if chance(rng, .85):
            w = np.triu(rng.integers(0, 2, (n, n)), 1)
            w[0, 1] = 1
            if chance(rng, .5):
                w = w + w.T
            if chance(rng, .7):
                w[1, 1] = 1
            kw['w'] = w.astype(choice(rng, [int, float]))
        return est_morans_i, (box(rng, v, True), ), kw

    @add('transform_n')
    def _(rng):
        return transform_n, (rng.uniform(.5, 2, 5), 1.0, 50, 200), {}

    @add('cut_constant_idx')
    def _(rng):
        return cut_constant_idx, (rng.normal(size=50), 7), dict(
            offset=int(rng.integers(0, 7)))

    @add('values_from_partitioning')
    def _(rng):
        x, d, mc = mags(rng, 90, '0.1')
        x = x[x >= mc - d / 2]
        m = choice(rng, B_SIMPLE + [ClassicAValueEstimator])
        if chance(rng, .3):
            m = choice(rng, [APositiveAValueEstimator,
                             AMorePositiveAValueEstimator,
                             BPositiveBValueEstimator])
        form = choice(rng, [np.array, list, pd.Series])
        parts = [form(p) for p in np.array_split(x, 4)]
        ts = [form(p) for p in np.array_split(times(rng, len(x)), 4)]
        if form is pd.Series:   # any index
            for a in parts + ts:
                a.index = rng.permutation(len(a)) + 3
        mcs = choice(rng, [mc, [mc] * 4, np.array([mc] * 4)])
        kw = {}
        if m is AMorePositiveAValueEstimator:
            kw['b_value'] = 1.0
        if m in A_ALL and chance(rng, .5):
            kw['list_scaling'] = choice(rng, [list, np.array])(
                [1.0, 2.0, 3.0, 4.0])
        return values_from_partitioning, (parts, ts, mcs, d, m), kw

    @add('b_significant_1D')
    def _(rng):
        x, d, mc = mags(rng, int(rng.integers(60, 250)), '0.1')
        n = len(x)
        mcs = mc if chance(rng, .5) else np.where(
            rng.random(n) < .5, mc, canon(np.array([round(mc / d) + 2]),
                                          '0.1')[0])
        kw = dict(n_m=int(rng.integers(10, 30)))
        if chance(rng, .5):
            kw['x_variable'] = rng.uniform(0, 1, n)
        if chance(rng, .4):
            kw['method'] = choice(rng, [UtsuBValueEstimator,
                                        BPositiveBValueEstimator,
                                        ClassicAValueEstimator])
        if chance(rng, .3):
            kw['conservative'] = False
        if chance(rng, .3):
            kw['min_num'] = 5
        return b_significant_1D, (box(rng, x), mcs, d, times(rng, n)), kw

    @add('declustering')
    def _(rng):
        cat = catalog(rng, extra=False)
        w = choice(rng, [GardnerKnopoffWindow, GruenthalWindow,
                         UhrhammerWindow])
        cut = choice(rng, [None, 30])
        fs = choice(rng, [1.0, .3])

        def f(cat):
            return GardnerKnopoffType1(w(time_cutoff=cut), fs)(cat)
        return f, (cat,), {}

    @add('haversine')
    def _(rng):
        return haversine, (rng.uniform(-180, 180, 9), rng.uniform(-90, 90, 9),
                           7.0, 46.0), {}

    @add('cat_intersect_polygon')
    def _(rng):
        v = [(45, 5), (46.5, 5), (46.5, 9), (45, 8)]
        if chance(rng, .3):
            v = v[:2] + [(45.6, 6.2)] + v[2:]
        if chance(rng, .5):
            v.append(v[0])
        v = choice(rng, [list, tuple, lambda v: np.array(v, dtype=float),
                         lambda v: [list(p) for p in v]])(v)
        return cat_intersect_polygon, (catalog(rng), v), {}

    @add('simulate')
    def _(rng):
        if chance(rng, .5):
            return simulate_magnitudes, (40, 2.3, 1.0), dict(
                mag_max=choice(rng, [None, 3.0]))
        return simulate_magnitudes_binned, (
            40, rng.uniform(.7, 1.5, 40) if chance(rng, .5) else 1.0, 1.0,
            choice(rng, [0.1, 0])), {}

    @add('dither_magnitudes')
    def _(rng):
        x, d, mc = mags(rng, choice(rng, [None, None, 1]))
        return dither_magnitudes, (box(rng, x, True), d, 1.0), {}

    @add('coordinates')
    def _(rng):
        x = rng.uniform(6, 10, 5)
        y = rng.uniform(45, 48, 5)
        z = choice(rng, [None, rng.uniform(0, 10, 5)])
        if chance(rng, .5):
            x, y = list(x), list(y)
            z = None if z is None else list(z)

        def f(x, y, z):
            t = CoordinateTransformer(2056, 2600000, 1200000, 10)
            a = t.to_local_coords(x, y, z)
            return a, t.from_local_coords(*a)
        return f, (x, y, z), {}

    @add('polygons')
    def _(rng):
        def f(a, b, c, d):
            p = bounding_box_to_polygon(a, b, c, d)
            t = CoordinateTransformer(2056, 2600000, 1200000)
            q = t.polygon_to_local_coords(p)
            return p, q, t.polygon_from_local_coords(q), \
                polygon_to_bounding_box(p)
        return f, (6.0, 8.0, 45.0, 47.0), {}

    # ------------------------------------------------------------ catalogues
    def method(name, args=(), **fixed):
        def mk(rng):
            cls = ForecastCatalog if chance(rng, .25) else Catalog
            cat = catalog(rng, cls=cls)
            kw = {k: (v(rng) if callable(v) else v) for k, v in fixed.items()}
            ar = [a(rng) if callable(a) else a for a in args]

            def f(cat, *a, **k):
                r = getattr(cat, name)(*a, **k)
                return r, {x: getattr(cat, x) for x in (
                    'mc', 'b_value', 'a_value', 'delta_m')}
            return f, (cat, *ar), kw
        E['Catalog.' + name] = mk

    method('bin_magnitudes', delta_m=lambda r: choice(r, [None, .1, .5]))
    method('drop_ids')
    method('drop_uncertainties')
    method('strip')
    method('estimate_mc_maxc', args=(0.1,))
    method('estimate_mc_ks', n=15, b_value=lambda r: choice(r, [None, .9]))
    method('estimate_mc_b_stability')
    method('estimate_b', mc=lambda r: choice(r, [None, 2.0]))
    method('estimate_a', mc=lambda r: choice(r, [None, 2.0]))
    method('to_quakeml')
    method('to_openquake')
    method('plot_fmd', args=(0.1,))
    method('plot_cum_fmd', mc=lambda r: choice(r, [None, 2.0]))
    method('plot_cum_count', mcs=lambda r: choice(r, [None, [1.0, 2.0]]))
    method('plot_mags_in_time', mc_change_times=lambda r: choice(r, [
        None, [pd.Timestamp('2003-03-01'), pd.Timestamp('2003-04-01')]]),
        mcs=lambda r: [1.0, 1.5])
    method('plot_mc_vs_b', args=(lambda r: np.array([1.0, 1.5, 2.0]),))
    method('_secondary_magnitudekeys')

    @add('Catalog.estimate_b:positive')
    def _(rng):
        cat = catalog(rng)
        m = choice(rng, B_POS)

        def f(cat, **k):
            e = cat.estimate_b(method=m, **k)
            return e, cat.b_value
        kw = {'dmc': 0.2} if chance(rng, .5) else {}
        if chance(rng, .3):
            kw['times'] = times(rng, len(cat))
        return f, (cat,), kw

    @add('Catalog()')
    def _(rng):
        cat = pd.DataFrame(catalog(rng))
        if chance(rng, .5):
            cat['magnitude'] = cat['magnitude'].map(str)
            cat['time'] = cat['time'].map(lambda t: t.isoformat() + 'Z')

        def f(cat):
            return Catalog(cat, mc=1.0), ForecastCatalog(cat, n_catalogs=3)
        return f, (cat,), {}

    @add('Catalog.from_dict')
    def _(rng):
        d = pd.DataFrame(catalog(rng)).to_dict(
            choice(rng, ['records', 'list']))

        def f(d, **k):
            return Catalog.from_dict(d, **k)
        return f, (d,), dict(include_uncertainties=chance(rng, .5),
                             include_ids=chance(rng, .5))

    @add('Catalog.from_quakeml')
    def _(rng):
        q = norm(catalog(rng, n=int(rng.integers(1, 8))).to_quakeml())

        def f(q, **k):
            return Catalog.from_quakeml(q, **k)
        return f, (q,), {k: chance(rng, .5) for k in (
            'include_all_magnitudes', 'include_uncertainties', 'include_ids',
            'include_quality')}

    @add('GRRateGrid.concat')
    def _(rng):
        cls = choice(rng, [GRRateGrid, ForecastGRRateGrid])
        gs = []
        for j in range(int(rng.integers(1, 4))):
            g = grid(rng, cls, n=4)
            g.starttime = pd.Timestamp('2020-01-0%d' % (j + 1))
            g.endtime = pd.Timestamp('2020-01-0%d' % (j + 2))
            gs.append(g)
        return cls.concat, (gs,), {}

    @add('GRRateGrid.add_time_index')
    def _(rng):
        g = grid(rng, choice(rng, [GRRateGrid, ForecastGRRateGrid]))

        def f(g, endtime):
            return g.add_time_index(endtime)
        return f, (g, chance(rng, .5)), {}

    @add('GRRateGrid.strip')
    def _(rng):
        g = grid(rng, choice(rng, [GRRateGrid, ForecastGRRateGrid]))

        def f(g):
            return g.strip()
        return f, (g,), {}

    @add('ForecastGRRateGrid.calculate_statistics')
    def _(rng):
        g = grid(rng, ForecastGRRateGrid)
        if chance(rng, .5):
            g = g.add_time_index()

        def f(g, **k):
            return g.calculate_statistics(**k)
        return f, (g,), dict(agg_func=choice(rng, ['mean', 'median', 'max']),
                             extra_stats=choice(rng, [
                                 {'std': 'std'}, {'lo': 'min', 'hi': 'max'},
                                 {}]))

    @add('from_openquake')
    def _(rng):
        oq = catalog(rng).to_openquake()
        d = {k: v for k, v in oq.data.items()}

        def f(d, **kw):
            from openquake.hmtk.seismicity.catalogue import Catalogue
            c = Catalogue()
            c.data = d
            return Catalog.from_openquake(c, **kw)
        return f, (d,), dict(keep_time_cols=chance(rng, .5))

    @add('windows')
    def _(rng):
        x, d, mc = mags(rng)
        w = choice(rng, [GardnerKnopoffWindow, GruenthalWindow,
                         UhrhammerWindow])
        cut = choice(rng, [None, 30])

        def f(x):
            return w(time_cutoff=cut)(x)
        return f, (box(rng, x),), {}

    @add('apply_edwards')
    def _(rng):
        return apply_edwards, (choice(rng, ['ML', 'Mw', 'Mw(mB)', 'mb']),
                               float(rng.uniform(0, 8))), {}

    @add('parse_quakeml')
    def _(rng):
        q = catalog(rng, n=4).to_quakeml()

        def f(q, **kw):
            return norm(parse_quakeml(q, **kw))
        return f, (choice(rng, [q, q.encode()]),), dict(
            include_quality=chance(rng, .5))

    @add('ForecastCatalog.to_quakeml')
    def _(rng):
        def f(c):
            return norm(c.to_quakeml('ag', author='me'))
        return f, (catalog(rng, n=12, cls=ForecastCatalog),), {}

    # ----------------------------------------------------------------- plots
    def plot(name):
        def deco(f):
            E['plot:' + name] = f
            return f
        return deco

    @plot('fmd')
    def _(rng):
        x, d, mc = mags(rng)
        kw = dict(bin_position=choice(rng, ['center', 'left']))
        if chance(rng, .4):
            kw['weights'] = box(rng, weights(rng, len(x)))
        return plot_fmd, (box(rng, x), d), kw

    @plot('cum_fmd')
    def _(rng):
        x, d, mc = mags(rng)
        kw = dict(bin_position=choice(rng, ['center', 'left']), fmd_bin=d)
        if chance(rng, .4):
            kw['weights'] = box(rng, weights(rng, len(x)))
        if chance(rng, .6):
            kw.update(mc=mc, b_value=1.1)
        return plot_cum_fmd, (box(rng, x),), kw

    @plot('cum_count')
    def _(rng):
        x, d, mc = mags(rng)
        kw = dict(normalize=chance(rng, .5), delta_m=d)
        if chance(rng, .5):
            kw['mcs'] = choice(rng, [list, np.array])([mc, mc + 2 * d])
            if chance(rng, .5):
                kw['color'] = ['red', 'C1']
        if chance(rng, .5):
            kw['weights'] = box(rng, weights(rng, len(x)), True)
        return plot_cum_count, (box(rng, times(rng, len(x))), box(rng, x)), kw

    @plot('mags_in_time')
    def _(rng):
        x, d, mc = mags(rng)
        t = times(rng, len(x))
        kw = {}
        if chance(rng, .6):
            kw['mc_change_times'] = choice(rng, [[t.min(), t.min(
            ) + np.timedelta64(10 ** 6, 's')], [2000, 2003]])
            kw['mcs'] = choice(rng, [list, np.array])([mc, mc + d])
        if chance(rng, .4):
            kw['color_dots'] = rng.uniform(0, 1, len(x))
            kw['cmap'] = 'magma'
        if chance(rng, .4):
            kw['dot_interpolation_power'] = choice(rng, [0, 1, .5])
        return plot_mags_in_time, (box(rng, t), box(rng, x)), kw

    @plot('in_space')
    def _(rng):
        x, d, mc = mags(rng, 25)

        def f(*a, **k):
            ax = plot_in_space(*a, **k)
            return [(np.array(c.get_offsets()), np.array(c.get_sizes()))
                    for c in ax.collections if hasattr(c, 'get_sizes')]
        kw = {}
        if chance(rng, .3):
            kw['color_dots'] = rng.uniform(0, 1, len(x))
        if chance(rng, .4):
            kw['dot_labels'] = choice(rng, [np.array([x.min(), x.max()]),
                                            [float(x.min())], None, 4])
        if chance(rng, .3):
            kw['dot_interpolation_power'] = choice(rng, [0, 1, .5])
        if chance(rng, .4):
            kw['color_map'] = choice(rng, ['gray', 'hot'])
        b = [np.array, pd.Series, list][int(rng.integers(0, 2))]
        return f, (b(rng.uniform(6, 10, 25)), b(rng.uniform(45, 48, 25)),
                   b(x)), kw

    @plot('mc_vs_b')
    def _(rng):
        x, d, mc = mags(rng)
        kw = {}
        if chance(rng, .4):
            kw['b_method'] = choice(rng, [UtsuBValueEstimator,
                                          BPositiveBValueEstimator])
            if kw['b_method'] is BPositiveBValueEstimator:
                kw['times'] = times(rng, len(x))
        if chance(rng, .4):
            kw['weights'] = weights(rng, len(x))
        if chance(rng, .3):
            kw.update(label='b', confidence_interval=.9)
        mcs = choice(rng, [list, np.array])([mc, mc + d])
        return plot_mc_vs_b, (box(rng, x), mcs, d), kw

    @plot('b_series')
    def _(rng):
        x, d, mc = mags(rng, delta='0.1')
        kw = dict(plot_technique=choice(rng, ['left', 'midpoint', 'right']))
        if chance(rng, .5):
            kw['x_variable'] = box(rng, rng.uniform(0, 1, len(x)), True)
        if chance(rng, .3):
            kw['method'] = choice(rng, [UtsuBValueEstimator,
                                        BPositiveBValueEstimator])
        if chance(rng, .3):
            kw.update(label='b', confidence_level=.9, min_num=12)
        mcs = mc if chance(rng, .5) else box(rng, np.where(
            rng.random(len(x)) < .5, mc, mc + d), True)
        return plot_b_series_constant_nm, (
            box(rng, x, True), d, mcs, box(rng, times(rng, len(x))), 15), kw

    @plot('b_significant')
    def _(rng):
        x, d, mc = mags(rng, int(rng.integers(60, 200)), '0.1')
        kw = dict(n_ms=choice(rng, [np.array([10, 15, 25]), [5, 40], [
            120, 4]]))
        if chance(rng, .3):
            kw['x_variable'] = box(rng, rng.uniform(0, 1, len(x)), True)
        if chance(rng, .3):
            kw['method'] = choice(rng, [UtsuBValueEstimator,
                                        BPositiveBValueEstimator])
        if chance(rng, .3):
            kw.update(label='b', conservative=False, p_threshold=.2)
        mcs = mc if chance(rng, .5) else box(rng, np.where(
            rng.random(len(x)) < .5, mc, mc + d), True)
        return plot_b_significant_1D, (
            box(rng, x, True), mcs, d, box(rng, times(rng, len(x)))), kw

    @plot('dots')
    def _(rng):
        x, d, mc = mags(rng)

        def f(x):
            s = dot_size(x, interpolation_power=2)
            return s, reverse_dot_size(s, x.min(), x.max(), 2), \
                gutenberg_richter(x, 1.0, 1.0, 5)
        return f, (x,), {}

    @plot('dot_size')
    def _(rng):
        x, d, mc = mags(rng)
        if chance(rng, .3):
            x[int(rng.integers(0, len(x)))] = np.nan
        return dot_size, (box(rng, x),), dict(
            smallest=choice(rng, [10, 1.]), largest=choice(rng, [200, 5]),
            interpolation_power=choice(rng, [0, 1, 2, .5]))

    @plot('reverse_dot_size')
    def _(rng):
        return reverse_dot_size, (box(rng, rng.uniform(10, 200, 9)), 1., 5.,
                                  choice(rng, [1, 2, .5])), {}

    @plot('gutenberg_richter')
    def _(rng):
        x, d, mc = mags(rng)
        return gutenberg_richter, (box(rng, x), 1.1, mc, 40), {}

    return E


ENTRIES = _entries()
try:        # only there in monitors which ask for it (OPENQUAKE)
    import openquake.hmtk.seismicity.catalogue  # noqa
except ImportError:
    del ENTRIES['from_openquake'], ENTRIES['Catalog.to_openquake']
NAMES = sorted(ENTRIES)
# results drawn from numpy's global generator (not usable concurrently)
STOCHASTIC = {'Catalog.estimate_mc_ks', 'dither_magnitudes',
              'estimate_mc_ks', 'ks_test_gr', 'p_lilliefors', 'simulate'}
PLOTS = {n for n in NAMES if 'plot' in n}
# calls documented to update attributes of the catalogue
UPDATES = {'Catalog.estimate_mc_maxc', 'Catalog.estimate_mc_ks',
           'Catalog.estimate_mc_b_stability', 'Catalog.estimate_b',
           'Catalog.estimate_a', 'Catalog.estimate_b:positive'}


def _vary(v, rng):
    """values that share much with v but are different"""
    if isinstance(v, (bool, np.bool_)):
        return [not v]
    if isinstance(v, (int, np.integer)):
        return [v + 1]
    if isinstance(v, (float, np.floating)):
        return [v + .001, v + .004, v * 1.01, -v, v + 1]
    if isinstance(v, str):
        return [v + '0']
    if isinstance(v, list) and v:
        return [v[::-1], v[:-1], v + v[:1]]
    if isinstance(v, (pd.DataFrame, pd.Series)) and len(v) > 1:
        r = [v.iloc[::-1], v.iloc[:-1]]
        w = v.copy()
        if isinstance(v, pd.Series):
            w.iloc[:] = v.to_numpy()[::-1]
        else:
            for c in ('magnitude', 'latitude', 'a', 'time'):
                if c in w:
                    w[c] = v[c].to_numpy()[::-1]
        r.append(w)
        return r
    if isinstance(v, np.ndarray) and v.ndim and len(v) > 1:
        r = [v[::-1].copy(), v[:-1].copy()]
        if v.dtype.kind == 'f':
            w = v.copy()
            w[0], w[-1] = v[-1], v[0]
            r += [w, v + (1. if v.ndim == 1 else 0.)]
        return r
    return []


def neighbours(c, rng, n=10):
    """(args, kwargs) that differ in one place from those of the call"""
    out = []
    for j, v in enumerate(c.args):
        for w in _vary(v, rng):
            a, kw = c.fresh()
            a = list(a)
            a[j] = w
            out.append((tuple(a), kw))
    for k, v in c.kwargs.items():
        for w in _vary(v, rng):
            a, kw = c.fresh()
            kw[k] = w
            out.append((a, kw))
        if k in ('random_state', 'n'):   # else random, or slow
            continue
        a, kw = c.fresh()
        del kw[k]
        out.append((a, kw))
    return [out[int(j)] for j in rng.permutation(len(out))[:n]]


def edit_in_place(args, rng):
    """Change the contents of the argument objects; returns the undo."""
    undo = []
    for v in args:
        if isinstance(v, np.ndarray) and v.ndim == 1 and len(v) > 1 and \
                v.flags.writeable:
            old = v.copy()
            v[:] = old[::-1]
            undo.append(lambda v=v, old=old: v.__setitem__(slice(None), old))
        elif isinstance(v, Catalog) and 'magnitude' in v and len(v) > 1:
            old, mc = v['magnitude'].copy(), v.mc
            v['magnitude'] = old.to_numpy()[::-1] + 1.
            if mc is not None:
                v.mc = mc + 1.

            def back(v=v, old=old, mc=mc):
                v['magnitude'] = old
                v.mc = mc
            undo.append(back)
        elif isinstance(v, pd.Series) and len(v) > 1:
            old = v.copy()
            v.iloc[:] = old.to_numpy()[::-1]

            def back(v=v, old=old):
                v.iloc[:] = old.to_numpy()
            undo.append(back)
        elif isinstance(v, list) and len(v) > 1:
            old = list(v)
            v.reverse()
            undo.append(lambda v=v, old=old: v.__setitem__(slice(None), old))
    return lambda: [u() for u in undo]


def after_neighbours(name, seed):
    """outcomes of a call after calls with nearly the same arguments: with
    equal other objects, and with the same objects edited in between"""
    c = make(name, np.random.default_rng(seed))
    rng = np.random.default_rng(seed + 1)
    nb = neighbours(c, rng)
    for a, kw in nb:
        c.run(a, kw)
    a, kw = c.fresh()
    out = [('near', len(nb), c.run(a, kw))]
    if name not in UPDATES:
        a, kw = c.fresh()
        back = edit_in_place(list(a) + list(kw.values()), rng)
        c.run(a, kw)
        back()
        out.append(('edited', 1, c.run(a, kw)))
    return out


def make(name, rng):
    fn, args, kwargs = ENTRIES[name](rng)
    return Call(name, fn, args, kwargs, int(rng.integers(0, 2 ** 31)))


def equal(a, b):
    return same(a, b)
