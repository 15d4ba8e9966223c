"""C09 the warnings option switches the warnings of the package and nothing
else."""
import os
import sys
import warnings

import numpy as np

from seismostats.analysis import (APositiveAValueEstimator,
                                  AMorePositiveAValueEstimator,
                                  BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator,
                                  ClassicAValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator,
                                  estimate_mc_b_stability, estimate_mc_ks)
from seismostats import Catalog, ForecastGRRateGrid
from seismostats.analysis.b_significant import (b_significant_1D,
                                                cut_constant_idx,
                                                est_morans_i, transform_n,
                                                values_from_partitioning)
from seismostats.analysis.bvalue.kijko_smit import estimate_b_kijko_smit
from seismostats.analysis.bvalue.weichert import estimate_b_weichert
from seismostats.analysis.estimate_mc import ks_test_gr
from seismostats.analysis.bvalue.utils import shi_bolt_confidence
from seismostats.analysis.declustering import (GardnerKnopoffType1,
                                               GardnerKnopoffWindow)
from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
from seismostats.utils import get_option, set_option
from seismostats.utils.binning import (bin_to_precision, binning_test,
                                       get_cum_fmd, get_fmd)
from seismostats.utils.simulate_distributions import (
    dither_magnitudes, simulate_magnitudes_binned)
from vlib import api, samples  # noqa
from vlib.core import REPO
from vlib.util import chance, choice, same

PROPERTY = 'C09'
LEVEL = 'exploration'
OPENQUAKE = True
RULE = ('a case is one call executed with the option on and off on equal '
        'arguments; non-trivial when the option made a difference in the '
        'warnings or the call is of a kind that can warn')
ASSUMPTIONS = ['warnings issued by other packages (e.g. numpy\'s '
               'RuntimeWarning) are not governed by the option']
MUST = {'pairs': 600, 'refused': 300, 'warned_with_option': 60, 'situations': 100, 'varied_arguments': 600,
        'unknown_keys': 20}


SITES = set()
ESTIMATORS = [ClassicBValueEstimator, UtsuBValueEstimator,
              BPositiveBValueEstimator, BMorePositiveBValueEstimator,
              ClassicAValueEstimator, APositiveAValueEstimator,
              AMorePositiveAValueEstimator]
POSITIVE = [e for e in ESTIMATORS if 'ositive' in e.__name__] + [
    BMorePositiveBValueEstimator]


class Spy:
    """records the warnings issued by code of the package itself: all that it
    passes to warnings.warn, and UserWarnings it issues in any other way"""

    def note(self, message):
        f = sys._getframe(2)
        while f and f.f_code.co_filename == warnings.__file__:
            f = f.f_back
        if f and f.f_code.co_filename.startswith(REPO):
            self.seen.append(str(message))
            SITES.add('%s:%d' % (os.path.relpath(
                f.f_code.co_filename, REPO), f.f_lineno))

    def __enter__(self):
        self.seen = []
        self.real = warnings.warn
        self.inside = False

        def warn(message, *a, **k):
            self.note(message)
            self.inside = True
            try:
                return self.real(message, *a, **k)
            finally:
                self.inside = False

        def show(message, category, *a, **k):
            if not self.inside and issubclass(category, UserWarning):
                self.note(message)
        self.caught = warnings.catch_warnings()
        self.caught.__enter__()
        warnings.simplefilter('always')
        warnings.showwarning = show
        warnings.warn = warn
        return self

    def still(self):
        """are warnings of the caller still seen?"""
        got = []
        show, warnings.showwarning = warnings.showwarning, \
            lambda *a, **k: got.append(a)
        for cat in (UserWarning, RuntimeWarning):
            self.real('of the caller', cat)
        warnings.showwarning = show
        return len(got) == 2

    def __exit__(self, *a):
        warnings.warn = self.real
        self.caught.__exit__(*a)


def both(m, c, what):
    out, seen = {}, {}
    for opt in (True, False):
        set_option('warnings', opt)
        try:
            with Spy() as s:
                out[opt] = c.run(*c.fresh())
                others = s.still()
            kept = get_option('warnings')
        finally:
            set_option('warnings', True)
        seen[opt] = s.seen
        m.check(others, 'other_warnings_lost',
                '%s changed how warnings of other code are treated' % what)
        m.check(kept is opt, 'option_changed', '%s changed the option' % what)
    m.saw('pairs')
    m.check(not seen[False], 'warning_with_option_off',
            '%s issued a warning although warnings are disabled' % what,
            warnings=seen[False], args=c.args, kwargs=c.kwargs)
    m.check(same(out[True], out[False]), 'option_changes_result',
            'the result of %s depends on the warnings option' % what,
            on=out[True], off=out[False], args=c.args, kwargs=c.kwargs)
    return seen[True]


def w_calls(m, rng, i):
    c = api.make(api.NAMES[i % len(api.NAMES)], rng)
    on = both(m, c, c.name)
    m.case(c.name, c.seed)
    m.sample(call=c.name, warnings=on)
    if on:
        m.saw('warned_with_option')
    # and with arguments that are unusual or invalid
    for a, kw in api.neighbours(c, rng, 1 + i % 2):
        v = api.Call(c.name, c.fn, a, kw, c.seed)
        on = both(m, v, c.name)
        m.saw('varied_arguments')
        if on:
            m.saw('warned_with_option')


def situation(rng, i):
    """(name, call, must warn) in degenerate situations"""
    ds, k, x = samples.binned(rng, 80, 4, ['0.1'])
    d = float(ds)
    n = len(x)
    t = samples.times(rng, n, 'dt64ns')[1]
    lo = float(samples.canon(np.array([k.min()]), ds)[0])
    hi = float(samples.canon(np.array([k.max() + 2]), ds)[0])
    below = float(samples.canon(np.array([k.min() - 3]), ds)[0])
    # every situation with every estimator in turn
    r, E = i % 14, ESTIMATORS[i // 14 % 7]
    if r == 2:
        E = POSITIVE[i // 14 % 5]

    def est(mc, dmc=None):
        kw = {}
        if 'ositive' in E.__name__:
            kw['times'] = t
            if dmc is not None:
                kw['dmc'] = dmc
        if E is AMorePositiveAValueEstimator:
            kw['b_value'] = 1.0

        def f(x, mc, d, **kw):
            e = E()
            e.calculate(x, mc, d, **kw)
            return e
        return f, (x.copy(), mc, d), kw
    if r == 11:     # no larger successor
        t, x = np.sort(t), np.sort(x)[::-1] if chance(rng, .7) else x * 0 + lo
        E = [APositiveAValueEstimator, AMorePositiveAValueEstimator,
             BPositiveBValueEstimator][i // 14 % 3]
        return 'no_larger', est(lo), 'AP' in E.__name__ or 'AM' in E.__name__
    if r == 12:     # below the completeness table
        y, dy, mc = api.mags(rng, 120, '0.1', 20)
        f = choice(rng, [estimate_b_weichert, estimate_b_kijko_smit])
        a = (np.append(y, 1.5), api.dated(rng, 121), api.completeness(rng))
        return 'below_table', (f, a + (7.0,) if f is estimate_b_weichert
                               else a, {'delta_m': 0.1}), True
    if r == 0:      # no event above mc
        return 'none_above_mc', est(hi), True
    if r == 1:      # lowest bin empty
        return 'empty_lowest_bin', est(below), True
    if r == 2:
        return 'small_dmc', est(lo, d / 2), True
    if r == 3:
        return 'ks_empty', (ks_test_gr, (x[:0], lo, d, 1.0), {}), True
    if r == 4:
        return 'ks_single', (ks_test_gr, (np.array([lo] * 5), lo, d, 1.0),
                             {}), True
    if r == 5:
        y = np.append(x, below)
        return 'ks_below_mc', (ks_test_gr, (y, lo, d, 1.0), {'n': 20}), True
    if r == 6:
        w = np.triu(np.ones((n, n)), 1)
        if chance(rng, .5):
            w = w + w.T
        np.fill_diagonal(w, 1)
        return 'diagonal', (est_morans_i, (rng.normal(size=n), w), {}), True
    if r == 7:
        return 'few_partitions', (b_significant_1D, (
            x, lo, d, t, int(rng.integers(max(1, n // 14), n))), {}), n > 30
    if r == 8:      # small samples in the stability test
        return 'stability', (estimate_mc_b_stability, (x[:20], d), dict(
            mcs_test=np.array([float(x[:20].min())]))), \
            float(np.ptp(x[:20])) > .7
    if r == 9:
        return 'mcs_off_grid', (choice(rng, [
            estimate_mc_b_stability,
            lambda *a, **k: estimate_mc_ks(*a, n=10, **k)]), (x, d), dict(
                mcs_test=np.array([lo + .03, lo + .1]))), \
            float(np.ptp(x)) > .75
    return 'plain', est(lo), False


def w_situations(m, rng, i):
    name, (fn, args, kw), must = situation(rng, i)
    c = api.Call(name, fn, args, kw, 5)
    on = both(m, c, name)
    m.saw('situations')
    m.case(name, i)
    if on:
        m.saw('warned_with_option')
    m.check(bool(on) or not must, 'no_warning_with_option_on',
            'no warning although warnings are enabled (%s)' % name,
            args=args, kwargs=kw)


def refusals(rng):
    """[(name, function, args, kwargs)]: calls the documentation rules out"""
    ds, k, x = samples.binned(rng, 80, 4, ['0.1'])
    x, d, n, lo = np.asarray(x, float), float(ds), len(x), float(x.min())
    t = samples.times(rng, n, 'dt64ns')[1]
    out = []

    def est(E):
        def f(*a, **kw):
            e = E()
            e.calculate(*a, **kw)
            return e
        return f
    bad = x.copy()
    bad[int(rng.integers(n))] += .037
    neg = np.ones(n)
    neg[int(rng.integers(n))] = -1
    for E in ESTIMATORS:
        kw = {'times': t} if 'ositive' in E.__name__ else {}
        if E is AMorePositiveAValueEstimator:
            kw['b_value'] = 1.
            out += [('no_b_value', est(E), (x, lo, d), {'times': t})]
        ways = [('not_binned', (bad, lo, d), {}),
                ('bins_too_wide', (x, lo, 7 * d), {}),
                ('unknown_argument', (x, lo, d), {'nonsense': 1})]
        if kw:
            ways += [('negative_dmc', (x, lo, d), {'dmc': -d}),
                     ('short_times', (x, lo, d), {'times': t[:-1]})]
        if 'BV' in E.__name__:
            ways += [('negative_weight', (x, lo, d), {'weights': neg}),
                     ('short_weights', (x, lo, d), {'weights': neg[:-1] ** 2})]
            out += [('not_calculated', lambda E=E: E().std, (), {}),
                    ('not_calculated', lambda E=E: E().beta, (), {}),
                    ('not_calculated', lambda E=E: E().p_lilliefors(n=3), (),
                     {})]
        else:
            ways += [('m_ref_without_b', (x, lo, d), {'m_ref': 1.,
                                                      'b_value': None})]
            out += [('not_calculated', lambda E=E: E().a_value, (), {})]
        out += [(w, est(E), a, {**kw, **more}) for w, a, more in ways]
    w = (rng.random((6, 6)) < .5).astype(float)
    np.fill_diagonal(w, 0)
    w[0, 1], w[1, 0] = 1, 0
    w[2, 1], w[1, 2] = 1, 0
    v = rng.normal(size=6)
    xs, ts = np.array_split(x, 4), np.array_split(t, 4)
    k4 = Catalog({'magnitude': x, 'time': t})
    p4 = x + .05, t, np.array([[9., 1990.], [3., 2000.]])
    out += [
        ('weights_matrix', est_morans_i, (v, w), {}),
        ('weights_matrix', est_morans_i, (v, w[:4]), {}),
        ('weights_matrix', est_morans_i, (v, np.triu(w + 1, 1)), {}),
        ('one_value', est_morans_i, (v[:1],), {}),
        ('partition', values_from_partitioning, (xs, ts[:3], lo, d), {}),
        ('partition', values_from_partitioning, (xs, ts, [lo] * 3, d), {}),
        ('offset', cut_constant_idx, (x, 5), {'offset': 5}),
        ('n2_below_n1', transform_n, (x, 1., 9., 3.), {}),
        ('window', b_significant_1D, (x, lo, d, t, 1), {}),
        ('lengths', b_significant_1D, (x, lo, d, t[:-1], 5), {}),
        ('lengths', b_significant_1D, (x, lo, d, t, 5),
         {'x_variable': x[:-1]}),
        ('range', estimate_mc_b_stability, (x[:1], d), {}),
        ('range', estimate_mc_b_stability, (x, d), {'mcs_test': [99.]}),
        ('not_binned', estimate_mc_b_stability, (bad, d), {}),
        ('not_binned', estimate_mc_ks, (bad, d), {'n': 3}),
        ('not_binned', ks_test_gr, (bad, lo, d, 1.), {'n': 3}),
        ('not_binned', dither_magnitudes, (bad, d), {}),
        ('below_mc', ks_test_gr_lilliefors, (x, lo + d), {}),
        ('parameter', simulate_magnitudes_binned, (5, 1., lo, d),
         {'b_parameter': 'gamma'}),
        ('parameter', shi_bolt_confidence, (x, 1.), {'b_parameter': 'gamma'}),
        ('bin_width', bin_to_precision, (x, 0), {}),
        ('bin_width', bin_to_precision, (None, .1), {}),
        ('bin_width', get_fmd, (x, 0), {}),
        ('bin_width', get_fmd, (x, -.1), {}),
        ('bin_width', get_cum_fmd, (x, -.1), {}),
        ('no_entry', binning_test, (x[:0], .1), {}),
        ('order', estimate_b_weichert, p4, {'mag_max': 9, 'delta_m': .1}),
        ('order', estimate_b_kijko_smit, p4, {'delta_m': .1}),
        ('parameter', estimate_b_weichert, p4[:2] + (p4[2][::-1],),
         {'mag_max': 9, 'delta_m': .1, 'b_parameter': 'gamma'}),
        ('parameter', estimate_b_kijko_smit, p4[:2] + (p4[2][::-1],),
         {'delta_m': .1, 'b_parameter': 'gamma'}),
        ('mag_max', estimate_b_weichert, p4[:2] + (np.array([[-2., 1000.]]),),
         {'mag_max': float(x.max()) - .5, 'delta_m': .1}),
        ('no_delta_m', k4.bin_magnitudes, (), {}),
        ('no_delta_m', k4.estimate_mc_maxc, (), {}),
        ('no_delta_m', k4.estimate_mc_ks, (), {}),
        ('no_delta_m', k4.estimate_mc_b_stability, (), {}),
        ('no_mc', k4.estimate_b, (), {'delta_m': .1}),
        ('no_delta_m', k4.estimate_b, (), {'mc': lo}),
        ('no_mc', k4.estimate_a, (), {'delta_m': .1}),
        ('no_delta_m', k4.estimate_a, (), {'mc': lo}),
        ('columns', k4.to_quakeml, (), {}),
        ('columns', GardnerKnopoffType1(GardnerKnopoffWindow(), .1),
         (k4,), {}),
        ('start', ForecastGRRateGrid().add_time_index, (), {}),
    ]
    return out


def w_refused(m, rng, i):
    """what is refused is refused with the option off, too"""
    for j, (name, fn, args, kw) in enumerate(refusals(rng)):
        c = api.Call(name, fn, args, kw, 5)
        got = c.run(*c.fresh())
        m.case(name, i, j)
        if isinstance(got, tuple) and len(got) and got[0] == 'raised':
            m.saw('refused')
        both(m, c, '%s (%s)' % (getattr(fn, '__name__', fn), name))


def w_options(m, rng, i):
    key = choice(rng, ['Warnings', 'warning', '', 'verbose', 'warnings '])
    for f in (lambda: set_option(key, False), lambda: get_option(key)):
        try:
            f()
            m.fail('unknown_key', 'the unknown option %r was accepted' % key)
        except KeyError:
            pass
    m.saw('unknown_keys')
    m.check(get_option('warnings') is True, 'option_changed',
            'setting an unknown option changed the warnings option')
    v = chance(rng, .5)
    set_option('warnings', v)
    got = get_option('warnings')
    set_option('warnings', True)
    m.check(got is v and get_option('warnings') is True, 'option_not_stored',
            'get_option does not return what was set', set=v, got=got)
    m.case(key, v, i)


N = len(api.NAMES)
WORKLOADS = [('calls', w_calls, 10 * N, 100 * N),
             ('situations', w_situations, 420, 7000),
             ('refused', w_refused, 6, 60),
             ('options', w_options, 40, 100)]
