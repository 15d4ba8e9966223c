"""C32 methods of catalogues and grids demand the columns they need, name the
missing ones and need no others."""
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from seismostats import (Catalog, ForecastCatalog, ForecastGRRateGrid,
                         GRRateGrid)
from seismostats.utils import require_cols
from vlib import grids
from vlib.util import chance, choice

PROPERTY = 'C32'
LEVEL = 'exploration'
OPENQUAKE = True
RULE = ('a case is one method called on an object with a random set of '
        'columns; it has to raise AttributeError naming the missing columns '
        'exactly when a required column is missing; non-trivial always')
ASSUMPTIONS = ['the required columns are those named in the documentation of '
               'the classes and methods']
MUST = {'calls': 800, 'rejected': 400, 'accepted': 200, 'methods': 150,
        'minimal': 60, 'decorated': 150, 'excluded': 20, 'no_columns': 15,
        'after_rejection': 80}

MAGS = np.round(np.random.default_rng(3).exponential(.45, 400) + .95, 1)
B5 = ['longitude', 'latitude', 'depth', 'time', 'magnitude']
B6 = B5 + ['magnitude_type']
GRID = grids.BOUNDS + grids.GR

# method -> (required columns, call)
CATALOG = {
    'strip': (B6, lambda c: c.strip()),
    'strip inplace': (B6, lambda c: c.strip(inplace=True)),
    'bin_magnitudes': (['magnitude'], lambda c: c.bin_magnitudes(.1)),
    'estimate_mc_maxc': (['magnitude'], lambda c: c.estimate_mc_maxc(.1)),
    'estimate_mc_b_stability': (
        ['magnitude'], lambda c: c.estimate_mc_b_stability(.1)),
    'estimate_mc_ks': (['magnitude'], lambda c: c.estimate_mc_ks(
        .1, mcs_test=[1., 1.1], n=20)),
    'estimate_b': (['magnitude'], lambda c: c.estimate_b(1., .1)),
    'estimate_a': (['magnitude'], lambda c: c.estimate_a(1., .1)),
    'plot_cum_count': (['time', 'magnitude'],
                       lambda c: c.plot_cum_count(delta_m=.1)),
    'plot_mags_in_time': (['time', 'magnitude'],
                          lambda c: c.plot_mags_in_time()),
    'plot_cum_fmd': (['magnitude'], lambda c: c.plot_cum_fmd(fmd_bin=.1)),
    'plot_fmd': (['magnitude'], lambda c: c.plot_fmd(fmd_bin=.1)),
    'plot_mc_vs_b': (['magnitude'], lambda c: c.plot_mc_vs_b(
        [1., 1.2], delta_m=.1)),
    'to_openquake': (B5, lambda c: c.to_openquake()),
    'to_quakeml': (B6, lambda c: c.to_quakeml()),
}
GRIDS = {
    'strip': (GRID, lambda g: g.strip()),
    'strip inplace': (GRID, lambda g: g.strip(inplace=True)),
    'add_time_index': (GRID, lambda g: g.add_time_index()),
    'add_time_index start': (GRID, lambda g: g.add_time_index(endtime=False)),
}


def catalog(rng, cols, cls, empty=False):
    n = 0 if empty else int(choice(rng, [60, 120]))
    full = {'longitude': rng.uniform(6, 9, n), 'latitude': rng.uniform(45, 48,
                                                                       n),
            'depth': rng.uniform(0, 20, n),
            'time': pd.date_range('2020-01-01', periods=n, freq='7h'),
            'magnitude': MAGS[:n], 'magnitude_type': ['ML'] * n,
            'event_type': ['earthquake'] * n, 'note': ['x'] * n,
            'catalog_id': np.arange(n) // 30}
    return cls({c: full[c] for c in cols})


def grid(rng, cols, cls):
    cs = grids.cells(rng, 4)
    df = grids.frame(rng, cs, ['note', 'number_events'], [0, 0, 1, 1])
    return cls(df[cols], starttime=pd.Timestamp('2020-01-01'),
               endtime=pd.Timestamp('2021-01-01'))


def judge(m, name, req, call, obj, what):
    cols = set(obj.columns)
    missing = [c for c in req if c not in cols]
    m.saw('calls')
    try:
        call(obj)
    except AttributeError as e:
        m.saw('rejected')
        m.check(bool(missing), 'rejected', '%s: raises %r although the '
                'required columns %s are there' % (what, e, req))
        if missing:
            unnamed = [c for c in missing if repr(c) not in str(e)]
            others = [c for c in req if c not in missing
                      and repr(c) in str(e)]
            m.check(not unnamed and not others, 'message', '%s: missing are '
                    '%s, but the message is %r' % (what, missing, str(e)))
    else:
        m.saw('accepted')
        m.check(not missing, 'accepted', '%s: works although the required '
                'columns %s are missing' % (what, missing))
    finally:
        plt.close('all')
    m.check(set(obj.columns) == cols or name == 'strip inplace', 'columns',
            '%s: columns of the object changed' % what)
    return missing


def w_methods(m, rng, i):
    matplotlib.use('Agg')
    isgrid = chance(rng, .25)
    table = GRIDS if isgrid else CATALOG
    names = list(table)
    for k in range(4):
        name = names[(4 * i + k) % len(names)]
        req, call = table[name]
        if isgrid:
            cls = choice(rng, [GRRateGrid, ForecastGRRateGrid])
            every = GRID + ['note', 'number_events', 'grid_id']
        else:
            cls = choice(rng, [Catalog, ForecastCatalog])
            every = B6 + ['event_type', 'note', 'catalog_id']
        base = req
        if cls is ForecastCatalog and name == 'to_quakeml':
            base = req + ['catalog_id']
        if cls is ForecastGRRateGrid and isgrid and name.startswith('strip'):
            base = req + ['grid_id']
        mode = choice(rng, ['minimal', 'one missing', 'one missing', 'random',
                            'all', 'none'])
        if mode == 'minimal':
            cols = list(base)
            m.saw('minimal')
        elif mode == 'one missing':
            gone = choice(rng, req)
            cols = [c for c in every if c != gone]
        elif mode == 'random':
            cols = [c for c in every if chance(rng, .7) or
                    c == 'catalog_id' or c == 'grid_id']
        elif mode == 'none':
            cols = [choice(rng, ['note'])]
            m.saw('no_columns')
            if cls is ForecastCatalog:
                cols.append('catalog_id')
            if cls is ForecastGRRateGrid:
                cols.append('grid_id')
        else:
            cols = list(every)
        cols = [cols[j] for j in rng.permutation(len(cols))]
        none = not isgrid and chance(rng, .3) and not set(req) <= set(cols)
        m.saw('no_events', none)
        obj = grid(rng, cols, cls) if isgrid else catalog(rng, cols, cls,
                                                          none)
        m.require(type(obj) is cls, 'type', '%s with columns %s is a %s' % (
            cls.__name__, cols, type(obj)))
        what = '%s.%s with columns %s' % (cls.__name__, name, sorted(cols))
        m.saw('methods')
        m.case(i, k, name, mode)
        m.sample(call=what)
        missing = judge(m, name, req, call, obj, what)
        if missing and chance(rng, .5):
            # the same method works on another object afterwards, and the
            # other way round
            m.saw('after_rejection')
            obj = (grid if isgrid else catalog)(rng, every, cls)
            judge(m, name, req, call, obj, what + ', after a rejection')


def w_decorator(m, rng, i):
    """require_cols with any required and excluded columns"""
    names = ['a', 'b', 'magnitude', 'd e', 'longitude', 'time',
             'magnitude_type', 'Time', 'endtime', 'ba', 'lon', 'time_']
    req = [c for c in names if chance(rng, .6)] or ['a']
    exc = [c for c in names if chance(rng, .3)] if chance(rng, .5) else None
    given, given_exc = list(req), None if exc is None else list(exc)
    kw = {} if exc is None else {'exclude': exc}
    m.saw('excluded', bool(exc))

    class T(pd.DataFrame):
        @require_cols(require=req, **kw)
        def f(self, x, y=1):
            """text"""
            return (x, y, len(self))

    need = [c for c in req if c not in (exc or [])]
    for k in range(4):
        m.saw('decorated')
        cols = [c for c in names + ['z'] if chance(rng, .7)]
        missing = [c for c in need if c not in cols]
        k3 = choice(rng, [3, 3, 3, 1, 0])
        t = T({c: [1, 2, 3][:k3] for c in cols})
        m.case(i, k, tuple(cols))
        what = 'require %s, exclude %s, columns %s' % (given, exc, cols)
        try:
            r = t.f(7, y=k)
        except AttributeError as e:
            m.saw('rejected')
            m.check(bool(missing) and all(repr(c) in str(e) for c in missing)
                    and 'f' in str(e), 'decorator', '%s: %r' % (what, e))
        else:
            m.saw('accepted')
            m.check(not missing and r == (7, k, len(t)), 'decorator',
                    '%s: returns %s' % (what, r))
    m.check(T.f.__name__ == 'f' and T.f.__doc__ == 'text', 'decorator',
            'name or documentation of the method are lost')
    m.check(req == given and (exc or None) == (given_exc or None),
            'decorator', 'the lists given to the decorator are changed')


WORKLOADS = [('methods', w_methods, 220, 2500),
             ('decorator', w_decorator, 120, 1500)]
