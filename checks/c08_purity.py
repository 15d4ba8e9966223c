"""C08 arguments are read, never written."""
import numpy as np
import pandas as pd

from vlib import api
from vlib.util import chance, choice, same, snapshot

PROPERTY = 'C08'
LEVEL = 'exploration'
OPENQUAKE = True
RULE = ('a case is one call of the API (%d kinds) whose arguments are '
        'compared with deep copies taken before, and which is repeated with '
        'write-protected arrays; every case is non-trivial' % len(api.NAMES))
ASSUMPTIONS = ['in-place methods (inplace=True) and the documented attribute '
               'updates of Catalog.estimate_* are the only exceptions']
MUST = {'calls': 800, 'write_protected': 300, 'unsorted_times': 100,
        'catalog_arguments': 100, 'copies': 60, 'kinds_seen': 60}


def freeze(x):
    """write-protect all arrays inside; number of protected arrays"""
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
        return 1
    if isinstance(x, (list, tuple)):
        return sum(freeze(y) for y in x)
    if isinstance(x, dict):
        return sum(freeze(y) for y in x.values())
    return 0


def strip_updates(name, args):
    """without the attributes the call is documented to update"""
    if name not in api.UPDATES:
        return args
    cat = args[0].copy()
    cat.mc = cat.b_value = cat.a_value = None
    return (cat,) + tuple(args[1:])


def w_calls(m, rng, i):
    name = api.NAMES[i % len(api.NAMES)]
    c = api.make(name, rng)
    before = c.fresh()
    out = c.run()
    m.saw('calls')
    if i < len(api.NAMES):
        m.saw('kinds_seen')
    t = [a for a in list(c.args) + list(c.kwargs.values())
         if isinstance(a, np.ndarray) and a.dtype.kind == 'M']
    if t and np.any(np.diff(t[0]) < np.timedelta64(0)):
        m.saw('unsorted_times')
    if c.args and isinstance(c.args[0], pd.DataFrame):
        m.saw('catalog_arguments')
    m.case(name, c.seed)
    m.sample(call=name, outcome=out[:1])
    m.check(same(strip_updates(name, tuple(c.args)),
                 strip_updates(name, tuple(before[0]))) and
            same(c.kwargs, before[1]), 'argument_modified',
            '%s modified its arguments' % name, before=before,
            after=(c.args, c.kwargs))
    # a write to an argument that is undone before returning
    a, kw = snapshot(before[0]), snapshot(before[1])
    if freeze(a) + freeze(kw):
        m.saw('write_protected')
        got = c.run(a, kw)
        m.check(same(got, out), 'write_to_argument',
                '%s writes to its arguments (another outcome with '
                'write-protected arrays)' % name, got=got, normal=out)


def w_copies(m, rng, i):
    """copies returned by catalogue methods are detached"""
    cat = api.catalog(rng, 30)
    before = snapshot(cat)
    op = choice(rng, ['bin', 'strip', 'uncertainties', 'ids',
                      'polygon', 'grid', 'concat'])
    if op == 'grid':
        g = api.grid(rng, choice(rng, [api.GRRateGrid,
                                       api.ForecastGRRateGrid]))
        before = snapshot(g)
        r = choice(rng, [g.strip, g.add_time_index])()
        r['a'] = 99.0
        r.loc[r.index[0], 'b'] = -1.0
        r.name = 'changed'
        m.check(same(g, before), 'copy_shares_data', 'changing the result of '
                'a grid method changed the original grid')
    elif op == 'concat':
        gs = [api.grid(rng, n=3) for _ in range(2)]
        before = snapshot(gs)
        r = api.GRRateGrid.concat(gs)
        r.loc[r.index[0], 'b'] = -1.0
        m.check(same(gs, before), 'copy_shares_data', 'concatenating grids '
                'or changing the result changed the original grids')
    else:
        r = {'bin': lambda: cat.bin_magnitudes(choice(rng, [.1, .5])),
             'strip': cat.strip, 'uncertainties': cat.drop_uncertainties,
             'ids': cat.drop_ids,
             'polygon': lambda: api.cat_intersect_polygon(
                 cat, [(40, 0), (50, 0), (50, 20), (40, 20)])}[op]()
        m.check(same(cat, before), 'argument_modified',
                '%s modified the catalogue' % op)
        r['magnitude'] = -9.0
        r.iloc[0, 0] = 77.0
        if 'latitude' in r:
            r.loc[r.index[-1], 'latitude'] = -5.0
        r.name = 'changed'
        r.mc = -7.0
        m.check(same(cat, before), 'copy_shares_data',
                'changing the result of %s changed the original' % op)
    m.saw('copies')
    m.case('copy', op, i)


N = len(api.NAMES)
WORKLOADS = [('calls', w_calls, 18 * N, 200 * N),
             ('copies', w_copies, 140, 1500)]
