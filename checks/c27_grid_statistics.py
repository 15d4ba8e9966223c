"""C27 forecast grid statistics: one row per cell (and period), aggregated
over the realizations of exactly this cell."""
import numpy as np
import pandas as pd

from seismostats import ForecastGRRateGrid
from vlib import grids
from vlib.util import chance, choice, snapshot, same

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('a case is one calculate_statistics call; every cell of the result is '
        'compared with the aggregate computed from the realizations of the '
        'cell by plain numpy; non-trivial when a cell has several realizations')
ASSUMPTIONS = ['at least one bound is set for some cell; columns without any '
               'value are left out']
MUST = {'calls': 300, 'cells': 1200, 'values': 8000, 'missing_bounds': 100,
        'missing_values': 1000, 'extra_values': 3000, 'time_levels': 80,
        'uneven': 100, 'callables': 80, 'all_missing_column': 20,
        'existing_column': 20, 'many_realizations': 10,
        'mixed_rows': 50}

# name -> (argument, reference over the values present)
FUNCS = {
    'mean': ('mean', np.mean), 'median': ('median', np.median),
    'min': ('min', np.min), 'max': ('max', np.max), 'sum': ('sum', np.sum),
    'std': ('std', lambda x: np.std(x, ddof=1) if len(x) > 1 else np.nan),
    'var0': (lambda x: x.var(ddof=0), lambda x: np.var(x)),
    'q90': (lambda x: x.quantile(.9), lambda x: np.quantile(x, .9)),
    'nanmax': (lambda x: np.nanmax(x) if x.notna().any() else np.nan, np.max),
    'count': ('count', len),
    'range': (lambda x: x.max() - x.min(), lambda x: np.max(x) - np.min(x))}
EMPTY = {'count': 0, 'sum': 0}


def reference(name, x):
    x = np.array([float(v) for v in x if v == v])
    if len(x) == 0:
        return float(EMPTY.get(name, np.nan))
    return float(FUNCS[name][1](x))


def w_stats(m, rng, i):
    pool = grids.cells(rng, int(rng.integers(1, 9)),
                       missing=chance(rng, .6))
    if all(all(v != v for v in c) for c in pool):
        return
    extra = [c for c in ('number_events', 'alpha', 'rate', 'note', 'a_std',
                         'flag') if chance(rng, .35)]
    levels = choice(rng, [1, 1, 2, 3])
    periods = int(rng.integers(1, 4)) if levels > 1 else 1
    reps = int(rng.integers(1, 6)) if chance(rng, .9) else 40
    parts = []
    uneven = False
    for p in range(periods):
        cs, gid = [], []
        for r in range(reps):
            for c in pool:
                if chance(rng, .8):
                    cs.append(c)
                    gid.append(r)
                else:
                    uneven = True
        if not cs:
            return
        order = rng.permutation(len(cs))
        cs, gid = [cs[j] for j in order], [gid[j] for j in order]
        df = grids.frame(rng, cs, extra, gid, ints=chance(rng, .2))
        t = pd.Timestamp('2020-01-01') + pd.Timedelta(days=int(
            rng.permutation(5)[0]) + 10 * p)
        g = ForecastGRRateGrid(df, starttime=t,
                               endtime=t + pd.Timedelta(days=1))
        parts.append((t, g))
    if chance(rng, .15):
        c = choice(rng, ['a', 'b', 'mc'] + [x for x in extra if x != 'note'])
        for _, g in parts:
            g[c] = np.nan
        m.saw('all_missing_column')
    rng.permutation(periods)
    if levels == 1:
        grid = parts[0][1]
    else:
        grid = ForecastGRRateGrid.concat(
            [g.add_time_index(levels == 3) for _, g in parts])
    if chance(rng, .3):     # rows of the periods in any order, or some of them
        m.saw('mixed_rows')
        n = len(grid)
        grid = grid.iloc[rng.permutation(n)[:int(rng.integers(1, n + 1)) if
                                            chance(rng, .5) else n]]
        if pd.DataFrame(grid)[grids.BOUNDS].isna().all(axis=None):
            return
    m.saw('time_levels', levels > 1)
    m.saw('uneven', uneven)
    m.saw('many_realizations', reps > 30)
    m.saw('missing_bounds', int(pd.DataFrame(grid)[grids.BOUNDS].isna()
                                .any(axis=1).sum()))
    name = choice(rng, list(FUNCS)) if chance(rng, .7) else 'mean'
    stats = {}
    for k in range(int(rng.integers(0, 4))):
        stats[choice(rng, ['std', 'x', 'q', 'lo', 'min'])] = choice(
            rng, list(FUNCS))
    args = {} if name == 'mean' and chance(rng, .5) else {
        'agg_func': FUNCS[name][0]}
    if stats:
        args['extra_stats'] = {k: FUNCS[v][0] for k, v in stats.items()}
        m.saw('callables', any(callable(x) for x in
                               args['extra_stats'].values()))
    before = snapshot(pd.DataFrame(grid))
    got = grid.calculate_statistics(**args)
    m.check(same(snapshot(pd.DataFrame(grid)), before), 'input', 'the forecast '
            'is changed')
    m.saw('calls')
    m.sample(cells=len(pool), realizations=reps, periods=periods,
             levels=levels, agg_func=name, extra_stats=str(stats),
             columns=str(extra))

    plain = pd.DataFrame(grid)
    table = {c: list(plain[c]) for c in plain.columns}
    n = len(plain)
    times = [tuple(ix)[:-1] for ix in plain.index] if levels > 1 else [()] * n
    groups = {}
    for j in range(n):
        c = [table[b][j] for b in grids.BOUNDS]
        groups.setdefault(times[j] + grids.key(c), []).append(j)
    m.case(i, nontrivial=any(len(v) > 1 for v in groups.values()))
    what = '%d rows, %d cells and periods, %s%s' % (
        n, len(groups), name, stats or '')
    m.require(isinstance(got, pd.DataFrame) and len(got) == len(groups),
              'rows', '%s: %d rows' % (what, len(got)))
    res = pd.DataFrame(got)
    if levels > 1:
        m.require(list(res.index.names) == list(plain.index.names), 'levels',
                  '%s: levels %s' % (what, list(res.index.names)))
    given = [c for c in table if any(v == v and v is not None
                                     for v in table[c])]
    numeric = [c for c in given if c not in ('note', 'flag')]
    want = set(numeric) - {'grid_id'}
    derived = {}
    for k, v in stats.items():
        for c in ('number_events', 'b', 'mc', 'a', 'alpha'):
            if c in given:
                if c + '_' + k in table and c + '_' + k in given:
                    m.saw('existing_column')
                else:
                    derived[c + '_' + k] = (c, v)
    want |= set(derived)
    m.require(set(res.columns) == want, 'columns', '%s: columns %s, expected '
              '%s' % (what, sorted(res.columns), sorted(want)))
    seen = set()
    for r in range(len(res)):
        c = [res[b].iloc[r] if b in res else np.nan for b in grids.BOUNDS]
        t = tuple(res.index[r])[:-1] if levels > 1 else ()
        k = t + grids.key(c)
        m.require(k in groups and k not in seen, 'cell', '%s: row %d is for '
                  '%s, not one of the (remaining) cells' % (what, r, k))
        seen.add(k)
        js = groups[k]
        m.saw('cells')
        if levels > 1:
            m.check(res.index[r][-1] == plain.index[js[0]][-1], 'cell_number',
                    '%s: cell %s has number %s' % (what, k, res.index[r][-1]),
                    want=plain.index[js[0]][-1])
        for col in want - set(grids.BOUNDS):
            src, f = derived.get(col, (col, name))
            x = [table[src][j] for j in js]
            m.saw('missing_values', sum(v != v for v in x))
            m.saw('values')
            m.saw('extra_values', col in derived)
            e, g = reference(f, x), float(res[col].iloc[r])
            m.check(abs(g - e) <= 1e-9 * (1 + abs(e)) or g != g and e != e,
                    'extra_value' if col in derived else 'value',
                    '%s: column %s of cell %s is %r, the %s of %s is %r' % (
                        what, col, k, g, f, x[:8], e))


WORKLOADS = [('statistics', w_stats, 450, 6000)]
