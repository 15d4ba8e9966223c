"""C26 rate grids: time index, cell numbers and concatenation keep every cell
and give equal cells equal numbers."""
import copy
import pickle

import numpy as np
import pandas as pd

from seismostats import ForecastGRRateGrid, GRRateGrid
from vlib import grids
from vlib.util import chance, choice

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('a case is one sequence of add_time_index, concat, reconstruction and '
        'strip on generated grids; every row, index level and attribute is '
        'compared after each step; non-trivial when a grid has cells')
ASSUMPTIONS = ['bounds are numbers or missing; grids of one list have either '
               'no or the same index levels (mixtures are to be rejected)']
MUST = {'steps': 600, 'time_indexed': 150, 'concatenated': 100, 'rows': 3000,
        'shared_cells': 300, 'missing_bounds': 80, 'forecast': 18,
        'no_endtime': 30, 'rejected': 40, 'multi_concat': 50, 'strip': 80,
        'rebuilt': 80, 'cell_column': 40, 'empty_grids': 15, 'mixed': 15,
        'operations': 200, 'operated_forecast': 30}

TIMES = [pd.Timestamp('2020-01-01') + pd.Timedelta(days=k) for k in range(6)]
TIMES[1] += pd.Timedelta('03:04:05.678901')
TIMES[4] += pd.Timedelta('00:00:00.25')


def make(m, rng, pool, forecast, start, end, extra):
    n = int(rng.integers(0, len(pool) + 1))
    m.saw('empty_grids', n == 0)
    cs = [pool[j] for j in rng.permutation(len(pool))[:n]]
    gid = None
    if forecast:
        cs = cs * 2
        gid = np.repeat([0, 1], n)
    df = grids.frame(rng, cs, extra, gid)
    m.saw('missing_bounds', int(df[grids.BOUNDS].isna().any(axis=1).sum()))
    m.saw('cell_column', 'cell' in df)
    cls = ForecastGRRateGrid if forecast else GRRateGrid

    def form(t):
        return t if t is None or chance(rng, .6) else choice(
            rng, [str(t), t.to_pydatetime(), np.datetime64(t)])
    g = cls(df, starttime=form(start), endtime=form(end), name='g')
    m.require(type(g) is cls and
              (pd.isna(g.starttime) if start is None else
               g.starttime == start) and
              (pd.isna(g.endtime) if end is None else g.endtime == end),
              'constructor', 'start/end %s %s become %s %s' % (
                  start, end, g.starttime, g.endtime))
    return g


def rows(df, cols):
    """plain content, row by row"""
    d = pd.DataFrame(df)
    out = []
    for j in range(len(d)):
        r = []
        for c in cols:
            v = d[c].iloc[j] if c in d else None
            r.append('nan' if v is None or v != v else
                     v + 0. if isinstance(v, float) else v)
        out.append(tuple(r))
    return out


def numbering(m, g, what):
    cs = pd.DataFrame(g)[grids.BOUNDS].to_numpy().tolist()
    ids = [int(x) for x in g.index.get_level_values('cell_id')]
    distinct = sorted({grids.key(c): grids.rank(c) for c in cs}.values())
    want = [distinct.index(grids.rank(c)) for c in cs]
    m.saw('shared_cells', len(cs) - len(distinct))
    m.check(ids == want, 'cell_id', '%s: cell numbers %s, expected %s for '
            'bounds %s' % (what, ids[:12], want[:12], cs[:12]))


def judge(m, g, want, cols, times, names, cls, what):
    """`want`: expected rows; `times`: expected time levels per row"""
    m.saw('steps')
    m.saw('rows', len(want))
    m.require(type(g) is cls, 'type', '%s is a %s' % (what, type(g)))
    m.require(list(g.index.names) == names, 'levels', '%s has levels %s, '
              'expected %s' % (what, list(g.index.names), names))
    m.check(sorted(g.columns) == sorted(cols), 'columns', '%s has columns %s, '
            'expected %s' % (what, sorted(g.columns), sorted(cols)))
    m.require(rows(g, cols) == want, 'rows', '%s: the cells differ from those '
              'put in' % what)
    got = [tuple(t) for t in zip(*(g.index.get_level_values(k)
                                   for k in names[:-1]))] if names[:-1] else []
    m.check(got == times, 'times', '%s: time levels %s, expected %s' % (
        what, got[:3], times[:3]))
    numbering(m, g, what)
    if times:
        m.check(g.starttime == min(t[0] for t in times), 'attributes',
                '%s: starttime %s' % (what, g.starttime))
        if len(names) == 3:
            m.check(g.endtime == max(t[1] for t in times), 'attributes',
                    '%s: endtime %s' % (what, g.endtime))


def raises(m, exc, f, mech, text):
    m.saw('rejected')
    try:
        r = f()
    except exc:
        return
    m.fail(mech, '%s gives %s' % (text, type(r)))


def w_sequence(m, rng, i):
    forecast = chance(rng, .25)
    cls = ForecastGRRateGrid if forecast else GRRateGrid
    m.saw('forecast', forecast)
    pool = grids.cells(rng, int(rng.integers(1, 9)))
    extra = [c for c in ('number_events', 'alpha', 'cell', 'note')
             if chance(rng, .3)]
    hasend = chance(rng, .7)
    gs, starts = [], []
    for k in range(int(rng.integers(1, 5))):
        s = choice(rng, TIMES)
        e = s + pd.Timedelta(hours=int(rng.integers(1, 100)))
        starts.append((s, e) if hasend else (s,))
        gs.append(make(m, rng, pool, forecast, s, e if hasend or
                       chance(rng, .5) else None, extra))
    if not hasend and all(not pd.isna(g.endtime) for g in gs):
        gs[0].endtime = pd.NaT
    cols = list(gs[0].columns)
    before = [(rows(g, cols), list(g.index), g.starttime, g.endtime,
               list(g.columns), g.index.name) for g in gs]
    names = ['starttime'] + ['endtime'] * hasend + ['cell_id']
    m.saw('no_endtime', not hasend)
    m.case(i, 0, nontrivial=any(len(g) for g in gs))
    m.sample(cells=str([len(g) for g in gs]), times=str(starts),
             forecast=forecast, columns=str(cols))
    one = []
    for g, t in zip(gs, starts):
        m.saw('time_indexed')
        r = g.add_time_index(hasend) if chance(rng, .5) or not hasend else \
            g.add_time_index()
        judge(m, r, rows(g, cols), cols, [t] * len(g), names, cls,
              'add_time_index(endtime=%s)' % hasend)
        one.append(r)
    want = [r for g in gs for r in rows(g, cols)]
    times = [t for g, t in zip(gs, starts) for _ in range(len(g))]
    m.saw('concatenated')
    both = cls.concat(gs)
    judge(m, both, want, cols, times, names, cls, 'concat of plain grids')
    multi = cls.concat(one)
    m.saw('multi_concat')
    judge(m, multi, want, cols, times, names, cls, 'concat of indexed grids')
    if len(one) > 2:
        nested = cls.concat([cls.concat(one[:2]), cls.concat(one[2:])])
        judge(m, nested, want, cols, times, names, cls, 'nested concat')
    # the same table as plain data
    m.saw('rebuilt')
    plain = pd.DataFrame(both)
    re = cls(plain)
    judge(m, re, want, cols, times, names, cls, 'the grid built from a '
          'time-indexed table')
    if len(plain):
        other = plain.copy()
        lev = other.index.to_frame()
        lev['cell_id'] = rng.permutation(len(lev)) + 100
        other.index = pd.MultiIndex.from_frame(lev)
        judge(m, cls(other), want, cols, times, names, cls,
              'the grid built from a table with other cell numbers')
        m.check(list(other.index.get_level_values('cell_id')) ==
                list(lev['cell_id']), 'input_changed', 'building a grid '
                'renumbered the given table')
    # strip
    for g in (gs[0], both):
        m.saw('strip')
        keep = [c for c in cols if c in grids.BOUNDS + grids.GR
                or forecast and c == 'grid_id']
        r = g.strip()
        m.check(list(r.columns) == keep and type(r) is cls and
                rows(r, keep) == rows(g, keep), 'strip', 'strip of columns %s '
                'gives %s with columns %s' % (cols, type(r),
                                              list(r.columns)))
        c = g.copy()
        m.check(c.strip(inplace=True) is None and list(c.columns) == keep and
                rows(c, keep) == rows(g, keep), 'strip', 'strip(inplace=True) '
                'gives columns %s' % list(c.columns))
    # operands are as before
    after = [(rows(g, cols), list(g.index), g.starttime, g.endtime,
              list(g.columns), g.index.name) for g in gs]
    m.check(repr(after) == repr(before), 'operands', 'operations changed the '
            'grids they were applied to')
    # rejections
    g = gs[0].copy()
    if len(g):
        g.starttime = choice(rng, [None, pd.NaT])
        raises(m, AttributeError, g.add_time_index, 'no_starttime',
               'add_time_index without a starttime')
        raises(m, AttributeError, lambda: cls.concat([g] + gs),
               'no_starttime', 'concat without a starttime')
        g.starttime, g.endtime = starts[0][0], choice(rng, [None, pd.NaT])
        raises(m, AttributeError, g.add_time_index, 'no_endtime',
               'add_time_index without an endtime')
        raises(m, AttributeError, lambda: pd.DataFrame.drop(
            g, columns=choice(rng, grids.BOUNDS + grids.GR))
            .add_time_index(False), 'columns', 'add_time_index without a '
            'required column')
        m.saw('mixed')
        raises(m, ValueError, lambda: cls.concat([gs[0], one[-1]]),
               'mixed_levels', 'concat of indexed and plain grids')
        two = gs[0].add_time_index(endtime=False)
        if hasend:
            raises(m, ValueError, lambda: cls.concat([two, one[-1]]),
                   'mixed_levels', 'concat of grids with 2 and 3 levels')


# pandas operations: (operation, the same on a plain table when it is not the
# same call)
OPS = {
    'mask': lambda rng, d: _arr(rng, d, lambda c, v: c[v > .4]),
    'iloc': lambda rng, d: (lambda c: c.iloc[1:]),
    'slice': lambda rng, d: (lambda c: c[:3]),
    'loc': lambda rng, d: (lambda c: c.loc[:, list(c.columns)[::-1]]),
    'copy': lambda rng, d: (lambda c: c.copy()),
    'deepcopy': lambda rng, d: copy.deepcopy,
    'pickle': lambda rng, d: (lambda c: pickle.loads(pickle.dumps(c))),
    'sort': lambda rng, d: (lambda c: c.sort_values('a', kind='stable')),
    'head': lambda rng, d: (lambda c: c.head(2)),
    'assign': lambda rng, d: (lambda c: c.assign(more=c['a'] * 2)),
    'add': lambda rng, d: (lambda c: c.rename(columns={'note': 'remark'})),
    'query': lambda rng, d: (lambda c: c.query('b > 1')),
    'dropdup': lambda rng, d: (lambda c: c.drop_duplicates('a')),
    'dropna': lambda rng, d: (lambda c: c.dropna(subset=['a'])),
    'fillna': lambda rng, d: (lambda c: c.fillna({'mc': 0.5})),
    'no_grid_id': lambda rng, d: (lambda c: c.drop(
        columns='grid_id', errors='ignore')),
    'fewer': lambda rng, d: (lambda c: c.drop(
        columns=choice(np.random.default_rng(len(c)),
                       grids.BOUNDS + grids.GR))),
    'columns': lambda rng, d: (lambda c: c[['a', 'b']]),
}


def _arr(rng, d, f):
    v = rng.random(len(d))
    return lambda c: f(c, v)


def w_pandas(m, rng, i):
    """operations of pandas on a grid"""
    forecast = chance(rng, .5)
    pool = grids.cells(rng, int(rng.integers(1, 9)))
    g = make(m, rng, pool, forecast, choice(rng, TIMES + [None]),
             choice(rng, TIMES + [None]),
             [c for c in ('number_events', 'alpha', 'note')
              if chance(rng, .4)])
    g.name = choice(rng, ['alps', None, 'x'])
    if forecast:
        g.n_grids = choice(rng, [None, 7, 1000])
    indexed = chance(rng, .3) and not pd.isna(g.starttime)
    if indexed:
        was = (g.name, getattr(g, 'n_grids', 0))
        g = g.add_time_index(not pd.isna(g.endtime))
        m.check((g.name, getattr(g, 'n_grids', 0)) == was, 'operation',
                'add_time_index: name and n_grids %s become %s' % (
                    was, (g.name, getattr(g, 'n_grids', 0))))
    m.saw('operated_forecast', forecast)
    names = ['name'] + ['starttime', 'endtime'] * (not indexed)
    done = []
    for _ in range(int(rng.integers(2, 6))):
        what = choice(rng, list(OPS))
        d = pd.DataFrame(g).copy()
        meta = [getattr(g, k) for k in names + ['n_grids'] * (
            isinstance(g, ForecastGRRateGrid))]
        before = (d.to_csv(), type(g))
        op = OPS[what](rng, d)
        r, e = op(g), op(d)
        done.append(what)
        m.saw('operations')
        cols = set(e.columns)
        need = set(grids.BOUNDS + grids.GR)
        want = pd.DataFrame if not need <= cols else \
            ForecastGRRateGrid if 'grid_id' in cols else GRRateGrid
        m.require(type(r) is want, 'operation', '%s of a %s is a %s, not a %s'
                  % (done, type(g).__name__, type(r).__name__, want.__name__))
        m.check(list(r.columns) == list(e.columns) and
                rows(r, list(e.columns)) == rows(e, list(e.columns)),
                'operation', '%s gives other cells than pandas' % done)
        m.check((pd.DataFrame(g).to_csv(), type(g)) == before, 'operands',
                '%s changed the grid it was applied to' % what)
        if want is pd.DataFrame:
            break
        ks = names + ['n_grids'] * (want is ForecastGRRateGrid)
        got = [getattr(r, k, '<none>') for k in ks]
        m.check(repr(got) == repr(meta[:len(ks)]), 'operation',
                '%s: %s %s, before %s' % (done, ks, got, meta))
        g = r
    m.case('ops', tuple(done), indexed, forecast, nontrivial=len(g) > 0)


WORKLOADS = [('sequences', w_sequence, 200, 3000),
             ('pandas', w_pandas, 150, 2000)]
