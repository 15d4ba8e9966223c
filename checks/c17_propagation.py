"""C17 pandas operations on catalogues: values as for plain DataFrames, type
by columns, metadata kept."""
import copy
import pickle

import numpy as np
import pandas as pd

from seismostats import Catalog, ForecastCatalog
from vlib import api
from vlib.util import chance, choice, same, size, snapshot

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('a case is one pandas operation applied to a catalogue reached by a '
        'random history of operations and, in parallel, to the plain '
        'DataFrame; every case is non-trivial')
ASSUMPTIONS = ['metadata are judged for selecting, copying, sorting, '
               'assigning, renaming, concatenating and merging operations, '
               'not for aggregations']
MUST = {'steps': 1500, 'kept_metadata': 800, 'kept_type': 800,
        'plain_result': 8, 'forecast': 300, 'to_plain_catalog': 3,
        'concat': 40, 'merge': 40, 'operations_seen': 60}

META = ['name', 'mc', 'a_value', 'delta_m', 'b_value', 'starttime', 'endtime',
        'bounding_polygon', 'depth_min', 'depth_max']


# maker(rng, df) -> function(frame); df is the plain frame at this point
def _sel(rng, df):
    mask = rng.random(len(df)) < choice(rng, [0, .5, .9])
    return lambda c: c[mask]


def _loc(rng, df):
    lab = list(rng.permutation(df.index.unique())[:5])
    return lambda c: c.loc[lab]


def _iloc(rng, df):
    n = len(df)
    if chance(rng, .5):
        a = int(rng.integers(0, n + 1))
        return lambda c: c.iloc[a:]
    pos = rng.integers(0, max(n, 1), min(n, 6))
    return lambda c: c.iloc[pos]


def _cols(rng, df):
    keep = [x for x in df.columns if chance(rng, .7) or x == 'magnitude']
    return lambda c: c[keep]


def _dropcols(rng, df):
    d = [x for x in df.columns if chance(rng, .2) and x != 'magnitude']
    return lambda c: c.drop(columns=d)


def _assign(rng, df):
    v = rng.random(len(df))
    return lambda c: c.assign(z=v, magnitude_new=lambda f: f['magnitude'] * 2)


def _setitem(rng, df):
    v = rng.random(len(df))

    def f(c):
        c = c.copy()
        c['y'] = v
        if len(c):
            c.iloc[0, list(c.columns).index('magnitude')] = 1.25
        return c
    return f


KEEP = {     # operations that keep the catalogue
    'mask': _sel, 'loc': _loc, 'iloc': _iloc, 'columns': _cols,
    'dropcols': _dropcols, 'assign': _assign, 'setitem': _setitem,
    'copy': lambda r, d: (lambda c: c.copy()),
    'deepcopy': lambda r, d: copy.deepcopy,
    'copycopy': lambda r, d: copy.copy,
    'pickle': lambda r, d: (lambda c: pickle.loads(pickle.dumps(c))),
    'head': lambda r, d: (lambda c: c.head(4)),
    'tail': lambda r, d: (lambda c: c.tail(4)),
    'sort': lambda r, d: (lambda c: c.sort_values('magnitude',
                                                  kind='stable')),
    'sort2': lambda r, d: (lambda c: c.sort_values(
        ['magnitude', 'key'] if 'key' in c else ['magnitude'],
        ascending=False, kind='stable', ignore_index=True)),
    'sort_index': lambda r, d: (lambda c: c.sort_index(kind='stable')),
    'reset': lambda r, d: (lambda c: c.reset_index(drop=True)),
    'rename': lambda r, d: (lambda c: c.rename(columns={'key': 'key2'})),
    'rename_axis': lambda r, d: (lambda c: c.rename_axis('row')),
    'add_col': lambda r, d: (lambda c: c.join(pd.DataFrame(
        {'joined': np.arange(len(c))}, index=c.index))
        if c.index.is_unique and 'joined' not in c else c.copy()),
    'dropna': lambda r, d: (lambda c: c.dropna(subset=['magnitude'])),
    'dropdup': lambda r, d: (lambda c: c.drop_duplicates('magnitude')),
    'drop_rows': lambda r, d: (lambda c: c.drop(index=c.index[:2])),
    'sample': lambda r, d: (lambda c: c.sample(frac=.8, random_state=3)),
    'query': lambda r, d: (lambda c: c.query('magnitude > 1.5')),
    'astype': lambda r, d: (lambda c: c.astype({'magnitude': 'float64'})),
    'fillna': lambda r, d: (lambda c: c.fillna({'magnitude': 0.5})),
    'reindex': lambda r, d: (lambda c: c.reindex(c.index[::-1])
                             if c.index.is_unique else c.copy()),
    'reindex_cols': lambda r, d: (lambda c: c.reindex(
        columns=list(c.columns) + ['extra'])
        if 'extra' not in c else c.copy()),
    'nlargest': lambda r, d: (lambda c: c.nlargest(5, 'magnitude')),
    'truncate': lambda r, d: (lambda c: c.reset_index(drop=True).truncate(
        0, 5)),
    'replace': lambda r, d: (lambda c: c.replace({'ML': 'Ml'})),
    'where': lambda r, d: (lambda c: c.where(c['magnitude'] > 1)),
    'isin': lambda r, d: (lambda c: c[c['magnitude'].isin(
        c['magnitude'].head(3))]),
    'between_time': lambda r, d: (lambda c: c[
        c['time'] >= pd.Timestamp('2003-03-01')] if 'time' in c else
        c.copy()),
    'select_dtypes': lambda r, d: (lambda c: c.select_dtypes('number')),
    'filter': lambda r, d: (lambda c: c.filter(regex='mag|time|key|cat')),
    'insert': lambda r, d: (lambda c: _inplace(
        c, lambda f: f.insert(0, 'ins', 1) if 'ins' not in f else None)),
    'inplace_sort': lambda r, d: (lambda c: _inplace(
        c, lambda f: f.sort_values('magnitude', inplace=True,
                                   kind='stable'))),
    'inplace_drop': lambda r, d: (lambda c: _inplace(
        c, lambda f: f.drop(index=f.index[:1], inplace=True))),
    'pipe': lambda r, d: (lambda c: c.pipe(lambda f: f.iloc[1:])),
    'set_index': lambda r, d: (lambda c: c.set_index('key')
                               if 'key' in c else c.copy()),
    'getitem_slice': lambda r, d: (lambda c: c[1:6]),
    'loc_cols': lambda r, d: (lambda c: c.loc[:, ['magnitude'] + [
        x for x in c.columns if x in ('catalog_id', 'time')]]),
    'infer': lambda r, d: (lambda c: c.infer_objects()),
    'pop': lambda r, d: (lambda c: _inplace(
        c, lambda f: f.pop('depth') if 'depth' in f else None)),
}


def _inplace(c, f):
    c = c.copy()
    f(c)
    return c


NUM = ['magnitude', 'depth', 'key', 'catalog_id']


def _num(f):
    return lambda r, d: (lambda c: f(c[[x for x in NUM if x in c]]))


OTHER = {    # only the values (and the type, see TYPED) are judged
    'T': lambda r, d: (lambda c: c.T),
    'describe': lambda r, d: (lambda c: c.describe()),
    'isna': lambda r, d: (lambda c: c.isna()),
    'map': lambda r, d: (lambda c: c.map(str)),
    'rank': _num(lambda c: c.rank()), 'corr': _num(lambda c: c.corr()),
    'cov': _num(lambda c: c.cov()), 'cumsum': _num(lambda c: c.cumsum()),
    'diff': _num(lambda c: c.diff()), 'plus': _num(lambda c: c + 1),
    'sqrt': _num(lambda c: np.sqrt(c.abs())),
    'quantile': _num(lambda c: c.quantile([.1, .5])),
    'agg': _num(lambda c: c.agg(['mean', 'max'])),
    'mean': _num(lambda c: c.mean()), 'sum': _num(lambda c: c.sum(axis=1)),
    'clip': _num(lambda c: c.clip(1, 2)), 'shift': _num(lambda c: c.shift()),
    'mask': _num(lambda c: c.mask(c > 1)),
    'rolling': _num(lambda c: c.rolling(2).mean()),
    'eq': lambda r, d: (lambda c: c == c),
    'groupby_mean': lambda r, d: (lambda c: c.groupby('magnitude').mean(
        numeric_only=True)),
    'groupby_head': lambda r, d: (lambda c: c.groupby('magnitude').head(1)),
    'groupby_size': lambda r, d: (lambda c: c.groupby('magnitude').size()),
    'groupby_agg': lambda r, d: (lambda c: c.groupby(
        c['magnitude'] > 1.5).agg({'magnitude': 'max'})),
    'groupby_apply': lambda r, d: (lambda c: c.groupby(
        c['magnitude'].to_numpy() > 1.5)[['magnitude']].apply(
            lambda g: g.head(2))),
    'apply_row': lambda r, d: (lambda c: c.apply(
        lambda x: x['magnitude'], axis=1)),
    'apply_col': _num(lambda c: c.apply(lambda s: s * 2)),
    'series': lambda r, d: (lambda c: c['magnitude']),
    'to_frame': lambda r, d: (lambda c: c['magnitude'].to_frame()),
    'drop_mag': lambda r, d: (lambda c: c.drop(columns='magnitude')),
    'rename_mag': lambda r, d: (lambda c: c.rename(
        columns={'magnitude': 'm'})),
    'no_cols': lambda r, d: (lambda c: c[[]]),
    'melt': lambda r, d: (lambda c: c.reset_index(drop=True).melt()),
    'pivot': lambda r, d: (lambda c: c.assign(k=c['magnitude'].round(0))
                           .pivot_table(index='k', values='magnitude')),
    'dummies': lambda r, d: (lambda c: pd.get_dummies(
        c, columns=['magnitude_type']) if 'magnitude_type' in c else
        c['magnitude']),
    'iterrows': lambda r, d: (lambda c: [(i, list(x.astype(str)))
                                         for i, x in c.head(3).iterrows()]),
    'records': lambda r, d: (lambda c: c.to_dict('records')),
    'json': lambda r, d: (lambda c: c.reset_index(drop=True).to_json()),
    'csv': lambda r, d: (lambda c: c.to_csv()),
    'numpy': lambda r, d: (lambda c: c.to_numpy()),
    'merge_self': lambda r, d: (lambda c: c.head(5).merge(
        c.head(5), on='magnitude')),
    'compare': lambda r, d: (lambda c: c.compare(c)),
    'eval': lambda r, d: (lambda c: c.eval('m2 = magnitude + 1')),
    'resample': lambda r, d: (
        lambda c: c.dropna(subset=['time']).set_index('time')[
            ['magnitude']].resample('30D').count()
        if 'time' in c and pd.api.types.is_datetime64_any_dtype(c['time'])
        else c['magnitude']),
}


def expected_type(df):
    if 'magnitude' not in df.columns:
        return pd.DataFrame
    return ForecastCatalog if 'catalog_id' in df.columns else Catalog


def frame_equal(r, d):
    try:
        pd.testing.assert_frame_equal(pd.DataFrame(r), d, check_exact=True)
        return True
    except AssertionError:
        return False


def meta(c, forecast=False):
    out = {k: getattr(c, k, '<none>') for k in META}
    if forecast:
        out['n_catalogs'] = getattr(c, 'n_catalogs', '<none>')
    return out


def start(rng):
    fc = chance(rng, .35)
    cat = api.catalog(rng, size(rng, rng.integers(2, 40), 400, 2500),
                      cls=ForecastCatalog if fc else Catalog)
    cat['key'] = rng.integers(0, 4, len(cat))
    if chance(rng, .3):
        cat.iloc[0, list(cat.columns).index('magnitude')] = np.nan
    if chance(rng, .3):     # strings that look like raw data
        cat['event_type'] = choice(rng, ['', 'nan', 'None'])
    if chance(rng, .3):
        cat.mc = None
        cat.b_value = None
    if chance(rng, .2):
        cat['magnitude'] = cat['magnitude'].astype(object)
    return cat


# of the other operations, the type is judged for these
TYPED = {'drop_mag', 'no_cols', 'groupby_head', 'merge_self', 'plus', 'shift'}


def judge(m, name, c, d, r, e, keep):
    """result r of the operation on catalogue c against e on frame d"""
    if not isinstance(e, pd.DataFrame):
        same_value = same(r, e)
        if not same_value and isinstance(e, np.ndarray):
            same_value = bool(pd.DataFrame(r).equals(pd.DataFrame(e)))
        if not same_value and isinstance(e, list):
            same_value = repr(r) == repr(e)
        m.check(same_value, 'values:' + name, 'operation %s gives another '
                'result for a catalogue than for a DataFrame' % name,
                got=r, expected=e)
        return
    m.check(isinstance(r, pd.DataFrame) and frame_equal(r, e),
            'values:' + name, 'operation %s gives another result for a '
            'catalogue than for a DataFrame' % name, got=r, expected=e)
    if not keep and name not in TYPED:
        return
    t = expected_type(e)
    m.check(type(r) is t, 'type:' + name, 'the result of %s has type %s '
            'instead of %s' % (name, type(r).__name__, t.__name__),
            columns=list(e.columns))
    m.saw('kept_type' if t is not pd.DataFrame else 'plain_result')
    if type(c) is ForecastCatalog and t is Catalog:
        m.saw('to_plain_catalog')
    if keep and t is not pd.DataFrame:
        fc = isinstance(c, ForecastCatalog) and t is ForecastCatalog
        m.saw('kept_metadata')
        m.check(same(meta(r, fc), meta(c, fc)), 'metadata:' + name,
                'operation %s lost or changed metadata' % name,
                got=meta(r, fc), expected=meta(c, fc))


def run(f, x):
    try:
        return 'ok', f(x)
    except Exception as ex:         # noqa
        return 'raised', type(ex)


def w_history(m, rng, i):
    c = start(rng)
    d = pd.DataFrame(c).copy()
    for step in range(int(rng.integers(2, 9))):
        before, mbefore = d.copy(), meta(c, isinstance(c, ForecastCatalog))
        if chance(rng, .45):
            name = choice(rng, sorted(OTHER))
            f = OTHER[name](rng, d)
            (ok1, r), (ok2, e) = run(f, c), run(f, d)
            keep = False
        else:
            name = choice(rng, sorted(KEEP))
            f = KEEP[name](rng, d)
            (ok1, r), (ok2, e) = run(f, c), run(f, d)
            keep = True
        m.case(name, i, step)
        m.saw('steps')
        if isinstance(c, ForecastCatalog):
            m.saw('forecast')
        if not m.check(ok1 == ok2, 'raised:' + name, 'operation %s: %s on the '
                       'catalogue, %s on the DataFrame' % (
                           name, (ok1, r if ok1 == 'raised' else ''),
                           (ok2, e if ok2 == 'raised' else '')), data=d):
            return
        if ok1 == 'raised':
            continue
        judge(m, name, c, d, r, e, keep)
        m.check(frame_equal(c, before) and same(
            meta(c, isinstance(c, ForecastCatalog)), mbefore),
            'operand_changed:' + name, 'operation %s changed its operand' %
            name)
        if keep and isinstance(e, pd.DataFrame) and 'magnitude' in e:
            c, d = r, e
        m.sample(op=name, columns=list(d.columns), metadata=meta(c))


ALL_OPS = [('k', n) for n in sorted(KEEP)] + [('o', n) for n in sorted(OTHER)]


def w_each(m, rng, i):
    """every operation on fresh catalogues"""
    kind, name = ALL_OPS[i % len(ALL_OPS)]
    if i < len(ALL_OPS):
        m.saw('operations_seen')
    c = start(rng)
    d = pd.DataFrame(c).copy()
    f = (KEEP if kind == 'k' else OTHER)[name](rng, d)
    (ok1, r), (ok2, e) = run(f, c), run(f, d)
    m.case(name, i)
    m.saw('steps')
    if m.check(ok1 == ok2, 'raised:' + name, 'operation %s: %s on the '
               'catalogue, %s on the DataFrame' % (name, (ok1, r if ok1 ==
                                                          'raised' else ''),
                                                   ok2)) and ok1 == 'ok':
        judge(m, name, c, d, r, e, kind == 'k')


def w_several(m, rng, i):
    """concatenation and merging of catalogues with different metadata"""
    fc = chance(rng, .4)
    cls = ForecastCatalog if fc else Catalog
    cs = [api.catalog(rng, int(rng.integers(1, 12)), cls=cls)
          for _ in range(int(rng.integers(2, 5)))]
    for j, c in enumerate(cs):
        c.name, c.mc, c.delta_m, c.b_value = 'n%d' % j, 1. + j, .1 * j, .5 + j
        c.depth_max, c.starttime = 10. + j, pd.Timestamp('200%d-01-01' % j)
        if fc:
            c.n_catalogs = choice(rng, [10, 0]) + j
    if chance(rng, .3):
        cs[0].mc = None
    ds = [pd.DataFrame(c) for c in cs]
    if chance(rng, .5):
        kw = dict(ignore_index=chance(rng, .5))
        if chance(rng, .3):
            cs = [c.drop(columns='depth') if j % 2 else c
                  for j, c in enumerate(cs)]
            ds = [pd.DataFrame(c) for c in cs]
        r, e = pd.concat(cs, **kw), pd.concat(ds, **kw)
        m.saw('concat')
        judge(m, 'concat', cs[0], ds[0], r, e, True)
    else:
        left, dl = cs[0], ds[0]
        right = pd.DataFrame({'magnitude_type': ['ML', 'Mw', 'Md'],
                              'factor': rng.random(3)})
        how = choice(rng, ['left', 'inner', 'outer'])
        if chance(rng, .5):
            r = left.merge(right, on='magnitude_type', how=how)
            e = dl.merge(right, on='magnitude_type', how=how)
        elif chance(rng, .5):
            r = pd.merge(left, right, on='magnitude_type', how=how)
            e = pd.merge(dl, right, on='magnitude_type', how=how)
        else:       # with another catalogue
            o = cs[1][['magnitude', 'depth']].drop_duplicates('magnitude')
            r = left.merge(o, on='magnitude', how=how,
                           suffixes=('', '_other'))
            e = dl.merge(pd.DataFrame(o), on='magnitude', how=how,
                         suffixes=('', '_other'))
        m.saw('merge')
        judge(m, 'merge', left, dl, r, e, True)
    m.saw('steps')
    m.case('several', i)


WORKLOADS = [('history', w_history, 700, 8000),
             ('each', w_each, 12 * len(ALL_OPS), 60 * len(ALL_OPS)),
             ('several', w_several, 160, 3000)]
