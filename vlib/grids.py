"""Generator of rate grids and reference bookkeeping for them."""
import numpy as np
import pandas as pd

from vlib.util import chance, choice

BOUNDS = ['longitude_min', 'longitude_max', 'latitude_min', 'latitude_max',
          'depth_min', 'depth_max']
GR = ['a', 'b', 'mc']


def cells(rng, n, missing=True):
    """n different cells with awkward bounds"""
    out, seen = [], set()
    nodepth = missing and chance(rng, .2)
    while len(out) < n:
        lo = [float(choice(rng, [-180, -0.5, -0.0, 0., 9, 10, 11, 179.95,
                                 9.1, 9.100000001])),
              float(choice(rng, [-90, -1, -0.0, 0., 45, 46, 46.5])),
              float(choice(rng, [-2, 0., 5, 10]))]
        c = []
        for v in lo:
            c += [v, v + choice(rng, [.1, .5, 1, 20])]
        if missing:
            if nodepth or chance(rng, .2):
                c[4] = c[5] = np.nan
                if chance(rng, .2):
                    c[int(rng.integers(0, 4))] = np.nan
            elif chance(rng, .2):
                c[int(rng.integers(0, 6))] = np.nan
        k = key(c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def key(c):
    """equal for equal bounds, with NaN equal to NaN and -0.0 to 0.0"""
    return tuple('nan' if v != v else float(v) + 0. for v in c)


def rank(c):
    """sorts as the cells are to be numbered (NaN last)"""
    return tuple((v != v, 0. if v != v else float(v) + 0.) for v in c)


def frame(rng, cs, extra=(), grid_id=None, ints=False):
    n = len(cs)
    d = {b: [c[j] for c in cs] for j, b in enumerate(BOUNDS)}
    for c in GR:
        v = rng.normal(1, 1, n)
        if chance(rng, .2):
            v = np.round(v)
        if chance(rng, .2):
            v[rng.random(n) < .3] = np.nan
        d[c] = v
    if ints:
        d['mc'] = rng.integers(0, 4, n)
    for c in extra:
        d[c] = {'number_events': lambda: rng.integers(0, 50, n),
                'alpha': lambda: rng.normal(0, 1, n),
                'cell': lambda: rng.integers(0, 50, n),
                'rate': lambda: rng.exponential(1, n),
                'note': lambda: [choice(rng, ['x', 'y', None])
                                 for _ in range(n)],
                'a_std': lambda: rng.normal(0, 1, n),
                'flag': lambda: rng.random(n) < .5}[c]()
    if grid_id is not None:
        d['grid_id'] = grid_id
    cols = list(d)
    if chance(rng, .3):
        cols = [cols[j] for j in rng.permutation(len(cols))]
    index = choice(rng, ['range', 'range', 'labels', 'strings', 'dups'])
    ix = {'range': None, 'labels': rng.permutation(n) * 3 + 7,
          'strings': ['c%d' % j for j in rng.permutation(n)],
          'dups': rng.integers(0, 3, n)}[index]
    return pd.DataFrame(d, columns=cols, index=ix)
