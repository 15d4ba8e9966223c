"""C03 frequency-magnitude distribution: conservation against an integer
reference count."""
from collections import defaultdict
from decimal import Decimal
import math

import numpy as np
import pandas as pd

from seismostats.utils import get_cum_fmd, get_fmd
from vlib.util import chance, choice, close, same, snapshot

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('a case is one call of get_fmd or get_cum_fmd; magnitudes are integer '
        'multiples of bin/q so that the reference bin is computed in integers;'
        ' non-trivial when two bins are occupied')
ASSUMPTIONS = ['magnitudes without NaN (the functions do not document them); '
               'bin width between 0.001 and 5, up to 1700 bins']
MUST = {'fmd_calls': 300, 'cum_calls': 300, 'weighted': 150,
        'gap_bins': 100, 'zero_bin_calls': 50}

BINS = ['0.1', '0.01', '0.05', '0.2', '0.25', '0.5', '1', '0.3', '2', '0.001', '0.0125',
        '0.02', '5', '0.0001', '0.00025', '0.000001', '0.0000025']


def gen(rng):
    bs = choice(rng, BINS)
    q = int(choice(rng, [1, 2, 3, 5, 10]))
    n = int(choice(rng, [1, 2, 5, 40, 400]))
    if chance(rng, .03):
        n = int(choice(rng, [4000, 4000, 40000, 70000]))
    span = int(choice(rng, [1, 3, 30, 60, 60, 500])) * q
    j = int(rng.integers(-40, 40)) * q + rng.integers(0, span, n)
    if chance(rng, .4):     # a far outlier leaves empty bins in between
        j[0] = j.max() + int(choice(rng, [rng.integers(1, 40),
                                          rng.integers(300, 1200)])) * q
    x = np.array([float(int(v) * Decimal(bs) / q) for v in j])
    k = (2 * j + q) // (2 * q)        # nearest bin, halves upward
    w = None
    if chance(rng, .5):
        w = choice(rng, [rng.uniform(0, 3, n), rng.integers(0, 4, n),
                         np.ones(n)])
    return bs, q, x, k, w


def args(rng, x, w):
    f = int(rng.integers(0, 3))
    p = rng.permutation(len(x))
    xa = [x, list(x), pd.Series(x, index=p)][f]
    wa = None if w is None else [w, list(w), pd.Series(w, index=p)][f]
    return xa, wa


def ref_counts(k, w):
    lo, hi = int(k.min()), int(k.max())
    acc = defaultdict(list)
    for i, kk in enumerate(k):
        acc[int(kk)].append(1.0 if w is None else float(w[i]))
    return np.arange(lo, hi + 1), np.array(
        [math.fsum(acc[b]) for b in range(lo, hi + 1)])


def _centers(kk, bs, pos):
    c = np.array([float(int(b) * Decimal(bs)) for b in kk])
    return c - float(bs) / 2 if pos == 'left' else c


def _one(m, rng, cum):
    bs, q, x, k, w = gen(rng)
    pos = choice(rng, ['center', 'left'])
    xa, wa = args(rng, x, w)
    sx, sw = snapshot(xa), snapshot(wa)
    fn = get_cum_fmd if cum else get_fmd
    name = fn.__name__
    kw = {} if pos == 'center' and chance(rng, .5) else dict(bin_position=pos)
    if wa is not None:
        kw['weights'] = wa
    bins, counts, binned = fn(xa, float(bs), **kw)
    m.check(same(sx, xa) and same(sw, wa), 'mutated', name + ' modified its '
            'input')
    m.saw('cum_calls' if cum else 'fmd_calls')
    if w is not None:
        m.saw('weighted')
    kk, ref = ref_counts(k, w)
    if np.any(ref == 0):
        m.saw('gap_bins')
    tot = float(len(x)) if w is None else math.fsum(map(float, w))
    if cum:
        ref = np.cumsum(ref[::-1])[::-1]
    d = dict(bin=bs, x=x, w=w, bins=bins, counts=counts, ref=ref, pos=pos)
    m.check(close(binned, [float(int(b) * Decimal(bs)) for b in k],
                  atol=1e-11), 'binned:' + name,
            name + ' returned wrong binned magnitudes', **d)
    ok = m.check(np.shape(bins) == kk.shape and
                 close(bins, _centers(kk, bs, pos), atol=1e-9),
                 'bins:' + name, name + ' bins are not the contiguous grid '
                 'from the smallest to the largest binned magnitude', **d)
    m.check(ok and close(counts, ref, rtol=1e-10, atol=1e-9),
            'counts:' + name, name + ' counts differ from the number (weight) '
            'of events per bin', **d)
    s = counts[0] if cum else np.sum(counts)
    m.check(close(s, tot, rtol=1e-10), 'conservation:' + name,
            name + ' loses or duplicates events', total=tot, got=s, **d)
    # order of the events must not matter
    p = rng.permutation(len(x))
    b2, c2, _ = fn(x[p], float(bs), bin_position=pos,
                   weights=None if w is None else np.asarray(w)[p])
    m.check(close(b2, bins) and close(c2, counts, rtol=1e-10, atol=1e-9),
            'order:' + name,
            name + ' depends on the order of the events', **d)
    if not cum:
        # cumulative is the reversed running sum of this
        b3, c3, _ = get_cum_fmd(x, float(bs), bin_position=pos, weights=w)
        m.check(close(b3, bins) and
                close(c3, np.cumsum(np.asarray(counts)[::-1])[::-1],
                      rtol=1e-10, atol=1e-9), 'cum_vs_fmd',
                'cumulative counts are not the sums of the counts', **d)
    m.case(name, bs, q, pos, w is not None, x.tobytes(),
           nontrivial=len(set(k.tolist())) > 1)
    m.sample(fn=name, bin=bs, x=x[:6], bins=bins[:6], counts=counts[:6])


def w_fmd(m, rng, i):
    _one(m, rng, False)


def w_cum(m, rng, i):
    _one(m, rng, True)


def w_zero(m, rng, i):
    """fmd_bin == 0: one bin per distinct magnitude."""
    n = int(choice(rng, [1, 5, 60]))
    x = rng.exponential(1, n) if chance(rng, .5) else \
        rng.integers(0, 9, n) / 10
    w = rng.uniform(0, 2, n) if chance(rng, .5) else None
    bins, c, binned = get_cum_fmd(x, 0, weights=w)
    m.saw('zero_bin_calls')
    u = np.array(sorted(set(x.tolist())))
    ref = [math.fsum((1.0 if w is None else w[j]) for j in range(n)
                     if x[j] >= b) for b in u]
    m.check(close(bins, u, 0, 0) and close(c, ref, 1e-10, 1e-10) and
            close(binned, x, 0, 0), 'zero_bin',
            'get_cum_fmd(fmd_bin=0) wrong', x=x, bins=bins, counts=c, ref=ref)
    m.case('zero', x.tobytes(), w is None, nontrivial=len(u) > 1)
    for bad in (-0.1, 0):
        try:
            get_fmd(x, bad)
        except ValueError:
            m.saw('rejected_bin')
        else:
            m.fail('bad_bin', 'get_fmd accepted a non-positive bin', bin=bad)


WORKLOADS = [('fmd', w_fmd, 700, 20000), ('cum', w_cum, 700, 20000),
             ('zero', w_zero, 100, 2000)]
