"""C15 building blocks of b-value series: constant-number cutting, estimates
per partition, Moran's I, transformation to another sample size."""
import math

import numpy as np
import pandas as pd

from seismostats.analysis import (APositiveAValueEstimator,
                                  BPositiveBValueEstimator,
                                  ClassicAValueEstimator,
                                  ClassicBValueEstimator, UtsuBValueEstimator)
from seismostats.analysis.avalue.base import AValueEstimator
from seismostats.analysis.b_significant import (cut_constant_idx,
                                                est_morans_i, transform_n,
                                                values_from_partitioning)
from vlib import ref, samples
from vlib.util import chance, choice, close, same, size, snapshot

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('a case is one call of a building block on generated input, decided '
        'by direct summation / conservation / fresh-estimator references; '
        'non-trivial when at least two partitions or neighbour pairs')
ASSUMPTIONS = ['distinct event times inside a partition']
MUST = {'morans': 150, 'morans_matrix': 80, 'morans_nan': 60,
        'morans_diagonal': 20, 'cut': 100, 'partitions': 400,
        'empty_partitions': 20, 'scaling': 20, 'transform': 60,
        'rejected': 100}


def w_morans(m, rng, i):
    n = size(rng, rng.integers(3, 30), 200, 600, p=.04)
    v = rng.normal(1, .2, n)
    if chance(rng, .2):     # zero is a value like any other
        v = np.round(v * 5) - 5
    if chance(rng, .2):
        v = np.round(v * 10)
    nanmask = np.zeros(n, bool)
    if chance(rng, .5):
        nanmask = rng.random(n) < .2
        v[nanmask] = np.nan
    if (~nanmask).sum() < 2 or np.nanstd(v) == 0:
        return m.saw('discarded')
    mean = None
    kw = {}
    if chance(rng, .4):
        mean = kw['mean_v'] = choice(rng, [0., 0, float(rng.normal(1, .2)),
                                              float(rng.normal(1, .2))])
    pairs = {(a, a + 1) for a in range(n - 1)}
    warg = None
    if chance(rng, .65):
        U = np.triu(rng.random((n, n)) < rng.uniform(.05, .6), 1)
        pairs = {(a, b) for a in range(n) for b in range(n) if U[a, b]}
        W = choice(rng, [U, U.T, U | U.T]).astype(
            choice(rng, [int, float]))
        if chance(rng, .3):
            np.fill_diagonal(W, (rng.random(n) < .5).astype(int))
            m.saw('morans_diagonal')
        warg = kw['w'] = W
        m.saw('morans_matrix')
    if nanmask.any():
        m.saw('morans_nan')
    good = [(a, b) for a, b in pairs if not (nanmask[a] or nanmask[b])]
    if not good:
        return m.saw('discarded')
    mu = math.fsum(v[~nanmask]) / (~nanmask).sum() if mean is None else mean
    den = math.fsum((q - mu) ** 2 for q in v[~nanmask])
    want = ((~nanmask).sum() - 1) / len(good) * math.fsum(
        (v[a] - mu) * (v[b] - mu) for a, b in good) / den
    snap = snapshot((v, warg))
    arg = choice(rng, [v, list(v), pd.Series(v)])
    ac, nn, n_p = est_morans_i(arg, **kw)
    m.saw('morans')
    m.check(same(snap, (v, warg)), 'mutated', 'input modified')
    det = dict(v=v, w=warg, mean=mean, got=(ac, nn, n_p), want=want,
               pairs=len(good))
    m.check(close(ac, want, 1e-8, 1e-12), 'morans', "Moran's I is not the "
            'neighbour covariance over the variance', **det)
    m.check(nn == (~nanmask).sum() and n_p == len(good), 'morans_n',
            'counts of values or of neighbouring pairs wrong', **det)
    # scale/shift invariance and relabelling
    kw2 = dict(kw)
    if mean is not None:
        kw2['mean_v'] = 3 * mean + 5
    ac2, _, _ = est_morans_i(3 * v + 5, **kw2)
    m.check(close(ac2, ac, 1e-6, 1e-9), 'morans_scale', 'not invariant under '
            'scaling and shifting the values', ac2=ac2, **det)
    if warg is not None and np.all(warg == warg.T):
        p = rng.permutation(n)
        ac3, _, np3 = est_morans_i(v[p], **dict(kw, w=warg[np.ix_(p, p)]))
        m.check(close(ac3, ac, 1e-8, 1e-12) and np3 == n_p, 'morans_relabel',
                'not invariant under relabelling', ac3=ac3, **det)
    m.case('morans', v.tobytes(), None if warg is None else warg.tobytes(),
           mean, nontrivial=len(good) > 1)
    # rejections
    bad = []
    bad.append((v[:1], {}))
    A = np.zeros((n, n))
    A[0, 1], A[2, 1] = 1, 1
    bad.append((v, dict(w=A)))                      # neither triangular
    B = np.zeros((n, n))
    B[0, 1] = .5
    bad.append((v, dict(w=B)))
    bad.append((v, dict(w=np.zeros((n, n + 1)))))
    bad.append((v, dict(w=np.roll(np.eye(n), 1, axis=1))))  # a directed ring
    a, k = bad[i % (5 if n > 2 else 4)]
    try:
        est_morans_i(a, **k)
    except ValueError:
        m.saw('rejected')
    else:
        m.fail('morans_reject', 'invalid neighbour matrix or series accepted',
               w=k.get('w'), v=a)


def w_cut(m, rng, i):
    L = size(rng, rng.integers(1, 60), 1000, 5000, p=.05)
    n = int(rng.integers(1, 15))
    off = int(rng.integers(0, n))
    v = rng.normal(size=L)
    kw = {} if off == 0 and chance(rng, .5) else dict(offset=off)
    arg = choice(rng, [v, list(v)])
    idx, subs = cut_constant_idx(arg, n, **kw)
    m.saw('cut')
    det = dict(L=L, n=n, offset=off, idx=idx, sizes=[len(s) for s in subs])
    m.check(np.array_equal(np.concatenate(subs), v), 'cut_conservation',
            'the subsamples do not partition the series in order', **det)
    sizes = [len(s) for s in subs]
    want = []
    rest = L
    if off:
        want.append(min(off, L))
        rest -= want[-1]
    while rest > 0:
        want.append(min(n, rest))
        rest -= want[-1]
    m.check(sizes == want, 'cut_sizes', 'subsamples are not offset events '
            'followed by n events each', want=want, **det)
    m.check([len(s) for s in np.array_split(v, idx)] == sizes, 'cut_idx',
            'idx does not reproduce the subsamples', **det)
    try:
        cut_constant_idx(v, n, offset=n)
    except ValueError:
        m.saw('rejected')
    else:
        m.fail('cut_reject', 'offset >= n accepted')
    m.case('cut', L, n, off, nontrivial=len(subs) > 1)


def w_part(m, rng, i):
    ns = int(rng.integers(1, 9))
    ds = choice(rng, ['0.1', '0.01', '0.2'])
    d = float(ds)
    lm, lt, mcs, sec = [], [], [], []
    kind = choice(rng, ['float', 'int', 'dt64', 'days'])
    fine = kind == 'dt64' and chance(rng, .6)
    for _ in range(ns):
        n = 0 if chance(rng, .12) else size(
            rng, choice(rng, [1, 2, 2, rng.integers(3, 40),
                              rng.integers(3, 40), rng.integers(3, 40)]), 700)
        k = int(rng.integers(0, 10)) + np.floor(rng.exponential(
            1 / (2.3 * d), n)).astype(int)
        lm.append(ref.canon(k, ds) if n else np.array([]))
        _, t, _, s = samples._fine(rng, n, kind) if fine else \
            samples.times(rng, n, kind)
        lt.append(t)
        sec.append(s)
        mcs.append(float(ref.canon([int(rng.integers(0, 12))], ds)[0]))
        m.saw('partitions')
        m.saw('empty_partitions', int(n == 0))
    cls = choice(rng, [ClassicBValueEstimator, ClassicBValueEstimator,
                       UtsuBValueEstimator, BPositiveBValueEstimator,
                       ClassicAValueEstimator, APositiveAValueEstimator])
    isa = issubclass(cls, AValueEstimator)
    scal = None
    kw = {}
    if isa and chance(rng, .6):
        scal = list(rng.uniform(.5, 20, ns))
        if chance(rng, .3):
            scal = [scal[0]] * ns
        kw['list_scaling'] = choice(rng, [scal, np.array(scal)])
        m.saw('scaling')
    if cls is not ClassicBValueEstimator or chance(rng, .3):
        kw['method'] = cls
    scalar = chance(rng, .3)
    mc_arg = mcs[0] if scalar else choice(rng, [mcs, np.array(mcs)])
    if scalar:
        mcs = [mcs[0]] * ns
    want = []
    for j in range(ns):
        if len(lm[j]) == 0:
            want.append((math.nan, math.nan, 0))
            continue
        o = np.argsort(sec[j])
        e = cls()
        a = {}
        if isa:
            a['scaling_factor'] = 1.0 if scal is None else scal[j]
            if cls is APositiveAValueEstimator:
                a['times'] = lt[j][o]
        e.calculate(lm[j][o], mcs[j], d, **a)
        want.append((e.value, math.nan if e.std is None else e.std, e.n))
    snap = snapshot((lm, lt, mc_arg))
    v, s, n = values_from_partitioning(lm, lt, mc_arg, d, **kw)
    m.check(same(snap, (lm, lt, mc_arg)), 'mutated', 'input modified')
    det = dict(mags=lm, mcs=mcs, cls=cls.__name__, scal=scal, got=(v, s, n),
               want=want)
    m.check(close(v, [q[0] for q in want], 1e-9), 'part_values', 'values are '
            'not the estimates of the individual partitions', **det)
    m.check(close(s, [q[1] for q in want], 1e-9), 'part_std', 'standard '
            'deviations are not those of the partitions', **det)
    m.check(np.array_equal(n, [q[2] for q in want]) and
            n.dtype.kind == 'i', 'part_n', 'event numbers wrong', **det)
    # event order within the partitions is irrelevant
    lm2, lt2 = [], []
    for a, b in zip(lm, lt):
        p = rng.permutation(len(a))
        lm2.append(a[p])
        lt2.append(np.array(b)[p])
    v2, s2, n2 = values_from_partitioning(lm2, lt2, mc_arg, d, **kw)
    m.check(close(v2, v, 1e-9) and np.array_equal(n, n2), 'part_order',
            'result depends on the storage order inside a partition', v2=v2,
            **det)
    for a in ((lm, lt[:-1], mc_arg), (lm, lt, mcs + [1.0])):
        try:
            values_from_partitioning(*a, d, **kw)
        except IndexError:
            m.saw('rejected')
        else:
            m.fail('part_reject', 'lists of different length accepted')
    m.case('part', cls.__name__, [a.tobytes() for a in lm],
           nontrivial=ns > 1)
    m.sample(cls=cls.__name__, sizes=[len(a) for a in lm], values=v)


def w_transform(m, rng, i):
    n = int(rng.integers(1, 8))
    b = rng.uniform(.3, 3, n)
    bt = float(rng.uniform(.5, 1.8))
    n1 = rng.integers(5, 100, n)
    n2 = n1 + rng.integers(0, 200, n)
    n3 = n2 + rng.integers(0, 200, n)
    if chance(rng, .5):
        b, n1, n2, n3 = float(b[0]), int(n1[0]), int(n2[0]), int(n3[0])
    det = dict(b=b, bt=bt, n1=n1, n2=n2)
    t = transform_n(b, bt, n1, n2)
    m.saw('transform')
    # 1/b deviations shrink with sqrt(n1/n2)
    want = np.sqrt(np.asarray(n1) / n2) * (1 / np.asarray(b) - 1 / bt) + 1 / bt
    ok = np.abs(want) > 1e-3
    m.check(close(np.where(ok, 1 / np.asarray(t), 0), np.where(ok, want, 0),
                  1e-8, 1e-10), 'transform', 'deviation of 1/b from the true '
            'value is not scaled by sqrt(n1/n2)', got=t, **det)
    m.check(close(transform_n(b, bt, n1, n1), b, 1e-9), 'transform_identity',
            'n1 == n2 must change nothing', **det)
    m.check(close(transform_n(bt, bt, n1, n2), bt * np.ones_like(np.asarray(
        n1, float)), 1e-9), 'transform_fixpoint', 'the true b-value must stay',
        **det)
    if np.all(ok):
        m.check(close(transform_n(t, bt, n2, n3), transform_n(b, bt, n1, n3),
                      1e-6), 'transform_compose', 'transformations do not '
                'compose', **det)
    bad = np.asarray(n2) + 1
    if bad.ndim and len(bad) > 1 and chance(rng, .7):
        bad = np.asarray(n1) + 0    # one of them only
        j = int(rng.integers(0, n))
        bad[j] = n2[j] + int(choice(rng, [1, 50]))
    try:
        transform_n(b, bt, bad, n2)
    except ValueError:
        m.saw('rejected')
    else:
        m.fail('transform_reject', 'n1 > n2 accepted', **det)
    m.case('transform', b, bt, n1, n2)


WORKLOADS = [('morans', w_morans, 300, 8000), ('cut', w_cut, 200, 4000),
             ('part', w_part, 200, 4000),
             ('transform', w_transform, 150, 3000)]
