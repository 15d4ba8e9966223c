"""Reference models (straight from the published definitions), independent of
the code under test."""
import math
from decimal import Decimal

import numpy as np

LN10 = math.log(10)


def wmean(x, w=None):
    x = [float(v) for v in x]
    if w is None:
        return math.fsum(x) / len(x) if len(x) else math.nan
    w = [float(v) for v in w]
    s = math.fsum(w)
    if s == 0:
        return math.nan
    return math.fsum(a * b for a, b in zip(x, w)) / s


def mle_b(excess, delta, w=None):
    """b-value that maximises the likelihood of the discretised (continuous
    for delta == 0) exponential; `excess` = magnitude - mc."""
    if len(excess) == 0:
        return math.nan
    a = wmean(excess, w)
    if math.isnan(a):
        return math.nan
    if delta > 0:
        if a == 0:
            return math.inf
        return math.log(1 + delta / a) / delta / LN10
    return math.inf if a == 0 else 1 / a / LN10


def utsu_b(excess, delta, w=None):
    if len(excess) == 0:
        return math.nan
    a = wmean(excess, w) + delta / 2
    return math.inf if a == 0 else 1 / a / LN10


def shi_bolt(mags, b, w=None):
    n = float(len(mags)) if w is None else math.fsum(map(float, w))
    mu = wmean(mags, w)
    if w is None:
        var = math.fsum((float(x) - mu) ** 2 for x in mags) / n
    else:
        var = math.fsum(float(v) * (float(x) - mu) ** 2
                        for x, v in zip(mags, w)) / n
    return LN10 * b * b * math.sqrt(var) / math.sqrt(n - 1)


def canon(k, delta_s):
    D = Decimal(delta_s)
    return np.array([float(int(i) * D) for i in k], dtype=float)


def positive_pairs(k, need):
    """Consecutive pairs (j-1, j) with k[j] - k[j-1] >= need."""
    return [(j - 1, j) for j in range(1, len(k)) if k[j] - k[j - 1] >= need]


def next_larger_pairs(k, need):
    """(i, j): j is the first later event with k[j] - k[i] >= need."""
    out = []
    for i in range(len(k)):
        for j in range(i + 1, len(k)):
            if k[j] - k[i] >= need:
                out.append((i, j))
                break
    return out
