"""Small helpers shared by the oracles (pure numpy; nothing from the code
under test)."""
import copy

import numpy as np
import pandas as pd


def close(a, b, rtol=1e-9, atol=1e-12):
    """Numerically equal, NaN == NaN, inf == inf, shapes must agree."""
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def choice(rng, seq):
    return seq[int(rng.integers(0, len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def size(rng, n, *large, p=.02):
    """n, or rarely one of the large sizes"""
    return int(choice(rng, large)) if chance(rng, p) else int(n)


def digest(*arrs):
    """Short repr used as distinctness key."""
    out = []
    for a in arrs:
        if isinstance(a, np.ndarray):
            out.append((a.shape, hash(a.tobytes())))
        else:
            out.append(repr(a))
    return tuple(out)


def grid_mags(rng, n, k0=0, delta=0.1, beta=2.3, kmax=None):
    """Integer bin indices and the canonical floats of a GR-like sample.

    The float of bin k is the double nearest to the decimal k*delta."""
    from decimal import Decimal
    k = k0 + np.floor(rng.exponential(1 / (beta * delta), n)).astype(int)
    if kmax is not None:
        k = np.minimum(k, kmax)
    d = Decimal(str(delta))
    lut = {int(x): float(int(x) * d) for x in np.unique(k)}
    return k, np.array([lut[int(x)] for x in k], dtype=float)


def dec(k, delta):
    """The double nearest to the decimal number k*delta."""
    from decimal import Decimal
    return float(int(k) * Decimal(str(delta)))


def snapshot(x):
    return copy.deepcopy(x)


def same(a, b):
    """Deep, type-aware equality used for 'nothing was modified' checks."""
    if isinstance(a, pd.DataFrame):
        if type(a) is not type(b) or list(a.columns) != list(b.columns):
            return False
        if not a.index.equals(b.index) or list(a.dtypes) != list(b.dtypes):
            return False
        try:
            pd.testing.assert_frame_equal(pd.DataFrame(a), pd.DataFrame(b),
                                          check_exact=True)
        except AssertionError:
            return False
        for k in getattr(a, '_metadata', []):
            if k in ('logger', '_required_cols'):
                continue
            if not same(getattr(a, k, None), getattr(b, k, None)):
                return False
        return True
    if isinstance(a, pd.Series):
        if type(a) is not type(b) or not a.index.equals(b.index) \
                or a.dtype != b.dtype or a.name != b.name:
            return False
        try:
            pd.testing.assert_series_equal(a, b, check_exact=True)
        except AssertionError:
            return False
        return True
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape \
                or a.dtype != b.dtype:
            return False
        if a.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        if a.dtype.kind == 'O':
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if a is None or b is None:
        return a is b
    if a is pd.NaT or b is pd.NaT:
        return a is b
    try:
        return bool(a == b)
    except Exception:       # noqa
        return repr(a) == repr(b)
