"""Comparing results."""

import numpy as np


def same(a, b):
    """Identical values: NaN equals NaN, -0.0 equals 0.0; objects compare by ==."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(type(x) is type(y) and (x is y or x == y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    e = a == b
    if a.dtype.kind in "fc":
        e = e | ((a != a) & (b != b))
    return bool(np.all(e))


def close(a, b, eps_mult, scale=0.0):
    """|a-b| <= eps_mult*eps*(|b|+scale); NaN and inf in the same places."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fc":
        return same(a, b)
    eps = np.finfo(a.dtype).eps
    with np.errstate(all="ignore"):
        d = np.abs(a - b) <= eps_mult * eps * (np.abs(b) + scale)
        ok = d | (a == b) | ((a != a) & (b != b))
    return bool(np.all(ok))
