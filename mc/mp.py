"""Multiprecision references."""

import mpmath
import numpy as np
from mpmath import mp, mpf

mp.prec = 200
LD = np.longdouble


def tomp(v):
    """Exact value of a NumPy (or Python) real number."""
    if isinstance(v, (int, np.integer)):
        return mpf(int(v))
    v = LD(v)
    if not np.isfinite(v):
        return mpf(float(v))
    m, e = np.frexp(v)
    return mpmath.ldexp(mpf(int(np.ldexp(m, 64))), int(e) - 64)


def ints(a):
    """(k, e): a == k * 2**-e exactly, k integers (an object array shaped as a)."""
    a = np.asarray(a)
    m, x = np.frexp(a.astype(LD))
    e = max(0, int(64 - x[a != 0].min())) if (a != 0).any() else 0
    k = np.empty(a.shape, dtype=object)
    kf, mf, xf = k.reshape(-1), m.reshape(-1), x.reshape(-1)
    for i in range(len(kf)):
        q, sh = int(np.ldexp(mf[i], 64)), int(xf[i]) - 64 + e
        kf[i] = q << sh if sh >= 0 else q >> -sh
    return k, e


def ratio(n, d):
    """n / d for object arrays of integers, to long double (0 / 0 is nan)."""
    n, d = np.broadcast_arrays(np.asarray(n, dtype=object), np.asarray(d, dtype=object))
    out = np.empty(n.shape, dtype=LD)
    o = out.reshape(-1)
    for i, (p, q) in enumerate(zip(n.ravel().tolist(), d.ravel().tolist())):
        if q == 0:
            o[i] = np.nan if p == 0 else np.inf if p > 0 else -np.inf
            continue
        sh = 80 - (abs(p).bit_length() - abs(q).bit_length())
        r = (abs(p) << sh) // abs(q) if sh >= 0 else abs(p) // (abs(q) << -sh)
        lo = r & (2 ** 40 - 1)
        v = np.ldexp(LD(r >> 40), 40 - sh) + np.ldexp(LD(lo), -sh)
        o[i] = -v if (p < 0) != (q < 0) else v
    return out


def told(x):
    """Nearest-ish long double (error <= 1 ulp of a long double)."""
    x = mpf(x)
    if not mpmath.isfinite(x) or x == 0:
        return LD(float(x))
    m, e = mpmath.frexp(x)
    hi = float(m)
    lo = float(m - mpf(hi))
    with np.errstate(all="ignore"):
        return np.ldexp(LD(hi) + LD(lo), int(e))


def arr(vals):
    """Long double array of the mp values (None means nan)."""
    return np.array([LD(np.nan) if v is None else told(v) for v in vals], dtype=LD)


def m_tol(tol):
    """|got-exp| <= tol (an absolute tolerance for each case); inf and nan in the same places.
    A result that rounds to infinity or below the smallest normal number of its type may do so."""
    tol = np.asarray(tol, dtype=LD)

    def f(got, exp):
        fi = np.finfo(got.dtype)
        t = tol.reshape(tol.shape + (1,) * (exp.ndim - tol.ndim)) if tol.ndim < exp.ndim else tol
        g, e = got.astype(LD), exp.astype(LD)
        ok = (np.abs(g - e) <= t + 2 * LD(fi.smallest_subnormal)) & np.isfinite(g)
        ok |= (g == e) | (np.isnan(g) & np.isnan(e))
        ok |= np.isinf(g) & (np.abs(e) + t >= LD(fi.max) * (1 - LD(fi.eps))) & (np.sign(g) == np.sign(e))
        return ok
    return f


def eps(t):
    return LD(np.finfo(t).eps)
