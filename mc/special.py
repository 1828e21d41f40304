"""Grids over the floating point numbers, and comparison of real functions with multiprecision references."""

import numpy as np

from . import mp as M
from . import seq as S

LD = np.longdouble


def binades(t, lo, hi, mant=(1.0, 1.25, 1.37, 1.625, 1.9999), neg=True, step=1):
    """A few numbers in every binade with exponents lo..hi."""
    r = [np.ldexp(S.num(t, m), e) for e in range(lo, hi + 1, step) for m in mant]
    r = np.array(r, dtype=t)
    return np.concatenate([-r[::-1], r]) if neg else r


def around(t, pts, k=3):
    """The points and their k neighbours on each side."""
    ty = np.dtype(t).type
    r = []
    for p in pts:
        a = b = S.num(t, p)
        r.append(a)
        for _ in range(k):
            a = np.nextafter(a, ty(np.inf))
            b = np.nextafter(b, ty(-np.inf))
            r += [a, b]
    return np.array(r, dtype=t)


def lin(t, lo, hi, n):
    return np.linspace(LD(lo), LD(hi), n).astype(t)


def uniq(*arrs):
    x = np.concatenate(arrs)
    return np.unique(x)


def erange(t):
    """Exponents of the normal numbers, with some margin."""
    fi = np.finfo(t)
    return int(fi.minexp) + 4, int(fi.maxexp) - 4


def sweep(ctx, f, args, ref, tol, what="", lays=S.LAYS, nontrivial=None):
    """args: arrays of one length; ref(*mpf) -> mpf or None (nan); tol(exp, *args) -> absolute tolerances (long double)."""
    t = args[0].dtype
    n = len(args[0])
    mps = [[M.tomp(v) for v in a] for a in args]
    e = M.arr([ref(*v) for v in zip(*mps)])
    ctx.tick()
    with np.errstate(all="ignore"):
        tl = np.asarray(tol(np.abs(e), *[np.abs(a.astype(LD)) for a in args]), dtype=LD)
        tl = np.where(np.isfinite(tl), tl, 0) + LD(np.finfo(t).tiny) * M.eps(t) * 64
    return S.compare(ctx, f, list(args), e, M.m_tol(tl), what=what, lays=lays, dtypes=[t], nontrivial=nontrivial)


def exact(ctx, f, rows, what, ulps=0):
    """rows: [(args..., expected)] for each of which the result is exact, or within ulps*eps if it is finite
    (nan matches nan, the sign of zero is not compared)."""
    for row in rows:
        r = ctx.call(f, *row[:-1])
        e = row[-1]
        ctx.count(1)
        near = np.isfinite(e) and e != 0 and abs(r - e) <= ulps * np.finfo(r.dtype).eps * abs(e)
        if not (r == e or near or (r != r and e != e)) or r.dtype != np.asarray(row[0]).dtype:
            ctx.violation(f"{what}: wrong value", f=f, args=row[:-1], got=r, exp=e)
            return
