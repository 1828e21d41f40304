"""Rows of more than 2**24 elements (what a float32 counts), against exact arithmetic over the distinct values."""

from fractions import Fraction

import numpy as np

N = 2**24 + 3


def row(t, values=(1, 3, 7, 4, 100), one=90):
    """The values in turn, and one more somewhere; its distinct values with their numbers."""
    x = np.resize(np.array(values, dtype=t), N)
    x[N // 3] = one
    v, m = np.unique(x, return_counts=True)
    return x, [(Fraction(float(a)), int(b)) for a, b in zip(v, m)]


def check(ctx, f, args, ex, tol, what, how="x = np.resize([1, 3, 7, 4, 100], 2**24 + 3); x[len(x)//3] = 90"):
    g = ctx.call(f, *args)
    ctx.count(1, 1)
    if abs(Fraction(float(g)) - Fraction(ex)) > abs(Fraction(ex)) * Fraction(tol):
        ctx.violation(f"{what}: wrong result for {N} elements", f=f, args=tuple(a if np.ndim(a) == 0 else a[:5] for a in args), got=g, exp=float(ex), repro=how)
        return False
    return True
