"""C12: searchsortedl and searchsortedr."""

import bisect
import itertools
from fractions import Fraction

import numpy as np

from mc import seq as S

PROP = "C12"
LEVEL = "exploration"
RULE = ("one case = one sorted array x value x side x data type(s) x memory layout; non-trivial = the array is not "
        "empty")
ASSUMPTIONS = ["the array is sorted; nan is not used"]
TYPES = S.INTS + ["e"] + S.FLOATS


def shards(tier):
    return [[k + t, t] for t in TYPES for k in ("seq_", "fine_")] + [["long_" + t, t] for t in TYPES] + [["objects"], ["mixed"]]


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    both = ((u.searchsortedl, "left"), (u.searchsortedr, "right"))
    if kind in ("seq", "fine"):
        t = shard[1]
        a = np.unique(np.array([1, 0, -2.5, np.inf, -np.inf, 0.5, 2.0], dtype=t) if t in "efdg" else S.alphabet(t, 6))
        if kind == "fine":
            a = np.unique(np.concatenate([-S.fine(t), S.fine(t)]) if t in "efdg" else S.fine(t))
        for L in range(0, 8 if ctx.thorough else 7 if kind == "seq" else 4):
            combos = list(itertools.combinations_with_replacement(a, L))
            w = np.array(combos, dtype=t).reshape(len(combos), L)
            W, V = S.product(w, a)
            lo = (W < V[:, None]).sum(axis=1)
            hi = (W <= V[:, None]).sum(axis=1)
            for (f, side), e in zip(both, (lo, hi)):
                S.compare(ctx, f, [W, V], e, what=f"searchsorted {side} {t} L={L}", dtypes="l",
                          lays=("contig", "strided", "reversed"), nontrivial=len(W) if L else 0)
        ctx.sample(f"{t}: all sorted sequences over {a.tolist()} up to length {L}, each value of the alphabet")
    elif kind == "long":
        t = shard[1]
        for n in range(1, 200 if ctx.thorough else 121):
            if t in "bB" and 2 * n + 1 > np.iinfo(t).max:
                break
            x = (2 * np.arange(n) + 1).astype(t)
            y = ((np.arange(n) // 3) * 2 + 1).astype(t)      # runs of equal values
            v = np.arange(0, min(2 * n + 2, int(S.big(t)))).astype(t)
            for arr in (x, y):
                X = np.broadcast_to(arr, (len(v), n)).copy()
                lo = (X < v[:, None]).sum(axis=1)
                hi = (X <= v[:, None]).sum(axis=1)
                for (f, side), e in zip(both, (lo, hi)):
                    S.compare(ctx, f, [X, v], e, what=f"searchsorted {side} {t} n={n}", dtypes="l")
            if ctx.full:
                return
        for n in S.sizes(ctx.thorough, 70001):
            if n < 200 or t in "bBe":
                continue
            w = min(n, int(S.big(t)) // 3) if t not in "fdg" else n
            x = (np.arange(n) * w // n * 2 + 1).astype(t)
            v = np.unique(np.concatenate([x[S.positions(n)].astype(float) + d for d in (-1, 0, 1)])).astype(t)
            X = np.broadcast_to(x, (len(v), n)).copy()
            for f, side in both:
                S.compare(ctx, f, [X, v], np.searchsorted(x, v, side=side), what=f"searchsorted {side} {t} n={n}", dtypes="l",
                          lays=("contig", "strided", "reversed"))
            if ctx.full:
                return
    elif kind == "objects":
        vals = [-3, Fraction(1, 3), 0.5, 1, 2**70]
        for L in range(0, 6):
            for w, x in S.laid(itertools.combinations_with_replacement(vals, L)):
                for v in vals + [0, 0.25]:
                    for f, e in ((u.searchsortedl, bisect.bisect_left(w, v)), (u.searchsortedr, bisect.bisect_right(w, v))):
                        g = ctx.call(f, x, v)
                        if g != e:
                            ctx.violation(f"{f.__name__} object: wrong result", f=f, args=(x, v), got=g, exp=e)
                            return
                    ctx.count(2, 2 if L else 0)
    else:
        # operands of two types are compared in their common type
        base = np.array([0, 1, 1, 2, 5, 100])
        for t1, t2 in itertools.product("?" + "".join(TYPES), repeat=2):
            x = np.sort(base.astype(t1))
            v = np.array([0, 1, 2, 3, 100]).astype(t2)
            for f, side in both:
                g, e = ctx.attempt(f, x, v)
                ctx.count(1)
                if e is not None:
                    if t1 == "?" and t2 == "?":
                        continue
                    ctx.violation(f"{f.__name__} {t1}{t2} raised {e!r}", f=f, args=(x, v))
                    return
                if g.tolist() != np.searchsorted(x, v, side=side).tolist():
                    ctx.violation(f"{f.__name__} {t1}{t2}: wrong result", f=f, args=(x, v), got=g)
                    return
