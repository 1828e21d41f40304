"""C11: argmin, argmax, minmax, argminmax, min_argmin, max_argmax."""

import itertools
from fractions import Fraction

import numpy as np

from mc import seq as S

PROP = "C11"
LEVEL = "exploration"
RULE = ("one case = one sequence (no nan) x data type x memory layout, all six functions; non-trivial = at least two "
        "elements")
ASSUMPTIONS = ["the functions only compare elements, so the alphabet (type extremes, zero, neighbours) stands for "
               "all values; arrays with nan are documented as undefined and are not judged"]
TYPES = S.INTS + ["q", "Q"] + S.FLOATS


def shards(tier):
    return [[k + t, t] for t in TYPES for k in ("seq_", "fine_")] + [["long_" + t, t] for t in TYPES] + [["objects"], ["empty"]]


def judge(ctx, u, w, t, lays, what):
    n = len(w)
    r = np.arange(n)
    lo, hi = w.argmin(axis=1), w.argmax(axis=1)
    mn, mx = w[r, lo], w[r, hi]
    nt = n if w.shape[1] > 1 else 0
    kw = dict(lays=lays, nontrivial=nt)
    S.compare(ctx, u.argmin, [w], lo, what="argmin " + what, dtypes="l", **kw)
    S.compare(ctx, u.argmax, [w], hi, what="argmax " + what, dtypes="l", **kw)
    S.compare(ctx, u.minmax, [w], np.stack([mn, mx], axis=1), what="minmax " + what, dtypes=[t], **kw)
    S.compare(ctx, u.argminmax, [w], np.stack([lo, hi], axis=1), what="argminmax " + what, dtypes="l", **kw)
    S.compare(ctx, u.min_argmin, [w], (mn, lo), what="min_argmin " + what, dtypes=[t, "l"], **kw)
    S.compare(ctx, u.max_argmax, [w], (mx, hi), what="max_argmax " + what, dtypes=[t, "l"], **kw)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind in ("seq", "fine"):
        t = shard[1]
        a = S.alphabet(t, 6) if kind == "seq" else S.fine(t)
        for L in range(1, 8 if ctx.thorough else 7 if kind == "seq" else 5):
            ctx.tick(f"{t} {L}")
            judge(ctx, u, S.words(a, L), t, S.LAYS, f"{t} L={L}")
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            x = S.spots(np.full(n, 50, dtype=t), [51, 49])
            y = S.spots(S.pseudo(n, t), [S.big(t), S.small(t)])
            for z in (x, y):
                # a tie: the extreme value occurs again later
                z2 = z.copy()
                z2[:, -1] = z[:, n // 2]
                for q in (z, z2):
                    judge(ctx, u, q, t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
    elif kind == "objects":
        vals = [1, 0.5, Fraction(1, 3), 2**70, True, -3]
        for L in range(1, 6 if ctx.thorough else 5):
            for w, x in S.laid(itertools.product(vals, repeat=L)):
                lo = min(range(L), key=lambda k: (w[k], k))
                hi = max(range(L), key=lambda k: (w[k], -k))
                for f, e in ((u.argmin, lo), (u.argmax, hi), (u.argminmax, [lo, hi]), (u.minmax, [w[lo], w[hi]]),
                             (u.min_argmin, (w[lo], lo)), (u.max_argmax, (w[hi], hi))):
                    g = ctx.call(f, x)
                    g = g.tolist() if isinstance(g, np.ndarray) else g
                    if g != e:
                        ctx.violation(f"{f.__name__} object: wrong result", f=f, args=(x,), got=g, exp=e)
                        return
                ctx.count(6, 6 if L > 1 else 0)
    else:
        # nothing to choose from: an exception, whatever the batch shape
        for f in (u.argmin, u.argmax, u.minmax, u.argminmax, u.min_argmin, u.max_argmax):
            for t in TYPES + ["O"]:
                for shape in ((0,), (3, 0), (2, 2, 0)):
                    r, e = ctx.attempt(f, np.empty(shape, dtype=t))
                    ctx.count(1)
                    if not isinstance(e, ValueError):
                        ctx.violation(f"{f.__name__} of an empty {t} array did not raise ValueError", f=f,
                                      args=(np.empty(shape, dtype=t),), got=r if e is None else e)
                        return
