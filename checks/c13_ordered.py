"""C13: ordered and all_same."""

import itertools
import operator
from fractions import Fraction

import numpy as np

from mc import seq as S

PROP = "C13"
LEVEL = "exploration"
RULE = "one case = one sequence x operation x data type x memory layout; non-trivial = at least two elements"
ASSUMPTIONS = ["the functions only compare elements, so the alphabet of each type stands for all values"]
OPS = dict(LT=operator.lt, LE=operator.le, EQ=operator.eq, NE=operator.ne, GT=operator.gt, GE=operator.ge)
TYPES = S.INTS + S.FLOATS


def shards(tier):
    return [[k + t, t] for t in TYPES for k in ("seq_", "fine_")] + [["long_" + t, t] for t in TYPES] + [["objects"]]


def judge(ctx, u, w, t, lays, what):
    n, L = w.shape
    nt = n if L > 1 else 0
    for name, f in OPS.items():
        e = f(w[:, :-1], w[:, 1:]).all(axis=1) if L > 1 else np.ones(n, dtype=bool)
        o = np.full(n, getattr(u.op, name), dtype=np.int8)
        S.compare(ctx, u.ordered, [w, o], e, what=f"ordered {name} {what}", dtypes="?", lays=lays, nontrivial=nt)
    e = (w == w[:, :1]).all(axis=1) if L > 1 else np.ones(n, dtype=bool)
    S.compare(ctx, u.all_same, [w], e, what="all_same " + what, dtypes="?", lays=lays, nontrivial=nt)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind in ("seq", "fine"):
        t = shard[1]
        a = S.alphabet(t, 5, nan=True) if kind == "seq" else S.fine(t)
        for L in range(0, 8 if ctx.thorough else 7 if kind == "seq" else 5):
            ctx.tick(f"{t} {L}")
            judge(ctx, u, S.words(a, L), t, S.LAYS, f"{t} L={L}")
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[2:]:
            up = np.arange(n).astype(t) if n < 120 or t not in "bB" else (np.arange(n) * 120 // n).astype(t)
            z = [S.spots(np.full(n, 3, dtype=t), [2, 4])]
            if np.dtype(t).kind == "f":      # equal bits are not equal values, nor the other way round
                zero = np.zeros(n, dtype=t)
                zero[::3] = -zero[0]
                z += [S.spots(np.full(n, v, dtype=t), [v, 1])[:: S.step(2 * n, 12)] for v in (np.nan, np.inf, -0.0)] + [S.spots(zero, [-0.0, np.nan])[:: S.step(2 * n, 12)]]
            for base in (up, up[::-1].copy()):
                ps = [p for p in S.positions(n) if p < n - 1]
                y = np.tile(base, (len(ps) + 1, 1))
                y2 = np.tile(base, (len(ps) + 1, 1))
                for i, p in enumerate(ps):      # repeat one value, or exchange two neighbours
                    y[i, p + 1] = y[i, p]
                    y2[i, [p, p + 1]] = y2[i, [p + 1, p]]
                z += [y, y2]
            for q in z:
                judge(ctx, u, q, t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
    else:
        vals = [1, 0.5, Fraction(1, 2), 2**70, True]
        for L in range(0, 7 if ctx.thorough else 6):
            for w, x in S.laid(itertools.product(vals, repeat=L)):
                for name, f in OPS.items():
                    e = all(f(a, b) for a, b in zip(w, w[1:]))
                    g = ctx.call(u.ordered, x, getattr(u.op, name))
                    if g != e:
                        ctx.violation(f"ordered {name} object: wrong result", f=u.ordered,
                                      args=(x, getattr(u.op, name)), got=g, exp=e)
                        return
                g = ctx.call(u.all_same, x)
                if g != all(v == w[0] for v in w):
                    ctx.violation("all_same object: wrong result", f=u.all_same, args=(x,), got=g)
                    return
                ctx.count(7, 7 if L > 1 else 0)
        for w, x in S.laid(itertools.product(["a", "b", None, "a1"], repeat=3)):
            ctx.count(1)
            if ctx.call(u.all_same, x) != (len(set(w)) == 1):
                ctx.violation("all_same object: wrong result", f=u.all_same, args=(x,))
                return
        x = np.array([1, 3, 2], dtype=object)
        for code in (-128, -1, 6, 127):      # not an operation
            r, e = ctx.attempt(u.ordered, x, code)
            ctx.count(1)
            if not isinstance(e, (ValueError, SystemError)):
                ctx.violation(f"ordered object accepted the operation {code}", f=u.ordered, args=(x, code), got=r)
