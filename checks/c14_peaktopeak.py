"""C14: peaktopeak."""

import itertools
from fractions import Fraction

import numpy as np

from mc import seq as S

PROP = "C14"
LEVEL = "exploration"
RULE = "one case = one sequence (no nan) x data type x memory layout; non-trivial = at least two elements"
ASSUMPTIONS = ["arrays with nan are documented as undefined and are not judged"]
TYPES = S.INTS + S.FLOATS
OUT = dict(b="B", h="H", i="I", l="L")


def shards(tier):
    return [[k + t, t] for t in TYPES for k in ("seq_", "fine_")] + [["long_" + t, t] for t in TYPES] + [["objects"], ["misc"], ["all8"]]


def judge(ctx, u, w, t, lays, what):
    ot = OUT.get(t, t)
    mx, mn = w.max(axis=1), w.min(axis=1)
    if t in "bhil":
        e = np.array([(int(a) - int(b)) for a, b in zip(mx.tolist(), mn.tolist())], dtype=object).astype(ot)
    else:
        e = mx - mn
    S.compare(ctx, u.peaktopeak, [w], e, what="peaktopeak " + what, dtypes=[ot], lays=lays,
              nontrivial=len(w) if w.shape[1] > 1 else 0)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    np.seterr(all="ignore")
    if kind in ("seq", "fine"):
        t = shard[1]
        a = S.alphabet(t, 6) if t not in "fdg" else np.array([1, -0.0, -2.5, np.inf, -np.inf, S.big(t)], dtype=t)
        if kind == "fine":
            a = S.fine(t)
        for L in range(1, 8 if ctx.thorough else 7 if kind == "seq" else 5):
            judge(ctx, u, S.words(a, L), t, S.LAYS, f"{t} L={L}")
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            for base in (np.full(n, 50, dtype=t), S.pseudo(n, t)):
                judge(ctx, u, S.spots(base, [S.big(t), S.small(t), 1]), t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
    elif kind == "all8":
        v = np.arange(-128, 128).astype(np.int8)
        a, b = S.product(v, v)
        judge(ctx, u, np.stack([a, b], axis=1), "b", S.LAYS, "all pairs of int8")
        judge(ctx, u, np.stack([a, b], axis=1).view(np.uint8), "B", S.LAYS, "all pairs of uint8")
    elif kind == "objects":
        vals = [1, 0.5, Fraction(1, 3), 2**70, True, -3]
        for L in range(1, 6 if ctx.thorough else 5):
            for w, x in S.laid(itertools.product(vals, repeat=L)):
                g = ctx.call(u.peaktopeak, x)
                ctx.count(1, 1 if L > 1 else 0)
                if g != max(w) - min(w):
                    ctx.violation("peaktopeak object: wrong result", f=u.peaktopeak, args=(x,), got=g, exp=max(w) - min(w))
                    return
    else:
        for t in TYPES + ["O"]:
            for shape in ((0,), (3, 0)):
                r, e = ctx.attempt(u.peaktopeak, np.empty(shape, dtype=t))
                ctx.count(1)
                if not isinstance(e, ValueError):
                    ctx.violation(f"peaktopeak of an empty {t} array did not raise ValueError", f=u.peaktopeak,
                                  args=(np.empty(shape, dtype=t),), got=r)
                    return
