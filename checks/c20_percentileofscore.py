"""C20: percentileofscore."""

from fractions import Fraction

import numpy as np

from mc import huge as H
from mc import seq as S

PROP = "C20"
LEVEL = "exploration"
RULE = ("one case = one sequence x score x kind x data type x memory layout; non-trivial = the score is equal to an "
        "element or between elements")
ASSUMPTIONS = ["the score is not nan; the functions only compare, so the alphabet of a type stands for its values"]
TYPES = list("bBhHiIlLfd")


def shards(tier):
    return [[k + t, t] for t in TYPES for k in ("seq_", "fine_")] + [["long_" + t, t] for t in TYPES] + [["pct"], ["huge"]]


def judge(ctx, u, w, sc, t, lays, what):
    n = w.shape[1]
    lt = (w < sc[:, None]).sum(axis=1)
    eq = (w == sc[:, None]).sum(axis=1)
    K = u.percentileofscore
    op = u.op
    for kind in range(4):
        if kind == 0:      # the average rank of the equal elements
            num = 2 * lt + eq + (eq > 0)
            e = num * 50.0 / n
        elif kind == 1:
            e = (lt + eq) * 100.0 / n
        elif kind == 2:
            e = lt * 100.0 / n
        else:
            e = (2 * lt + eq) * 50.0 / n
        S.compare(ctx, K, [w, sc, np.full(len(w), kind)], e, S.m_rel(4), what=f"percentileofscore kind={kind} {what}",
                  dtypes=["d"], lays=lays, nontrivial=int(((eq > 0) | ((lt > 0) & (lt < n))).sum()))


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "huge":
        for t in "bHifd":
            x, c = H.row(t)
            for sc in (1, 4, 5, 90, 100, 120):
                lt, eq = sum(m for v, m in c if v < sc), sum(m for v, m in c if v == sc)
                K = u.percentileofscore
                for kd, num in ((2, 2 * lt), (1, 2 * (lt + eq)), (3, 2 * lt + eq), (0, 2 * lt + eq + (eq > 0))):
                    if not H.check(ctx, K, (x, np.dtype(t).type(sc), kd), Fraction(100 * num, 2 * H.N), 1e-15, f"percentileofscore {t} score={sc} kind={kd}"):
                        return
    elif kind in ("seq", "fine"):
        t = shard[1]
        a = S.alphabet(t, 5) if kind == "seq" else S.fine(t)
        if t in "fd" and kind == "fine":       # a nan is neither less than nor equal to the score
            a[0] = np.nan
        for L in range(1, 8 if ctx.thorough else 7 if kind == "seq" else 5):
            if L > 5 and not ctx.thorough and t not in "bld":
                continue
            W, V = S.product(S.words(a, L), a[a == a])
            judge(ctx, u, W, V, t, S.LAYS, f"{t} L={L}")
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}, each score of the alphabet, four kinds")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            if n > 120 and t in "bB":
                continue
            base = np.arange(n).astype(t)
            perm = base[(np.arange(n) * 7) % n if n % 7 else (np.arange(n) * 5) % n if n % 5 else np.arange(n)]
            half = (np.arange(n) // 2).astype(t)
            for b in (perm, half, np.full(n, 3, dtype=t)):
                V = np.arange(0, n + 1, max(1, n // 20)).astype(t)
                judge(ctx, u, np.tile(b, (len(V), 1)), V, t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
    else:
        # the kinds are exposed as constants; any other value of kind gives nan
        k = u.percentileofscore
        x = np.array([1.0, 2, 2, 5])
        for code in [-1, 4, 5, 100, 2**32, 2**32 + 1, -2**31, 2**63 - 1]:
            for t in TYPES:
                g = ctx.call(k, x.astype(t), np.dtype(t).type(2), code)
                ctx.count(1)
                if not np.isnan(g):
                    ctx.violation(f"percentileofscore with kind {code} is not nan", f=k, args=(x.astype(t), 2, code), got=g)
                    return
        g = ctx.call(k, x, 2.0, [0, 1, 2, 3])
        if g.tolist() != [62.5, 75.0, 25.0, 50.0]:
            ctx.violation("percentileofscore: kinds 0-3", f=k, args=(x, 2.0, [0, 1, 2, 3]), got=g)
