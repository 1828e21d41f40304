"""C17: meanvar."""

from fractions import Fraction

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C17"
LEVEL = "exploration"
RULE = ("one case = one sequence x ddof x data type x memory layout, against exact integer arithmetic; non-trivial = at "
        "least two elements")
ASSUMPTIONS = ["the accuracy of a one-pass (Welford) algorithm with compensated sums: the error of the variance is at most 8 eps (1 + ln n) "
               "(var + max|x| std), which neither a sum of squares nor plain summation reaches"]
INTT = list("bBhHiIlL")
DD = [0, 1, 2, -1, 5]


def shards(tier):
    return [["seq_" + t, t] for t in INTT + S.FLOATS] + [["long_" + t, t] for t in INTT + S.FLOATS] + [["real_" + t, t] for t in INTT + S.FLOATS] + \
        [["huge_" + t, t] for t in "bHdg"] + [["special"]]


def letters(t):
    """(integers, scale): the alphabet is integers*scale."""
    if t == "f":
        return [[0, 1, -3, 8, 4], [2**17 + k for k in (0, 1, 2, 5)]], 0.125
    if t in "dg":
        return [[0, 1, -3, 8, 4], [2**34 + k for k in (0, 1, 2, 5)]], 0.125
    i = np.iinfo(t)
    if i.min < 0:
        return [[0, 1, -3, 7, 100], [i.max, i.min, 0, i.max - 1]], 1
    return [[0, 1, 3, 7, 100], [i.max, 0, i.max - 1, i.max // 2 + 1]], 1


def judge(ctx, u, k, scale, t, ddofs, lays, what, x=None):
    """k: object array of integers (rows); the data are k*scale."""
    n = k.shape[1]
    ot = t if t in "fdg" else "d"
    e = M.eps(ot)
    s = k.sum(axis=1)
    sq = (k * k).sum(axis=1)
    scale = Fraction(scale)
    sn, sd2 = scale.numerator, scale.denominator
    mx = M.ratio(np.abs(k).max(axis=1) * sn, sd2)
    d2 = n * sq - s * s          # n * sum of squared deviations
    mean = M.ratio(s * sn, n * sd2)
    M2 = M.ratio(d2 * sn * sn, n * sd2 * sd2)
    if x is not None:
        pass
    elif scale == 1:
        x = k.astype(t)
    else:        # exact: the integers are below 2**53
        x = (k.astype(np.int64).astype(M.LD) * M.LD(sn) / M.LD(sd2)).astype(t)
    for dd in ddofs:
        dof = n - dd
        if dof == 0:
            if n > 1:
                continue
            var = np.full(len(k), np.nan, dtype=M.LD)
        else:
            var = M2 / dof
        lg = 1 + np.log(n)       # both sums are compensated; the worst error seen is below 1 without this factor, for every n
        tm = 8 * e * mx * lg
        sd = np.sqrt(M2 / n)
        # mean*std: conditioning of the variance; (eps*mean)^2: the values themselves
        tv = (8 * e * lg * (M2 + n * mx * sd) + n * (8 * e * mx * lg) ** 2) / max(1, abs(dof))
        mk = M.m_tol(np.stack([tm, tv], axis=1))
        S.compare(ctx, u.meanvar, [x, np.full(len(x), dd)], np.stack([mean, var], axis=1), mk,
                  what=f"meanvar ddof={dd} {what}", dtypes=[ot], lays=lays, nontrivial=len(x) if n > 1 else 0)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "seq":
        t = shard[1]
        sets, sc = letters(t)
        for a in sets:
            a = np.array(a, dtype=object)
            for L in range(1, 8 if ctx.thorough else 7):
                if L > 5 and len(a) == 5 and not ctx.thorough:
                    break
                judge(ctx, u, S.words(a, L), sc, t, DD, S.LAYS, f"{t} L={L}")
            ctx.sample(f"{t}: all sequences over {[v * sc for v in a]} up to length {L}, ddof in {DD}")
    elif kind == "long":
        t = shard[1]
        sets, sc = letters(t)
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            for a in sets:
                base = np.array([a[(3 * i + i // 5) % len(a)] for i in range(n)], dtype=object)
                judge(ctx, u, S.spots(base, [a[0], a[1]])[:: S.step(n, 12)], sc, t, [0, 1],
                      ("contig", "strided", "reversed"), f"{t} n={n}")
            if n > 40:       # a few large deviations, and many small ones whose squares vanish one by one in the sum
                for big in (2**10, 2**20) if t in "fdg" else (i.max for i in [np.iinfo(t)]):
                    for at in (0, n // 2, n - 2):
                        base = np.array([(1, 0, 1, 0, 0)[(3 * i + i // 5) % 5] for i in range(n)], dtype=object)
                        base[at:at + 2] = [big, -big if t in "fdgbhil" else 0]
                        judge(ctx, u, base[None], sc, t, [0, 1], ("contig", "strided"), f"{t} n={n}, {big} at {at}")
            if ctx.full:
                return
    elif kind == "huge":      # more elements than a float32 or an int32 of products can count
        t = shard[1]
        n = 2**24 + 3
        a = np.array([1, 3, 7, 4, 100], dtype=t)
        x = np.resize(a, n)
        x[n // 3] = 90
        c = np.unique(x, return_counts=True)
        k = [(int(v), int(m)) for v, m in zip(*c)]
        s, sq = sum(v * m for v, m in k), sum(v * v * m for v, m in k)
        M2 = Fraction(sq) - Fraction(s * s, n)
        for dd in (0, 1, 2):
            g = ctx.call(u.meanvar, x, dd)
            ctx.count(1, 1)
            for got, ex in zip(g, (Fraction(s, n), M2 / (n - dd))):
                if abs(Fraction(float(got)) - ex) > ex / 10**10:
                    ctx.violation(f"meanvar {t} n={n} ddof={dd}: wrong result", f=u.meanvar, args=(a, dd), got=g, exp=float(ex),
                                  repro=f"x = np.resize(np.array([1, 3, 7, 4, 100], '{t}'), {n}); x[{n // 3}] = 90; meanvar(x, {dd})")
                    return
    elif kind == "real":
        t = shard[1]
        if t in "fdg":       # whole mantissas, any scale
            T, fi = np.dtype(t).type, np.finfo(t)
            near = [np.sqrt(T(2))]
            for _ in range(3):
                near.append(np.nextafter(near[-1], T(2)))
            scales = [T(1), np.ldexp(T(1), fi.maxexp // 2 - 8 - fi.nmant // 2), np.ldexp(T(1), fi.minexp // 2 + fi.nmant)]
            sets = [(v * q).astype(t) for q in scales for v in (S.reals(t, 6), np.array(near, dtype=t), np.array([1, -2, 4, 5], dtype=t) / T(3))]
        else:                # neighbours that only the full width of the type tells apart
            sets = [np.array([1, 0, 3], dtype=t), S.fine(t)]
        for a in sets:
            k, e = M.ints(a) if t in "fdg" else (a.astype(object), 0)
            for L in range(1, 6 if ctx.thorough else 5):
                w = S.words(np.arange(len(a)), L)
                judge(ctx, u, k[w], Fraction(1, 1 << e), t, DD[:3], S.LAYS, f"{t} real L={L}", a[w])
            for n in S.sizes(ctx.thorough, 300)[2:]:
                w = np.array([[(3 * i + i // 5 + 2 * r) % len(a) for i in range(n)] for r in range(2)])
                judge(ctx, u, k[w], Fraction(1, 1 << e), t, [0, 1], ("contig", "strided", "reversed"), f"{t} real n={n}", a[w])
            if ctx.full:
                return
    else:
        for t in "fdg":
            a = np.array([1, np.nan, np.inf, -2, -np.inf], dtype=t)
            for L in range(1, 6):
                w = S.words(a, L)
                for l in S.LAYS:
                    g = ctx.call(u.meanvar, S.lay(w, l), 0)
                    bad = ~np.isfinite(w).all(axis=1)
                    nan = np.isnan(w).any(axis=1)
                    ok = np.where(nan, np.isnan(g).all(axis=1), np.where(bad, ~np.isfinite(g).any(axis=1), np.isfinite(g).all(axis=1)))
                    ctx.count(len(w))
                    if not ok.all():
                        b = int(np.argmin(ok))
                        ctx.violation("meanvar does not propagate nan or inf", f=u.meanvar, args=(w[b], 0), got=g[b])
                        return
        for t in INTT + S.FLOATS:
            r, e = ctx.attempt(u.meanvar, np.empty((2, 0), dtype=t), 0)
            ctx.count(1)
            if not isinstance(e, ValueError):
                ctx.violation("meanvar of an empty array did not raise ValueError", f=u.meanvar,
                              args=(np.empty((2, 0), dtype=t), 0), got=r)
