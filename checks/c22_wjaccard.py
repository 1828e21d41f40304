"""C22: wjaccard."""

from fractions import Fraction

import numpy as np

from mc import mp as M
from mc import huge as H
from mc import seq as S

PROP = "C22"
LEVEL = "exploration"
RULE = "one case = one pair of sequences x data type x memory layout; non-trivial = the two sequences differ"
ASSUMPTIONS = ["sums that are not exact are allowed the rounding errors of n additions; no overflow of a sum"]
INTT = list("bBhHiIlL")


def shards(tier):
    return [["seq_" + t, t] for t in INTT + ["f", "d"]] + [["long_" + t, t] for t in INTT + ["f", "d"]] + \
        [["real_" + t, t] for t in "fd"] + [["misc"], ["huge"]]


def ref(x, y):
    if x.dtype.kind in "iu":
        X, Y = x.astype(object), y.astype(object)
        num, den = np.minimum(X, Y).sum(axis=1), np.maximum(X, Y).sum(axis=1)
        num, den = num.astype(M.LD), den.astype(M.LD)
    else:
        num, den = np.minimum(x, y).astype(M.LD).sum(axis=1), np.maximum(x, y).astype(M.LD).sum(axis=1)
    with np.errstate(all="ignore"):
        r = num / den
    r = np.where(den == 0, np.where(num == 0, np.nan, -np.inf), r)
    if x.dtype.kind == "f":
        r = np.where(np.isnan(x).any(axis=1) | np.isnan(y).any(axis=1), np.nan, r)
    return r


def judge(ctx, u, x, y, t, lays, what, mult=4):
    ot = t if t in "fd" else "d"
    S.compare(ctx, u.wjaccard, [x, y], ref(x, y), S.m_rel(mult), what="wjaccard " + what, dtypes=[ot], lays=lays,
              nontrivial=int((x != y).any(axis=1).sum()))


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "huge":
        for t in "bHd":
            x, c = H.row(t)
            y = np.full(H.N, 4, dtype=t)
            if not H.check(ctx, u.wjaccard, (x, y), sum(min(v, 4) * m for v, m in c) / Fraction(sum(max(v, 4) * m for v, m in c)), 1e-9, f"wjaccard {t}"):
                return
        return
    if kind == "misc":
        for t in INTT + ["f", "d"]:
            z = np.empty((2, 0), dtype=t)
            r, e = ctx.attempt(u.wjaccard, z, z)
            ctx.count(1)
            if not isinstance(e, ValueError):
                ctx.violation("wjaccard of empty arrays did not raise ValueError", f=u.wjaccard, args=(z, z), got=r)
        return
    t = shard[1]
    if kind == "real":
        return real(ctx, u, t)
    if kind == "seq":
        if t in "fd":
            a = np.array([1, 0, 2.5, np.nan, -2, np.inf], dtype=t)
        else:
            a = np.array([1, 0, 3, 7] if t in "BHIL" else [1, 0, 3, -2, -7], dtype=t)
        for L in range(1, 5 if ctx.thorough else 4):
            w = S.words(a if L < 4 else a[:4], L)
            X, Y = S.product(w, w)
            judge(ctx, u, X, Y, t, S.LAYS, f"{t} L={L}")
        w = S.words(a[:3], 5 if ctx.thorough else 4)
        X, Y = S.product(w, w)
        judge(ctx, u, X, Y, t, S.LAYS, f"{t} L={w.shape[1]}")
        if t not in "fd":
            i = np.iinfo(t)
            b = np.array([0, 1, int(i.max), int(i.max) - 1, int(i.max) // 2 + 1], dtype=t)
            for L in (1, 2, 3):
                w = S.words(b, L)
                X, Y = S.product(w, w)
                judge(ctx, u, X, Y, t, S.LAYS, f"{t} extremes L={L}", 8)
        ctx.sample(f"{t}: all pairs of sequences over {a.tolist()} up to length {L}")
    else:
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            x = np.abs(S.pseudo(n, "l")).astype(t)
            y = np.abs(S.pseudo(n, "l", 1)).astype(t)
            sp = [100, 0] + ([np.nan] if t in "fd" else [])
            X = S.spots(x, sp)
            Y = np.tile(y, (len(X), 1))
            judge(ctx, u, X, Y, t, ("contig", "strided", "reversed"), f"{t} n={n}")
            judge(ctx, u, Y, X, t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return


def real(ctx, u, t):
    """Values that use the whole mantissa, any scale, also of both signs: exact integer sums."""
    T, fi = np.dtype(t).type, np.finfo(t)
    for scale in (T(1), T(2) ** 22, np.ldexp(T(1), fi.maxexp - 16 - fi.nmant // 2), np.ldexp(T(1), fi.minexp + 2 * fi.nmant), np.ldexp(T(1), fi.minexp + 3), np.ldexp(T(1), fi.minexp - fi.nmant // 2)):
        for a in (np.append(S.reals(t, 5, True), T(0)), S.reals(t, 5)):
            a = (a * scale).astype(t)
            k, e = M.ints(a)
            pairs = [S.product(*[S.words(np.arange(len(a)), L)] * 2) for L in range(1, 4)]
            for n in S.sizes(ctx.thorough, 300)[2:]:
                i = np.arange(n)
                pairs.append([np.array([(c * i + i // 5 + r) % len(a) for r in range(3)]) for c in (3, 7)])
            for X, Y in pairs:
                n = X.shape[1]
                num, den = np.minimum(k[X], k[Y]), np.maximum(k[X], k[Y])
                en, ed = np.abs(num).sum(axis=1), np.abs(den).sum(axis=1)
                num, den = num.sum(axis=1), den.sum(axis=1)
                ok = np.abs(den) * 2 ** (fi.nmant - 8) > ed * n       # the sum does not cancel
                ok |= (en == 0) & (ed == 0)
                ex = M.ratio(num, den)[ok]
                tol = 2 * n * M.eps(t) * (M.ratio(en, np.abs(den))[ok] + np.abs(ex) * M.ratio(ed, np.abs(den))[ok])
                S.compare(ctx, u.wjaccard, [a[X][ok], a[Y][ok]], ex, M.m_tol(np.where(np.isfinite(tol), tol, 0)), what=f"wjaccard {t} real n={n}", dtypes=[t],
                          nontrivial=int((X[ok] != Y[ok]).any(axis=1).sum()))
                if ctx.full:
                    return
