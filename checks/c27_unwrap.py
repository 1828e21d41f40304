"""C27: unwrap."""

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C27"
LEVEL = "exploration"
RULE = ("one case = one sequence x period x data type x memory layout; non-trivial = some step of more than half a "
        "period")
ASSUMPTIONS = ["positive finite period; for a step of exactly half a period either direction is accepted",
               "where the arithmetic is not exact: errors of a few eps*(|x|+|step|) per element are accepted"]


def shards(tier):
    return [["seq_" + t, t] for t in S.FLOATS] + [["long_" + t, t] for t in S.FLOATS] + [["special_" + t, t] for t in S.FLOATS] + \
        [["real_" + t, t] for t in S.FLOATS]


def judge(ctx, u, k, p, t, lays, what, unit=8):
    """k: integers (rows), p: integer; the data are k/unit."""
    m, n = k.shape
    x = (k.astype(M.LD) / unit).astype(t)
    P = np.full(m, p / unit, dtype=t)
    for l in lays:
        g = ctx.call(u.unwrap, S.lay(x, l), S.lay(P, l))
        ctx.count(m, int((np.abs(np.diff(k, axis=1)) > p // 2).any(axis=1).sum()) if n > 1 else 0)
        if g.shape != x.shape or g.dtype != x.dtype:
            ctx.violation(f"unwrap: shape {g.shape}, type {g.dtype}", f=u.unwrap, args=(x[:2], P[:2]))
            return
        if n == 0:
            continue
        r = g * unit
        i = np.rint(r)
        ok = (r == i) & np.isfinite(r)
        i = np.where(np.isfinite(r) & (np.abs(r) < 2.0 ** 62), i, 0).astype(M.LD).astype(np.int64)
        ok &= (i - k) % p == 0                     # congruent to the input
        ok[:, 0] &= i[:, 0] == k[:, 0]             # starts at the input
        ok[:, 1:] &= 2 * np.abs(np.diff(i, axis=1)) <= p
        ok = ok.all(axis=1)
        if not ok.all():
            b = int(np.argmin(ok))
            ctx.violation(f"unwrap {what} ({l}): not the continuous representative", f=u.unwrap, args=(x[b], P[b]), got=g[b])
            return


def run(shard, ctx):
    import ufunclab as u
    kind, t = shard[0].split("_")[0], shard[1]
    if kind == "seq":
        for p in (8, 24, 5, 7, 16):
            a = np.array([0, 3, -5, 8, 60, -41, 4])
            for L in range(0, 7 if ctx.thorough else 6):
                judge(ctx, u, S.words(a, L), p, t, S.LAYS, f"{t} period={p / 8}")
        ctx.sample(f"{t}: all sequences over {(a / 8).tolist()} up to length {L}, five periods")
        # every step size, both signs
        d = np.arange(-2000, 2001)
        for p in (8, 9, 64, 100, 4001, 3):
            k = np.stack([np.full(len(d), 7), 7 + d, np.full(len(d), 7)], axis=1)
            judge(ctx, u, k, p, t, S.LAYS, f"{t} period={p / 8}")
    elif kind == "long":
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            for p in (8, 24, 37):
                judge(ctx, u, S.spots(S.pseudo(n, "l"), [100, -100]), p, t, ("contig", "strided", "reversed"), f"{t} n={n}")
                judge(ctx, u, (np.arange(n) * 3 % p)[None, :], p, t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
    elif kind == "real":
        real(ctx, u, t)
    else:
        a = np.array([1, np.nan, np.inf, -np.inf, 3], dtype=t)
        for L in range(1, 6):
            w = S.words(a, L)
            bad = ~np.isfinite(w)
            seen = np.maximum.accumulate(bad, axis=1)
            e = np.where(seen, np.nan, w)
            e[:, 0] = w[:, 0]
            S.compare(ctx, u.unwrap, [w, np.full(len(w), 16, dtype=t)], e.astype(t), what=f"unwrap {t} not finite", dtypes=[t])
        # more periods than fit an int
        if t != "f":
            for q in (2**31, 2**31 + 5, 2**40, 3 * 2**33):
                k = np.array([[1, 1 + 8 * q, 1 - 8 * q, 3, 4 + 8 * q]])
                judge(ctx, u, k, 8, t, S.LAYS, f"{t} {q} periods")
        # as many periods as the mantissa can count
        for b in range(2, min(int(np.finfo(t).nmant) - 4, 58)):
            for q in (2 ** b - 1, 2 ** b + 1, 3 * 2 ** (b - 1) + 1):
                for p in (8, 24 if b < 55 else 8):
                    k = np.array([[1, 1 + p * q, 1 - p * q, 3, 4 + p * q]])
                    k = k[:, np.abs(k[0]) < 2 ** min(int(np.finfo(t).nmant) + 1, 62)]
                    judge(ctx, u, k, p, t, S.LAYS, f"{t} {q} periods")


def real(ctx, u, t):
    """Values and periods that use the whole mantissa, any scale.  Each output is the input plus an integer number of periods, and
    within half a period of its predecessor."""
    T, fi = np.dtype(t).type, np.finfo(t)
    e = M.eps(t)
    two_pi = 8 * np.arctan(T(1))
    near = [v for p in (two_pi,) for k in (1, 3, -1) for v in (p * k / 2 * (1 + fi.eps * 64), p * k / 2 * (1 - fi.eps * 64))]
    for scale in (T(1), np.ldexp(T(1), fi.maxexp - 20), np.ldexp(T(1), fi.minexp + fi.nmant + 8)):
        for P in (two_pi, T(1) / T(3), np.sqrt(T(5)) * 2, T(360) / T(7)):
            a = np.array([0, 1, -2.5, 40] + near[:4], dtype=t)
            a[1:4] = a[1:4] * np.sqrt(T(2))
            a = (a * scale).astype(t)
            p = (P * scale).astype(t) if hasattr(P, "astype") else T(P * scale)
            ws = [S.words(a, L) for L in range(2, 6 if ctx.thorough else 5)]
            ws += [np.array([a[(np.arange(n) * k + np.arange(n) // 5) % len(a)] for k in (1, 3, 5)]) for n in S.sizes(ctx.thorough, 300)[2:]]
            for w in ws:
                for l in S.LAYS:
                    g = ctx.call(u.unwrap, S.lay(w, l), p)
                    ctx.count(len(w), len(w))
                    ok = np.isfinite(g).all(axis=1) & (g[:, 0] == w[:, 0])
                    G, W, Q = g.astype(M.LD), w.astype(M.LD), M.LD(p)
                    d = (G - W) / Q
                    top = np.maximum(np.abs(G), np.abs(W)) / Q + 1
                    ok &= (np.abs(d - np.rint(d)) <= 8 * e * top).all(axis=1)
                    st = np.abs(np.diff(G, axis=1)) / Q
                    ok &= (st <= 0.5 + 8 * e * np.maximum(top[:, 1:], top[:, :-1])).all(axis=1)
                    if not ok.all():
                        b = int(np.argmin(ok))
                        ctx.violation(f"unwrap {t} ({l}): not the continuous representative", f=u.unwrap, args=(w[b], p), got=g[b])
                        return
