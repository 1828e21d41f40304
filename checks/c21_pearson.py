"""C21: pearson_corr."""

import numpy as np

from mc import mp as M
from mc import huge as H
from mc import seq as S

PROP = "C21"
LEVEL = "exploration"
RULE = "one case = one pair of sequences x data type x memory layout; non-trivial = neither is constant"
ASSUMPTIONS = ["the result may exceed 1 in magnitude by rounding"]
INTT = list("bBhHiIlL")
LD = np.longdouble


def shards(tier):
    return [["seq_" + t, t] for t in INTT + S.FLOATS] + [["long_" + t, t] for t in INTT + S.FLOATS] + \
        [["scale_" + t, t] for t in S.FLOATS] + [["offset_" + t, t] for t in S.FLOATS] + [["misc"], ["huge"]]


def ref(kx, ky):
    """integers -> exact n^2 covariances, as long double correlation (nan where constant)."""
    n = kx.shape[1]
    kx, ky = kx.astype(object), ky.astype(object)
    sx, sy = kx.sum(axis=1), ky.sum(axis=1)
    xy = n * (kx * ky).sum(axis=1) - sx * sy
    xx = n * (kx * kx).sum(axis=1) - sx * sx
    yy = n * (ky * ky).sum(axis=1) - sy * sy
    with np.errstate(all="ignore"):
        r = xy.astype(M.LD) / (np.sqrt(xx.astype(M.LD)) * np.sqrt(yy.astype(M.LD)))
    const = (xx == 0) | (yy == 0)
    return np.where(const, np.nan, r), ~const


def judge(ctx, u, kx, ky, x, y, t, lays, what, cond=1.0):
    ot = t if t in "fdg" else "d"
    n = kx.shape[1]
    ex, ok = ref(kx, ky)
    tol = np.full(len(x), 32 * n * M.eps(ot) * cond)
    if n == 2:
        tol[:] = 0
    S.compare(ctx, u.pearson_corr, [x, y], ex, M.m_tol(tol), what="pearson_corr " + what, dtypes=[ot], lays=lays,
              nontrivial=int(ok.sum()))


def offset(ctx, u, t):
    """Values that differ little from their mean, down to a few units in the last place; and constants of every kind."""
    ty = np.dtype(t).type
    nm = np.finfo(t).nmant
    worst = 0
    for L in (3, 4, 5):
        w = S.words(np.array([0, 1, 4, 9]), L)[:: 1 if L < 5 else 3]
        Y = S.words(np.array([0, 1, -3]), L)[5:: 7 if L == 3 else 23]
        X, Y = S.product(w, Y)
        for j in range(4, nm - 1, 1 if ctx.thorough else 2):
            s = np.ldexp(ty(1), -j)
            # the mean is known to a rounding: an error of eps/(spread) in each difference, of second order in the result
            cond = M.eps(t) * LD(2) ** j
            for off in (1, -3):
                x = ty(off) + X.astype(t) * s
                ex, ok = ref(X, Y)
                tol = np.full(len(x), 32 * L * (M.eps(t) + cond ** 2), dtype=LD)
                for a in ([x, Y.astype(t)], [Y.astype(t), x]):
                    S.compare(ctx, u.pearson_corr, a, ex, M.m_tol(tol), what=f"pearson_corr {t} {off} + k*2**-{j}", dtypes=[t], lays=("contig",),
                              nontrivial=int(ok.sum()))
        if ctx.full:
            return
    fi = np.finfo(t)
    for c in (ty(1) / 3, -ty(1) / 7, ty(np.pi), fi.max, fi.min, fi.tiny, fi.smallest_subnormal * 3, ty(0.1), ty(1e10) / 3, -ty(0)):
        for n in (2, 3, 4, 5, 7, 10, 33, 100, 1025):
            x = np.full((3, n), c)
            y = np.stack([np.arange(n), S.pseudo(n, "l"), np.full(n, 2)]).astype(t)
            e = np.full(3, np.nan, dtype=t)
            for a in ([x, y], [y, x], [x, x]):
                S.compare(ctx, u.pearson_corr, a, e, what=f"pearson_corr {t} of a constant {c}", dtypes=[t])


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "huge":
        for t in "bdl":
            x, c = H.row(t)
            y = np.resize(np.array([2, 0, 5], dtype=t), H.N)
            pair, m = np.unique(x.astype(np.int64) * 10 + y.astype(np.int64), return_counts=True)
            P = [(int(v) // 10, int(v) % 10, int(k)) for v, k in zip(pair, m)]
            n = H.N
            sx, sy = sum(a * k for a, b, k in P), sum(b * k for a, b, k in P)
            xx, yy, xy = (sum(q * k for q, k in z) for z in ([(a * a, k) for a, b, k in P], [(b * b, k) for a, b, k in P], [(a * b, k) for a, b, k in P]))
            a, b = n * xx - sx * sx, n * yy - sy * sy
            for z, num, e2 in ((y, n * xy - sx * sy, a * b), (x, 1, 1)):
                e = float(np.sign(num)) * float(np.sqrt(np.longdouble(num * num) / np.longdouble(e2))) if z is y else 1.0
                g = ctx.call(u.pearson_corr, x, z)
                ctx.count(1, 1)
                if not abs(float(g) - e) <= 1e-9:
                    ctx.violation(f"pearson_corr {t}: wrong result for {n} elements", f=u.pearson_corr, args=(x[:5], z[:5]), got=g, exp=e,
                                  repro=f"x = np.resize(np.array([1, 3, 7, 4, 100], '{t}'), {n}); x[{n // 3}] = 90; y = np.resize([2, 0, 5], {n})")
                    return
        return
    if kind == "misc":
        for t in INTT + S.FLOATS:
            for n in (0, 1):
                z = np.ones((2, n), dtype=t)
                r, e = ctx.attempt(u.pearson_corr, z, z)
                ctx.count(1)
                if not isinstance(e, ValueError):
                    ctx.violation(f"pearson_corr of arrays of length {n} did not raise ValueError", f=u.pearson_corr,
                                  args=(z, z), got=r)
                    return
        for t in INTT:      # constants
            i = np.iinfo(t)
            for c in (i.max, i.min, i.max - 1, 77, 0):
                for n in (2, 3, 4, 10, 1025):
                    x = np.full((2, n), c, dtype=t)
                    y = np.stack([np.arange(n) % 100, S.pseudo(n, "l") + 50]).astype(t)
                    for a in ([x, y], [y, x]):
                        S.compare(ctx, u.pearson_corr, a, np.full(2, np.nan), what=f"pearson_corr {t} of a constant {c}", dtypes=["d"])
        for t in S.FLOATS:      # not finite: nan
            a = np.array([1, 0, 3, np.nan, np.inf, -np.inf], dtype=t)
            for L in (2, 3, 4):
                x = S.words(a, L)
                x = x[~np.isfinite(x).all(axis=1)]
                y = np.broadcast_to(np.array([1, 2, 4, 3], dtype=t)[:L], x.shape).copy()
                nanv = np.full(len(x), np.nan, dtype=t)
                S.compare(ctx, u.pearson_corr, [x, y], nanv, what="pearson_corr not finite")
                S.compare(ctx, u.pearson_corr, [y, x], nanv, what="pearson_corr not finite")
        return
    t = shard[1]
    un = t in "BHIL"
    a = [0, 1, 3, 7, 5] if un else [0, 1, -3, 7, 5]
    if kind == "seq":
        for L in range(2, 6 if ctx.thorough else 5):
            w = S.words(np.array(a[: 5 if L < 4 or ctx.thorough and L < 5 else 4 if L < 5 else 3]), L)
            X, Y = S.product(w, w)
            judge(ctx, u, X, Y, X.astype(t), Y.astype(t), t, S.LAYS, f"{t} L={L}")
        ctx.sample(f"{t}: all pairs of sequences over (a prefix of) {a} up to length {L}")
        if t not in "fdg":
            i = np.iinfo(t)
            b = np.array([int(i.max), int(i.min), int(i.max) - 1, 1], dtype=object)
            for L in (2, 3):
                w = S.words(b, L)
                X, Y = S.product(w, w)
                if t in "lL":      # distinct values that are equal as double
                    keep = (X.astype(float).std(axis=1) > 1e9) & (Y.astype(float).std(axis=1) > 1e9)
                    X, Y = X[keep], Y[keep]
                judge(ctx, u, X, Y, X.astype(t), Y.astype(t), t, S.LAYS, f"{t} extremes L={L}", cond=float(2 ** 9 if t in "hHbB" else 2 ** 20 if t in "iI" else 64))
    elif kind == "long":
        for n in S.sizes(ctx.thorough, 70001)[3:]:
            x, y = S.pseudo(n, "l") + (50 if un else 0), S.pseudo(n, "l", 2) + (50 if un else 0)
            X = S.spots(x, [100, 0])[:: S.step(n, 12)]
            Y = np.tile(y, (len(X), 1))
            judge(ctx, u, X, Y, X.astype(t), Y.astype(t), t, ("contig", "strided", "reversed"), f"{t} n={n}")
            judge(ctx, u, Y, X, Y.astype(t), X.astype(t), t, ("contig", "strided", "reversed"), f"{t} n={n}")
            c = np.full((1, n), 3)      # constant
            judge(ctx, u, c, Y[:1], c.astype(t), Y[:1].astype(t), t, ("contig", "strided"), f"{t} n={n} constant")
            if ctx.full:
                return
    elif kind == "offset":
        offset(ctx, u, t)
    else:
        # squares overflow or underflow, the correlation does not
        fi = np.finfo(t)
        # two points: exactly 1 or -1, or nan if two values are equal
        ty = np.dtype(t).type
        for sx in S.scales(t, 3, 3):
            v = np.array([sx, sx * ty(1.5), -sx, sx * (ty(1) / 3), ty(0)])
            w = S.words(np.unique(np.concatenate([v, np.nextafter(v, ty(np.inf)), np.nextafter(v, ty(-np.inf))])), 2)
            for sy in (ty(1), sx, 1 / sx):
                b = np.array([sy, sy * (ty(1) / 3), -sy, np.nextafter(sy, ty(0)), -ty(0), ty(0)])
                X, Y = S.product(w, S.words(b, 2))
                e = (np.sign(X[:, 1] - X[:, 0]) * np.sign(Y[:, 1] - Y[:, 0])).astype(t)
                e[e == 0] = np.nan
                for q in ([X, Y], [Y, X]):
                    S.compare(ctx, u.pearson_corr, q, e, what=f"pearson_corr {t}, two points", dtypes=[t], lays=("contig",))
            if ctx.full:
                return
        for L in (3, 4):
            w = S.words(np.array([0, 1, -3, 5]), L)
            X, Y = S.product(w, w[: 40])
            for ex in (int(fi.maxexp) - 6, int(fi.minexp) + 8, int(fi.maxexp) // 2 + 5, int(fi.minexp) // 2 - 5, 0):
                for ey in (int(fi.maxexp) - 6, int(fi.minexp) + 8, 3):
                    sx, sy = np.ldexp(np.dtype(t).type(1), ex), np.ldexp(np.dtype(t).type(1), ey)
                    judge(ctx, u, X, Y, X.astype(t) * sx, Y.astype(t) * sy, t, ("contig",), f"{t} scaled by 2**{ex}, 2**{ey}", cond=64.0)
