"""C18: mad, rmad, gini."""

import numpy as np

from mc import mp as M
from mc import huge as H
from mc import seq as S

PROP = "C18"
LEVEL = "exploration"
RULE = ("one case = one sequence x unbiased flag x data type x memory layout, all three functions, against the defining "
        "double sum in exact integers; non-trivial = at least two different values")
ASSUMPTIONS = ["finite values; nan and inf are not judged",
               "for values whose sums are not exact: the error of mad is a small multiple of n*eps*max|x|"]


def shards(tier):
    return [["seq_" + t, t] for t in S.FLOATS] + [["long_" + t, t] for t in S.FLOATS] + [["real_" + t, t] for t in S.FLOATS] + [["special"], ["huge"]]


def judge(ctx, u, k, t, lays, what, scale=None):
    """rows of integers; the data are k/8, or k times a power of two."""
    m, n = k.shape
    if n < 300:
        pairs = np.abs(k[:, :, None] - k[:, None, :]).sum(axis=(1, 2))     # all ordered pairs
    else:
        pairs = 2 * (np.sort(k, axis=1) * (2 * np.arange(n) - n + 1)).sum(axis=1)     # the same, sorted
    tot = k.sum(axis=1)
    unit = M.LD(1) / 8 if scale is None else M.LD(scale)
    x = (k.astype(M.LD) * unit).astype(t)
    e = M.eps(t)
    for ub in (False, True):
        cnt = n * (n - 1) if ub else n * n
        with np.errstate(all="ignore"):
            mad = pairs.astype(M.LD) / cnt * unit
            rmad = pairs.astype(M.LD) * n / cnt / tot.astype(M.LD)
        dg = (tot == 0) | (cnt == 0)
        rmad = np.where(dg, np.where(pairs == 0, np.nan, np.inf), rmad)
        gini = rmad / 2
        B = np.full(m, ub)
        nt = int((pairs != 0).sum())
        for f, ex in ((u.mad, mad), (u.rmad, rmad), (u.gini, gini)):
            S.compare(ctx, f, [x, B], ex, S.m_rel(8 + n, 0.0 if scale is None or f is not u.mad else np.finfo(t).smallest_subnormal / M.LD(e)), what=f"{f.__name__} unbiased={ub} {what}", lays=lays, dtypes=[t],
                      nontrivial=nt)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "huge":
        for t in "dg":
            x, c = H.row(t)
            n, tot = H.N, sum(v * m for v, m in c)
            pairs = 2 * sum(m * k * abs(v - w) for i, (v, m) in enumerate(c) for w, k in c[:i])
            for ub in (False, True):
                cnt = n * (n - 1) if ub else n * n
                for f, e in ((u.mad, pairs / cnt), (u.rmad, pairs * n / cnt / tot), (u.gini, pairs * n / cnt / tot / 2)):
                    if not H.check(ctx, f, (x, ub), e, 1e-9, f"{f.__name__} {t} unbiased={ub}"):
                        return
    elif kind == "seq":
        t = shard[1]
        for a in ([8, 0, 4, 24, 1, 60], [8, -8, 0, 20, -3]):
            for L in range(1, 8 if ctx.thorough else 7):
                if L > 5 and len(a) == 6 and not ctx.thorough:
                    break
                judge(ctx, u, S.words(np.array(a, dtype=np.int64), L), t, S.LAYS, f"{t} L={L}")
                if L < 5:        # multiples of the smallest subnormal number, and any other scale
                    fi = np.finfo(t)
                    for s in [fi.smallest_subnormal, fi.smallest_subnormal * 16, np.ldexp(fi.smallest_subnormal, fi.nmant - 6)] + S.scales(t, 8, 24):
                        judge(ctx, u, S.words(np.array(a, dtype=np.int64), L), t, ("contig",), f"{t} L={L} times {s}", s)
            ctx.sample(f"{t}: all sequences over {[v / 8 for v in a]} up to length {L}")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            up = np.arange(1, n + 1)
            for base in (up, up[::-1], np.full(n, 16), S.pseudo(n, "l") + 60, S.pseudo(n, "l"))[3 * (n > 20000):]:
                judge(ctx, u, S.spots(np.asarray(base), [1, 200, 16])[:: S.step(n, 12) if n < 20000 else 9], t,
                      ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
    elif kind == "real":
        real(ctx, u, shard[1])
    else:
        # offset: differences of large values
        for t, off in (("f", 2**20), ("d", 2**40), ("g", 2**40)):
            for L in range(2, 6):
                judge_offset(ctx, u, S.words(np.array([0, 1, 2, 5]), L), off, t, L)
        for f in (u.mad, u.rmad, u.gini):
            for t in S.FLOATS:
                z = np.empty((2, 0), dtype=t)
                r, e = ctx.attempt(f, z, True)
                ctx.count(1)
                if not isinstance(e, ValueError):
                    ctx.violation(f"{f.__name__} of an empty array did not raise ValueError", f=f, args=(z, True), got=r)


def judge_offset(ctx, u, k, off, t, L):
    pairs = np.abs(k[:, :, None] - k[:, None, :]).sum(axis=(1, 2))
    x = (k + off).astype(t)
    for ub in (False, True):
        ex = pairs.astype(M.LD) / (L * (L - 1) if ub else L * L)
        S.compare(ctx, u.mad, [x, np.full(len(x), ub)], ex, M.m_tol(np.full(len(x), 8 * L * M.eps(t) * off)),
                  what=f"mad unbiased={ub} offset {t}", dtypes=[t])


def real(ctx, u, t):
    """Values that use the whole mantissa, any scale: the defining double sum in integers."""
    fi = np.finfo(t)
    T = np.dtype(t).type
    near = [np.sqrt(T(2))]
    for _ in range(3):
        near.append(np.nextafter(near[-1], T(2)))
    for scale in (T(1), np.ldexp(T(1), fi.maxexp - 24 - fi.nmant // 2), np.ldexp(T(1), fi.minexp + fi.nmant + 4)):
        for a in (S.reals(t, 6, True), S.reals(t, 6), np.array(near, dtype=t), np.array([1, 3, 5, 7], dtype=t) / T(3)):
            a = (a * scale).astype(t)
            k, e = M.ints(a)
            for L in range(1, 6 if ctx.thorough else 5):
                w = S.words(np.arange(len(a)), L)
                exact(ctx, u, a[w], k[w], e, t, S.LAYS, f"{t} real L={L}")
            if ctx.full:
                return
    for n in S.sizes(ctx.thorough, 400)[2:]:
        for a in (S.reals(t, 6, True), np.array(near, dtype=t)):
            k, e = M.ints(a)
            w = np.array([[(3 * i + i // 5 + 2 * r) % len(a) for i in range(n)] for r in range(3)])
            exact(ctx, u, a[w], k[w], e, t, ("contig", "strided", "reversed"), f"{t} real n={n}")


def exact(ctx, u, x, k, e, t, lays, what):
    m, n = x.shape
    ks = np.sort(k, axis=1)
    pairs = 2 * (ks * np.array([2 * i - n + 1 for i in range(n)], dtype=object)).sum(axis=1)
    tot = k.sum(axis=1)
    mx = np.abs(k).max(axis=1)
    one = 1 << e
    pos = (k > 0).all(axis=1)
    for ub in (False, True):
        cnt = n * (n - 1) if ub else n * n
        if cnt == 0:
            continue
        B = np.full(m, ub)
        tol = 8 * n * M.eps(t)
        S.compare(ctx, u.mad, [x, B], M.ratio(pairs, cnt * one), M.m_tol(tol * M.ratio(mx, one)), what=f"mad unbiased={ub} {what}",
                  lays=lays, dtypes=[t], nontrivial=int((pairs != 0).sum()))
        if pos.any():
            rm, tr = M.ratio(pairs * n, cnt * tot)[pos], tol * M.ratio(mx * n, tot)[pos]
            for f, h in ((u.rmad, 1), (u.gini, 2)):
                S.compare(ctx, f, [x[pos], B[pos]], rm / h, M.m_tol(tr / h), what=f"{f.__name__} unbiased={ub} {what}", lays=lays, dtypes=[t])
