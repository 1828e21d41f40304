"""C23: fillnan1d."""

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C23"
LEVEL = "exploration"
RULE = "one case = one sequence with nan at some positions x data type x memory layout; non-trivial = a nan is filled"
ASSUMPTIONS = ["gaps next to an infinite value are not judged (no finite line goes through infinity)"]


def shards(tier):
    return [["seq_" + t, t] for t in S.FLOATS] + [["masks_" + t, t] for t in S.FLOATS] + [["long_" + t, t] for t in S.FLOATS] + \
        [["real_" + t, t] for t in S.FLOATS] + [["near_" + t, t] for t in S.FLOATS] + [["huge_" + t, t] for t in "fd"]


def ref(w):
    """Rows -> (expected, tolerance, judged)."""
    m, n = w.shape
    ex = w.astype(M.LD)
    tol = np.zeros((m, n), dtype=M.LD)
    for r in range(m):
        row = ex[r]
        good = np.flatnonzero(~np.isnan(row))
        if not len(good):
            continue
        row[: good[0]] = row[good[0]]
        row[good[-1] + 1:] = row[good[-1]]
        for g in np.flatnonzero(np.diff(good) > 1):
            a, b = good[g], good[g + 1]
            i = np.arange(1, b - a)
            row[a + 1: b] = row[a] * (1 - i / M.LD(b - a)) + row[b] * (i / M.LD(b - a))
            tol[r, a + 1: b] = max(abs(row[a]), abs(row[b]))
    return ex, tol


def judge(ctx, u, w, t, lays, what):
    ex, tol = ref(w)
    nan = np.isnan(w)
    sub = 2 * M.LD(np.finfo(t).smallest_subnormal)

    def mask(g, e):
        gl = g.astype(M.LD)
        ok = (np.abs(gl - e) <= 8 * M.eps(t) * tol + sub * (tol != 0)) | (gl == e) | (np.isnan(gl) & np.isnan(e))
        # next to an infinity the filled values are not judged
        return ok | (nan & ~np.isfinite(tol)) | (nan & np.isnan(tol))
    S.compare(ctx, u.fillnan1d, [w], ex, mask, what="fillnan1d " + what, dtypes=[t], lays=lays,
              nontrivial=int(nan.any(axis=1).sum()))


def run(shard, ctx):
    import ufunclab as u
    kind, t = shard[0].split("_")[0], shard[1]
    if kind == "huge":        # runs longer than what a float32 counts
        n = 2**24 + 40
        for at, v in (((0, n - 1), (0, 4)), ((7, n - 9), (-3, n - 20)), ((3, n - 5), (5, 5))):
            x = np.full(n, np.nan, dtype=t)
            x[list(at)] = v
            a, b = (np.longdouble(q) for q in x[list(at)])
            e = np.empty(n, dtype=np.longdouble)
            e[:at[0]], e[at[1]:] = a, b
            k = np.arange(at[1] - at[0] + 1)
            e[at[0]:at[1] + 1] = a + (b - a) / k[-1] * k
            g = ctx.call(u.fillnan1d, x)
            ctx.count(1, 1)
            ok = np.abs(g - e) <= 4 * M.eps(t) * np.maximum(np.abs(a), np.abs(b))
            ok[:at[0] + 1] &= g[:at[0] + 1] == x[at[0]]
            ok[at[1]:] &= g[at[1]:] == x[at[1]]
            if not ok.all():
                q = int(np.argmin(ok))
                ctx.violation(f"fillnan1d {t}: wrong result at {q} in a row of {n} with values {v} at {at}, else nan", f=u.fillnan1d, args=(x[:9],), got=g[q], exp=e[q],
                              repro=f"x = np.full({n}, np.nan, '{t}'); x[{list(at)}] = {v}")
                return
    elif kind == "seq":
        b = S.big(t) / (4 if t == "g" else 1)      # the difference of two long doubles may overflow
        for a in ([np.nan, 1, -2.5, 0.1, np.inf, 7], [np.nan, b, -b, 1]):
            for L in range(0, 8 if ctx.thorough else 7):
                if L > 5 and len(a) > 5 and not ctx.thorough or L > 6 and len(a) > 5:
                    break
                judge(ctx, u, S.words(np.array(a, dtype=t), L), t, S.LAYS, f"{t} L={L}")
            ctx.sample(f"{t}: all sequences over {[str(q) for q in a]} up to length {L}")
    elif kind == "real":
        T, fi = np.dtype(t).type, np.finfo(t)
        for scale in (T(1), np.ldexp(T(1), fi.maxexp - 8 - fi.nmant // 2), np.ldexp(T(1), fi.minexp + fi.nmant + 4), np.ldexp(T(1), fi.minexp - 4)):
            for v in (S.reals(t, 5), S.reals(t, 5, True)[::-1]):
                a = np.append((v * scale).astype(t), T(np.nan))
                for L in range(1, 8 if ctx.thorough else 7):
                    judge(ctx, u, S.words(a if L < 6 else a[-4:], L), t, S.LAYS, f"{t} real L={L}")
                for n in S.sizes(ctx.thorough, 300)[2:]:
                    q = a[(np.arange(n) * 3 + np.arange(n) // 5) % 5]
                    rows = np.array([np.where((np.arange(n) * j) % 7 < k, T(np.nan), q) for j in range(1, 7) for k in (1, 4, 6)])
                    judge(ctx, u, rows, t, S.LAYS, f"{t} real n={n}")
                if ctx.full:
                    return
        ctx.sample(f"{t}: all sequences over {a.tolist()} and of three other scales")
    elif kind == "near":      # ends of a gap that are close to each other
        for s in S.scales(t, 4, 4):
            v = np.array(S.beside(t, [1, -2]), dtype=t)
            for a in (v[: len(v) // 2], v[len(v) // 2:]):
                p, q = (c * s for c in S.product(a, a))
                for gap in (1, 2, 7):
                    w = np.full((len(p), gap + 4), np.nan, dtype=t)
                    w[:, 1], w[:, -2] = p, q
                    judge(ctx, u, w, t, S.LAYS, f"{t} ends close to each other, gap {gap}")
            if ctx.full:
                return
    elif kind == "masks":
        # every set of nan positions
        N = 13 if ctx.thorough else 11
        for n in range(1, N + 1):
            k = np.arange(2 ** n)
            mask = ((k[:, None] >> np.arange(n)) & 1).astype(bool)
            w = np.where(mask, np.nan, (S.pseudo(n, "d") / 8)[None, :]).astype(t)
            judge(ctx, u, w, t, ("contig", "strided", "reversed"), f"{t} masks n={n}")
        ctx.sample(f"{t}: all 2**n sets of nan positions for n <= {N}")
    else:
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            base = (S.pseudo(n, "d") / 8).astype(t)
            rows = []
            for a in range(0, n, max(1, n // 10)):       # one gap, then two gaps
                for b in sorted({a + 1, a + 2, (a + n) // 2 + 1, n - 1, n}):
                    if b > a:
                        q = base.copy()
                        q[a:b] = np.nan
                        rows.append(q)
                        p = q.copy()
                        p[n // 3:n // 3 + 2] = np.nan
                        rows.append(p)
            judge(ctx, u, np.array(rows), t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
