"""C26: softmax."""

import mpmath
import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C26"
LEVEL = "exploration"
RULE = "one case = one vector x data type x memory layout; non-trivial = at least two elements"
ASSUMPTIONS = ["results below the smallest normal number may lose precision"]


def shards(tier):
    return [["seq_" + t, t] for t in S.FLOATS] + [["long_" + t, t] for t in S.FLOATS] + [["real_" + t, t] for t in S.FLOATS] + \
        [["offset_" + t, t] for t in S.FLOATS]


def judge(ctx, u, w, t, lays, what):
    n = w.shape[1]
    x = w.astype(M.LD)
    nan = np.isnan(x).any(axis=1)
    pinf = (x == np.inf).sum(axis=1)
    allm = (x == -np.inf).all(axis=1) if n else np.zeros(len(w), dtype=bool)
    if n:
        mx = np.where(np.isnan(x), -np.inf, x).max(axis=1, keepdims=True)
        q = np.exp(np.where(np.isfinite(mx), x - mx, 0))
        s = q / q.sum(axis=1, keepdims=True)
        s = np.where((pinf == 1)[:, None], (x == np.inf).astype(M.LD), s)
        s[nan | (pinf > 1) | allm] = np.nan
        span = np.where(np.isfinite(x - mx), np.abs(x - mx), 0)
    else:
        s, span = x, x
    tol = M.eps(t) * (16 + n + 2 * span) * np.where(np.isnan(s), 0, s) + 4 * M.LD(np.finfo(t).tiny)
    tol = np.where((s == 0) | (s == 1), np.where(n == 1, 0, tol), tol)
    S.compare(ctx, u.softmax, [w], s, M.m_tol(tol), what="softmax " + what, dtypes=[t], lays=lays,
              nontrivial=len(w) if n > 1 else 0)


def run(shard, ctx):
    import ufunclab as u
    kind, t = shard[0].split("_")[0], shard[1]
    if kind == "seq":
        b = S.big(t)
        for a in ([0, 1, -2.5, np.inf, -np.inf, np.nan, 50, -1000], [b, -b, 0, b / 2, np.inf, -np.inf]):
            for L in range(0, 7 if ctx.thorough else 6):
                if L == 6 and len(a) > 6:
                    break
                judge(ctx, u, S.words(np.array(a, dtype=t), L), t, S.LAYS, f"{t} L={L}")
            ctx.sample(f"{t}: all vectors over {[str(v) for v in a]} up to length {L}")
    elif kind == "offset":    # a common offset of any size that exp still tells from 0 and inf, and beyond
        T = np.dtype(t).type
        top, step = {"f": (130, 2), "d": (800, 11), "g": (11700, 151)}[t]
        for c in range(-top, top + 1, step):
            c = T(c) + T(1) / T(7)
            a = np.array([c, c - T(1.3), c - T(21.7), c - T(0.01)], dtype=t)
            for L in (1, 2, 3):
                judge(ctx, u, S.words(a, L), t, ("contig",) if L < 3 else S.LAYS, f"{t} at {c} L={L}")
            for n in (40, 300, 5000, 30011) if c > 0 else (40,):
                judge(ctx, u, np.array([a[(np.arange(n) * k + np.arange(n) // 5) % m] for k, m in ((1, 1), (3, 2), (1, 4))]), t, ("contig",), f"{t} at {c} n={n}")
            if ctx.full:
                return
        ctx.sample(f"{t}: offsets -{top}..{top} step {step}, all vectors over c - (0, 1.3, 21.7, 0.01) up to length 3, long rows")
    elif kind == "real":      # the whole mantissa, near each other, far away from zero, tiny
        T, fi = np.dtype(t).type, np.finfo(t)
        near = [np.sqrt(T(2)) * T(1000)]
        for _ in range(3):
            near.append(near[-1] + np.ldexp(T(5), -fi.nmant + 9))
        for a in (S.reals(t, 7), S.reals(t, 5) / T(8), S.reals(t, 5) * T(100), np.array(near, dtype=t), -np.array(near, dtype=t),
                  np.ldexp(S.reals(t, 5), fi.minexp), np.array([T(k) / T(7) for k in range(-400, 401, 61)], dtype=t)):
            for L in range(1, 6 if ctx.thorough or len(a) < 6 else 5):
                judge(ctx, u, S.words(a.astype(t), L), t, S.LAYS, f"{t} real L={L}")
            for n in S.sizes(ctx.thorough, 300)[2:]:
                judge(ctx, u, np.array([a[(np.arange(n) * k + np.arange(n) // 5) % len(a)] for k in (1, 3, 5)]), t, S.LAYS, f"{t} real n={n}")
        # the reference in more bits
        for w in (S.words(S.reals(t, 5), 3), S.words(np.array([T(k) / T(7) for k in range(-400, 401, 61)], dtype=t)[:8], 3)):
            g = ctx.call(u.softmax, w)
            ctx.count(len(w), len(w))
            for r in range(len(w)):
                ex = [mpmath.exp(M.tomp(v)) for v in w[r]]
                s = sum(ex)
                for j in range(3):
                    span = max(abs(float(v - w[r].max())) for v in w[r])
                    if abs(M.tomp(g[r, j]) - ex[j] / s) > M.tomp(M.eps(t)) * (8 + 2 * span) * ex[j] / s + M.tomp(fi.tiny):
                        ctx.violation(f"softmax {t}: wrong result", f=u.softmax, args=(w[r],), got=g[r], exp=[float(v / s) for v in ex])
                        return
    else:
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            judge(ctx, u, S.spots((S.pseudo(n, "d") / 8).astype(t), [20, np.inf, np.nan, -np.inf])[:: 1 if n < 20000 else 7], t,
                  ("contig", "strided", "reversed"), f"{t} n={n}")
            judge(ctx, u, S.spots(np.full(n, -np.inf, dtype=t), [3, np.inf])[:: 1 if n < 20000 else 7], t, ("contig", "strided", "reversed"), f"{t} n={n}")
            judge(ctx, u, S.spots(np.full(n, S.big(t), dtype=t), [np.inf, -S.big(t)])[:: 1 if n < 20000 else 7], t, ("contig",), f"{t} n={n}")
            if ctx.full:
                return
