"""C15: kbnsum."""

import math
from fractions import Fraction

import numpy as np

from mc import seq as S

PROP = "C15"
LEVEL = "exploration"
RULE = ("one case = one sequence x data type x memory layout, compared with the exact sum; non-trivial = at least two "
        "elements, not all equal")
ASSUMPTIONS = ["the documented accuracy of Kahan-Babuska-Neumaier summation: "
               "|error| <= eps*|sum| + 2*n^2*eps^2*sum|x|; no overflow of partial sums"]


def shards(tier):
    return [[f"seq_{t}_{c}", t, c] for t in S.FLOATS for c in range(4)] + [[f"real_{t}_{c}", t, c] for t in S.FLOATS for c in range(2)] + [["long_" + t, t] for t in S.FLOATS] + [["scale_" + t, t] for t in S.FLOATS] + \
        [["special_" + t, t] for t in S.FLOATS]


def eps_of(t):
    return np.finfo(t).eps


def frac(v):
    m, e = np.frexp(v)
    m = int(m * np.ldexp(type(v)(1), 64))
    return Fraction(m) * Fraction(2) ** (int(e) - 64)


def run(shard, ctx):
    import ufunclab as u
    kind, t = shard[0].split("_")[0], shard[1]
    eps = frac(np.finfo(t).eps)
    T = np.dtype(t).type
    if kind == "seq":
        b = {"f": 2.0**12, "d": 2.0**27, "g": 2.0**33}[t]
        a = np.array([1, -1, T(b) ** 2, -T(b) ** 2, T(b), T(1) / T(b), T(3) * T(b) * T(b) + T(b), T(0.7)], dtype=t)
        if not ctx.thorough:
            a = a[:7]
        fr = [frac(v) for v in a]
        c = shard[2]
        for L in range(1, 7 if ctx.thorough else 6):
            w = S.words(np.arange(len(a)), L)[c::4]
            check(ctx, u, a, fr, w, t, eps, L)
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}, against the exact rational sum")
    elif kind == "real":      # values that use the whole mantissa, and exponents that only this type has
        one, far = T(1), np.ldexp(T(1), np.finfo(t).maxexp // 2)
        p = np.sqrt(T(2))
        q = np.sqrt(T(3)) / eps_of(t)
        a = np.array([p, -p, q, -q, np.nextafter(one, T(2)), -one, np.sqrt(T(7)) * eps_of(t), far * p, -far * p], dtype=t)
        fr = [frac(v) for v in a]
        for L in range(1, 6 if ctx.thorough else 5):
            check(ctx, u, a, fr, S.words(np.arange(len(a)), L)[shard[2]::2], t, eps, L)
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}, against the exact rational sum")
    elif kind == "scale":      # the same at every magnitude
        a0 = np.array([1, -1, T(2) / eps_of(t), -T(2) / eps_of(t), eps_of(t) * T(4), T(3)], dtype=t)
        for s in S.scales(t, 3, np.finfo(t).nmant + 12):
            a = a0 * s
            fr = [frac(v) for v in a]
            for L in range(1, 6 if ctx.thorough else 5):
                check(ctx, u, a, fr, S.words(np.arange(len(a)), L), t, eps, L)
            if ctx.full:
                return
        ctx.sample(f"{t}: all sequences over {a0.tolist()} up to length {L}, times powers of two over the whole range of the type")
    elif kind == "long":
        b = {"f": 2.0**24, "d": 2.0**53, "g": 2.0**64}[t]
        a = np.array([1, T(b), -T(b), T(0.25), -1, T(3)], dtype=t)
        fr = [frac(v) for v in a]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            base = np.array([[0, 3, 4, 5][(k * 3 + k // 4) % 4] for k in range(n)])
            w = S.spots(base, [1, 2])
            w2 = w.copy()
            for r in range(len(w2)):      # a large value and its opposite: what lies between must survive
                p = int(np.argmax((w2[r] == 1) | (w2[r] == 2)))
                w2[r, (p + n // 2) % n] = 3 - w2[r, p]
            for q in (w, w2):
                check(ctx, u, a, fr, q, t, eps, n, lays=("contig", "strided", "reversed"))
            if ctx.full:
                return
    else:
        a = np.array([np.inf, -np.inf, np.nan, 1, -2.5, 0.0], dtype=t)
        mx, sub = S.big(t), np.finfo(t).smallest_subnormal
        both = [S.words(a, L) for L in range(0, 7 if ctx.thorough else 6)]
        for L in range(1, 5):      # the largest and smallest finite values next to an infinity or a nan
            w = S.words(np.array([np.inf, -np.inf, np.nan, mx, -mx, sub, 1], dtype=t), L)
            both.append(w[~np.isfinite(w).all(axis=1)])
        for w in both:
            L = w.shape[1]
            has_nan = np.isnan(w).any(axis=1)
            p, m = (w == np.inf).any(axis=1), (w == -np.inf).any(axis=1)
            fin = np.where(np.isfinite(w), w, 0).sum(axis=1)
            e = np.where(has_nan | (p & m), np.nan, np.where(p, np.inf, np.where(m, -np.inf, fin))).astype(t)
            S.compare(ctx, u.kbnsum, [w], e, what=f"kbnsum {t} special L={L}", dtypes=[t], nontrivial=len(w) if L > 1 else 0)
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            for pair in ((np.inf, np.inf), (np.inf, -np.inf), (-np.inf, np.nan), (np.nan, np.inf), (1.0, np.nan), (np.inf, 2.0)):
                w = S.spots(np.ones(n, dtype=t), [pair[0]])
                w[:, n // 2] = pair[1]
                has_nan = np.isnan(w).any(axis=1)
                p, m = (w == np.inf).any(axis=1), (w == -np.inf).any(axis=1)
                fin = np.where(np.isfinite(w), w, 0).sum(axis=1)
                e = np.where(has_nan | (p & m), np.nan, np.where(p, np.inf, np.where(m, -np.inf, fin))).astype(t)
                S.compare(ctx, u.kbnsum, [w], e, what=f"kbnsum {t} special n={n}", lays=("contig", "strided", "reversed"))


def check(ctx, u, a, fr, w, t, eps, n, lays=S.LAYS):
    if not len(w):
        return
    x = a[w]
    # integer arithmetic on a common denominator
    D = max(f.denominator for f in fr)
    num = [int(f * D) for f in fr]
    if n > 12:
        cnt = [np.bincount(r, minlength=len(num)).tolist() for r in w]
        ex = [(sum(c * v for c, v in zip(r, num)), sum(c * abs(v) for c, v in zip(r, num))) for r in cnt]
    else:
        ex = [(sum(num[i] for i in r), sum(abs(num[i]) for i in r)) for r in w.tolist()]
    tol = [abs(s) * eps + 2 * n * n * eps * eps * m + D * frac(np.finfo(t).tiny) for s, m in ex]
    for l in lays:
        g = ctx.call(u.kbnsum, S.lay(x, l))
        ctx.count(len(x), len(x) if n > 1 else 0)
        if g.dtype != np.dtype(t):
            ctx.violation(f"kbnsum returned {g.dtype}", f=u.kbnsum, args=(x[0],))
            return
        for r in range(len(x)):
            v = g[r]
            if not np.isfinite(v) or abs(frac(v) * D - ex[r][0]) > tol[r]:
                ctx.violation(f"kbnsum {t} ({l}): not the accurately rounded sum", f=u.kbnsum, args=(S.lay(x, l)[r],),
                              got=v, exp=str(float(Fraction(ex[r][0], D))))
                return
