"""C16: gmean, hmean, pmean and the weighted variants."""

import itertools

import mpmath
import numpy as np
from mpmath import mpf

from mc import mp as M
from mc import huge as H
from mc import seq as S

PROP = "C16"
LEVEL = "exploration"
RULE = ("one case = one sequence of nonnegative values (or a special value) x exponent x weights x data type x memory "
        "layout, against a multiprecision reference; non-trivial = at least two different values")
ASSUMPTIONS = ["the reciprocals of the values and their sum are finite (hmean, hmeanw)", "positive weights, or zero "
               "weights with finite positive values and finite p", "|p| < 2e-6 uses a second-order expansion, whose "
               "truncation error is part of the tolerance"]
PS = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, np.inf, -np.inf, np.nan, 1e-6, -1e-6, 1.999e-6, 2.001e-6, 1e-5,
      -1e-5, 1e-3, 10.0, -10.0, 100.0, -100.0, 1.5]
X = [1.0, 0.5, 3.0, 0.0, np.inf, np.nan, -1.0, 1000.0, 7.25, -np.inf]
XW = [1.0, 0.5, 3.0, 0.0, np.inf, np.nan, -1.0]


def shards(tier):
    return ([[f"plain_{t}", t] for t in "fdg"] + [[f"weighted_{t}_{k}", t, k] for t in "fdg" for k in range(3)] +
            [[f"wide_{t}_{k}", t, k] for t in "fdg" for k in range(4)] + [[f"long_{t}", t] for t in "fdg"] + [[f"near_{t}_{k}", t, k] for t in "fdg" for k in range(2)] +
            [[f"ends_{t}_{k}", t, k] for t in "fdg" for k in range(2)] + [["empty"], ["huge"]])


def power(x, w, p):
    """Reference: weighted power mean as an mpf, None for nan; second value: spread of the logarithms."""
    if np.isnan(p) or any(np.isnan(v) or v < 0 for v in x):
        return None, mpf(0)
    xs = [M.tomp(v) for v in x]
    zero, inf = any(v == 0 for v in x), any(np.isinf(v) for v in x)
    if p == 0:
        if zero and inf:
            return None, mpf(0)
    if all(v == x[0] for v in x):
        return xs[0], mpf(0)
    if np.isinf(p):
        return (max(xs) if p > 0 else min(xs)), mpf(0)
    if p == 0:
        if zero or inf:
            return (mpf(0) if zero else mpf("inf")), mpf(0)
        l = [mpmath.log(v) for v in xs]
        W = sum(w)
        return mpmath.exp(sum(a * b for a, b in zip(w, l)) / W), max(l) - min(l)
    if abs(p) < 2e-6 and zero and inf:
        return None, mpf(0)
    if inf and p > 0:
        return mpf("inf"), mpf(0)
    if zero and p < 0:
        return mpf(0), mpf(0)
    if abs(p) < 2e-6 and (zero or inf):
        return (mpf(0) if zero else mpf("inf")), mpf(0)
    q = M.tomp(p)
    s = sum(b * (mpf(0) if (a == 0 or mpmath.isinf(a)) else a ** q) for a, b in zip(xs, w))
    pos = [mpmath.log(v) for v in xs if v > 0 and mpmath.isfinite(v)]
    if s == 0:
        return mpf(0) if q > 0 else mpf("inf"), mpf(0)
    return (s / sum(w)) ** (1 / q), max(pos) - min(pos) + 1


def tolerance(v, spread, p, n, t, xs):
    if v is None or not mpmath.isfinite(v):
        return M.LD(0)
    e, spread = float(M.eps(t)), float(spread)
    if abs(p) < 2e-6:
        mag = max([abs(float(np.log(M.LD(x)))) for x in xs if x > 0 and np.isfinite(x)], default=0.0)
        rel = 64 * n * e * (4 + mag + abs(p) * mag ** 2) + p * p * (1 + spread) ** 4
    else:
        rel = 16 * n * e * (2 + (1 / abs(p) if np.isfinite(p) else 1))
        if abs(p) < 2.1e-6:
            rel += p * p * (1 + spread) ** 4
    return M.LD(rel) * M.told(v)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "huge":
        for t in "dg":
            x, c = H.row(t)
            w = np.ones_like(x)
            w[::2] = 2
            v, m = np.unique(x * 10 + w, return_counts=True)
            P = [(mpf(int(a) // 10), mpf(int(a) % 10) * int(k)) for a, k in zip(v, m)]
            U = [(mpf(a.numerator), mpf(k)) for a, k in c]
            for p in (0.0, 1.0, -1.0, 2.0, 1e-6, -0.5):
                for q, Q in (((), U), ((w,), P)):
                    W = sum(k for a, k in Q)
                    e = mpmath.exp(sum(k * mpmath.log(a) for a, k in Q) / W) if p == 0 else (sum(k * a ** mpf(p) for a, k in Q) / W) ** (1 / mpf(p))
                    fs = [(u.pmeanw if q else u.pmean, (x,) + q + (np.dtype(t).type(p),))]
                    fs += [(u.gmeanw if q else u.gmean, (x,) + q)] if p == 0 else [(u.hmeanw if q else u.hmean, (x,) + q)] if p == -1 else []
                    for f, a in fs:
                        if not H.check(ctx, f, a, float(e), 1e-8 if abs(p) > 1e-5 or p == 0 else 1e-6, f"{f.__name__} {t} p={p}", "x = np.resize([1, 3, 7, 4, 100], 2**24 + 3); x[len(x)//3] = 90; w = 1, w[::2] = 2"):
                            return
        return
    if kind == "empty":
        for t in "fdg":
            z = np.empty((3, 0), dtype=t)
            o = np.ones(3, dtype=t)
            for f, a in ((u.gmean, (z,)), (u.hmean, (z,)), (u.pmean, (z, o)), (u.gmeanw, (z, z)), (u.hmeanw, (z, z)),
                         (u.pmeanw, (z, z, o))):
                r, e = ctx.attempt(f, *a)
                ctx.count(1)
                if not isinstance(e, ValueError):
                    ctx.violation(f"{f.__name__} of an empty array did not raise ValueError", f=f, args=a, got=r)
        return
    t = shard[1]
    if kind == "plain":
        for L in range(1, 6 if ctx.thorough else 5):
            ms = list(itertools.combinations_with_replacement(range(len(X)), L))
            w = S.words(np.arange(len(X)), L) if L < 4 else np.array(
                [q for m in ms for q in (m, m[::-1], m[2:] + m[:2])])
            key = {m: i for i, m in enumerate(ms)}
            rows = np.array([key[tuple(sorted(r))] for r in w.tolist()])
            x = np.array(X, dtype=t)[w]
            table(ctx, u, x, rows, [[np.dtype(t).type(X[i]) for i in m] for m in ms], [[mpf(1)] * L] * len(ms), t, L)
        ctx.sample(f"{t}: all sequences over {X} up to length 3, all multisets of {L} in three orders; p in {PS}")
    elif kind == "wide":      # the whole exponent range, whole mantissas
        T, fi = np.dtype(t).type, np.finfo(t)
        two, three = np.sqrt(T(2)), np.sqrt(T(3))
        V = np.array([two, np.ldexp(three, fi.maxexp - 8), np.ldexp(two, fi.minexp + 8), np.ldexp(three, fi.maxexp // 2), np.nextafter(T(1), T(0)), 0, np.inf,
                      np.ldexp(T(1), fi.minexp // 2), np.ldexp(three, 20)], dtype=t)
        ps = [q for q in PS if q == 0 or abs(q) > 1e-5] + [0.01, -0.01, 0.25, -0.9]
        for L in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
            ms = list(itertools.combinations_with_replacement(range(len(V)), L))
            w = np.array(ms + [m[::-1] for m in ms])
            rows = np.tile(np.arange(len(ms)), 2)
            table(ctx, u, V[w], rows, [list(V[list(m)]) for m in ms], [[mpf(1)] * L] * len(ms), t, L, ps=ps[shard[2]::4])
            wv = np.array([two, T(0.5), np.nextafter(T(3), T(0)), three][:L], dtype=t)
            ms = list(itertools.product(range(len(V)), repeat=L))[::1 if ctx.thorough else 3]
            table(ctx, u, V[np.array(ms)], np.arange(len(ms)), [list(V[list(m)]) for m in ms], [[M.tomp(q) for q in wv]] * len(ms), t, L, np.tile(wv, (len(ms), 1)), ps=ps[shard[2]::4])
        ctx.sample(f"{t}: sequences over {V.tolist()} up to length {L}")
    elif kind == "ends":      # pairs and triples whose products, quotients and sums lie around the ends of the range
        T, fi = np.dtype(t).type, np.finfo(t)
        two, three = np.sqrt(T(2)), np.sqrt(T(3))
        h = fi.nmant // 2
        es = [0, fi.minexp // 2, fi.minexp // 2 - 3, fi.minexp // 2 - h // 2, fi.minexp // 3 - 2, fi.maxexp // 2, fi.maxexp // 2 + 1, fi.maxexp // 3 + 1, fi.minexp - 1,
              fi.minexp - h, fi.maxexp - 2, -h]
        V = [np.ldexp(m, e) for e in es for m in (two, three)]
        for L in (2, 3):
            ms = list(itertools.combinations_with_replacement(V if L == 2 else V[::2], L))[shard[2]::2]
            for dn in (False, True):          # without and with subnormal values
                mm = [m for m in ms if (min(m) < fi.tiny) == dn]
                ps = [0.0] if dn else [0.0, -1.0, 1.0, 2.0, -2.0, 0.5, 3.0]
                w = np.array([m[:: 1 if i % 2 else -1] for i, m in enumerate(mm)], dtype=t)
                rows = np.arange(len(mm))
                table(ctx, u, w, rows, [list(r) for r in w], [[mpf(1)] * L] * len(mm), t, L, ps=ps, lays=("contig", "strided"))
                wv = np.array([T(1), three, T(0.5)][:L], dtype=t)
                table(ctx, u, w, rows, [list(r) for r in w], [[M.tomp(q) for q in wv]] * len(mm), t, L, np.tile(wv, (len(mm), 1)), ps=ps, lays=("contig", "strided"))
        ctx.sample(f"{t}: pairs and triples of full mantissas with exponents {es}")
    elif kind == "near":      # orders of every magnitude, and next to the simple ones
        T = np.dtype(t).type
        V = np.array([1, 0.5, 3, np.sqrt(T(2)) * 5, 1000, 0, np.nextafter(T(3), T(0))], dtype=t)
        ps = S.beside(t, (1, -1, 2, -2, 0.5, -0.5, 3)) + [S.num(t, v) for q in (1e-4, 3e-3, 0.02, 0.1, 0.3, 0.75, 4, 7.5, 30, 300.5, 1e3, 1e4, 1e5 + 1, 1e7) for v in (q, -q)]
        wv = np.array([np.sqrt(T(2)), T(0.5), T(7) / 3], dtype=t)
        for L in (2, 3):
            ms = list(itertools.combinations_with_replacement(range(len(V)), L))[shard[2]::2]
            xs = [list(V[list(m)]) for m in ms]
            table(ctx, u, V[np.array(ms)], np.arange(len(ms)), xs, [[mpf(1)] * L] * len(ms), t, L, ps=ps, lays=("contig",))
            table(ctx, u, V[np.array(ms)], np.arange(len(ms)), xs, [[M.tomp(q) for q in wv[:L]]] * len(ms), t, L, np.tile(wv[:L], (len(ms), 1)), ps=ps, lays=("contig",))
        ctx.sample(f"{t}: multisets over {V.tolist()}, {len(ps)} orders")
    elif kind == "weighted":
        wts = [1.0, 2.0, 0.5]
        for L in range(1, 5 if ctx.thorough else 4):
            ms = list(itertools.product(range(len(XW)), repeat=L))
            for wv in itertools.product(wts, repeat=L):
                if int(wv[0] * 2 + (wv[-1] if L > 1 else 0)) % 3 != shard[2]:
                    continue
                x = np.array([[XW[i] for i in m] for m in ms], dtype=t)
                W = np.tile(np.array(wv, dtype=t), (len(ms), 1))
                if L > 2 and not ctx.thorough and wv not in ((1.0, 2.0, 0.5), (2.0, 2.0, 1.0), (0.5, 1.0, 1.0)):
                    continue
                table(ctx, u, x, np.arange(len(ms)), [list(r) for r in x], [[mpf(v) for v in wv]] * len(ms), t, L, W,
                      ps=PS if L < 3 else PS[:12:2] + [1e-6, -1e-5, 10.0])
        # zero weights drop their element
        for L in (2, 3):
            for wv in itertools.product([0.0, 1.0, 2.0], repeat=L):
                if not any(wv):
                    continue
                ms = list(itertools.product([1.0, 0.5, 3.0], repeat=L))
                x = np.array(ms, dtype=t)
                W = np.tile(np.array(wv, dtype=t), (len(ms), 1))
                table(ctx, u, x, np.arange(len(ms)), [list(r) for r in x], [[mpf(v) for v in wv]] * len(ms), t, L, W,
                      ps=[0.0, 1.0, -1.0, 2.0, -0.5, 1e-6])
        ctx.sample(f"{t}: all sequences over {XW} x weights over {wts}, length <= {L}")
    else:
        for n in S.sizes(ctx.thorough, 1025)[1:]:
            base = np.abs(S.pseudo(n, "d")) / 8 + 0.5
            ps = [0.0, 2.0, -1.0] if S.DENSE else [0.0, 2.0, -1.0, 1e-6, -0.5, np.inf, -np.inf]
            for v in (4.0,) if S.DENSE else (0.0, np.inf, -1.0, np.nan, 4.0) if n < 260 else (4.0, np.nan):
                ks = [0, n - 1] if S.DENSE else sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
                x = np.tile(base, (len(ks), 1))
                x[np.arange(len(ks)), ks] = v
                x = x.astype(t)
                table(ctx, u, x, np.arange(len(ks)), [list(r) for r in x], [[mpf(1)] * n] * len(ks), t, n,
                      ps=ps, lays=("contig", "strided", "reversed"))
                W = np.tile((np.arange(n) % 3 + 1) / 2, (len(ks), 1)).astype(t)
                table(ctx, u, x, np.arange(len(ks)), [list(r) for r in x], [[M.tomp(q) for q in r] for r in W], t, n, W,
                      ps=ps, lays=("contig", "strided", "reversed"))
            if ctx.full:
                return


def table(ctx, u, x, rows, xs, ws, t, L, W=None, ps=PS, lays=S.LAYS):
    nt = len(x) if L > 1 else 0
    for p in ps:
        p = S.num(t, p)
        ref = [power(a, b, p) for a, b in zip(xs, ws)]
        ex = M.arr([r[0] for r in ref])[rows]
        kw = dict(lays=lays, nontrivial=nt, dtypes=[t])

        def mask(pp, q):
            return M.m_tol(np.array([tolerance(r[0], r[1], pp, L, q, a) for r, a in zip(ref, xs)], dtype=M.LD)[rows])

        P = np.full(len(x), p, dtype=t)
        name = f"p={p!r} {t} L={L}"
        if W is None:
            S.compare(ctx, u.pmean, [x, P], ex, mask(p, t), what="pmean " + name, **kw)
            if p == 0:
                S.compare(ctx, u.gmean, [x], ex, mask(0.0, t), what="gmean " + name, **kw)
            if p == -1:
                ok = np.array([r[0] is not None and not (min(a) < 0) for r, a in zip(ref, xs)])[rows]
                if ok.any():
                    mk = M.m_tol(np.array([tolerance(r[0], r[1], p, L, t, a) for r, a in zip(ref, xs)], dtype=M.LD)[rows][ok])
                    S.compare(ctx, u.hmean, [x[ok]], ex[ok], mk, what="hmean " + name, **kw)
        else:
            S.compare(ctx, u.pmeanw, [x, W, P], ex, mask(p, t), what="pmeanw " + name, **kw)
            if p == 0:
                S.compare(ctx, u.gmeanw, [x, W], ex, mask(0.0, t), what="gmeanw " + name, **kw)
            if p == -1:
                ok = np.array([r[0] is not None and not (min(a) < 0) for r, a in zip(ref, xs)])[rows]
                if ok.any():
                    mk = M.m_tol(np.array([tolerance(r[0], r[1], p, L, t, a) for r, a in zip(ref, xs)], dtype=M.LD)[rows][ok])
                    S.compare(ctx, u.hmeanw, [x[ok], W[ok]], ex[ok], mk, what="hmeanw " + name, **kw)
        if ctx.full:
            return
