"""C31: linear_interp1d."""

import itertools

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C31"
LEVEL = "exploration"
RULE = ("one case = one table x one x x data type x memory layout x broadcasting pattern; non-trivial = x strictly between "
        "two nodes")
ASSUMPTIONS = ["xp strictly increasing without nan (the docstring leaves anything else undefined); finite fp",
               "slopes between adjacent nodes that are normal numbers of the type"]


def shards(tier):
    return [[f"seq_{t}", t] for t in "fd"] + [[f"long_{t}", t] for t in "fd"] + [[f"real_{t}", t] for t in "fd"] + [["misc"]]


def ref(x, xp, fp):
    """rows x tables -> expected (B,), tolerance; x (B,), xp (B, n), fp (B, n), exact small dyadics."""
    B, n = xp.shape
    ex = np.full(B, np.nan, dtype=M.LD)
    tol = np.zeros(B, dtype=M.LD)
    hit = np.zeros(B, dtype=bool)
    xl, xpl, fpl = x.astype(M.LD), xp.astype(M.LD), fp.astype(M.LD)
    for k in range(n):
        h = xl == xpl[:, k]
        ex[h], tol[h] = fpl[h, k], 0
        hit |= h
        if k + 1 < n:
            h = (xl > xpl[:, k]) & (xl < xpl[:, k + 1])
            a, b = fpl[h, k], fpl[h, k + 1]
            ex[h] = a + (b - a) * ((xl[h] - xpl[h, k]) / (xpl[h, k + 1] - xpl[h, k]))
            tol[h] = np.maximum(np.abs(a), np.abs(b))
    return ex, tol, hit


def judge(ctx, u, x, xp, fp, t, lays, what):
    x, xp, fp = x.astype(t), xp.astype(t), fp.astype(t)
    ex, tol, hit = ref(x, xp, fp)
    mk = M.m_tol(8 * M.eps(t) * tol)
    S.compare(ctx, u.linear_interp1d, [x, xp, fp], ex, mk, what="linear_interp1d " + what, dtypes=[t], lays=lays,
              nontrivial=int((~np.isnan(ex) & ~hit).sum()))


def bcast(ctx, u, xs, xp, fps, t, what):
    """The same through every broadcasting pattern: xp (n,), xs (A,), fps (B, n)."""
    xs, xp, fps = xs.astype(t), xp.astype(t), fps.astype(t)
    A, B, n = len(xs), len(fps), len(xp)
    X, F = np.repeat(xs, B), np.tile(fps, (A, 1))
    ex, tol, hit = ref(X, np.tile(xp, (A * B, 1)), F)
    ok = M.m_tol(8 * M.eps(t) * tol)
    for lx in ("contig", "strided", "reversed"):
        f2 = S.lay(fps, lx)
        p2 = S.lay(xp[None], lx)[0]
        x2 = S.lay(xs, lx)
        for name, a in (("grid", (x2[:, None], p2, f2)), ("transposed", (x2, p2, f2[:, None])),
                        ("xp full", (x2[:, None], np.tile(p2, (B, 1)), f2))):
            g = ctx.call(u.linear_interp1d, *a)
            g = (g.T if name == "transposed" else g).ravel()
            ctx.count(A * B, int((~np.isnan(ex) & ~hit).sum()))
            m = ok(g, ex)
            if not m.all():
                b = int(np.argmin(m))
                ctx.violation(f"linear_interp1d {what} ({name}, {lx}): wrong result in a broadcast call", f=u.linear_interp1d,
                              args=a, got=g[b], exp=ex[b], kw=None)
                return False
        # x and xp constant along the batch: one search for all of fp
        for i in range(A):
            g = ctx.call(u.linear_interp1d, x2[i], p2, f2)
            ctx.count(B)
            m = ok(np.repeat(g[None], A, axis=0).ravel(), ex).reshape(A, B)[i]
            if g.shape != (B,) or not m.all():
                b = int(np.argmin(m))
                ctx.violation(f"linear_interp1d {what} (one x, {lx})", f=u.linear_interp1d, args=(xs[i], xp, fps[b]), got=g[b],
                              exp=ex.reshape(A, B)[i, b])
                return False
    return True


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    np.seterr(all="ignore")
    if kind == "seq":
        t = shard[1]
        nodes = [-4, -1.5, 0, 1, 3.25, 8, 100]
        fv = [0, 1, -7.5, 1000]
        for n in range(0, 7 if ctx.thorough else 6):
            fw = S.words(np.array(fv[: 4 if n < 5 else 3], dtype=float), n)
            for xp in itertools.combinations(nodes, n):
                xs = sorted({q for a in (list(xp) or [0.0]) for q in (a, a - 0.5, a + 0.25)} |
                            {(a + b) / 2 for a, b in zip(xp[:-1], xp[1:])} |
                            {float(np.nextafter(np.dtype(t).type(a), np.dtype(t).type(s))) for a in xp for s in (-np.inf, np.inf)})
                xs = np.array(xs + [np.nan, np.inf, -np.inf])
                f = fw if n < 4 else fw[:: 9]
                X, F = np.repeat(xs, len(f)), np.tile(f, (len(xs), 1))
                judge(ctx, u, X, np.tile(np.array(xp, dtype=float).reshape(1, n), (len(X), 1)), F, t,
                      S.LAYS + ("reversed",), f"{t} n={n}")
                if n in (1, 2, 3, 5) or ctx.thorough:
                    if not bcast(ctx, u, xs, np.array(xp, dtype=float), f[:: max(1, len(f) // 8)], t, f"{t} n={n}"):
                        return
                if ctx.full:
                    return
        for n in (1, 2, 3, 4):     # several tables in one call; every subset of the operands shared
            X, P, F = S.product(np.array([0.5, -2.0, 3.25, 1.0, 9.0]), np.array(list(itertools.combinations(nodes, n)), dtype=float), S.words(np.array(fv[:3], dtype=float), n)[::5])
            judge(ctx, u, X, P, F, t, ("contig", "strided"), f"{t}, several tables of {n} nodes")
            for v in (X[0], X[-1], 1.0):
                for f in F[:3]:
                    Q = P[: len(F)]
                    ex, tol, hit = ref(np.full(len(Q), v), Q, np.tile(f, (len(Q), 1)))
                    g = ctx.call(u.linear_interp1d, np.dtype(t).type(v), Q.astype(t), f.astype(t))
                    ctx.count(len(Q), int((~np.isnan(ex) & ~hit).sum()))
                    if not M.m_tol(8 * M.eps(t) * tol)(g, ex).all():
                        b = int(np.argmin(M.m_tol(8 * M.eps(t) * tol)(g, ex)))
                        ctx.violation(f"linear_interp1d {t}: wrong result for one x, one fp and several xp", f=u.linear_interp1d, args=(v, Q, f), got=g[b], exp=ex[b])
                        return
        ctx.sample(f"{t}: all node sets of {nodes} up to size {n}, values over {fv}, x at, next to and between the nodes")
    elif kind == "real":
        real(ctx, u, shard[1])
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            xp = np.cumsum(np.arange(n) % 3 + 1).astype(float)
            fp = np.stack([S.pseudo(n, "d"), S.pseudo(n, "d", 1)])
            q = xp[S.positions(n)]
            xs = np.unique(np.concatenate([q, q - 0.25, q + 0.5, [np.nan]]))
            for f in fp:
                judge(ctx, u, xs, np.tile(xp, (len(xs), 1)), np.tile(f, (len(xs), 1)), t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if n < 20 or n % 16 == 0:
                if not bcast(ctx, u, xs, xp, fp, t, f"{t} n={n}"):
                    return
            if ctx.full:
                return
    else:
        # infinite end nodes are ordinary nodes when hit exactly
        for t in "fd":
            xp = np.array([-np.inf, 0, np.inf], dtype=t)
            fp = np.array([1, 2, 3], dtype=t)
            g = ctx.call(u.linear_interp1d, xp, xp, fp)
            ctx.count(3)
            if g.tolist() != [1, 2, 3]:
                ctx.violation("linear_interp1d at the nodes", f=u.linear_interp1d, args=(xp, xp, fp), got=g)
            # values between the nodes stay between the values at the nodes (up to rounding)
            b = np.finfo(t).max / 4
            for v in ((b, -b), (b, b), (-b, b)):
                for x in (0.25, 0.5, 0.999):
                    g = ctx.call(u.linear_interp1d, np.dtype(t).type(x), np.array([0, 1], dtype=t), np.array(v, dtype=t))
                    ctx.count(1)
                    if not min(v) * (1 + 1e-6 * np.sign(-min(v))) <= g <= max(v) * (1 + 1e-6 * np.sign(max(v))):
                        ctx.violation("linear_interp1d leaves the range of fp", f=u.linear_interp1d, args=(x, [0., 1.], v), got=g)
                        return
        r, e = ctx.attempt(u.linear_interp1d, 1.0, np.ones(3), np.ones(4))
        if not isinstance(e, ValueError):
            ctx.violation("linear_interp1d with xp and fp of different lengths did not raise ValueError", f=u.linear_interp1d, args=(1.0, np.ones(3), np.ones(4)))


def real(ctx, u, t):
    """Nodes and values that use the whole mantissa, any scale: exact at the nodes, between them the line."""
    T, fi = np.dtype(t).type, np.finfo(t)
    B, h, tiny = np.ldexp(T(1), fi.maxexp - 8 - fi.nmant // 2), np.ldexp(T(1), fi.maxexp // 2), np.ldexp(T(1), fi.minexp + 2 * fi.nmant)
    for sx, sf in ((T(1), T(1)), (B, B), (tiny, tiny), (T(1), h), (T(1), 1 / h), (h, T(1)), (1 / h, T(1))):      # no slope overflows or vanishes
        nodes = np.sort((np.append(S.reals(t, 5), [T(7) / T(3), T(-0.1)]) * sx).astype(t))
        fv = (np.append(S.reals(t, 4), T(0)) * sf).astype(t)
        for n in (1, 2, 3, 4):
            f = S.words(fv, n)[:: 1 if n < 3 else 5 if n < 4 else 37]
            for xp in itertools.combinations(nodes.tolist(), n):
                xp = np.array(xp, dtype=t)
                xs = np.concatenate([xp, np.nextafter(xp, T(np.inf)), np.nextafter(xp, T(-np.inf)), xp[:-1] + np.diff(xp) / T(3), xp[:-1] + np.diff(xp) * T(0.9)])
                X, F = np.repeat(xs, len(f)), np.tile(f, (len(xs), 1))
                ex, tol, hit = ref(X, np.tile(xp, (len(X), 1)), F)
                mk = M.m_tol(8 * M.eps(t) * tol)
                S.compare(ctx, u.linear_interp1d, [X, np.tile(xp, (len(X), 1)), F], ex, mk, what=f"linear_interp1d {t} real n={n}", dtypes=[t],
                          lays=("contig",), nontrivial=int((~np.isnan(ex) & ~hit).sum()))
            if ctx.full:
                return
            if not bcast(ctx, u, xs, xp, f[:: max(1, len(f) // 5)], t, f"{t} real n={n}"):
                return
