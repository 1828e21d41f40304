"""C29: cross2, cross3."""

import itertools
from fractions import Fraction

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C29"
LEVEL = "exploration"
RULE = ("one case = one pair of vectors x data type x memory layout; non-trivial = a result with a non-zero component")
ASSUMPTIONS = ["integers whose products fit the loop's type (int32 up to 16 bits and int32, else int64)",
               "floating point values with exact products, or special values compared with IEEE arithmetic; where the products "
               "are not exact the two products and the difference may each be rounded"]
TYPES = list("bBhHiIlfdg")


def shards(tier):
    return [["c2_" + t, t] for t in TYPES] + [["c3_" + t, t] for t in TYPES] + [["real_" + t, t] for t in "fdg"] + [["obj"], ["identities"]]


def d2(a, b, c, d):
    return a * d - b * c


def ref(x, y):
    c = [x[:, i] for i in range(x.shape[1])]
    e = [y[:, i] for i in range(x.shape[1])]
    if len(c) == 2:
        return d2(c[0], c[1], e[0], e[1])
    return np.stack([d2(c[1], c[2], e[1], e[2]), d2(c[2], c[0], e[2], e[0]), d2(c[0], c[1], e[0], e[1])], axis=1)


def obj(rows, n):
    r = np.empty((len(rows), n), dtype=object)
    for i, q in enumerate(rows):
        r[i] = q
    return r


def olay(x, kind):
    if kind == 0:
        return x
    if kind == 2:
        return x[:, ::-1].copy()[:, ::-1]
    b = np.full(tuple(2 * n + 1 for n in x.shape), "gap", dtype=object)
    v = b[1::2, 1::2]
    v[...] = x
    return v


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    np.seterr(all="ignore")
    if kind in ("c2", "c3"):
        t = shard[1]
        dim = int(kind[1])
        f = u.cross2 if dim == 2 else u.cross3
        ot = t if t in "fdg" else "l" if t in "Il" else "i"
        if t in "fdg":
            alpha = [[1, 0, -2.5, 3, 0.125, -7], [1, np.inf, 0, np.nan, -np.inf, -0.0]]
        elif t == "l":
            alpha = [[1, 0, -2, 3, 50, -7], [2**31 - 1, -2**31, 0, 1, 2**30], [2**61 + 1, 1, 2**61 - 3, 0, -(2**60) - 1]]
        else:
            i = np.iinfo(t)
            alpha = [[1, 0, 3, 2, 50, 7], [i.max, i.min, 1, i.max - 1, 0]]
            if t not in "BHI":
                alpha[0][2] = -2
        lim = (6 if dim == 2 else 4) + (dim == 3 and ctx.thorough)
        for a in alpha:
            w = S.words(np.array(a[:lim], dtype=t), dim)
            X, Y = S.product(w, w)
            if t not in "fdg":       # no overflow in the loop's type
                xo, yo = X.astype(object), Y.astype(object)
                top = int(np.iinfo(ot).max)
                r = ref(xo, yo).reshape(len(X), -1)
                keep = (np.abs(r) <= top).all(axis=1)
                keep &= np.abs(xo).max(axis=1) * np.abs(yo).max(axis=1) <= top
                X, Y = X[keep], Y[keep]
            e = ref(X.astype(ot), Y.astype(ot))
            S.compare(ctx, f, [X, Y], e, what=f"{f.__name__} {t}", dtypes=[ot], lays=S.LAYS + ("reversed", "fortran"),
                      nontrivial=int((e.reshape(len(e), -1) != 0).any(axis=1).sum()))
            # operands in different layouts, out= in a third
            for l1, l2 in (("contig", "strided"), ("strided", "contig"), ("reversed", "strided")):
                o = S.lay(np.zeros_like(e), "strided")
                g = ctx.call(f, S.lay(X, l1), S.lay(Y, l2), out=o)
                ctx.count(len(X))
                ok = S.row_mask(S.m_same(g, e), len(X))
                if g is not o or not ok.all():
                    b = int(np.argmin(ok))
                    ctx.violation(f"{f.__name__} {t}: wrong result for operands in different layouts", f=f,
                                  args=(X[b], Y[b]), got=g[b], exp=e[b])
                    return
            ctx.sample(f"{f.__name__} {t}: all pairs of vectors over {[str(q) for q in a[:lim]]}")
        # each product alone: powers of two tell the terms apart
        p = np.array([2.0**k for k in range(dim)]) if t in "fdg" else np.array([2**k for k in range(dim)])
        for i, j in itertools.product(range(dim), repeat=2):
            X = np.zeros((1, dim), dtype=t)
            Y = np.zeros((1, dim), dtype=t)
            X[0, i], Y[0, j] = 3, p[j].astype(t)
            S.compare(ctx, f, [X, Y], ref(X.astype(ot), Y.astype(ot)), what=f"{f.__name__} {t} unit vectors", dtypes=[ot])
    elif kind == "real":
        real(ctx, u, shard[1])
    elif kind == "obj":
        vals = [1, Fraction(-1, 3), 2**70, True]
        for dim, f in ((2, u.cross2), (3, u.cross3)):
            ws = list(itertools.product(vals, repeat=dim)) if dim == 2 else list(itertools.product(vals[:3], repeat=3))
            for a, b in itertools.product(ws, repeat=2):
                x, y = np.empty(dim, dtype=object), np.empty(dim, dtype=object)
                x[:], y[:] = a, b
                g = ctx.call(f, x, y)
                e = [d2(a[0], a[1], b[0], b[1])] if dim == 2 else \
                    [d2(a[1], a[2], b[1], b[2]), d2(a[2], a[0], b[2], b[0]), d2(a[0], a[1], b[0], b[1])]
                ctx.count(1, 1 if any(e) else 0)
                if (g.tolist() if dim == 3 else [g]) != e:
                    ctx.violation(f"{f.__name__} object: wrong result", f=f, args=(x, y), got=g, exp=e)
                    return
            # all of them as one batch: contiguous, strided with strings in the gaps, reversed, into a strided output
            pairs = list(itertools.product(ws, repeat=2))
            A, B = (obj([q[i] for q in pairs], dim) for i in (0, 1))
            E = obj([[d2(a[0], a[1], b[0], b[1])] if dim == 2 else
                     [d2(a[1], a[2], b[1], b[2]), d2(a[2], a[0], b[2], b[0]), d2(a[0], a[1], b[0], b[1])] for a, b in pairs], dim if dim == 3 else 1)
            E = E if dim == 3 else E[:, 0]
            for l1, l2, l3 in itertools.product(range(3), range(3), range(2)):
                x, y = olay(A, l1), olay(B, l2)
                o, w = None, None
                if l3:
                    w = np.full(tuple(2 * n + 1 for n in E.shape), "gap", dtype=object)
                    o = w[(slice(1, None, 2),) * E.ndim]
                g = ctx.call(f, x, y, **({} if o is None else {"out": o}))
                ctx.count(len(pairs))
                ok = S.row_mask(S.m_same(g, E), len(pairs))
                if not ok.all():
                    i = int(np.argmin(ok))
                    ctx.violation(f"{f.__name__} object: wrong result (layouts {l1}, {l2}, out {l3})", f=f, args=(x[i], y[i]), got=g[i], exp=E[i])
                    return
                if w is not None and sum(type(q) is str for q in w.ravel()) != w.size - E.size:
                    ctx.violation(f"{f.__name__} object: written outside the output", f=f, args=(x, y))
                    return
            z = np.array(["a"] * dim, dtype=object)
            r, e = ctx.attempt(f, z, z)
            if not isinstance(e, TypeError):
                ctx.violation(f"{f.__name__} of strings did not raise TypeError", f=f, args=(z, z), got=r)
    else:
        # a core dimension other than 2 or 3 is an error
        for dim, f in ((2, u.cross2), (3, u.cross3)):
            for n, m in itertools.product(range(0, 6), repeat=2):
                r, e = ctx.attempt(f, np.ones((2, n)), np.ones((2, m)))
                ctx.count(1)
                if (e is None) != (n == m == dim) or (e is not None and not isinstance(e, ValueError)):
                    ctx.violation(f"{f.__name__} with core dimensions {n} and {m}: {type(e).__name__}", f=f,
                                  args=(np.ones((2, n)), np.ones((2, m))), got=r)


def real(ctx, u, t):
    """The whole mantissa, any scale, nearly equal products: exact integers."""
    T, fi = np.dtype(t).type, np.finfo(t)
    near = [np.sqrt(T(2))]
    for _ in range(2):
        near.append(np.nextafter(near[-1], T(2)))
    for scale in (T(1), np.ldexp(T(1), fi.maxexp // 2 - 4 - fi.nmant // 2), np.ldexp(T(1), fi.minexp // 2 + fi.nmant)):
        for a in (S.reals(t, 5), np.append(np.array(near, dtype=t), T(0))):
            a = (a * scale).astype(t)
            k, e = M.ints(a)
            for dim, f in ((2, u.cross2), (3, u.cross3)):
                w = S.words(np.arange(len(a))[:5 if dim == 2 else 4 if ctx.thorough else 3], dim)
                X, Y = S.product(w, w)
                ex = ref(k[X], k[Y])
                size = np.stack([abs(p * q) + abs(r * v) for p, q, r, v in terms(k[X], k[Y])], axis=1)
                if dim == 2:
                    size = size[:, 0]
                den = 1 << (2 * e)
                S.compare(ctx, f, [a[X], a[Y]], M.ratio(ex, den), M.m_tol(2 * M.eps(t) * M.ratio(size, den)), what=f"{f.__name__} {t} real",
                          dtypes=[t], lays=S.LAYS + ("reversed", "fortran"), nontrivial=int((ex.reshape(len(ex), -1) != 0).any(axis=1).sum()))
            if ctx.full:
                return
    ctx.sample(f"{t}: all pairs of vectors over {a.tolist()}, exact determinants")


def terms(x, y):
    c = [x[:, i] for i in range(x.shape[1])]
    e = [y[:, i] for i in range(x.shape[1])]
    ij = ((0, 1),) if len(c) == 2 else ((1, 2), (2, 0), (0, 1))
    return [(c[i], e[j], c[j], e[i]) for i, j in ij]
