"""C30: tri_area, tri_area_indexed."""

import itertools

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C30"
LEVEL = "exploration"
RULE = ("one case = one triple of points x data type x memory layout (or one index triple), against the exact Gram "
        "determinant; non-trivial = a triangle of positive area")
ASSUMPTIONS = ["|A**2 - exact| <= C*eps*(longest side)**4, so that a degenerate triangle has an area "
               "of at most about sqrt(eps) times its squared size and never nan"]


def shards(tier):
    return [[f"grid_{t}_{n}", t, n] for t in S.FLOATS for n in (1, 2, 3, 4)] + [["index_" + t, t] for t in S.FLOATS] + \
        [["long_" + t, t] for t in S.FLOATS] + [["real_" + t, t] for t in S.FLOATS] + [["flat_" + t, t] for t in S.FLOATS] + [["misc"]]


def ref(p):
    """(B, 3, n) integers -> 16 A**2, a**4 (exact)."""
    p = p.astype(np.int64)
    a, b, c = [((p[:, i] - p[:, j]) ** 2).sum(axis=1) for i, j in ((0, 1), (0, 2), (1, 2))]
    s16 = 2 * (a * b + b * c + a * c) - (a * a + b * b + c * c)
    return s16, np.maximum(np.maximum(a, b), c) ** 2


def masker(s16, a4, t, scale=1):
    ex = s16.astype(M.LD)
    tol = 256 * M.eps(t) * a4.astype(M.LD)

    def mask(g, e):
        q = g.astype(M.LD) / scale / scale
        return (q >= 0) & (np.abs(16 * q * q - ex) <= tol)
    return mask


def judge(ctx, u, p, t, lays, what, scale=1.0):
    s16, a4 = ref(p)
    x = (p * scale).astype(t)
    e = np.sqrt(s16.astype(M.LD)) / 4
    S.compare(ctx, u.tri_area, [x], e, masker(s16, a4, t, M.LD(scale)), what="tri_area " + what, dtypes=[t], lays=lays,
              nontrivial=int((s16 > 0).sum()))


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "grid":
        t, n = shard[1:]
        k = {1: range(-4, 5), 2: (0, 1, 2, -3), 3: (0, 1, 3), 4: (0, 2)}[n]
        if n == 3 and not ctx.thorough:
            w = S.words(np.array(k[:2]), 9)
            w = np.concatenate([w, w * 3 - S.words(np.array(k[:2]), 9)[::-1]])
        else:
            w = S.words(np.array(k), 3 * n)
        p = w.reshape(-1, 3, n)
        judge(ctx, u, p, t, S.LAYS + ("reversed", "fortran"), f"{t} n={n}")
        for s in (0.25, 1024.0):
            judge(ctx, u, p[:: 7], t, ("contig",), f"{t} n={n} scaled", s)
        ctx.sample(f"{t}: all triples of points over {list(k)}**{n}")
    elif kind == "index":
        t = shard[1]
        for n in (1, 2, 3):
            for m in range(0, 6):
                pts = (np.arange(m * n).reshape(m, n) ** 2 * 3 % 17 + np.arange(n))
                idx = np.array(list(itertools.product(list(range(-m - 2, m + 2)) + [2**40, -2**40, 2**63 - 1, -2**63], repeat=3)))
                ok = ((idx >= -m) & (idx < m)).all(axis=1)
                e = np.full(len(idx), np.nan, dtype=M.LD)
                s16 = np.zeros(len(idx), dtype=np.int64)
                a4 = np.ones(len(idx), dtype=np.int64)
                if ok.any():
                    s16[ok], a4[ok] = ref(pts[idx[ok]])
                mk = masker(s16, a4, t)

                def mask(g, ex, mk=mk, ok=ok):
                    return np.where(ok, mk(g, ex), np.isnan(g))
                P = np.tile(pts[None], (len(idx), 1, 1)).astype(t)
                S.compare(ctx, u.tri_area_indexed, [P, idx], e, mask, what=f"tri_area_indexed {t} m={m} n={n}", dtypes=[t],
                          lays=S.LAYS + ("reversed",), nontrivial=int(((s16 > 0) & ok).sum()))
                # one set of points, broadcast
                g = ctx.call(u.tri_area_indexed, pts.astype(t), idx)
                ctx.count(len(idx))
                if not mask(g, e).all():
                    b = int(np.argmin(mask(g, e)))
                    ctx.violation(f"tri_area_indexed {t}: wrong result", f=u.tri_area_indexed, args=(pts.astype(t), idx[b]), got=g[b])
                    return
        ctx.sample(f"{t}: all index triples in and around the range for 0-5 points in 1-3 dimensions")
    elif kind == "flat":
        flat(ctx, u, shard[1])
    elif kind == "real":
        real(ctx, u, shard[1])
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            # each coordinate alone makes a side
            rows = []
            for i in range(0, n, max(1, n // 16)):
                for j in sorted({(i + 1) % n, n - 1}):
                    p = np.tile(S.pseudo(n, "l"), (3, 1))
                    p[1, i] += 3
                    p[2, j] += 4
                    rows.append(p)
            judge(ctx, u, np.array(rows), t, ("contig", "strided", "reversed"), f"{t} n={n}")
            if ctx.full:
                return
        for m in (10, 50, 300):
            pts = np.stack([S.pseudo(m, "l"), S.pseudo(m, "l", 1)], axis=1)
            i = np.array([[a, b, c] for a in range(0, m, max(1, m // 12)) for b in (0, m - 1, -1, -m, m) for c in (1, m // 2, -2)])
            ok = ((i >= -m) & (i < m)).all(axis=1)
            s16, a4 = ref(pts[np.where(ok[:, None], i, 0)])
            g = ctx.call(u.tri_area_indexed, S.lay(pts.astype(t), "strided"), i)
            ctx.count(len(i), int(ok.sum()))
            good = np.where(ok, masker(s16, a4, t)(g, g), np.isnan(g))
            if not good.all():
                b = int(np.argmin(good))
                ctx.violation(f"tri_area_indexed {t} m={m}", f=u.tri_area_indexed, args=(pts.astype(t), i[b]), got=g[b])
                return
    else:
        # needles: exact for right triangles whatever their aspect ratio
        for t in S.FLOATS:
            for ea in range(-10, 11):
                for eb in range(0, 20, 3):
                    a, b = 3.0 * 2.0 ** ea, 4.0 * 2.0 ** (ea - eb)
                    for perm in itertools.permutations(range(3)):
                        p = np.array([[0, 0], [a, 0], [0, b]])[list(perm)].astype(t)
                        g = ctx.call(u.tri_area, p)
                        ctx.count(1, 1)
                        # relative to the needle: Kahan's formula is accurate given the sides
                        tol = 16 * np.finfo(t).eps * (a * b / 2) * (1 + (a / b) ** 2 + (b / a) ** 2)
                        if not abs(g - a * b / 2) <= tol:
                            ctx.violation(f"tri_area {t} of a needle", f=u.tri_area, args=(p,), got=g, exp=a * b / 2)
                            return
            for bad in (np.nan, np.inf):
                for i in range(6):
                    p = np.array([0, 0, 1, 0, 0, 1], dtype=t)
                    p[i] = bad
                    g = ctx.call(u.tri_area, p.reshape(3, 2))
                    ctx.count(1)
                    if np.isfinite(g):
                        ctx.violation(f"tri_area {t}: finite although a coordinate is {bad}", f=u.tri_area, args=(p.reshape(3, 2),), got=g)
                        return
        for m in (0, 1, 2, 4):
            r, e = ctx.attempt(u.tri_area, np.ones((m, 2)))
            ctx.count(1)
            if not isinstance(e, ValueError):
                ctx.violation(f"tri_area of {m} points did not raise ValueError", f=u.tri_area, args=(np.ones((m, 2)),), got=r)


def flat(ctx, u, t):
    """Nearly degenerate triangles: integer points, one coordinate multiplied by a power of two."""
    base = S.words(np.array([0, 1, -2, 3]), 6).reshape(-1, 3, 2)
    for k in range(2, np.finfo(t).nmant - 2, 3):
        q = base.astype(object)
        q[:, :, 0] = q[:, :, 0] * 2 ** k
        g0, g1 = q[:, 1] - q[:, 0], q[:, 2] - q[:, 0]
        aa, bb, ab = (g0 * g0).sum(axis=1), (g1 * g1).sum(axis=1), (g0 * g1).sum(axis=1)
        cc = ((g1 - g0) ** 2).sum(axis=1)
        s16 = 4 * (aa * bb - ab * ab)
        a4 = np.maximum(np.maximum(aa, bb), cc) ** 2
        den = 2 ** (4 * k)
        for s in (0, -k, 8):
            x = np.ldexp(q.astype(t), s).astype(t)
            r = np.ldexp(np.dtype(t).type(1), s + k)
            ex = M.ratio(s16, den)
            S.compare(ctx, u.tri_area, [x], np.sqrt(ex) / 4, masker(ex, M.ratio(a4, den), t, M.LD(r)), what=f"tri_area {t} flat k={k}", dtypes=[t],
                      lays=S.LAYS, nontrivial=int((s16 > 0).sum()))
            if ctx.full:
                return


def real(ctx, u, t):
    """Coordinates that use the whole mantissa, any scale: the Gram determinant in integers."""
    T, fi = np.dtype(t).type, np.finfo(t)
    for scale in (T(1), np.ldexp(T(1), fi.maxexp // 4 - fi.nmant // 2 - 8), np.ldexp(T(1), fi.minexp // 4 + fi.nmant)):
        for a in (S.reals(t, 5), np.array([1, -2, 4, 5], dtype=t) / T(3), np.array([T(100) + T(k) / T(7) for k in (0, 1, 2, 3)])):
            a = (a * scale).astype(t)
            k, e = M.ints(a)
            for n in (1, 2, 3):
                m = len(a) if n == 1 else 4 if n == 2 else 2
                w = S.words(np.arange(m), 3 * n)
                w = w if n < 3 else np.concatenate([w, (w + np.arange(9) // 2) % len(a)])
                w = w.reshape(-1, 3, n)
                q = k[w]
                g0, g1 = q[:, 1] - q[:, 0], q[:, 2] - q[:, 0]
                aa, bb, ab = (g0 * g0).sum(axis=1), (g1 * g1).sum(axis=1), (g0 * g1).sum(axis=1)
                cc = ((g1 - g0) ** 2).sum(axis=1)
                s16 = 4 * (aa * bb - ab * ab)                      # 16 A**2
                a4 = np.maximum(np.maximum(aa, bb), cc) ** 2
                den = 1 << (4 * e)
                with np.errstate(all="ignore"):
                    mk = masker(M.ratio(s16, den), M.ratio(a4, den), t)
                S.compare(ctx, u.tri_area, [a[w]], np.sqrt(M.ratio(s16, den)) / 4, mk, what=f"tri_area {t} real n={n}", dtypes=[t],
                          lays=S.LAYS + ("reversed", "fortran"), nontrivial=int((s16 > 0).sum()))
                idx = np.tile(np.array([0, 1, 2]), (len(w), 1))
                S.compare(ctx, u.tri_area_indexed, [a[w], idx], np.sqrt(M.ratio(s16, den)) / 4, mk, what=f"tri_area_indexed {t} real n={n}", dtypes=[t])
            if ctx.full:
                return
