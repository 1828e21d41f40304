"""C19: vnorm, rms, vdot."""

from fractions import Fraction

import numpy as np

from mc import mp as M
from mc import huge as H
from mc import seq as S

PROP = "C19"
LEVEL = "exploration"
RULE = ("one case = one vector (pair) x order x data type x memory layout; non-trivial = a non-zero result that is not "
        "one element")
ASSUMPTIONS = ["rms and vdot are not promised to avoid overflow", "vnorm of nan order is not judged"]
ORD = [1.0, 2.0, np.inf, 3.0, 0.5, 1.5, 10.0, 4.0]
CPLX = dict(F="f", D="d", G="g")


def shards(tier):
    return ([[f"vnorm_{t}", t] for t in "fdgFDG"] + [[f"rms_{t}", t] for t in "fdgFDG"] + [[f"vdot_{t}", t] for t in "fdg"] +
            [[f"real_{t}", t] for t in "fdgFDG"] + [[f"long_{t}", t] for t in "fdgFDG"] + [[f"near_{t}", t] for t in "fdgFDG"] + [["misc"], ["huge"]])


def absld(x):
    x = x.astype(np.clongdouble) if x.dtype.kind == "c" else x.astype(M.LD)
    return np.abs(x)


def norm_ref(a, p):
    """a: magnitudes (long double).  nan first, then inf."""
    n = a.shape[1]
    nan, inf = np.isnan(a).any(axis=1), np.isinf(a).any(axis=1)
    b = np.where(np.isfinite(a), a, 0)
    if n == 0:
        return np.zeros(len(a), dtype=M.LD)
    mx = b.max(axis=1)
    sc = np.where(mx > 0, mx, M.LD(1))
    if np.isinf(p):
        r = mx
    else:
        r = sc * (((b / sc[:, None]) ** M.LD(p)).sum(axis=1)) ** (1 / M.LD(p))
    return np.where(nan, np.nan, np.where(inf, np.inf, r))


def tol_norm(exp, p, n, t):
    q = 1.0 if np.isinf(p) else 1 + 1 / p
    return np.where(np.isfinite(exp), exp, 0) * M.eps(t) * (8 * (n + 3) * q + (p if np.isfinite(p) else 0))


def alpha(t, wide=False):
    r = CPLX.get(t, t)
    big, tiny = {"f": (1e37, 1e-37), "d": (1e300, 1e-300), "g": (M.LD("1e4900"), M.LD("1e-4900"))}[r]
    if t in CPLX:
        v = [1, -3 + 4j, 0, 2.5j, complex(np.inf, 1), complex(0, np.nan), complex(np.nan, np.inf)]
        a = np.array(v, dtype=t)
        w = np.array([0, 0, 0, 1, 1], dtype=t)
        w[0] = big
        w[1] = tiny * np.dtype(r).type(3)
        w.imag[1] = tiny * np.dtype(r).type(4)
        w.imag[2] = -big
    else:
        a = np.array([1, -3, 0, 2.5, np.inf, np.nan, -np.inf], dtype=t)
        w = np.array([big, -tiny, 0, 1, -big], dtype=t)
    return w if wide else a


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "misc":
        return misc(ctx, u)
    if kind == "huge":
        for t in "dg":
            x, c = H.row(t)
            s1, s2, s3 = (sum(v ** k * m for v, m in c) for k in (1, 2, 3))
            rt = lambda q, p: float(np.longdouble(float(q)) ** (np.longdouble(1) / p))
            for f, a, e in ((u.vnorm, (x, 1.0), s1), (u.vnorm, (x, 2.0), rt(s2, 2)), (u.vnorm, (x, 3.0), rt(s3, 3)), (u.vnorm, (x, np.inf), 100), (u.rms, (x,), rt(Fraction(s2) / H.N, 2)),
                            (u.vdot, (x, x), s2), (u.vdot, (x, np.ones_like(x)), s1)):
                if not H.check(ctx, f, a, e, 1e-9, f"{f.__name__} {t}"):
                    return
        return
    t = shard[1]
    r = CPLX.get(t, t)
    if kind == "vnorm":
        for wide in (False, True):
            a = alpha(t, wide)
            for L in range(0, 7 if ctx.thorough else 6):
                if L > 4 and len(a) > 5 and not ctx.thorough:
                    break
                w = S.words(a, L)
                for p in ORD + [0.0, -1.0, -np.inf]:
                    if p <= 0:
                        ex = np.full(len(w), np.nan, dtype=M.LD)
                        tol = np.zeros(len(w))
                    else:
                        ex = norm_ref(absld(w), p)
                        tol = tol_norm(ex, p, L, r)
                    S.compare(ctx, u.vnorm, [w, np.full(len(w), p, dtype=r)], ex, M.m_tol(tol), what=f"vnorm {t} order={p} L={L}",
                              dtypes=[r], nontrivial=len(w) if L > 1 else 0)
            ctx.sample(f"vnorm {t}: all vectors over {a.tolist()} up to length {L}, orders {ORD} and <= 0")
    elif kind == "real":
        real(ctx, u, t, r)
    elif kind == "near":
        near(ctx, u, t, r)
    elif kind == "rms":
        a = alpha(t)
        for L in range(1, 7 if ctx.thorough else 6):
            w = S.words(a, L)
            rms(ctx, u, w, t, r, S.LAYS, f"L={L}")
    elif kind == "vdot":
        a = np.array([1, -3, 0, 2.5, 0.125, 7], dtype=t)
        for L in range(0, 4 if ctx.thorough else 4):
            x = S.words(a if L < 3 or ctx.thorough else a[:5], L)
            X, Y = S.product(x, x)
            S.compare(ctx, u.vdot, [X, Y], (X * Y).sum(axis=1), S.m_rel(0), what=f"vdot {t} L={L}", dtypes=[t],
                      nontrivial=len(X) if L > 1 else 0)
            for l in S.LAYS + ("reversed",):       # one array twice
                v = S.lay(x, l)
                g = ctx.call(u.vdot, v, v)
                ctx.count(len(x), len(x) if L > 1 else 0)
                if not np.array_equal(g, (x * x).sum(axis=1)):
                    b = int(np.argmax(g != (x * x).sum(axis=1)))
                    ctx.violation(f"vdot {t} L={L} ({l}): wrong result for one array given twice", f=u.vdot, args=(v[b], v[b]), got=g[b], exp=(x[b] * x[b]).sum())
                    return
        b = np.array([1, np.inf, -np.inf, np.nan, 0, -2], dtype=t)
        for L in (1, 2):
            x = S.words(b, L)
            X, Y = S.product(x, x)
            ex = X[:, 0] * Y[:, 0]
            for k in range(1, L):
                ex = ex + X[:, k] * Y[:, k]
            S.compare(ctx, u.vdot, [X, Y], ex, what=f"vdot {t} special L={L}", dtypes=[t])
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            ps = S.positions(n)
            N = len(ps)
            y = np.tile(S.pseudo(n, t, 1) / 4, (N, 1)).astype(t)
            x = np.zeros((N, n), dtype=t)       # each position alone
            x[np.arange(N), ps] = np.array(ps) + 1
            x2 = np.tile(S.pseudo(n, t) / 8, (N, 1)).astype(t)
            x2[np.arange(N), ps] = 100
            for q in (x, x2):
                S.compare(ctx, u.vdot, [q, y], (q * y).sum(axis=1), S.m_rel(0), what=f"vdot {t} n={n}", dtypes=[t],
                          lays=("contig", "strided", "reversed"))
                for mix in ((q, S.lay(y, "strided")), (S.lay(q, "strided"), y), (S.lay(q, "reversed"), y)):
                    g = ctx.call(u.vdot, *mix)
                    ctx.count(N)
                    if not np.array_equal(g, (q * y).sum(axis=1)):
                        ctx.violation(f"vdot {t} n={n}: wrong result for operands of different layouts", f=u.vdot,
                                      args=(mix[0][0], mix[1][0]))
                        return
    else:
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            c = t in CPLX
            base = (S.pseudo(n, r) / 8).astype(t)
            if c:
                base = (base + 1j * (S.pseudo(n, r, 1) / 4).astype(t)).astype(t)
            x = S.spots(base, [100, np.inf, np.nan, 0])[:: S.step(n, 16) * 4 + 1]
            ones = S.spots(np.zeros(n, dtype=t), [2.5])      # each position alone
            for q in (x, ones):
                for p in (1.0, 2.0, np.inf, 3.0):
                    ex = norm_ref(absld(q), p)
                    S.compare(ctx, u.vnorm, [q, np.full(len(q), p, dtype=r)], ex, M.m_tol(tol_norm(ex, p, n, r)),
                              what=f"vnorm {t} order={p} n={n}", dtypes=[r], lays=("contig", "strided", "reversed"))
                rms(ctx, u, q, t, r, ("contig", "strided", "reversed"), f"n={n}")
            if ctx.full:
                return


def real(ctx, u, t, r):
    """Magnitudes that use the whole mantissa, of every ratio to the largest that can matter."""
    R = np.dtype(r).type
    fi = np.finfo(r)
    lad = [R(1)] + [np.ldexp(np.sqrt(R(3 + k % 5)), -k) for k in range(0, fi.nmant + 4, 2 if ctx.thorough else 4)]
    lad = np.array(lad + [0], dtype=r)
    turn = np.array([(-1) ** k for k in range(len(lad))], dtype=r)
    a = lad * turn
    if t in CPLX:
        c = np.sqrt(R(2)) * turn / 2
        a = (a * (c + 1j * np.sqrt(R(2)) / 2)).astype(t)
    for scale in (R(1), np.ldexp(R(1), fi.maxexp - 8), np.ldexp(R(1), fi.minexp // 2)):
        for L in (1, 2, 3):
            x = S.words(a, L) * scale
            for p in ORD + [1.25, 2.5, 7.0]:
                ex = norm_ref(absld(x), p)
                S.compare(ctx, u.vnorm, [x, np.full(len(x), p, dtype=r)], ex, M.m_tol(tol_norm(ex, p, L, r)),
                          what=f"vnorm {t} real order={p} L={L}", dtypes=[r], nontrivial=len(x) if L > 1 else 0)
            if scale == 1:
                rms(ctx, u, x, t, r, S.LAYS, f"real L={L}")
                if t in "fdg":
                    y = a[(np.arange(len(x))[:, None] * 3 + np.arange(L) * 5) % len(a)]
                    P = x.astype(M.LD) * y
                    S.compare(ctx, u.vdot, [x, y], P.sum(axis=1), M.m_tol(np.abs(P).sum(axis=1) * fi.eps * (L + 1)), what=f"vdot {t} real L={L}", dtypes=[t])
    # other scales, without overflow or underflow of a square
    for k in (fi.minexp // 4, fi.minexp // 8, -fi.nmant - 2, 8, fi.nmant + 2, fi.maxexp // 4, fi.maxexp // 2 - 4):
        s = np.ldexp(R(1), int(k))
        for L in (1, 2):
            x = S.words(a, L)
            y = a[(np.arange(len(x))[:, None] * 3 + np.arange(L) * 5) % len(a)]
            rms(ctx, u, x * s, t, r, S.LAYS, f"scale 2**{k} L={L}")
            if t in "fdg":
                P = (x * s).astype(M.LD) * y
                S.compare(ctx, u.vdot, [x * s, y], P.sum(axis=1), M.m_tol(np.abs(P).sum(axis=1) * fi.eps * (L + 1)), what=f"vdot {t} scale 2**{k} L={L}", dtypes=[t])
                S.compare(ctx, u.vdot, [y, x * s], P.sum(axis=1), M.m_tol(np.abs(P).sum(axis=1) * fi.eps * (L + 1)), what=f"vdot {t} scale 2**{k} L={L}", dtypes=[t])
    for n in S.sizes(ctx.thorough, 70001)[2:]:      # many small elements and a large one
        x = np.repeat(a[:, None], n, axis=1)
        x[:, n // 3] = a[0]
        for p in (2.0, 1.0, 3.0, 1.5):
            ex = norm_ref(absld(x), p)
            S.compare(ctx, u.vnorm, [x, np.full(len(x), p, dtype=r)], ex, M.m_tol(tol_norm(ex, p, n, r)), what=f"vnorm {t} real order={p} n={n}", dtypes=[r])
        rms(ctx, u, x, t, r, S.LAYS, f"real n={n}")
        if ctx.full:
            return


def rms(ctx, u, w, t, r, lays, what):
    L = w.shape[1]
    if w.dtype.kind == "c":
        re, im = w.real.astype(M.LD), w.imag.astype(M.LD)
        s = re * re + im * im
    else:
        s = w.astype(M.LD) ** 2
    ex = np.sqrt(s.sum(axis=1) / L)
    S.compare(ctx, u.rms, [w], ex, S.m_rel(4 + 2 * L), what=f"rms {t} {what}", dtypes=[r], lays=lays,
              nontrivial=len(w) if L > 1 else 0)


def misc(ctx, u):
    for t in "fdgFDG":
        z = np.empty((2, 0), dtype=t)
        r, e = ctx.attempt(u.rms, z)
        ctx.count(1)
        if not isinstance(e, ValueError):
            ctx.violation("rms of an empty array did not raise ValueError", f=u.rms, args=(z,), got=r)
    # the whole exponent range: scaling by a power of two scales the norm exactly as much
    for t in "fdgFDG":
        r = CPLX.get(t, t)
        fi = np.finfo(r)
        x = np.array([3, 4, 0, 12], dtype=t)
        for e in range(int(fi.minexp) - fi.nmant + 1, int(fi.maxexp) - 4, 1 if r == "f" else 7 if r == "d" else 97):
            s = np.ldexp(np.dtype(r).type(1), e)
            for p, ex in ((2.0, 13), (1.0, 19), (np.inf, 12)):
                g = ctx.call(u.vnorm, x * s, np.dtype(r).type(p))
                ctx.count(1)
                if abs(g / s - ex) > 64 * fi.eps * ex:
                    ctx.violation(f"vnorm {t}: not scaled by 2**{e}", f=u.vnorm, args=(x * s, p), got=g, exp=s * ex)
                    return


def near(ctx, u, t, r):
    """Orders of every magnitude, and next to the ones that are often treated specially."""
    R = np.dtype(r).type
    ps = S.beside(r, (1, 2, 0.5, 3, 4)) + [S.num(r, v) for v in (0.3, 0.1, 0.05, 0.02, 1e-2, 1e-3, 2e-4, 30, 100.5, 301, 1e3, 1e4, 1e5 + 1, 1e6, 1e7, 2e8, 1e10, 1e30)]
    v = np.array([1, -3, 2.5, 0, 1.25], dtype=r)
    v = np.concatenate([v, np.sqrt(R(2)) * np.array([1, -3], dtype=r), np.nextafter(v[:1], R(0)) * 3]).astype(t)
    if t in CPLX:
        v = (v * (1 + 2j) / np.sqrt(R(5))).astype(t)
    fi = np.finfo(r)
    for L in (1, 2, 3):
        w = S.words(v, L)
        for p in ps:
            ex = norm_ref(absld(w), p)
            tol = tol_norm(ex, M.LD(p), L, r)
            # far from the overflow of a small order
            ok = ex < M.LD(fi.max) / 16
            if ok.any() and p * M.eps(r) < 1e-2:
                S.compare(ctx, u.vnorm, [w[ok], np.full(int(ok.sum()), p, dtype=r)], ex[ok], M.m_tol(tol[ok]), what=f"vnorm {t} order={p} L={L}", dtypes=[r],
                          lays=("contig", "strided"), nontrivial=int(ok.sum()) if L > 1 else 0)
            elif ok.any():
                # beyond the precision of the order: the maximum, to a few eps times what n can contribute
                e = absld(w).max(axis=1)
                S.compare(ctx, u.vnorm, [w, np.full(len(w), p, dtype=r)], e, M.m_tol(16 * M.eps(r) * e + 4 * e * L / M.LD(p)), what=f"vnorm {t} order={p} L={L}", dtypes=[r],
                          lays=("contig",))
    ctx.sample(f"{len(ps)} orders of type {r}: {[str(p) for p in ps[:8]]} ...")
