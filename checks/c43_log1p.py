"""C43: log1p_doubledouble, log1p_theorem4 (complex)."""

import mpmath as mm
import numpy as np

from mc import mp as M
from mc import seq as S
from mc import special as Z

PROP = "C43"
LEVEL = "exploration"
RULE = ("one case = one complex number x data type x memory layout, against multiprecision arithmetic; non-trivial = both parts "
        "non-zero")
ASSUMPTIONS = ["error bounds: see the statement", "finite arguments whose modulus does not over- or underflow"]
LD = np.longdouble


def shards(tier):
    n = 8 if tier == "thorough" else 3
    return [[f"{k}_{t}_{c}", t, c, n] for k in ("grid", "circle", "spec") for t in "FD" for c in range(n if k != "spec" else 1)]


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind, t, c, n = shard[0].split("_")[0], shard[1], shard[2], shard[3]
    r = t.lower()
    ty = np.dtype(r).type
    T = ctx.thorough
    fs = (u.log1p_doubledouble, u.log1p_theorem4)
    if kind == "spec":
        nan = ty(np.nan)
        v = np.array([0, 1, -2.5, -1, np.inf, -np.inf, nan], dtype=r)
        a, b = S.product(v, v)
        z = np.empty(len(a), dtype=t)
        z.real, z.imag = a, b
        isn = np.isnan(a) | np.isnan(b)
        for f in fs:
            for l in ("contig", "strided", "reversed"):
                w = ctx.call(f, S.lay(z, l))
                ctx.count(len(z), int(isn.sum()))
                bad = isn & ~(np.isnan(w.real) & np.isnan(w.imag))
                if bad.any() or w.dtype != np.dtype(t):
                    i = int(np.argmax(bad))
                    ctx.violation(f"{f.__name__}: a nan in either part must give nan in both", f=f, args=(z[i],), got=w[i])
        # infinities: the real part is inf, the imaginary part the angle
        w = ctx.call(u.log1p_doubledouble, z)
        for i in range(len(z)):
            if isn[i] or not (np.isinf(a[i]) or np.isinf(b[i])):
                continue
            e = np.arctan2(b[i], a[i] + 1)
            ctx.count(1)
            if w[i].real != np.inf or abs(w[i].imag - e) > 4 * np.finfo(r).eps * 4:
                ctx.violation("log1p_doubledouble: infinity", f=u.log1p_doubledouble, args=(z[i],), got=w[i], exp=complex(np.inf, e))
        # the conjugate has the conjugate logarithm, also where only the sign of a zero tells them apart
        v = Z.uniq(Z.lin(r, -3, 2, 41), Z.binades(r, -20, 20, mant=(1.0, 1.37), step=4), Z.around(r, [-2, -1, 0], 1))
        y0 = np.array([0.0, 1e-30, 0.25, 1, 1e10], dtype=r)
        a2, b2 = S.product(v, y0)
        q = np.empty(len(a2), dtype=t)
        q.real, q.imag = a2, b2
        w, wc = ctx.call(u.log1p_doubledouble, q), ctx.call(u.log1p_doubledouble, np.conj(q))
        ctx.count(2 * len(q), len(q))
        bad = ~((w.real == wc.real) & (w.imag == -wc.imag) & (np.signbit(w.imag) != np.signbit(wc.imag)) & ~np.signbit(w.imag))
        if bad.any():
            i = int(np.argmax(bad))
            ctx.violation("log1p_doubledouble: not symmetric", f=u.log1p_doubledouble, args=(np.conj(q)[i],), got=wc[i], exp=np.conj(w[i]))
        for f in fs:
            w = ctx.call(f, np.zeros(3, dtype=t))
            ctx.count(3)
            if (w != 0).any():
                ctx.violation(f"{f.__name__}(0) is not 0", f=f, got=w)
            w = ctx.call(f, t and np.array([-1], dtype=t))
            if w[0].real != -np.inf:
                ctx.violation(f"{f.__name__}(-1) is not -inf", f=f, got=w)
        ctx.sample("all pairs of special parts")
        return
    if kind == "grid":
        p = Z.uniq(Z.binades(r, -40 if r == "f" else -300, 20, mant=(1.0, 1.37), step=5 if not T else 2), Z.lin(r, -3, 2, 41 if not T else 101), Z.around(r, [-2, -1, 0, -0.5, -2.2, 0.2, 1.2, -1.2], 1))
        a, b = S.product(p, p)
        a, b = a[c::n], b[c::n]
    else:
        # on and near the unit circle about -1
        m = 4000 if T else 700
        th = np.linspace(LD(0), 2 * np.arccos(LD(-1)), m)[c::n]
        A, B = [], []
        tiny = 2.0 ** np.arange(-50 if r == "d" else -22, 0, 3)
        for d in np.concatenate([[0], tiny, -tiny]):
            A.append(((1 + LD(d)) * np.cos(th) - 1).astype(r))
            B.append(((1 + LD(d)) * np.sin(th)).astype(r))
        # tangent to the circle at 0: |z| small with real part about -|z|**2/2
        y = Z.binades(r, -25 if r == "d" else -11, -1)[c::n]
        for d in (0, 1, -1, 3, 1e3):
            A.append((-y.astype(LD) ** 2 / 2 * (1 + LD(d) * np.finfo(r).eps)).astype(r))
            B.append(y)
        # Gaussian rationals exactly on the circle
        for j in range(1, 60):
            q = ty(1) / (1 + j * j)
            A.append(np.array([2 * j * q - 1], dtype=r))
            B.append(np.array([(j * j - 1) * q], dtype=r))
        # next to the four extreme points of the circle
        h = np.array([0] + [q * s for q in 2.0 ** np.arange(-50 if r == "d" else -22, -3, 2 if r == "d" else 1) for s in (1, -1)], dtype=r)
        x, y = (v[c::n] for v in S.product(h, h))
        for p, q in ((-2, 0), (0, 0), (-1, 1), (-1, -1)):
            A.append((ty(p) + x).astype(r))
            B.append((ty(q) + y).astype(r))
        a, b = np.concatenate(A), np.concatenate(B)
    keep = ~((a == -1) & (b == 0)) & ~((a == 0) & (b == 0))
    a, b = a[keep], b[keep]
    z = np.empty(len(a), dtype=t)
    z.real, z.imag = a, b
    er, ei, lim = [], [], []
    for x, y in zip(a, b):
        X, Y = M.tomp(x), M.tomp(y)
        q = X * X + 2 * X + Y * Y
        er.append((mm.log1p(q) if abs(q) < 0.5 else mm.log((1 + X) ** 2 + Y * Y)) / 2)
        ei.append(mm.atan2(Y, 1 + X))
    ctx.tick()
    er, ei = M.arr(er), M.arr(ei)
    k = M.eps(r)
    mod = np.hypot(er, ei)
    al, bl = np.abs(a.astype(LD)), np.abs(b.astype(LD))
    for f in fs:
        dd = f is u.log1p_doubledouble
        if dd:
            # componentwise accuracy; the modulus of 1+z is rounded away from the circle
            near = (np.abs(a * (2 + a) + b * b) < ty(0.35)) & (a > -2.18) & (a < 0.18) & (np.abs(b) < 1.18)
            if r == "f":
                # float: the square sum is formed in double
                t_r = np.where(near, 8 * k * np.abs(er) + 8 * M.eps("d") * (al * al + 2 * al + bl * bl), 8 * k * (np.abs(er) + 1))
            else:
                t_r = np.where(near, 8 * k * np.abs(er) + 64 * k * k * (al + bl * bl), 8 * k * (np.abs(er) + 1))
            # rounding 1+x
            t_i = 8 * k * np.abs(ei)
        else:
            # normwise, only where 1+z is not close to the circle or z is tiny
            t_r = 16 * k * (mod + np.minimum(1, al + bl))
            t_i = 16 * k * mod
        nb = len(z)

        def mask(g, e, t_r=t_r, t_i=t_i):
            return M.m_tol(t_r)(np.ascontiguousarray(g.real), er) & M.m_tol(t_i)(np.ascontiguousarray(g.imag), ei)
        S.compare(ctx, f, [z], np.zeros(nb, dtype=t), mask, what=f"{f.__name__} {kind}", dtypes=[t], lays=("contig", "strided", "reversed"), nontrivial=int(((a != 0) & (b != 0)).sum()))
    ctx.sample(f"{len(z)} complex numbers, {kind}, type {t}")
