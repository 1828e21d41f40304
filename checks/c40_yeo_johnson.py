"""C40: yeo_johnson, inv_yeo_johnson, pow1pm1."""

import mpmath as mm
import numpy as np

from mc import mp as M
from mc import seq as S
from mc import special as Z

PROP = "C40"
LEVEL = "exploration"
RULE = ("one case = one pair (x, lmbda) or (x, y) x data type x memory layout, against multiprecision arithmetic; non-trivial = "
        "x is not zero")
ASSUMPTIONS = ["error bound: 8*eps times the condition of the documented formula (the exponent w of expm1(w): relative error "
               "(1+|w|)*eps, and the rounding of lmbda*x in the inverse)", "results that overflow or underflow may do so within the error bound; arguments with lmbda*log1p(|x|) within 2 of the overflow of exp are left out, so are products lmbda*x and lmbda*log1p(x) that underflow"]
LD = np.longdouble
LAM = [0, 2, 1, 0.5, -0.5, -1, 1.5, 3, 2.5, -3, 1e-5, 2 - 1e-3, 2 + 1e-3, -1e-5, 1 / 3, 10, -10,
       1e-9, -1e-9, 1e-13, -1e-13, 2 - 1e-6, 2 + 1e-6, 2 - 1e-12, 2 + 1e-12, 1e-6, -1e-6, 1e-17, -1e-17]


def shards(tier):
    return [[f"{k}_{t}_{i}", t, i] for k in ("fwd", "inv", "pow") for t in "fdg" for i in range(len(LAM))] + \
        [[f"near{k}_{t}_{i}", t, i] for k in ("fwd", "inv", "pow") for t in "fdg" for i in range(4)] + [["ends_" + t, t] for t in "fdg"]


PY = [0, 1, 2, -1, 0.5, -0.5, 10, -10, 1e-5, -1e-5, 1 / 3, 100, 3, 1e5, -1e5, 1.5, -3, 1e-9, -1e-9, 1e-13, -1e-13, 1 + 1e-6, 1 - 1e-6, 1e-20, -1e-20,
      7, -7, 0.25, 30]


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind, t = shard[0].split("_")[0], shard[1]
    T = ctx.thorough
    if kind == "ends":
        ends(ctx, u, t)
        return
    f = dict(fwd=fwd, inv=inv, pow=power)[kind.replace("near", "")]
    if kind.startswith("near"):
        # parameters next to those with a simple closed form
        x = Z.uniq(Z.binades(t, -70, 14, mant=(1.0, 1.37), step=5), Z.lin(t, -3, 3, 25), Z.around(t, [1, -1, 2, -0.5], 1))
        ps = S.beside(t, (0, 1, 2, 0.5, -1, 3, -0.5, 1.5, -2, 4, 1 / 3))
        ps += [S.num(t, v) for v in (1e-30, -1e-30, 5e-8, -5e-8, 0.75, 1.25, 0.9, 1.1, 1.9, 2.1, 0.01, 6)]
        for p in ps[shard[2]::4]:
            f(ctx, u, t, p, x[x > -1] if kind == "nearpow" else x)
            if ctx.full:
                return
        ctx.sample(f"{len(x)} values of x, {len(ps)} parameters near the simple ones, {kind[4:]}, type {t}")
        return
    if kind == "pow":
        x = Z.uniq(Z.binades(t, -70, 30), Z.lin(t, -1, 4, 4001 if T else 601), Z.around(t, [0, 1, 2]), -Z.binades(t, -30, -1, neg=False),
                   -1 + Z.binades(t, -22 if t == "f" else -50, -2, neg=False))
        f(ctx, u, t, S.num(t, PY[shard[2]]), x[x > -1])
    else:
        wide = Z.binades(t, 30, Z.erange(t)[1], mant=(1.0, 1.7), step=1 if t == "f" else 23) if kind == "fwd" else []
        x = Z.uniq(Z.binades(t, -70, 30), wide, Z.lin(t, -50, 50, 6001 if T else 801), Z.lin(t, -1.5, 1.5, 3001 if T else 301), Z.around(t, [0, 1, -1, 2, -2, 0.5, -0.5]))
        f(ctx, u, t, S.num(t, LAM[shard[2]]), x)
    ctx.sample(f"{len(x)} values of x, {kind}, type {t}")


def fwd(ctx, u, t, lam, x):
    k, tiny = M.eps(t), LD(np.finfo(t).tiny)
    m0 = np.where(x >= 0, LD(lam), 2 - LD(lam))
    x = x[m0 * np.log1p(np.abs(x.astype(LD))) < np.log(LD(np.finfo(t).max)) - 2]
    # the product of the exponent and the logarithm does not underflow
    m0 = np.where(x >= 0, LD(lam), 2 - LD(lam))
    x = x[(m0 == 0) | (x == 0) | (np.abs(m0) * np.log1p(np.abs(x.astype(LD))) > 64 * tiny / k)]
    args = [x, np.full(x.shape, lam)]

    def ref(v, m):
        s = 1 if v >= 0 else -1
        m = m if v >= 0 else 2 - m
        l = mm.log1p(abs(v))
        return s * (l if m == 0 else mm.expm1(m * l) / m)

    def tol(e, v, m):
        pos = x >= 0
        mu = np.where(pos, LD(lam), 2 - LD(lam))
        return 8 * k * e * (1 + np.abs(mu) * np.log1p(v)) + 4 * tiny
    Z.sweep(ctx, u.yeo_johnson, args, ref, tol, f"yeo_johnson lmbda={lam}", nontrivial=int((x != 0).sum()))
    # round trip
    y = ctx.call(u.yeo_johnson, *args)
    b = ctx.call(u.inv_yeo_johnson, y, args[1])
    mu = np.where(x >= 0, LD(lam), 2 - LD(lam))
    yl, xl = np.abs(y.astype(LD)), np.abs(x.astype(LD))
    lx = np.log1p(xl)
    # a relative error d in y becomes d*y*(1+x)**(1-mu)
    cond = (1 + np.abs(mu) * lx) * (yl * np.exp((1 - mu) * lx) + xl) * 32 * k + 8 * tiny
    ok = np.isfinite(y) & (cond < xl) & (yl > 8 * tiny)
    ctx.count(int(ok.sum()))
    bad = ok & ~(np.abs(b.astype(LD) - x.astype(LD)) <= cond)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.violation(f"inv_yeo_johnson(yeo_johnson(x)) is not x, lmbda={lam}", f=u.inv_yeo_johnson, args=(y[i], lam), got=b[i], exp=x[i])


def inv(ctx, u, t, lam, x):
    k, tiny = M.eps(t), LD(np.finfo(t).tiny)
    x = x[np.abs(x) < 2.0 ** 20]
    L = LD(lam)
    extra = []
    if lam < 0:
        extra.append(Z.around(t, [LD(-1) / L], 4))
    if lam > 2:
        extra.append(Z.around(t, [LD(-1) / (L - 2)], 4))
    extra = [q[np.abs(q) < 2.0 ** 40] for q in extra]
    x = Z.uniq(x, *extra)
    mu = np.where(x >= 0, L, 2 - L)
    # stay off the rounding of the pole itself
    pole = 1 + mu * np.abs(x.astype(LD))
    far = (np.abs(pole) > 16 * k) & ((mu == 0) | (x == 0) | (np.abs(mu * x.astype(LD)) > 64 * tiny / k))
    args = [x[far], np.full(int(far.sum()), lam)]

    def ref(v, m):
        s = 1 if v >= 0 else -1
        m = m if v >= 0 else 2 - m
        a = abs(v)
        if m == 0:
            return s * mm.expm1(a)
        if 1 + m * a < 0:
            return None
        return s * mm.expm1(mm.log1p(m * a) / m)

    def tol(e, v, m):
        mm_ = mu[far]
        uu = mm_ * v
        w = np.where(mm_ == 0, v, np.log1p(uu) / np.where(mm_ == 0, 1, mm_))
        dw = np.where(mm_ == 0, 0, 8 * k * (np.abs(uu / (1 + uu)) + np.abs(np.log1p(uu))) / np.where(mm_ == 0, 1, np.abs(mm_)))
        return (8 * k + np.expm1(dw)) * e + np.expm1(dw) * 1 * (w != 0) * np.minimum(1, np.abs(e) + dw) + 4 * tiny
    Z.sweep(ctx, u.inv_yeo_johnson, args, ref, tol, f"inv_yeo_johnson lmbda={lam}", nontrivial=int((x != 0).sum()))


def power(ctx, u, t, y, x):
    k, tiny = M.eps(t), LD(np.finfo(t).tiny)
    args = [x, np.full(x.shape, y)]

    def tol(e, v, w):
        z = w * np.abs(np.log1p(x.astype(LD)))
        return 8 * k * (e * (1 + z) + np.where(e > LD(0.5), z, 0)) + 4 * tiny
    Z.sweep(ctx, u.pow1pm1, args, lambda v, w: mm.expm1(w * mm.log1p(v)), tol, f"pow1pm1 y={y}", nontrivial=int((x != 0).sum()))


def ends(ctx, u, t):
    ty = np.dtype(t).type
    inf, nan = ty(np.inf), ty(np.nan)
    one, zero, two, half = ty(1), ty(0), ty(2), ty(0.5)
    rows = [(zero, m, zero) for m in (zero, one, two, half, -one, ty(5))] + [(v, one, v) for v in (one, -one, two, ty(0.25), ty(-0.5), one / 3, -one / 3)]
    rows += [(inf, m, inf) for m in (zero, one, two, half)] + [(-inf, m, -inf) for m in (two, one, half, zero)]
    rows += [(inf, -one, one), (inf, ty(-2), half), (-inf, ty(3), -one), (-inf, ty(4), -half), (nan, one, nan), (nan, zero, nan), (nan, two, nan), (one, nan, nan), (-one, nan, nan)]
    Z.exact(ctx, u.yeo_johnson, rows, "yeo_johnson", 8)
    rows = [(zero, m, zero) for m in (zero, one, two, half, -one, ty(5))] + [(v, one, v) for v in (one, -one, two, ty(0.25), ty(-0.5), one / 3, -one / 3)]
    rows += [(one, -one, inf), (half, ty(-2), inf), (ty(1.5), -one, nan), (ty(0.75), ty(-2), nan), (inf, -one, nan), (-one, ty(3), -inf), (-half, ty(4), -inf),
             (ty(-1.5), ty(3), nan), (ty(-0.75), ty(4), nan), (-inf, ty(3), nan), (inf, one, inf), (inf, zero, inf), (inf, two, inf), (-inf, one, -inf), (-inf, two, -inf),
             (nan, one, nan), (nan, zero, nan), (nan, two, nan), (nan, -one, nan), (nan, ty(3), nan), (one, nan, nan), (-one, nan, nan)]
    Z.exact(ctx, u.inv_yeo_johnson, rows, "inv_yeo_johnson", 8)
    rows = [(zero, y, zero) for y in (zero, one, -one, ty(30), half)] + [(-one, zero, zero), (-one, one, -one), (-one, half, -one), (-one, -one, inf), (-one, ty(-30), inf)]
    rows += [(x, zero, zero) for x in (one, ty(-0.5), ty(1e10), one / 3)] + [(inf, one, inf), (inf, half, inf), (inf, -one, -one), (one, inf, inf), (one, -inf, -one), (-half, inf, -one), (-half, -inf, inf)]
    rows += [(nan, one, nan), (one, nan, nan), (ty(-2), half, nan)]
    Z.exact(ctx, u.pow1pm1, rows, "pow1pm1", 8)
    ctx.sample("zero, one, the poles, infinities and nan for each function")
