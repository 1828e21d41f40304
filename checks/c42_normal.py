"""C42: normal.cdf, logcdf, sf, logsf, erfcx."""

import mpmath as mm
import numpy as np

from mc import mp as M
from mc import special as Z

PROP = "C42"
LEVEL = "exploration"
RULE = "one case = one argument x data type x memory layout, against multiprecision arithmetic; non-trivial = every finite argument"
ASSUMPTIONS = ["error bound 16*eps*(1 + min(x**2, |log of the tail|)) relative, which is the conditioning of the tail; 16*eps relative for the "
               "logarithm of the lower tail", "results below the smallest normal number count as zero"]
LD = np.longdouble


def shards(tier):
    n = 4 if tier == "thorough" else 1
    return [[f"{k}_{t}_{c}", t, c, n] for k in ("cdf", "sf", "logcdf", "logsf", "erfcx") for t in "fdg" for c in range(n)] + [["ends_" + t, t] for t in "fdg"]


def logcdf(x):
    if x > -300:
        return mm.log(mm.ncdf(x)) if x < 1 else mm.log1p(-tail(x))
    y = 1 / (x * x)
    s = mm.mpf(0)
    q = mm.mpf(1)
    for j in range(1, 12):
        q *= -(2 * j - 1) * y
        s += q
    return -x * x / 2 - mm.log(-x) - mm.log(2 * mm.pi) / 2 + mm.log1p(s)


def tail(x):
    return mm.ncdf(-x) if x < 300 else mm.mpf(0)


def run(shard, ctx):
    import ufunclab
    from ufunclab import normal as N
    np.seterr(all="ignore")
    kind, t = shard[0].split("_")[0], shard[1]
    ty = np.dtype(t).type
    k = M.eps(t)
    tiny = LD(np.finfo(t).tiny)
    inf, nan = ty(np.inf), ty(np.nan)
    if kind == "ends":
        z, o, h = ty(0), ty(1), ty(0.5)
        big = np.finfo(t).max
        Z.exact(ctx, N.cdf, [(z, h), (inf, o), (-inf, z), (nan, nan), (big, o), (-big, z), (-z, h)], "normal.cdf")
        Z.exact(ctx, ufunclab.erfcx, [(z, o), (inf, z), (-inf, inf), (nan, nan), (-big, inf)], "erfcx")
        Z.exact(ctx, N.sf, [(z, h), (inf, z), (-inf, o), (nan, nan), (big, z), (-big, o)], "normal.sf")
        Z.exact(ctx, N.logcdf, [(inf, z), (-inf, -inf), (nan, nan), (big, z), (-big, -inf)], "normal.logcdf")
        Z.exact(ctx, N.logsf, [(-inf, z), (inf, -inf), (nan, nan), (-big, z), (big, -inf)], "normal.logsf")
        return
    f = ufunclab.erfcx if kind == "erfcx" else getattr(N, kind)
    s = -1 if kind in ("sf", "logsf") else 1
    T = ctx.thorough
    x = Z.uniq(Z.binades(t, -70, 6), Z.lin(t, -45, 45, 18001 if T else 1801), Z.lin(t, -3, 3, 6001 if T else 601),
               Z.around(t, [0, 1, -1, 2 ** 0.5, -2 ** 0.5, 5, -5, 10, -10, 25, -25, 38, -38, 0.5, -0.5]), Z.binades(t, *((5, 60) if t == "f" else (5, 500)), mant=(1.0, 1.7), step=3))
    if kind == "erfcx":
        # the ends of the pieces in y = 400/(4+x), their neighbours, and points inside each piece
        ends = [LD(400) / j - 4 for j in range(1, 101)]
        ends = np.array(ends + [-v for v in ends], dtype=LD)
        q = 16 if T else 8
        ins = np.array([LD(400) / (j + LD(i) / q) - 4 for j in range(0, 100) for i in range(1, q)], dtype=LD)
        x = Z.uniq(x, Z.around(t, ends.astype(t), 2), ins.astype(t), -ins.astype(t), Z.around(t, [50, 100, -9.38241396, -26.64174, -106.56]))
        fi = np.finfo(t)
        x = x[(x > -np.sqrt(np.log(LD(fi.max) / 4))) & (np.abs(x) < LD(fi.max) / 4)]
        x = x[shard[2]::shard[3]]

        def ref(v):
            if v < 300:
                return mm.exp(v * v) * mm.erfc(v)
            s = mm.mpf(1)
            d = mm.mpf(1)
            for j in range(1, 12):
                d *= -(2 * j - 1) / (2 * v * v)
                s += d
            return s / (v * mm.sqrt(mm.pi))
        Z.sweep(ctx, f, [x], ref, lambda e, v: 16 * k * e * np.where(x < 0, 1 + v * v, 1), "erfcx", lays=("contig", "strided", "reversed"))
        ctx.sample(f"{len(x)} arguments of type {t}")
        return
    x = x[shard[2]::shard[3]]
    if kind in ("cdf", "sf"):
        x = x[np.abs(x) < 250]

        def tol(e, v):
            up = x * s > 0
            return np.where(up, 16 * k, 16 * k * (1 + v * v)) * e + 4 * tiny
        Z.sweep(ctx, f, [x], lambda v: mm.ncdf(s * v), tol, "normal." + kind, lays=("contig", "strided", "reversed"))
    else:
        def tol(e, v):
            up = x * s > 0
            return 16 * k * e * np.where(up, 1 + v * v, 1) + 4 * tiny
        x = x[np.abs(x.astype(LD)) ** 2 < LD(np.finfo(t).max)]
        Z.sweep(ctx, f, [x], lambda v: logcdf(s * v), tol, "normal." + kind, lays=("contig", "strided", "reversed"))
    ctx.sample(f"{len(x)} arguments of type {t}")
