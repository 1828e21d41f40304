"""C41: logfactorial, loggamma1p, debye1, expint1, logexpint1, multivariate_logbeta."""

import mpmath as mm
import numpy as np

from mc import mp as M
from mc import seq as S
from mc import special as Z

PROP = "C41"
LEVEL = "exploration"
RULE = ("one case = one argument (or sequence of arguments) x data type x memory layout, against multiprecision arithmetic; "
        "non-trivial = a finite argument in the domain")
ASSUMPTIONS = ["error bounds: 4 ulp (logfactorial); 64*eps (debye1); 16*eps relative (expint1), and for long double that of double; the "
               "same, absolute where the value is below 1, for logexpint1; 32*eps*max(1,|value|) for loggamma1p, relative for |x| < 1/4; "
               "32*eps times the sizes of the terms for multivariate_logbeta"]
LD = np.longdouble


def shards(tier):
    n = 6 if tier == "thorough" else 2
    return ([[f"fact_{t}_{c}", t, c, n] for t in "il" for c in range(n)] + [[f"{k}_{t}_{c}", t, c, n] for k in ("gam", "debye") for t in "fd" for c in range(n)] +
            [[f"{k}_{t}_{c}", t, c, n] for k in ("e1", "loge1") for t in "fdg" for c in range(n)] +
            [[f"beta_{t}_{c}", t, c, n] for t in "fdg" for c in range(n)] + [["ends"], ["pos"]])


def debye(x):
    """D1(x) = (1/x) int_0^x t/(exp(t)-1) dt."""
    if x == 0:
        return mm.mpf(1)
    if x < 0:
        return debye(-x) - x / 2
    if x < 2:
        r = 1 - x / 4
        k = 1
        p = mm.mpf(1)
        x2 = x * x
        while True:
            p *= x2
            d = BERN[k] * p
            r += d
            if abs(d) < mm.mpf(2) ** -90:
                return r
            k += 1
    s = mm.pi ** 2 / 6
    q = mm.exp(-x)
    e = q
    k = 1
    while e > mm.mpf(2) ** -100:
        s -= e * (x / k + mm.mpf(1) / (k * k))
        e *= q
        k += 1
    return s / x


BERN = [None] + [mm.bernoulli(2 * k) / (mm.factorial(2 * k) * (2 * k + 1)) for k in range(1, 80)]


def e1(x):
    """The exponential integral by its series (x <= 2) or by mpmath."""
    if x <= 2:
        s = -mm.euler - mm.log(x)
        t = mm.mpf(1)
        k = 1
        while True:
            t *= -x / k
            d = -t / k
            s += d
            if abs(d) < mm.mpf(2) ** -150:
                return s
            k += 1
    return mm.e1(x)


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind = shard[0].split("_")[0]
    if kind == "ends":
        return ends(ctx, u)
    if kind == "pos":
        return pos(ctx, u)
    t, c, n = shard[1:4]
    T = ctx.thorough
    k = M.eps(t) if t in "fdg" else None
    if kind == "fact":
        i = np.iinfo(t)
        p = 2 ** np.arange(0, 31 if t == "i" else 63, dtype=object)
        v = set(range(0, 20001 if T else 3001)) | {int(q) + d for q in p for d in (-2, -1, 0, 1, 2)} | {int(q) * 3 // 4 for q in p}
        v |= {10 ** j + d for j in range(19) for d in (-1, 0, 1)} | {i.max, i.max - 1}
        v = sorted(w for w in v if 0 <= w <= i.max)[c::n]
        x = np.array(v, dtype=t)
        e = M.arr([mm.loggamma(mm.mpf(w) + 1) if w > 1 else mm.mpf(0) for w in v])
        S.compare(ctx, u.logfactorial, [x], e, M.m_tol(4 * M.eps("d") * e), what="logfactorial", dtypes=["d"], lays=("contig", "strided", "reversed"))
        neg = np.array([-1, -2, -100, i.min, i.min + 1], dtype=t)
        S.compare(ctx, u.logfactorial, [neg], np.full(5, np.nan), what="logfactorial of negative integers", dtypes=["d"])
        ctx.sample(f"{len(x)} integers of type {t}")
        return
    if kind == "gam":
        x = Z.uniq(Z.binades(t, -80, -2, step=1), Z.lin(t, -1, 3, 8001 if T else 1001), Z.around(t, [-0.25, 0.9, 1, 2, 0, -0.5, 1.5, 19, 22, 23, 0.5]), Z.binades(t, 1, 100, neg=False),
                   Z.lin(t, 1, 40, 4001 if T else 401), -1 + Z.binades(t, -22 if t == "f" else -50, -2, neg=False))
        x = x[(x > -1)][c::n]
        tol = lambda e, v: 32 * k * np.where((v < LD(0.25)), e, np.maximum(e, 1))
        Z.sweep(ctx, u.loggamma1p, [x], lambda v: mm.mpf(0) if v in (0, 1) else (mm.loggamma(1 + v) if abs(v) > 1e-6 else loggamma_small(v)), tol, "loggamma1p", nontrivial=len(x))
    elif kind == "debye":
        x = Z.uniq(Z.binades(t, -60, 8), Z.lin(t, -12, 12, 24001 if T else 2401), Z.lin(t, 10, 45, 3501 if T else 701), Z.lin(t, -45, -10, 351),
                   Z.around(t, np.concatenate([np.arange(0, 101) / 10, np.arange(10, 20.01, 0.2), np.arange(20, 41)]), 2), Z.binades(t, 6, 120, step=7))
        x = x[c::n]
        Z.sweep(ctx, u.debye1, [x], debye, lambda e, v: 64 * k * e, "debye1")
    elif kind in ("e1", "loge1"):
        kd = max(k, M.eps("d") / 8)
        lo, hi = Z.erange(t)
        x = Z.uniq(Z.binades(t, -60, 0, neg=False), Z.lin(t, 0.01, 4, 2001 if T else 301), Z.lin(t, 1, 100, 1001 if T else 199), Z.around(t, [1, 0.25, 0.5, 2, 500, 80, 40, 20]), Z.lin(t, 100, 640, 200 if T else 61),
                   Z.binades(t, lo, -60, mant=(1.0, 1.7), neg=False, step=16 if t != "g" else 512))
        x = x[x > 0]
        if kind == "e1":
            x = x[x < (80 if t == "f" else 640)][c::n]
            Z.sweep(ctx, u.expint1, [x], e1, lambda e, v: 16 * kd * e * (1 + v * (k > 0) / 8), "expint1")
        else:
            x = Z.uniq(x, Z.binades(t, 9, min(hi, 110), neg=False, step=3))[c::n]

            def ref(v):
                if v < 650:
                    return mm.log(e1(v))
                s = mm.mpf(1)
                q = mm.mpf(1)
                for j in range(1, 40):
                    q *= -j / v
                    s += q
                    if abs(q) < mm.mpf(2) ** -100:
                        break
                return -v - mm.log(v) + mm.log(s)
            Z.sweep(ctx, u.logexpint1, [x], ref, lambda e, v: 16 * kd * np.maximum(e, 1), "logexpint1")
    else:
        al = np.array([1, 0.5, 2, 3, 7.25, 100, 1e-3, 1.5, 20][: 9 if T else 7], dtype=t)
        lg = {}

        def lgm(v):
            v = float(v)
            if v not in lg:
                lg[v] = mm.loggamma(mm.mpf(v))
            return lg[v]
        edge = {"f": (11, 13, 32.5, 60, 66.25, 75, 90), "d": (80, 86, 250.5, 500, 517.25, 540, 700), "g": (800, 880, 4000.5, 8100, 8200.25, 8250, 12000)}[t]     # products of gammas around the ends of the range
        edge = np.array(edge, dtype=t)
        wide = np.array([1e9, 1, 1e-12, 3.3e14, 1e-5, S.num(t, 22 / 7) * 1000000, 0.3, 1e25], dtype=t)
        for al, L in [(al, L) for L in (1, 2, 3, 4)] + [(wide, L) for L in (2, 3)] + [(edge, L) for L in (2, 3)]:
            w = S.words(al, L)[c::n]
            e, sc = [], []
            for r in w:
                a = [M.tomp(v) for v in r]
                q = [mm.loggamma(v) if L < 2 else lgm_(lg, v) for v in a]
                s = mm.loggamma(mm.fsum(a)) if L < 3 else lgm_(lg, mm.fsum(a))
                e.append(mm.fsum(q) - s)
                sc.append(float(sum(abs(v) for v in q) + abs(s) + sum(a) * 8))
            S.compare(ctx, u.multivariate_logbeta, [w], M.arr(e), M.m_tol(32 * k * np.array(sc, dtype=LD)), what="multivariate_logbeta", dtypes=[t],
                      lays=("contig", "strided", "reversed"), nontrivial=len(w) if L > 1 else 0)
        for m in S.sizes(T)[1:]:
            if m % n != c:
                continue
            base = (S.pseudo(m, "l") % 7 + 1).astype(t) / 2
            w = S.spots(base, np.array([30, 0.125], dtype=t))[:: S.step(m, 8)]
            e, sc = [], []
            for r in w:
                q = [lgm_(lg, M.tomp(v)) for v in r]
                s = lgm_(lg, mm.fsum(M.tomp(v) for v in r))
                e.append(mm.fsum(q) - s)
                sc.append(float(sum(abs(v) for v in q) + abs(s)) * (1 + m / 8) + 8 * float(r.sum()))
            S.compare(ctx, u.multivariate_logbeta, [w], M.arr(e), M.m_tol(8 * k * np.array(sc, dtype=LD)), what=f"multivariate_logbeta n={m}", dtypes=[t],
                      lays=("contig", "strided", "reversed"))
        ctx.sample(f"all sequences up to length 4 over {len(al)} values, up to length 3 over magnitudes to 1e25, longer ones with a special value at several positions")
        return
    ctx.sample(f"{len(x)} arguments, {kind}, type {t}")


def lgm_(memo, v):
    r = memo.get(v)
    if r is None:
        r = memo[v] = mm.loggamma(v) if v not in (1, 2) else mm.mpf(0)
    return r


def loggamma_small(x):
    """log Gamma(1+x) for tiny x."""
    return -mm.euler * x + mm.zeta(2) / 2 * x ** 2 - mm.zeta(3) / 3 * x ** 3 + mm.zeta(4) / 4 * x ** 4 - mm.zeta(5) / 5 * x ** 5 + mm.zeta(6) / 6 * x ** 6


def ends(ctx, u):
    for t in "fdg":
        ty = np.dtype(t).type
        inf, nan, zero, one = ty(np.inf), ty(np.nan), ty(0), ty(1)
        sub = np.finfo(t).smallest_subnormal
        Z.exact(ctx, u.expint1, [(zero, inf), (-zero, inf), (-one, nan), (-sub, nan), (-inf, nan), (nan, nan), (inf, zero), (ty(20000), zero)], "expint1")
        Z.exact(ctx, u.logexpint1, [(zero, inf), (-one, nan), (-sub, nan), (-inf, nan), (nan, nan), (inf, -inf)], "logexpint1")
        if t != "g":
            Z.exact(ctx, u.loggamma1p, [(zero, zero), (one, zero), (-one, nan), (ty(-2.5), nan), (-inf, nan), (inf, inf), (nan, nan)], "loggamma1p")
            Z.exact(ctx, u.debye1, [(zero, one), (inf, zero), (nan, nan), (-inf, inf)], "debye1")
        e = np.empty((3, 0), dtype=t)
        r, err = ctx.attempt(u.multivariate_logbeta, e)
        ctx.count(3)
        if err is not None or not np.isnan(r).all() or r.shape != (3,):
            ctx.violation("multivariate_logbeta of the empty sequence is not nan", f=u.multivariate_logbeta, args=(e,), got=err or r)
        one_ = ctx.call(u.multivariate_logbeta, np.array([[1.0], [2.5], [1e-3], [1e5]], dtype=t))
        ctx.count(4)
        if (one_ != 0).any():
            ctx.violation("multivariate_logbeta of one number is not 0", f=u.multivariate_logbeta, got=one_)
        for L in range(1, 5):
            for p in range(L):
                x = np.ones(L, dtype=t)
                x[p] = nan
                if not np.isnan(ctx.call(u.multivariate_logbeta, x)):
                    ctx.violation("multivariate_logbeta ignores a nan", f=u.multivariate_logbeta, args=(x,))
                ctx.count(1)
    ctx.sample("zero, infinities, nan, negative arguments, empty sequences")


def pos(ctx, u):
    """Arrays of every length: each element is computed by itself."""
    from ufunclab import normal
    fs = [(u.loggamma1p, "fd"), (u.debye1, "fd"), (u.expint1, "fdg"), (u.logexpint1, "fdg"), (normal.cdf, "fdg"), (normal.logcdf, "fdg"), (normal.sf, "fdg"),
          (normal.logsf, "fdg"), (u.logfactorial, "il"), (u.logistic, "fdg"), (u.logistic_deriv, "fdg"), (u.log_logistic, "fdg"), (u.log1p_doubledouble, "FD"), (u.log1p_theorem4, "FD")]
    for f, ts in fs:
        for t in ts:
            v = np.array([0.25, 3, 1, 17, 0.75, 130, 8, 41], dtype=t)
            one = np.array([ctx.call(f, q) for q in v])
            for n in S.sizes(ctx.thorough, 70001):
                i = S.pseudo(n, "l") % len(v)
                for l in ("contig", "strided", "reversed"):
                    r = ctx.call(f, S.lay(v[i], l))
                    ctx.count(n)
                    if r.dtype != one.dtype or r.shape != (n,) or not S.m_same(r, one[i]).all():
                        ctx.violation(f"{f.__name__}: array of length {n} ({l})", f=f, args=(v[i],), got=r, exp=one[i])
                        return
