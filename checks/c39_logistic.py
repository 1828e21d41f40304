"""C39: logistic, logistic_deriv, log_logistic, swish, exponential_ramp, hyperbolic_ramp."""

import mpmath as mm
import numpy as np

from mc import mp as M
from mc import seq as S
from mc import special as Z

PROP = "C39"
LEVEL = "exploration"
RULE = ("one case = one argument (pair of arguments) x data type x memory layout, against multiprecision arithmetic; "
        "non-trivial = the result is neither 0 nor 1 nor the argument itself to working precision")
ASSUMPTIONS = ["relative error at most 8*eps, plus 8*eps*|beta*x| (swish) or 8*eps*|x/a| (ramps, x < 0), which comes from "
               "rounding the product or quotient", "results below the smallest normal number count as zero",
               "swish is not judged at -inf*beta, the ramps not where x/a overflows"]
LD = np.longdouble


def shards(tier):
    n = 4 if tier == "thorough" else 1
    return [[f"{k}_{t}_{c}", t, c, n] for k in ("logistic", "deriv", "log", "swish", "exp", "hyp") for t in "fdg" for c in range(n)] + [["ends_" + t, t] for t in "fdg"] + [["wide_" + t, t] for t in "fdg"]


def grid(t, thorough, c, n):
    x = Z.uniq(Z.lin(t, -60, 60, 12001 if thorough else 1921), Z.lin(t, -2, 2, 4001 if thorough else 513), Z.binades(t, -70, 13),
               Z.around(t, [0, 1, -1, 2, -2, 0.5, -0.5, 80, 88, -88, 700, -700, 709, -709, 710, -710, 745, 11356, -11356]),
               Z.binades(t, *Z.erange(t), mant=(1.0, 1.7), step=1 if t != "g" else 64))
    return x[c::n]


def wide(ctx, u, t, ty, k, tiny):
    """The whole range of x, with parameters of any magnitude."""
    lo, hi = Z.erange(t)
    x = Z.binades(t, lo, hi, mant=(1.0, 1.3), step=(1 if ctx.thorough else 3) * {"f": 1, "d": 8, "g": 128}[t])
    x = Z.uniq(x, -x)
    big, one = LD(np.finfo(t).max), mm.mpf(1)

    def lg(v):
        return mm.mpf(v > 0) if abs(v) > 30000 else 1 / (1 + mm.exp(-v))
    tol = lambda e, *a: 8 * k * e + 4 * tiny
    Z.sweep(ctx, u.logistic, [x], lg, tol, "logistic")
    Z.sweep(ctx, u.logistic_deriv, [x], lambda v: lg(v) * lg(-v), tol, "logistic_deriv")
    ps = [S.num(t, v) for v in (1, 3e-3, 1e-30, 1e30, 1 / 3)] + [ty(2) ** (hi // 2), ty(2) ** (lo // 2), ty(2) ** (hi - 3), ty(3) * ty(2) ** (lo + 2)]
    for b in ps + [-v for v in ps]:
        p = x.astype(LD) * LD(b)
        y = x[np.abs(p) < (1e4 if abs(b) != 1 else big)]
        if len(y):
            Z.sweep(ctx, u.swish, [y, np.full(y.shape, b)], lambda v, w: v * lg(v * w),
                    lambda e, v, w: 8 * k * e * (1 + v * w) + 4 * tiny * (1 + v), f"swish beta={b}")
    for a in ps:
        with np.errstate(all="ignore"):
            y = x[np.abs(x.astype(LD) / LD(a)) < big / 4]
        args = [y, np.full(y.shape, a)]

        def expo(v, w):
            r = v / w
            return (v if v > 0 else 0) + (w * mm.log1p(mm.mpf(2) ** (-abs(r))) / mm.ln(2) if abs(r) < 30000 else 0)

        def hyp(v, w):
            return (v + mm.sqrt(v * v + 4 * w * w)) / 2 if v >= 0 else 2 * w * w / (mm.sqrt(v * v + 4 * w * w) - v)
        with mm.workprec(400):
            Z.sweep(ctx, u.exponential_ramp, args, expo, lambda e, v, w: 8 * k * e * (1 + np.where((y < 0) & (v / w < 3e4), v / w, 0)) + 4 * tiny * (1 + w),
                    f"exponential_ramp a={a}")
            Z.sweep(ctx, u.hyperbolic_ramp, args, hyp, lambda e, v, w: 8 * k * e + 4 * tiny * (1 + w), f"hyperbolic_ramp a={a}")
        if ctx.full:
            return
    ctx.sample(f"{len(x)} arguments of type {t} over the whole range, parameters {[str(v) for v in ps]}")


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind, t = shard[0].split("_")[0], shard[1]
    ty = np.dtype(t).type
    k = M.eps(t)
    tiny = LD(np.finfo(t).tiny)
    if kind == "ends":
        inf, nan, one, zero, third = ty(np.inf), ty(np.nan), ty(1), ty(0), ty(1) / 3
        Z.exact(ctx, u.logistic, [(inf, one), (-inf, zero), (zero, ty(0.5)), (nan, nan), (ty(1e5), one), (ty(-1e5), zero)], "logistic")
        Z.exact(ctx, u.logistic_deriv, [(inf, zero), (-inf, zero), (zero, ty(0.25)), (nan, nan), (ty(1e5), zero), (ty(-1e5), zero)], "logistic_deriv")
        Z.exact(ctx, u.log_logistic, [(inf, zero), (-inf, -inf), (nan, nan), (ty(-1e30), ty(-1e30)), (ty(1e30), zero), (-third * ty(1e30), -third * ty(1e30))], "log_logistic")
        Z.exact(ctx, u.swish, [(zero, b, zero) for b in (one, zero, -one, ty(5))] + [(x, zero, x / 2) for x in (one, ty(-3), ty(1e10), third)] +
                [(nan, one, nan), (one, nan, nan), (inf, one, inf), (ty(1e10), one, ty(1e10)), (ty(-1e10), one, zero), (ty(-1e10), -one, ty(-1e10)), (third * ty(1e10), one, third * ty(1e10))], "swish")
        for f in (u.exponential_ramp, u.hyperbolic_ramp):
            rows = [(x, zero, max(x, zero)) for x in (zero, one, ty(-2), ty(1e30), ty(-1e30), third, -third, ty(1e30) / 7, inf, -inf)]
            rows += [(x, a, nan) for x in (zero, one, ty(-2), inf, nan) for a in (-one, -inf, -np.finfo(t).smallest_subnormal)]
            rows += [(zero, a, a) for a in (one, ty(0.25), ty(1e10), ty(1) / 3, np.finfo(t).tiny, np.finfo(t).max)]
            rows += [(inf, one, inf), (-inf, one, zero), (nan, one, nan), (nan, zero, nan), (one, nan, nan)]
            Z.exact(ctx, f, rows, f.__name__)
        return
    if kind == "wide":
        return wide(ctx, u, t, ty, k, tiny)
    x = grid(t, ctx.thorough, shard[2], shard[3])
    L = lambda v: 1 / (1 + mm.exp(-v))
    tol = lambda e, *a: 8 * k * e + 4 * tiny
    if kind == "logistic":
        x = x[np.abs(x) < 2 ** 13]
        Z.sweep(ctx, u.logistic, [x], L, tol, "logistic")
    elif kind == "deriv":
        x = x[np.abs(x) < 2 ** 13]
        Z.sweep(ctx, u.logistic_deriv, [x], lambda v: mm.exp(-abs(v)) / (1 + mm.exp(-abs(v))) ** 2, tol, "logistic_deriv")
    elif kind == "log":
        Z.sweep(ctx, u.log_logistic, [x], lambda v: (v if v < 0 else 0) - mm.log1p(mm.exp(-abs(v)) if abs(v) < 20000 else mm.mpf(0)), tol, "log_logistic")
    elif kind == "swish":
        x = x[np.abs(x) < 2 ** 13]
        for b in (1, 0.3, -2, 40, 1e-3, -1e-3, 1 / 3):
            b = S.num(t, b)
            Z.sweep(ctx, u.swish, [x, np.full(x.shape, b)], lambda v, w: v * L(v * w), lambda e, v, w: 8 * k * e * (1 + v * w) + 4 * tiny * (1 + v), f"swish beta={b}")
    else:
        x = x[np.abs(x) < 2 ** 13]
        for a in (1, 0.3, 20, 1e-2, 1e5, 1 / 3, 2):
            a = S.num(t, a)
            args = [x, np.full(x.shape, a)]
            t2 = lambda e, v, w: 8 * k * e * (1 + np.where(x < 0, v / w, 0)) + 4 * tiny * (1 + w)
            if kind == "exp":
                ref = lambda v, w: (v if v > 0 else 0) + w * mm.log1p(mm.mpf(2) ** (-abs(v / w))) / mm.ln(2)
                Z.sweep(ctx, u.exponential_ramp, args, ref, t2, f"exponential_ramp a={a}")
            else:
                ref = lambda v, w: (v + mm.sqrt(v * v + 4 * w * w)) / 2 if v >= 0 else 2 * w * w / (mm.sqrt(v * v + 4 * w * w) - v)
                Z.sweep(ctx, u.hyperbolic_ramp, args, ref, lambda e, v, w: 8 * k * e + 4 * tiny * (1 + w), f"hyperbolic_ramp a={a}")
            if ctx.full:
                return
    ctx.sample(f"{len(x)} arguments of type {t}")
