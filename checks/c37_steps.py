"""C37: the step functions, trapezoid_pulse, deadzone and the semivariograms."""

import numpy as np

from mc import seq as S

PROP = "C37"
LEVEL = "exploration"
RULE = ("one case = one combination of arguments x data type x memory layout; non-trivial = the argument lies strictly inside a "
        "piece that is not constant, or exactly at a boundary")
ASSUMPTIONS = ["accuracy: 16*eps*(|fa|+|fb|) for the polynomials (16*eps relative to the sizes of nugget and sill for the "
               "semivariograms), long double arithmetic as the reference", "x = nan only with a < b"]
LD = np.longdouble


def shards(tier):
    return [[k + "_" + t, t] for k in ("step", "smooth", "inv", "trap", "dead", "semi", "bcast") for t in "fdg"]


def grid(t, bounds, extra=()):
    """Every boundary, its two neighbours in the type, points between and outside."""
    t = np.dtype(t).type
    b = sorted({S.num(t, v) for v in bounds if np.isfinite(v)})
    r = list(b)
    for v in b:
        r += [np.nextafter(v, t(np.inf)), np.nextafter(v, t(-np.inf))]
    for p, q in zip(b, b[1:]):
        for k in (1, 2, 3, 4, 4.5, 5, 6, 7, t(1) / 3, t(60) / 7):
            r.append(p + (q - p) * t(k) / t(9))
        # close to the ends, to the middle and to the thirds
        for k in range(3, 20, 2):
            d = (q - p) * S.num(t, 10.0 ** -k)
            r += [p + d, q - d] + [p + (q - p) / m + s * d for m in (2, 3) for s in (1, -1) if k < 16]
    r += [t(b[0] - 1), t(b[-1] + 1), t(b[0] * 100 - 1e6), t(b[-1] * 100 + 1e6), t(np.inf), t(-np.inf)] + [t(v) for v in extra]
    return np.array(r, dtype=t)


def tol(scale, mult=16):
    """|got-exp| <= mult*eps*scale, or identical."""
    def f(g, e):
        k = LD(np.finfo(g.dtype).eps)
        gl, el = g.astype(LD), e.astype(LD)
        fl = np.where(np.asarray(scale) != 0, 16 * LD(np.finfo(g.dtype).tiny), 0)
        return (np.abs(gl - el) <= mult * k * scale + fl) | (gl == el) | (np.isnan(gl) & np.isnan(el))
    return f


def pick(conds, vals):
    return np.select(conds[:-1], vals[:-1], vals[-1])


PAIRS = [(0, 1), (-2, 2), (-1, -0.25), (1, 1), (0, 0), (2, 1), (0.1, 0.7), (1 / 3, 100), (-1e4, 1e4), (3, 3.000001), (-2 / 3, 3 / 7), (1 / 7, 1 / 7), (0, 1e-12), (0, 1e-30), (-1e-20, 3e-20), (1e5, 100000.1), (-7, -6.99999)]
CLOSE = [(1, 4), (1, 300), (0.3, 1e5), (-5, 2e7), (0.1, 1e10)]      # intervals of a few or many numbers
LEVELS = [(0, 1), (1, 0), (-2, 5), (7, 7), (5, -0.1), (0, 0), (1e6, -1), (0, 1e-6), (1 / 3, 9 / 7), (2 / 3, -0.1), (-3 / 7, -3 / 7), (2, 2.000001), (0, 1e-20), (-1e-13, 1e-13)]


def pairs(t):
    e = np.finfo(t).eps
    r = [(S.num(t, a), S.num(t, b)) for a, b in PAIRS]
    for a, k in CLOSE:
        a = S.num(t, a)
        if k < 1 / e / 8:
            r.append((a, a + abs(a) * (e * np.dtype(t).type(k))))
    return r


def params(t):
    for a, b in pairs(t):
        x = grid(t, [a, b], [np.nan] if a < b else [])
        yield a, b, x


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind, t = shard[0].split("_")[0], shard[1]
    ty = np.dtype(t).type
    full = lambda x, *p: [x] + [np.full(x.shape, v, dtype=t) for v in p]
    if kind == "step":
        al = np.array([0, -0.0, 1, -1, S.num(t, 1 / 3), np.inf, -np.inf, np.finfo(t).tiny, np.nextafter(ty(0), ty(1)), np.nextafter(ty(1), ty(2)),
                       np.finfo(t).max, np.nextafter(ty(1), ty(0))], dtype=t)
        x, a = S.product(al, al)
        for fl in ((1, 2, 3), (3, 2, 1), (0, 0.5, 1), (np.nan, 2, np.inf), (-np.inf, np.nan, 5), (4, 5, np.nan), (0, 0, 1), (-0.0, 7, -0.0), (1 / 3, 2 / 7, 0.1), (0.3, -1 / 3, -0.7)):
            args = [x, a] + [np.full(x.shape, S.num(t, v), dtype=t) for v in fl]
            e = np.where(x < a, args[2], np.where(x > a, args[4], args[3]))
            S.compare(ctx, u.step, args, e, S.m_bits, what=f"step{fl}", dtypes=[t], lays=("contig", "strided", "reversed"))
        ctx.sample(f"every pair x, a over {len(al)} values of type {t}, eight triples of levels")
    elif kind == "smooth":
        for a, b, x in params(t):
            w = (LD(b) - LD(a)) if b > a else LD(1)
            v = (x.astype(LD) - LD(a)) / w
            for fa, fb in LEVELS:
                fa, fb = S.num(t, fa), S.num(t, fb)
                A, B = LD(fa), LD(fb)
                for name, p in (("linearstep", v), ("smoothstep3", v * v * (3 - 2 * v)), ("smoothstep5", v ** 3 * (v * (6 * v - 15) + 10))):
                    args = full(x, a, b, fa, fb)
                    if a > b:
                        e = np.full(x.shape, np.nan, dtype=LD)
                    else:
                        e = np.where(x <= a, A, np.where(x >= b, B, A + (B - A) * p))
                    # exact outside the open interval
                    sc = np.where((x > a) & (x < b), np.abs(A) + np.abs(B), 0)
                    S.compare(ctx, getattr(u, name), args, e, tol(sc), what=f"{name} a={a} b={b} fa={fa} fb={fb}", dtypes=[t],
                              nontrivial=int(((x >= a) & (x <= b)).sum()))
            if ctx.full:
                return
        ctx.sample(f"{len(PAIRS)} intervals, {len(LEVELS)} pairs of levels, x at, beside and between the boundaries")
        # levels and intervals at the ends of the range; the line has no difference that could overflow
        fi = np.finfo(t)
        M, tn = fi.max, fi.tiny
        lev = [(-M, M), (M, -M / 2), (M, M), (M / 4, M / 2), (M / 3, -M / 5), (tn * 5, tn * 9), (-tn, tn), (tn * fi.eps, 7 * tn * fi.eps)]
        iv = [(ty(0), ty(1)), (ty(-3), ty(4)), (ty(0), M / 4), (-M / 3, M / 5), (tn * 3, tn * 64), (-tn, ty(1)), (ty(0), 16 * tn * fi.eps)]
        for a, b in iv:
            x = grid(t, [a, b])
            v = (x.astype(LD) - LD(a)) / (LD(b) - LD(a))
            for fa, fb in lev + [(ty(1), ty(2)), (ty(-1), M / 8)]:
                A, B = LD(fa), LD(fb)
                for name, p in (("linearstep", v), ("smoothstep3", v * v * (3 - 2 * v)), ("smoothstep5", v ** 3 * (v * (6 * v - 15) + 10))):
                    if name != "linearstep" and not np.isfinite(fb - fa):
                        continue
                    p = np.clip(p, 0, 1)
                    e = np.where(x <= a, A, np.where(x >= b, B, A * (1 - p) + B * p))
                    sc = np.where((x > a) & (x < b), np.maximum(np.abs(A), np.abs(B)), 0)
                    S.compare(ctx, getattr(u, name), full(x, a, b, fa, fb), e, tol(sc, 32), what=f"{name} a={a} b={b} fa={fa} fb={fb}", dtypes=[t],
                              nontrivial=int(((x >= a) & (x <= b)).sum()))
    elif kind == "inv":
        for a, b in pairs(t):
            if a > b:
                continue
            for fa, fb in LEVELS:
                fa, fb = S.num(t, fa), S.num(t, fb)
                y = grid(t, [fa, fb], [np.nan])
                args = full(y, a, b, fa, fb)
                for l in S.LAYS:
                    v = [S.lay(q, l) for q in args]
                    r = ctx.call(u.invsmoothstep3, *v)
                    ins = (y >= min(fa, fb)) & (y <= max(fa, fb)) & (fa != fb)
                    bad = r.dtype.char != t or (np.isnan(r) == ins).any()
                    if not bad and fa != fb and a == b:
                        bad = not (r[ins] == a).all()
                    elif not bad and fa != fb:
                        bad = not ((r[y == fa] == a).all() and (r[y == fb] == b).all())
                        ri = r[ins].astype(LD)
                        w = LD(b) - LD(a)
                        k = LD(np.finfo(t).eps)
                        s = (ri - LD(a)) / w
                        back = s * s * (3 - 2 * s)
                        tt = (y[ins].astype(LD) - LD(fa)) / (LD(fb) - LD(fa))
                        # the rounding of a + (b-a)*s
                        err = 16 * k * (1 + (abs(LD(a)) + abs(LD(b))) / w)
                        bad |= (np.abs(back - tt) > err).any() or (s < -err).any() or (s > 1 + err).any()
                    ctx.count(len(y), int(ins.sum()))
                    if bad:
                        ctx.violation(f"invsmoothstep3 is not the inverse of smoothstep3 (a={a} b={b} fa={fa} fb={fb})", f=u.invsmoothstep3,
                                      args=tuple(v), got=r)
                        return
    elif kind == "trap":
        P = [(0, 1, 2, 3), (0, 0, 2, 3), (0, 1, 1, 3), (0, 1, 2, 2), (1, 1, 1, 1), (0, 0, 3, 3), (-1, -0.25, 0.1, 100), (0, 1, 1, 1), (0, 0, 0, 2),
             (1, 0, 2, 3), (0, 2, 1, 3), (0, 1, 3, 2), (3, 2, 1, 0), (np.nan, 1, 2, 3), (0, np.nan, 2, 3), (0, 1, np.nan, 3), (0, 1, 2, np.nan),
             (-np.inf, 0, 1, np.inf), (1 / 3, 0.5, 0.75, 0.8), (0, 1e-12, 1, 1 + 1e-6), (-1e-20, 1e-20, 3e-20, 4e-20), (0, 1, 1 + 1e-6, 2), (1, 1.0000011, 1.0000044, 1.0000099)]
        for p in P:
            p = [S.num(t, v) for v in p]
            a, b, c, d = p
            x = grid(t, [v for v in p if np.isfinite(v)], [])
            if np.isinf(a):
                x = x[np.isfinite(x) & (x >= b) & (x <= c)]
            for amp in (1, -3, 0, 2.5, 1e6, 1 / 3, -9 / 7):
                amp = S.num(t, amp)
                args = full(x, a, b, c, d, amp)
                xl = x.astype(LD)
                if not a <= b <= c <= d:
                    e = np.full(x.shape, np.nan, dtype=LD)
                else:
                    up = LD(amp) * ((xl - LD(a)) / (LD(b) - LD(a)))
                    dn = LD(amp) * ((LD(d) - xl) / (LD(d) - LD(c)))
                    e = np.where((x <= a) | (x >= d), 0, np.where(x < b, up, np.where(x > c, dn, LD(amp))))
                ramp = ((x > a) & (x < b)) | ((x > c) & (x < d))
                S.compare(ctx, u.trapezoid_pulse, args, e, tol(np.where(ramp, np.abs(e), 0)), what=f"trapezoid_pulse {p} amp={amp}", dtypes=[t])
    elif kind == "dead":
        al = np.array([0, 1, -1, 2, -3.5, 0.25, 1e6, -1e6, np.inf, -np.inf, S.num(t, 1 / 3), S.num(t, -9 / 7)], dtype=t)
        x, lo, hi = S.product(np.concatenate([al, np.nextafter(al, ty(np.inf)), np.nextafter(al, ty(-np.inf))]), al, al)
        ok = lo <= hi
        x, lo, hi = x[ok], lo[ok], hi[ok]
        e = np.where(x < lo, x - lo, np.where(x > hi, x - hi, ty(0)))
        S.compare(ctx, u.deadzone, [x, lo, hi], e, what="deadzone", dtypes=[t], lays=("contig", "strided", "reversed"))
        ctx.sample(f"all {len(x)} triples x, low <= high")
    elif kind == "semi":
        from ufunclab import semivar as sv
        N = [0, 0.25, 1, 10, 1 / 3]
        SI = [1, 0.25, 100, 0, 9 / 7]
        R = [1, 2, 0.1, 10, 1e6, 1e-3, 1 / 3]
        for nug in N:
            for sill in SI:
                for rng in R:
                    nug, sill, rng = S.num(t, nug), S.num(t, sill), S.num(t, rng)
                    h = grid(t, [0, rng])
                    h = h[(h >= 0) & np.isfinite(h)]
                    args = full(h, nug, sill, rng)
                    n, s, q = LD(nug), LD(sill), h.astype(LD) / LD(rng)
                    out = h > rng
                    sc = np.where(out, 0, abs(n) + abs(s))
                    for name, p in (("linear", q), ("spherical", q / 2 * (3 - q * q)), ("parabolic", q * (2 - q))):
                        e = np.where(out, s, n + (s - n) * p)
                        # without a nugget the product is accurate however small
                        S.compare(ctx, getattr(sv, name), args, e, tol(sc if n else np.where(out, 0, np.abs(e) + np.finfo(t).tiny)), what=f"semivar.{name} {nug} {sill} {rng}", dtypes=[t])
                    e = n + (s - n) * -np.expm1(-3 * q)
                    S.compare(ctx, sv.exponential, args, e, tol(abs(n) + abs(s)), what=f"semivar.exponential {nug} {sill} {rng}", dtypes=[t])
                    i = ctx.call(sv.exponential, ty(np.inf), nug, sill, rng)
                    ctx.count(1)
                    if not abs(LD(i) - s) <= 4 * np.finfo(t).eps * (abs(n) + abs(s)):
                        ctx.violation("semivar.exponential at infinity is not the sill", f=sv.exponential, args=(ty(np.inf), nug, sill, rng), got=i)
                if ctx.full:
                    return
        ctx.sample(f"{len(N) * len(SI) * len(R)} parameter combinations, h at 0, the range, their neighbours and between")
    else:
        # one argument an array, the others scalars (zero stride); and each argument by itself an array
        from ufunclab import semivar as sv
        fs = [(u.step, 5), (u.linearstep, 5), (u.smoothstep3, 5), (u.invsmoothstep3, 5), (u.smoothstep5, 5), (u.trapezoid_pulse, 6), (u.deadzone, 3),
              (sv.exponential, 4), (sv.linear, 4), (sv.spherical, 4), (sv.parabolic, 4)]
        base = {3: (1, 0, 2), 4: (2, 1 / 7, 9 / 7, 10 / 3), 5: (1.25, 1, 2, 1 / 3, 22 / 7), 6: (1.5, 1, 2, 3, 4, 7 / 3)}
        for f, k in fs:
            for n in S.sizes(ctx.thorough, 70001)[1:]:
                for pos in range(k):
                    v = [S.num(t, q) for q in base[k]]
                    a = (np.arange(n) % 17 * 0.25 + 0.125).astype(t)
                    one = np.array([ctx.call(f, *v[:pos], ty(q), *v[pos + 1:]) for q in np.unique(a)])
                    e = one[np.searchsorted(np.unique(a), a)]
                    for l in ("contig", "strided", "reversed"):
                        r = ctx.call(f, *v[:pos], S.lay(a, l), *v[pos + 1:])
                        ctx.count(n)
                        if r.dtype.char != t or not S.m_same(r, e).all():
                            ctx.violation(f"{f.__name__}: argument {pos} as an array of length {n} ({l})", f=f, args=(*v[:pos], a, *v[pos + 1:]), got=r, exp=e)
                            return
