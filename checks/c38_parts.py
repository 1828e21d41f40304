"""C38: nan_to_num, issnan, abs_squared, hypot3."""

import itertools

import numpy as np

from mc import mp as M
from mc import seq as S

PROP = "C38"
LEVEL = "exploration"
RULE = ("one case = one value (or pair, or triple) x data type x memory layout; non-trivial = a special value (nan, infinity, "
        "zero, subnormal, extreme) or a result that is not the input")
ASSUMPTIONS = ["abs_squared of a complex number and hypot3: 4*eps relative error; over- and underflow only as the result demands "
               "in hypot3"]
LD = np.longdouble


def shards(tier):
    r = [["issnan_e"], ["issnan_f"], ["issnan_d"]] + [["n2n_" + t, t] for t in "fdg"]
    r += [["abs_" + t, t] for t in "fdgFDG"] + [["hyp_" + t, t] for t in "fdg"] + [["pos_" + t, t] for t in "fdg"]
    if tier == "thorough":
        r += [["issnanall", k] for k in range(16)]
    return r


def vals(t):
    fi = np.finfo(t)
    ty = np.dtype(t).type
    with np.errstate(all="ignore"):
        v = [ty(0), -ty(0), ty(1), ty(-2.5), ty(3), ty(1) / 3, ty(np.inf), ty(-np.inf), ty(np.nan), -ty(np.nan), fi.max, fi.min, fi.tiny,
             fi.smallest_subnormal, -fi.smallest_subnormal, fi.eps, np.sqrt(fi.max), np.sqrt(fi.tiny), ty(1e10), ty(-1e-10), ty(4), ty(12), ty(84)]
    return np.array(v, dtype=t)


def snan(bits, m, e):
    """Signaling: exponent all ones, quiet bit clear, remaining payload not zero (m mantissa bits, e exponent bits)."""
    ex = (bits >> m) & ((1 << e) - 1)
    q = (bits >> (m - 1)) & 1
    pay = bits & ((1 << (m - 1)) - 1)
    return (ex == (1 << e) - 1) & (q == 0) & (pay != 0)


def bits_of(m, e, ut):
    """Every sign, the exponents around both ends, mantissas with one, two or all bits set, and the complements."""
    one = 1
    man = {0, (one << m) - 1}
    for i in range(m):
        man |= {one << i, ((one << m) - 1) ^ (one << i), (one << i) - 1}
        for j in range(i):
            man.add((one << i) | (one << j))
    em = (1 << e) - 1
    exps = {0, 1, em - 1, em, em >> 1} | {em ^ (1 << i) for i in range(e)} | {1 << i for i in range(e)}
    return np.array([(s << (m + e)) | (x << m) | w for s in (0, 1) for x in exps for w in man], dtype=ut)


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind = shard[0].split("_")[0]
    if kind in ("issnan", "issnanall"):
        if kind == "issnanall":
            k = shard[1]
            for c in range(256):
                lo = (k * 256 + c) << 20
                b = np.arange(lo, lo + (1 << 20), dtype=np.uint32)
                r = ctx.call(u.issnan, b.view("f"))
                ctx.count(len(b), int(((b >> 23) & 255 == 255).sum()))
                if (r != snan(b, 23, 8)).any():
                    ctx.violation("issnan is wrong", f=u.issnan, args=(b.view("f")[r != snan(b, 23, 8)][:4],))
                    return
            return
        t = shard[0][-1]
        m, e, ut = dict(e=(10, 5, "H"), f=(23, 8, "I"), d=(52, 11, "L"))[t]
        b = np.arange(65536, dtype="H") if t == "e" else bits_of(m, e, ut)
        if t == "f":
            b = np.concatenate([b, np.arange(0, 1 << 32, 65521, dtype="I"), np.arange(0x7F800000, 0x7FFFFFFF, 257, dtype="I")])
        exp = snan(b.astype("L"), m, e)
        S.compare(ctx, u.issnan, [b.view(t)], exp, what=f"issnan {t}", lays=("contig", "strided", "reversed"), dtypes=["?"],
                  nontrivial=int(np.isnan(b.view(t)).sum()))
        ctx.sample(f"{len(b)} bit patterns of type {t}, {int(exp.sum())} signaling")
    elif kind == "n2n":
        v = vals(shard[1])
        x, r = S.product(v, v)
        exp = np.where(np.isnan(x), r, x)
        S.compare(ctx, u.nan_to_num, [x, r], exp, S.m_bits, what="nan_to_num", dtypes=[shard[1]], lays=("contig", "strided", "reversed"),
                  nontrivial=int(np.isnan(x).sum()))
        ctx.sample(f"all {len(x)} pairs of value and replacement")
    elif kind == "abs":
        t = shard[1]
        v = vals(t.lower())
        if t in "fdg":
            S.compare(ctx, u.abs_squared, [v], v * v, what="abs_squared " + t, dtypes=[t], lays=("contig", "strided", "reversed"))
            return
        v = v[~np.isnan(v)] if False else v
        a, b = S.product(v, v)
        z = np.empty(len(a), dtype=t)
        z.real, z.imag = a, b
        al, bl = a.astype(LD), b.astype(LD)
        e = al * al + bl * bl
        k = M.eps(t.lower())
        fi = np.finfo(t.lower())

        def mask(g, e):
            gl = g.astype(LD)
            over = np.isinf(gl) & (e >= LD(fi.max) * (1 - 4 * k))
            return (np.abs(gl - e) <= 4 * k * np.abs(e) + 4 * LD(fi.smallest_subnormal)) & np.isfinite(gl) | over | (gl == e) | (np.isnan(gl) & np.isnan(e))
        for f in (u.abs_squared, u.abssq):
            S.compare(ctx, f, [z], e, mask, what="abs_squared " + t, dtypes=[t.lower()], lays=("contig", "strided", "reversed"))
        # exact integers
        g = np.arange(-20, 21)
        p, q = S.product(g, g)
        S.compare(ctx, u.abs_squared, [(p + 1j * q).astype(t)], (p * p + q * q).astype(t.lower()), what="abs_squared " + t, dtypes=[t.lower()])
        ctx.sample("every pair of real and imaginary part over the alphabet, and all Gaussian integers with parts up to 20")
    elif kind == "hyp":
        t = shard[1]
        v = vals(t)
        x, y, z = S.product(v, v, v)
        X = [[M.tomp(c) for c in w] for w in (v,)][0]
        fin = np.isfinite(x) & np.isfinite(y) & np.isfinite(z)
        idx = {}
        e = np.empty(len(x), dtype=LD)
        n = len(v)
        for i, j, k in itertools.product(range(n), repeat=3):
            s = i * n * n + j * n + k
            if fin[s]:
                key = tuple(sorted((i, j, k)))
                if key not in idx:
                    idx[key] = M.told(M.mpmath.sqrt(X[i] ** 2 + X[j] ** 2 + X[k] ** 2))
                e[s] = idx[key]
            else:
                e[s] = np.inf if np.isinf([v[i], v[j], v[k]]).any() else np.nan
        S.compare(ctx, u.hypot3, [x, y, z], e, M.m_tol(4 * M.eps(t) * np.where(np.isfinite(e), e, 0)), what="hypot3 " + t, dtypes=[t],
                  lays=("contig", "strided", "reversed"), nontrivial=len(x))
        # Pythagorean quadruples
        g = np.arange(0, 34, dtype=t)
        a, b, c = S.product(g, g, g)
        sq = a * a + b * b + c * c
        q = np.sqrt(sq)
        ok = q == np.rint(q)
        S.compare(ctx, u.hypot3, [a[ok], b[ok], -c[ok]], q[ok], S.m_rel(2), what="hypot3 " + t, dtypes=[t])
        # the same triples at every scale, down to the smallest subnormal
        fi = np.finfo(t)
        ty = np.dtype(t).type
        w = np.array([(3, 4, 12), (1, 1, 1), (1, -2, 3), (5, 5, 0), (1, 1, 7), (1023, 1, 513)], dtype=LD)
        d = np.sqrt((w * w).sum(axis=1))
        for k in range(int(fi.minexp) - int(fi.nmant) - 2, int(fi.maxexp) - 9, 1 if t != "g" or ctx.thorough else 7):
            with np.errstate(all="ignore"):
                p = np.ldexp(w, k).astype(t)
                e = np.ldexp(d, k) if k > int(fi.minexp) else np.ldexp(np.sqrt((np.ldexp(p.astype(LD), -k) ** 2).sum(axis=1)), k)
            for q in itertools.permutations(range(3)) if k % 8 == 0 else ((0, 1, 2), (2, 1, 0)):
                a = [np.ascontiguousarray(p[:, j]) for j in q]
                S.compare(ctx, u.hypot3, a, e, M.m_tol(4 * M.eps(t) * e), what=f"hypot3 {t} scale 2**{k}", dtypes=[t], nontrivial=len(e))
        ctx.sample(f"all {len(x)} triples over the alphabet; 6 triples times every power of two")
    else:
        # a special value at every position of arrays of every length
        t = shard[1]
        sp = np.array([np.nan, np.inf, -7], dtype=t)
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            base = S.pseudo(n, t)
            X = S.spots(base, sp)
            fs = [(u.nan_to_num, [X, np.full(X.shape, 5, dtype=t)], np.where(np.isnan(X), 5, X).astype(t)),
                  (u.abs_squared, [X], X * X), (u.abs_squared, [(X + 1j * base).astype(t.upper())], None),
                  (u.abssq, [X], X * X), (u.abssq, [(X + 1j * base).astype(t.upper())], None),
                  (u.hypot3, [X, np.zeros_like(X), np.zeros_like(X)], np.abs(X))]
            for f, a, e in fs:
                if e is None:
                    z = a[0]
                    e = z.real * z.real + z.imag * z.imag
                S.compare(ctx, f, a, e, what=f"{f.__name__} n={n}", lays=("contig", "strided", "reversed"))
            # each combination of input and output strides
            for f, a, e in fs[1:5]:
                e = a[0].real ** 2 + a[0].imag ** 2
                for l in S.LAYS + ("reversed",):
                    for lo in S.LAYS + ("reversed",):
                        o = S.lay(np.full(X.shape, 99, dtype=t), lo)
                        g = ctx.call(f, S.lay(a[0], l), out=o)
                        ctx.count(1)
                        if g is not o or not S.m_same(o, e).all():
                            ctx.violation(f"{f.__name__} n={n} {l} to {lo}", f=f, args=tuple(a), got=o, exp=e)
                            return
            # single rows: the inner loop sees exactly n elements
            for r in range(0, len(X), max(1, len(X) // 3)):
                for f, a, e in fs[:2]:
                    for l in S.LAYS:
                        g = ctx.call(f, *[S.lay(q[r], l) for q in a])
                        ctx.count(1)
                        if not S.m_same(g, e[r]).all():
                            ctx.violation(f"{f.__name__} n={n} {l}", f=f, args=tuple(q[r] for q in a), got=g, exp=e[r])
                            return
            if ctx.full:
                return
