"""C33: convert_to_base."""

import itertools

import numpy as np

from mc import seq as S

PROP = "C33"
LEVEL = "exploration"
RULE = ("one case = one k x base x number of digits x data types x axis or layout, against Python's integers; non-trivial = "
        "at least two digits are not zero")
ASSUMPTIONS = ["digits representable in the output (the default output type is int)", "negative k or base follow C's "
               "truncating division, so that sum(d[i]*base**i) = k still holds; base 0 and -1 give zeros"]
T = list("bBhHiIlL")


def shards(tier):
    return [["small"]] + [["all8_" + t, t] for t in "bB"] + [["ext_" + t, t] for t in T] + [["mixed"], ["axes"], ["errors"], ["digits"]]


def digits(k, b, n):
    r = []
    for _ in range(n):
        if b in (0, -1):
            r.append(0)
            continue
        q = abs(k) // abs(b)
        if (k < 0) != (b < 0):
            q = -q
        r.append(k - q * b)
        k = q
    return r


def table(ks, bs, n):
    return np.array([digits(int(k), int(b), n) for k, b in zip(ks, bs)], dtype=object).reshape(len(ks), n)


def judge(ctx, u, ks, bs, n, what, out=None, lays=("contig",)):
    e = table(ks, bs, n)
    nt = int(((e != 0).sum(axis=1) > 1).sum())
    for l in lays:
        kw = {}
        if out is not None:
            kw["out"] = S.lay(np.full((len(ks), n), 77).astype(out), l)
        g = ctx.call(u.convert_to_base, S.lay(ks, l), S.lay(bs, l), n, **kw)
        ctx.count(len(ks), nt)
        if g.dtype != np.dtype(out or int) or g.shape != e.shape or ("out" in kw and g is not kw["out"]):
            ctx.violation(f"convert_to_base {what}: type {g.dtype}, shape {g.shape}", f=u.convert_to_base, args=(ks[:2], bs[:2], n))
            return False
        ok = (g.astype(object) == e).all(axis=1) if n else np.ones(len(ks), dtype=bool)
        if not ok.all():
            b = int(np.argmin(ok))
            ctx.violation(f"convert_to_base {what} ({l}): wrong digits", f=u.convert_to_base, args=(ks[b], bs[b], n), got=g[b], exp=e[b])
            return False
    return True


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind = shard[0].split("_")[0]
    if kind == "small":
        K = np.arange(-130 if not ctx.thorough else -1100, 131 if not ctx.thorough else 1101)
        B = np.arange(-17, 38)
        ks, bs = S.product(K, B)
        for n in range(0, 9 if ctx.thorough else 7):
            judge(ctx, u, ks, bs, n, f"n={n}", lays=S.LAYS + ("reversed",))
        ctx.sample(f"all k in {K[0]}..{K[-1]}, all bases in -17..37, 0-8 digits")
    elif kind == "all8":
        t = shard[1]
        v = np.arange(256).astype(np.uint8).view(t)
        ks, bs = S.product(v, v)
        for n in (1, 3, 8):
            judge(ctx, u, ks, bs, n, f"all pairs of {v.dtype}, n={n}")
            judge(ctx, u, ks, bs, n, f"all pairs of {v.dtype}, n={n}, out", out=v.dtype.char)
    elif kind == "ext":
        t = shard[1]
        i = np.iinfo(t)
        lo, hi = int(i.min), int(i.max)
        K = sorted({lo, lo + 1, lo // 2, -1, 0, 1, 2, 12345 % (hi + 1), hi // 2, hi // 2 + 1, hi - 1, hi} & set(range(lo, lo + 1)) |
                   {k for k in (lo, lo + 1, lo // 2, -1, 0, 1, 2, 99, hi // 3, hi // 2, hi // 2 + 1, hi - 1, hi) if lo <= k <= hi})
        B = [b for b in (lo, lo + 1, -10, -2, -1, 0, 1, 2, 3, 7, 10, 16, 100, hi // 2 + 1, hi - 1, hi) if lo <= b <= hi]
        ks, bs = S.product(np.array(K, dtype=object), np.array(B, dtype=object))
        e = table(ks, bs, 70)
        keep = (np.abs(e) < 2**63).all(axis=1)
        ks, bs = ks[keep].astype(t), bs[keep].astype(t)
        for n in (1, 2, 7, 20, 66):
            judge(ctx, u, ks, bs, n, f"{t} n={n}", lays=S.LAYS)
            judge(ctx, u, ks, bs, n, f"{t} n={n}, out", out=t, lays=S.LAYS + ("reversed",))
        ctx.sample(f"{t}: k in {K}, base in {B}")
    elif kind == "digits":
        # every value round-trips: the digits, read back, give k (modulo base**n)
        for b in (2, 3, 5, 10, 16, 36, 97, 1000):
            k = np.array([(7**j * 13 + j) % 2**62 for j in range(60)] + list(range(200)))
            for n in range(1, 40 if ctx.thorough else 24):
                g = ctx.call(u.convert_to_base, k, b, n).astype(object)
                s = sum(g[:, i] * b**i for i in range(n))
                ctx.count(len(k), len(k))
                ok = np.array([int(x) % b**n == int(q) for x, q in zip(k, s)]) & ((g >= 0) & (g < b)).all(axis=1)
                if not ok.all():
                    j = int(np.argmin(ok))
                    ctx.violation("convert_to_base: the digits do not add up to k", f=u.convert_to_base, args=(k[j], b, n), got=g[j])
                    return
    elif kind == "mixed":
        for a, b in itertools.product(T, repeat=2):
            if "L" in (a, b) and (a in "bhil" or b in "bhil"):
                continue        # no common integer type
            ks, bs = S.product(np.array([0, 1, 99, 127, 64]).astype(a), np.array([2, 3, 10, 100, 127]).astype(b))
            judge(ctx, u, ks, bs, 8, f"{a},{b}")
            for o in "bhilfdgFD":
                if np.can_cast(np.result_type(a, b), o, "same_kind"):
                    judge(ctx, u, ks, bs, 8, f"{a},{b}->{o}", out=o)
        # Python integers and lists
        for k, b, n in itertools.product((0, 5, 1249, 2**40), (2, 8, 10), (0, 1, 4, 50)):
            g = ctx.call(u.convert_to_base, k, b, n)
            g2 = ctx.call(u.convert_to_base, [k, k + 1], b, n)
            ctx.count(3, 1)
            if g.tolist() != digits(k, b, n) or g2.tolist() != [digits(k, b, n), digits(k + 1, b, n)]:
                ctx.violation("convert_to_base of Python integers", f=u.convert_to_base, args=(k, b, n), got=g)
                return
    elif kind == "axes":
        for ks, bs in (((), ()), ((3,), ()), ((), (2,)), ((3,), (3,)), ((3,), (2, 1)), ((2, 1, 3), (4, 1)), ((0,), ()), ((2, 3), (2, 3))):
            k = np.arange(int(np.prod(ks))).reshape(ks) * 7 + 11
            b = np.arange(int(np.prod(bs))).reshape(bs) + 3
            nd = max(k.ndim, b.ndim)
            for n, bk, bb, k, b in ((n, *np.broadcast_arrays(i, j), i, j) for n in (0, 1, 4) for i, j in ((k, b), (k * 0, b), (-k, b), (k, b * 0 + 2), (k, b * 0 + 10), (k * 0 + 5, -b), (k * 0 + 1, b))):
                e = table(bk.ravel(), bb.ravel(), n).reshape(bk.shape + (n,)).astype(int)
                for ax in range(-nd - 1, nd + 1):
                    ea = np.moveaxis(e, -1, ax)
                    g = ctx.call(u.convert_to_base, k, b, n, axis=ax)
                    out = np.full(ea.shape, -9)
                    h = ctx.call(u.convert_to_base, k, b, n, axis=ax, out=out)
                    ctx.count(2, int(n > 1) * 2)
                    if g.shape != ea.shape or not np.array_equal(g, ea) or h is not out or not np.array_equal(out, ea):
                        ctx.violation(f"convert_to_base: wrong with axis={ax}", f=u.convert_to_base, args=(k, b, n), kw=dict(axis=ax), got=g, exp=ea)
                        return
    else:
        AE = getattr(np, "exceptions", np).AxisError
        a = np.arange(3)
        for args, kw, exc in (((a, 2, 1.5), {}, ValueError), ((a, 2, "3"), {}, ValueError), ((a, 2, None), {}, ValueError),
                              ((a, 2, -1), {}, ValueError), ((a, 2, 3), dict(axis=2), AE), ((a, 2, 3), dict(axis=-3), AE),
                              ((a, 2, 3), dict(out=np.zeros((3, 4), dtype=int)), ValueError),
                              ((a, 2, 3), dict(out=np.zeros(3, dtype=int)), ValueError),
                              ((a, np.arange(2), 3), {}, ValueError), ((a * 1.0, 2, 3), {}, TypeError),
                              ((a, 2.5, 3), {}, TypeError), ((a, 2, np.float64(3)), {}, ValueError)):
            r, e = ctx.attempt(u.convert_to_base, *args, **kw)
            ctx.count(1)
            if not isinstance(e, exc):
                ctx.violation(f"convert_to_base: {exc.__name__} expected, got {type(e).__name__}", f=u.convert_to_base, args=args, kw=kw, got=r)
        for n in (np.int8(3), np.uint64(3), np.array(3)):
            g = ctx.call(u.convert_to_base, 5, 2, n)
            ctx.count(1)
            if g.tolist() != [1, 0, 1]:
                ctx.violation("convert_to_base: ndigits of another integer type", f=u.convert_to_base, args=(5, 2, n), got=g)
