"""C35: next_less, next_greater, nextn_less, nextn_greater as walks on the number line."""

import numpy as np

from mc import seq as S

PROP = "C35"
LEVEL = "model_checking"
RULE = ("one case = one floating point number x direction (one transition of the successor graph), or a walk of n steps; "
        "non-trivial = the number is finite")
ASSUMPTIONS = ["the successor is computed on the ordered integer representation of the number (80-bit long double: sign, "
               "exponent and explicit leading bit)", "next of nan is nan"]


def shards(tier):
    k = 64 if tier == "thorough" else 1
    return [[f"f32_{i}", i, k] for i in range(k)] + [["d"], ["g"]] + [["n_" + t, t] for t in S.FLOATS] + [["axes"], ["errors"]]


def succ(x):
    """The next greater number, by counting through the bit patterns; f, d."""
    it = {"f": np.int32, "d": np.int64}[x.dtype.char]
    i = x.view(it).copy()
    pos = i >= 0
    one = it(1)
    r = np.where(pos, i + one, i - one)
    r = np.where(x == 0, one, r)
    y = r.astype(it).view(x.dtype)
    return np.where(np.isnan(x), x, np.where(np.isposinf(x), x, y)).astype(x.dtype)


def succ_g(v):
    """Exact successor of an 80-bit long double via scaled arithmetic."""
    x = np.longdouble(v)
    if np.isnan(x) or x == np.inf:
        return x
    fi = np.finfo(np.longdouble)
    if x == 0:
        return fi.smallest_subnormal
    if x == -np.inf:
        return fi.min
    m, e = np.frexp(x)
    ulp = np.ldexp(np.longdouble(1), max(int(e) - 64, int(fi.minexp) - 63))
    if x < 0 and m == -0.5 and int(e) - 65 >= int(fi.minexp) - 63:
        ulp = np.ldexp(np.longdouble(1), int(e) - 65)
    with np.errstate(all="ignore"):
        return x + ulp


def corner(t):
    fi = np.finfo(t)
    d = np.dtype(t).type
    v = [d(0), -d(0), d(1), d(2), d(np.inf), d(np.nan), fi.max, fi.tiny, fi.smallest_subnormal, d(0.5), d(3), d(10)]
    for e in range(int(fi.minexp) - fi.nmant, int(fi.maxexp), 1 if t == "f" else 13 if t == "d" else 211):
        v.append(np.ldexp(d(1), e))
    with np.errstate(all="ignore"):
        v = v + [q * (1 + fi.eps) for q in v] + [q * (1 - fi.eps) for q in v] + [q * (2 - fi.eps) for q in v]
    v = v + [-q for q in v]
    return np.array(v, dtype=t)


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind = shard[0].split("_")[0]

    def one(x, up, down, what):
        for f, e in ((u.next_greater, up), (u.next_less, down)):
            g = ctx.call(f, x)
            ok = S.m_bits(g, e) | ((g == 0) & (e == 0))
            ctx.count(len(x), int(np.isfinite(x).sum()))
            ctx.graph(transitions=len(x), traces=len(x))
            if g.dtype != x.dtype or not ok.all():
                b = int(np.argmin(ok))
                ctx.violation(f"{f.__name__} {what}", f=f, args=(x[b],), got=g[b], exp=e[b])
                return
    if kind == "f32":
        # transitions of the successor graph of float32: all of them in the thorough tier
        i, k = shard[1:]
        if k == 1:
            bits = (np.arange(2**19, dtype=np.uint64) * 8191 + 5) % 2**32
            edge = np.concatenate([np.arange(0, 600), 0x7f800000 + np.arange(-300, 300), 0x80000000 + np.arange(-300, 300),
                                   0xff800000 + np.arange(-300, 300), 2**32 + np.arange(-300, 0)]).astype(np.uint64)
            bits = np.concatenate([bits, edge])
            blocks = [bits]
        else:
            n = 2**32 // k
            blocks = [np.arange(i * n + j, i * n + j + 2**20, dtype=np.uint64) for j in range(0, n, 2**20)]
        for b in blocks:
            x = b.astype(np.uint32).view(np.float32)
            one(x, succ(x), -succ(-x), "float32")
            ctx.graph(len(x))
            if ctx.full:
                return
            ctx.tick("float32")
        ctx.sample("float32: " + ("every number" if k > 1 else "every 8191st number, and all near the ends"))
    elif kind == "d":
        x = corner("d")
        x = np.concatenate([x, succ(x), -succ(-x)])
        one(x, succ(x), -succ(-x), "float64")
        b = (np.arange(2**17, dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15))
        x = b.view(np.float64)
        one(x, succ(x), -succ(-x), "float64")
        ctx.graph(len(x))
    elif kind == "g":
        x = corner("g")
        up = np.array([succ_g(v) for v in x], dtype="g")
        dn = np.array([-succ_g(-v) for v in x], dtype="g")
        one(x, up, dn, "long double")
        x = np.concatenate([up, dn])
        one(x, np.array([succ_g(v) for v in x], dtype="g"), np.array([-succ_g(-v) for v in x], dtype="g"), "long double")
        ctx.graph(len(x))
    elif kind == "n":
        t = shard[1]
        x = corner(t)[:: 1 if t == "f" or ctx.thorough else 3]
        sc = succ if t != "g" else (lambda a: np.array([succ_g(v) for v in a], dtype="g"))
        for f, s in ((u.nextn_greater, 1), (u.nextn_less, -1)):
            w, steps = x, []
            for _ in range(40 if ctx.thorough else 12):
                w = s * sc(s * w)
                steps.append(w)
            e = np.stack(steps, axis=1)
            for n in range(0, e.shape[1] + 1):
                for l in S.LAYS + ("reversed",):
                    g = ctx.call(f, S.lay(x, l), n)
                    out = S.lay(np.full((len(x), n), 7, dtype=t), l)
                    h = ctx.call(f, S.lay(x, l), n, out=out)
                    ctx.count(2 * len(x), 2 * int(np.isfinite(x).sum()) if n else 0)
                    ctx.graph(transitions=2 * n * len(x), traces=2 * len(x))
                    ok = S.row_mask(S.m_same(g, e[:, :n]) & S.m_same(h, e[:, :n]), len(x)) if g.shape == (len(x), n) else np.zeros(1, dtype=bool)
                    if g.dtype != x.dtype or h is not out or not ok.all():
                        b = int(np.argmin(ok))
                        ctx.violation(f"{f.__name__} {t} n={n} ({l})", f=f, args=(x[b], n), got=g[b], exp=e[b, :n])
                        return
        ctx.graph(len(x))
    elif kind == "axes":
        for f, s in ((u.nextn_greater, 1), (u.nextn_less, -1)):
            for t in S.FLOATS:
                for shape in ((), (3,), (2, 3), (0,), (2, 1, 2)):
                    x0 = (np.arange(int(np.prod(shape))).reshape(shape) - 1.5).astype(t)
                    for n, x in ((n, x) for n in (0, 1, 3) for x in (x0, x0 * 0, x0 * 0 + np.dtype(t).type(1), np.where(x0 > 0, x0, np.dtype(t).type(-np.inf)), x0 * 0 + np.dtype(t).type(np.inf))):
                        e = np.empty(shape + (n,), dtype=t)
                        w = x
                        for i in range(n):
                            w = np.nextafter(w, np.dtype(t).type(s * np.inf))
                            e[..., i] = w
                        for ax in range(-len(shape) - 1, len(shape) + 1):
                            ea = np.moveaxis(e, -1, ax)
                            g = ctx.call(f, x, n, axis=ax)
                            out = np.zeros(ea.shape, dtype=t)
                            h = ctx.call(f, x, n, axis=ax, out=out)
                            ctx.count(2, 2 if n else 0)
                            if g.shape != ea.shape or g.dtype != np.dtype(t) or not np.array_equal(g, ea) or h is not out or not np.array_equal(h, ea):
                                ctx.violation(f"{f.__name__} with axis={ax}", f=f, args=(x, n), kw=dict(axis=ax), got=g, exp=ea)
                                return
    else:
        AE = getattr(np, "exceptions", np).AxisError
        a = np.arange(3.0)
        for f in (u.nextn_greater, u.nextn_less):
            for args, kw, exc in (((np.arange(3), 2), {}, ValueError), ((a.astype(np.float16), 2), {}, ValueError), ((a + 1j, 2), {}, ValueError),
                                  ((a, 1.5), {}, ValueError), ((a, "2"), {}, ValueError), ((a, -1), {}, ValueError), ((a, None), {}, ValueError),
                                  ((a, 2), dict(axis=2), AE), ((a, 2), dict(axis=-3), AE), ((a, 2), dict(out=np.zeros((3, 3))), ValueError),
                                  ((a, 2), dict(out=np.zeros(6)), ValueError)):
                r, e = ctx.attempt(f, *args, **kw)
                ctx.count(1)
                if not isinstance(e, exc):
                    ctx.violation(f"{f.__name__}: {exc.__name__} expected, got {type(e).__name__}", f=f, args=args, kw=kw, got=r)
