"""C34: one_hot."""

import numpy as np

from mc import seq as S

PROP = "C34"
LEVEL = "exploration"
RULE = "one case = one k x n x data type x axis or layout; non-trivial = k is in the range and n > 1"
ASSUMPTIONS = ["an out array of any numeric type"]
T = list("bBhHiIlL")


def shards(tier):
    return [["n_" + t, t] for t in T] + [["axes"], ["errors"]]


def ref(k, n):
    return np.array([[int(i == int(q)) for i in range(n)] for q in k]).reshape(len(k), n)


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    f = u.one_hot
    if kind == "n":
        t = shard[1]
        i = np.iinfo(t)
        for n in list(range(0, 71 if not ctx.thorough else 140)) + [127, 128, 129, 255, 256, 257, 1000]:
            ks = sorted({q for q in [int(i.min), int(i.max), -n, -1, 2**31, 2**32, -2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1] + list(range(-2, n + 3))
                                 if i.min <= q <= i.max})
            if n > 140:
                ks = ks[:: 9] + [ks[-1]]
            e = ref(ks, n)
            k = np.array(ks, dtype=t)
            for l in S.LAYS + ("reversed", "fortran"):
                g = ctx.call(f, S.lay(k, l), n)
                nt = int(e.sum()) if n > 1 else 0
                ctx.count(len(k), nt)
                out = S.lay(np.full(e.shape, 5, dtype=np.intp), l)
                h = ctx.call(f, S.lay(k, l), n, out=out)
                ctx.count(len(k), nt)
                if g.dtype != k.dtype or not np.array_equal(g, e) or h is not out or not np.array_equal(h, e):
                    ctx.violation(f"one_hot {t} n={n} ({l}): wrong result", f=f, args=(k, n), got=g, exp=e)
                    return
            for o in "bhilBHILfdFD?":
                out = np.full(e.shape, 9, dtype=o)
                h = ctx.call(f, k, n, out=out)
                ctx.count(len(k))
                if h is not out or not np.array_equal(h, e):
                    ctx.violation(f"one_hot {t} n={n} out={o}: wrong result", f=f, args=(k, n), got=h, exp=e)
                    return
        ctx.sample(f"{t}: every k in -2..n+2 and the extremes, for every n up to 70 (140) and a menu to 1000")
    elif kind == "axes":
        for shape in ((), (1,), (4,), (2, 3), (3, 1, 2), (0,), (2, 0)):
            k0 = (np.arange(int(np.prod(shape))).reshape(shape) * 3 - 2) % 7 - 1
            # all kinds of values; all negative, all beyond the end, all the same, all in the range
            for n, k in ((n, k) for n in (0, 1, 3, 5) for k in (k0, -1 - abs(k0), k0 + 9, k0 * 0, k0 * 0 + n - 1, abs(k0) % max(n, 1), k0 * 0 + n)):
                e = ref(k.ravel(), n).reshape(shape + (n,))
                for ax in range(-len(shape) - 1, len(shape) + 1):
                    ea = np.moveaxis(e, -1, ax)
                    g = ctx.call(f, k, n, axis=ax)
                    out = np.full(ea.shape, 7)
                    h = ctx.call(f, k, n, axis=ax, out=out)
                    ctx.count(2, 2 if n > 1 else 0)
                    if g.shape != ea.shape or not np.array_equal(g, ea) or h is not out or not np.array_equal(out, ea):
                        ctx.violation(f"one_hot: wrong with axis={ax}", f=f, args=(k, n), kw=dict(axis=ax), got=g, exp=ea)
                        return
        for k in (0, 2, 7, -1, True and 1):
            g = ctx.call(f, k, 4)
            g2 = ctx.call(f, [k, 1], 4)
            ctx.count(3)
            if g.tolist() != ref([k], 4)[0].tolist() or g2.tolist() != ref([k, 1], 4).tolist():
                ctx.violation("one_hot of Python integers", f=f, args=(k, 4), got=g)
    else:
        AE = getattr(np, "exceptions", np).AxisError
        a = np.arange(3)
        for args, kw, exc in (((a, 1.5), {}, ValueError), ((a, "3"), {}, ValueError), ((a, None), {}, ValueError), ((a, -1), {}, ValueError),
                              ((a * 1.0, 3), {}, ValueError), ((np.array([True]), 3), {}, ValueError), ((np.array([1], dtype=object), 3), {}, ValueError),
                              ((a, 3), dict(axis=2), AE), ((a, 3), dict(axis=-3), AE),
                              ((a, 3), dict(out=np.zeros((3, 4), dtype=int)), ValueError), ((a, 3), dict(out=np.zeros(9, dtype=int)), ValueError)):
            r, e = ctx.attempt(f, *args, **kw)
            ctx.count(1)
            if not isinstance(e, exc):
                ctx.violation(f"one_hot: {exc.__name__} expected, got {type(e).__name__}", f=f, args=args, kw=kw, got=r)
        for n in (np.int8(3), np.uint64(3), np.array(3)):
            g = ctx.call(f, 1, n)
            ctx.count(1)
            if g.tolist() != [0, 1, 0]:
                ctx.violation("one_hot: n of another integer type", f=f, args=(1, n), got=g)
