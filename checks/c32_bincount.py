"""C32: bincount, plain and weighted, as an accumulating state machine."""

import itertools

import numpy as np

from mc import seq as S
from mc.auto import Machine

PROP = "C32"
LEVEL = "model_checking"
RULE = ("one case = one x (and weights) x m x data types x memory layout x axis, or one history of calls that accumulate "
        "in one out array; non-trivial = some value is counted and the array or history has at least two elements")
ASSUMPTIONS = ["weights are exactly representable with exact sums", "m=None with an empty x is an error (np.max of nothing)",
               "bool and long double weights and an unsigned out are not promised"]
XT = list("bBhHiIlL")
WT = XT + list("fdFD")


def shards(tier):
    return ([["plain_" + t, t] for t in XT] + [[f"w_{t}", t] for t in XT] + [["long_" + t, t] for t in XT] +
            [["hist"], ["histw"], ["out"], ["axes"], ["errors"]])


def count(x, m, w=None, init=None, dtype=object):
    """Reference for rows: x (B, n) of python ints; w (B, n)."""
    B, n = x.shape
    r = np.zeros((B, m), dtype=dtype)
    if init is not None:
        r += init
    if n > 260:
        for b in range(B):
            i = x[b].astype(object)
            ok = np.array((i >= 0) & (i < m), dtype=bool)
            np.add.at(r[b], i[ok].astype(np.int64), 1 if w is None else w[b][ok])
        return r
    for k in range(m):
        h = x == k
        r[:, k] += h.sum(axis=1) if w is None else np.where(h, w, 0).sum(axis=1) if n else 0
    return r


def letters(t):
    i = np.iinfo(t)
    v = [0, 1, 2, 4, int(i.max), int(i.max) - 1]
    v += [-1, int(i.min)] if i.min < 0 else [int(i.max) // 2 + 1]
    return np.array(v, dtype=t)


def bad(ctx, u, what, a, kw, g, e):
    ctx.violation("bincount " + what, f=u.bincount, args=a, kw=kw, got=g, exp=e)


def same(g, e, dt):
    return isinstance(g, np.ndarray) and g.dtype == np.dtype(dt) and g.shape == e.shape and np.array_equal(g, e.astype(dt))


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    bc = u.bincount
    if kind == "plain":
        t = shard[1]
        a = letters(t)
        for L in range(0, 5 if ctx.thorough else 4):
            w = S.words(a, L)
            xo = w.astype(object)
            for m in (0, 1, 2, 3, 5, 7):
                e = count(xo, m).astype(np.intp)
                for l in S.LAYS + ("reversed", "fortran"):
                    x = S.lay(w, l)
                    g = ctx.call(bc, x, m)
                    nt = int((e.sum(axis=1) > 0).sum()) if L > 1 else 0
                    ctx.count(len(w), nt)
                    if not same(g, e, np.intp):
                        b = int(np.argmin((np.asarray(g) == e).all(axis=1))) if np.shape(g) == e.shape else 0
                        return bad(ctx, u, f"{t} ({l})", (S.lay(w, l)[b], m), None, np.asarray(g)[b], e[b])
            # default m, one sequence at a time
            if L:
                small = S.words(np.array([0, 1, 2, 5] + ([-1, -7] if t in "bhil" else []), dtype=t), L)
                for r in small:
                    m = max(int(r.max()) + 1, 0)
                    e = count(r[None].astype(object), m)[0]
                    g = ctx.call(bc, r)
                    ctx.count(1, int(L > 1))
                    if not same(g, e, np.intp):
                        return bad(ctx, u, f"{t} default m", (r,), None, g, e)
                e = count(small.astype(object), 6)
                g = ctx.call(bc, small)
                if not same(g, e, np.intp):
                    return bad(ctx, u, f"{t} default m, 2-d", (small,), None, g, e)
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}, m in 0..7")
    elif kind == "w":
        t = shard[1]
        a = letters(t)[[0, 1, 3, 4, 6]]
        for wt in WT:
            wa = np.array([1, 2, 5, 3] if np.dtype(wt).kind == "u" else [1, -2, 5, 3])
            wa = (wa * (0.25 - 0.5j)).astype(wt) if wt in "FD" else (wa * 0.25).astype(wt) if wt in "fd" else wa.astype(wt)
            for L in range(0, 4 if ctx.thorough else 3):
                X, W = S.product(S.words(a, L), S.words(wa[:3], L))
                for m in (0, 1, 2, 4, 6):
                    e = count(X.astype(object), m, W.astype(object))
                    e = e.astype(complex if wt in "FD" else wt).astype(wt) if m else np.zeros((len(X), 0), dtype=wt)
                    for l in S.LAYS + ("reversed",):
                        g = ctx.call(bc, S.lay(X, l), m, S.lay(W, l))
                        ctx.count(len(X), len(X) if L > 1 and m else 0)
                        if not same(g, e, wt):
                            b = int(np.argmin((np.asarray(g) == e).all(axis=1))) if np.shape(g) == e.shape else 0
                            return bad(ctx, u, f"{t} weights {wt} ({l})", (S.lay(X, l)[b], m, S.lay(W, l)[b]), None, np.asarray(g)[b], e[b])
                    g = ctx.call(bc, X, m, weights=S.lay(W, "strided"))
                    g2 = ctx.call(bc, S.lay(X, "strided"), m, weights=W)
                    ctx.count(2 * len(X))
                    if not (same(g, e, wt) and same(g2, e, wt)):
                        return bad(ctx, u, f"{t} weights {wt} of another layout", (X[0], m, W[0]), None, (g[0], g2[0]), e[0])
                    # added to what a given array of any layout holds
                    start = (np.arange(len(X) * m).reshape(len(X), m) % 7).astype(wt)
                    for l in S.LAYS + ("reversed", "fortran", "padded"):
                        o = S.lay(start.copy(), l)
                        g = ctx.call(bc, X, m, W, out=o)
                        ctx.count(len(X))
                        if g is not o or not same(o, (start + e).astype(wt), wt):
                            b = int(np.argmin((o == start + e).all(axis=1)))
                            return bad(ctx, u, f"{t} weights {wt}, out {l}", (X[b], m, W[b]), None, o[b], (start + e)[b])
            if wt in "fdFD":      # weights of every magnitude
                ft = wt.lower()
                for s in S.scales(ft, 4, 8):
                    W0 = S.words((wa[:3] / s.dtype.type(wa[0].real) * s).astype(wt), 2)
                    X, W = S.product(S.words(a[:3], 2), W0)
                    e = count(X.astype(object), 3, W, dtype=wt)
                    g = ctx.call(bc, X, 3, W)
                    ctx.count(len(X), len(X))
                    if not same(g, e, wt):
                        b = int(np.argmin((np.asarray(g) == e).all(axis=1))) if np.shape(g) == e.shape else 0
                        return bad(ctx, u, f"{t} weights {wt} times {s}", (X[b], 3, W[b]), None, np.asarray(g)[b], e[b])
        ctx.sample(f"{t}: all x over {a.tolist()} with all weights, 12 weight types, up to length {L}")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001):
            base = (np.abs(S.pseudo(n, "l")) % 9).astype(t)
            rows = S.spots(base, [3, 100, 0])[:: S.step(n, 10)] if n else np.zeros((2, 0), dtype=t)
            if n:        # one value only, and nearly so: one counter takes them all
                one = np.full((4, n), 2, dtype=t)
                one[1] = 0
                one[2, ::7], one[3, n // 2] = 1, 100
                rows = np.concatenate([rows, one])
            W = np.tile(S.pseudo(n, "d", 1) / 4, (len(rows), 1))
            for m in (3, 9, n + 1):
                e = count(rows.astype(object), m)
                ew = count(rows.astype(object), m, W, dtype=float)
                for l in S.LAYS + ("reversed",):
                    g = ctx.call(bc, S.lay(rows, l), m)
                    gw = ctx.call(bc, S.lay(rows, l), m, S.lay(W, l))
                    ctx.count(2 * len(rows), 2 * len(rows) if n > 1 else 0)
                    if not same(g, e, np.intp):
                        return bad(ctx, u, f"{t} n={n} ({l})", (S.lay(rows, l)[0], m), None, g[0], e[0])
                    if not same(gw, ew, "d"):
                        return bad(ctx, u, f"{t} n={n} weighted ({l})", (S.lay(rows, l)[0], m, S.lay(W, l)[0]), None, gw[0], ew[0])
            if ctx.full:
                return
    elif kind in ("hist", "histw"):
        # out accumulates: every history of calls, replayed against the state graph
        calls = [((), ()), ((0,), (1,)), ((1, 1), (2, -1)), ((2, 0, 5), (4, 0.5, 7)), ((-1, 2), (3, 1))]
        weighted = kind == "histw"

        def step(s, a):
            s = list(s)
            for k, w in zip(*a):
                if 0 <= k < 3:
                    s[k] += w if weighted else 1
            return tuple(s), tuple(s)
        D = 5 if ctx.thorough else 4
        M = Machine(step, [(0, 0, 0), (5, 0, 7)], calls, depth=D)
        ctx.graph(len(M.states), M.transitions)
        ots = list("lihbfdgFD") if not weighted else list("fdgFD")
        for L in range(1, D + 1):
            for path in itertools.product(range(len(calls)), repeat=L):
                for s0 in M.init:
                    vis = M.run(s0, np.array([path]))[0]
                    ot = ots[(sum(path) + L) % len(ots)] if L > 2 else None
                    for o in ([ot] if ot else ots):
                        for l in ("contig", "strided", "swapped") if L < 3 else ("contig", "strided"):
                            out = np.array(M.states[s0]).astype(o)
                            if l == "strided":
                                buf = np.full(7, 99, dtype=o)
                                buf[1::2] = out
                                out = buf[1::2]
                            elif l == "swapped":
                                out = out.astype(out.dtype.newbyteorder())
                            for i, c in enumerate(path):
                                k, w = calls[c]
                                a = (np.array(k, dtype=int), 3) + ((np.array(w, dtype=float).astype("F" if o in "FD" and i % 2 else "d" if o in "dgD" else "f"),) if weighted else ())
                                g = ctx.call(bc, *a, out=out)
                                ctx.count(1, int(L > 1))
                                e = np.array(M.states[vis[i]])
                                if g is not out or not np.array_equal(out, e.astype(o)):
                                    return bad(ctx, u, f"history {[calls[q] for q in path[:i + 1]]} with an out array of type {o} ({l})",
                                               a, dict(out=out), out, e)
                            if l == "strided" and not (buf[::2] == 99).all():
                                return bad(ctx, u, "wrote outside out", a, dict(out=out), buf, e)
                            ctx.graph(traces=1)
        ctx.sample(f"{len(M.states)} states, {M.transitions} transitions; all histories of up to {D} calls over {calls}")
    elif kind == "out":
        # overlap of out with x and weights
        for n in (1, 3, 6):
            for m in (3, 6):
                for off in range(-n - m, n + m + 1):
                    for t in "l":
                        buf = (np.arange(40) % 4).astype(t)
                        x, out = buf[15:15 + n], buf[15 + off:15 + off + m] if off + 15 >= 0 else None
                        if out is None or len(out) != m:
                            continue
                        e = count(x[None].astype(object), m, init=out.astype(object))[0]
                        g = ctx.call(bc, x, m, out=out)
                        ctx.count(1, 1)
                        if g is not out or not np.array_equal(out, e.astype(t)):
                            return bad(ctx, u, f"with out overlapping x by {off}", (np.arange(40)[15:15 + n] % 4, m), None, out.copy(), e)
                    buf = np.arange(40) / 4
                    x = (np.arange(n) * 2) % (m + 1)
                    w, out = buf[15:15 + n], buf[15 + off:15 + off + m]
                    e = count(x[None].astype(object), m, w[None].copy(), init=out.copy(), dtype=float)[0]
                    g = ctx.call(bc, x, m, w, out=out)
                    ctx.count(1, 1)
                    if g is not out or not np.array_equal(out, e):
                        return bad(ctx, u, f"with out overlapping weights by {off}", (x, m, (np.arange(40) / 4)[15:15 + n]), None, out.copy(), e)
        # misaligned out
        for o in "lid":
            raw = np.zeros(8 * 4 + 1, dtype=np.uint8)
            out = raw[1:1 + 4 * np.dtype(o).itemsize].view(o)
            for i in range(3):
                g = ctx.call(bc, np.array([0, 1, 1, 3]), 4, out=out)
                ctx.count(1, 1)
                if g is not out or out.tolist() != [i + 1, 2 * i + 2, 0, i + 1]:
                    return bad(ctx, u, "with a misaligned out", (np.array([0, 1, 1, 3]), 4), None, out, None)
    elif kind == "axes":
        # every axis of n-d arrays, broadcasting of weights against x
        for shape in ((3,), (2, 3), (3, 2), (2, 3, 2), (1, 3, 2), (0, 2), (2, 0), (2, 1, 2, 2)):
            x0 = (np.arange(int(np.prod(shape))).reshape(shape) * 5 % 4)
            for x, ax in ((x, ax) for x in (x0, -1 - x0, x0 + 7, x0 * 0, x0 * 0 + 3, x0 - 2) for ax in range(-x0.ndim, x0.ndim)):
                for m in (0, 2, 4, 5):
                    y = np.moveaxis(x, ax, -1)
                    B = int(np.prod(y.shape[:-1]))
                    e = np.moveaxis(count(y.reshape(B, y.shape[-1]).astype(object), m).reshape(y.shape[:-1] + (m,)).astype(np.intp), -1, ax)
                    g = ctx.call(bc, x, m, axis=ax)
                    out = np.ones(e.shape, dtype=np.int16)
                    h = ctx.call(bc, x, m, axis=ax, out=out)
                    ctx.count(2, 2 * int(x.ndim > 1))
                    if not same(g, e, np.intp) or h is not out or not np.array_equal(out, e + 1):
                        return bad(ctx, u, "axis", (x, m), dict(axis=ax), g, e)
                    w = (np.arange(x.size).reshape(shape) * 3 % 5) / 4 + 0.25
                    ws = [w]
                    if x.ndim > 1:
                        v = np.moveaxis(w, ax, -1)
                        ws.append(np.moveaxis(v[(slice(0, 1),) * (x.ndim - 1)], -1, ax))
                    for q in ws:
                        if q.size == 0 and x.size:
                            continue
                        z = np.moveaxis(np.broadcast_to(q, shape) if q.shape[ax] == shape[ax] else q, ax, -1)
                        if z.shape != y.shape:
                            continue
                        e = np.moveaxis(count(y.reshape(B, y.shape[-1]).astype(object), m, z.reshape(B, y.shape[-1]), dtype=float)
                                        .reshape(y.shape[:-1] + (m,)), -1, ax)
                        g = ctx.call(bc, x, m, q, axis=ax)
                        ctx.count(1, int(x.ndim > 1))
                        if not same(g, e, "d"):
                            return bad(ctx, u, "axis, weights", (x, m, q), dict(axis=ax), g, e)
            x = x0
            if x.size:
                # one-dimensional weights against n-d x and the other way round
                y = x.reshape(-1, shape[-1])
                w = np.arange(1, shape[-1] + 1) / 2
                e = count(y.astype(object), 4, np.tile(w, (len(y), 1)), dtype=float).reshape(shape[:-1] + (4,))
                g = ctx.call(bc, x, 4, w)
                k = (np.arange(shape[-1]) * 3) % 4
                W = np.arange(x.size).reshape(shape) / 2
                e2 = count(np.tile(k, (len(y), 1)).astype(object), 4, W.reshape(y.shape), dtype=float).reshape(shape[:-1] + (4,))
                g2 = ctx.call(bc, k, 4, W)
                ctx.count(2, 2)
                if not same(g, e, "d") or not same(g2, e2, "d"):
                    return bad(ctx, u, "broadcasting of weights", (x, 4, w), None, g, e)
    else:
        V = ValueError
        x = np.array([0, 1, 1])
        w = np.ones(3)
        T = Exception
        cases = [((x.astype(float),), {}, V), ((np.array([1, 2], dtype=object),), {}, V), ((np.array([True, False]),), {}, V),
                 ((np.array(["1"]),), {}, V), ((x, -1), {}, V), ((x, 1.5), {}, V), ((x, "2"), {}, V), ((x, 2.0), {}, V),
                 ((x, 3), dict(out=np.zeros(2)), V), ((x, 3), dict(out=np.zeros((1, 3))), V), ((x, 3), dict(axis=1), T),
                 ((x, 3), dict(axis=-2), T), ((x, 3, w), dict(axis=1), T), ((x, 3, w), dict(out=np.zeros(4)), V),
                 ((x, 3, np.ones(2)), {}, V), ((x, 3, np.array([1j, 2, 3])), dict(out=np.zeros(3)), TypeError),
                 ((x, 3, np.array(["a", "b", "c"])), {}, T), ((np.int64(3), 3), {}, T)]
        for m in (0, 1, 3, 5):      # out of a wrong shape, whatever m is and whatever x holds
            for y in (x, x * 0, x - 9, x + 9, x[:0]):
                for o in ((), (m + 1,), (max(m - 1, 0), m), (1, m), (m, 1)):
                    cases += [((y, m), dict(out=np.full(o, 7)), V), ((y, m, w[:len(y)]), dict(out=np.full(o, 7.0)), V)]
        for y in (x, x - 9):
            cases += [((y,), dict(out=np.full(3, 7)), V), ((y, None, w), dict(out=np.full(3, 7.0)), V)]
        for a, kw, exc in cases:
            before = kw["out"].copy() if "out" in kw else None
            r, e = ctx.attempt(bc, *a, **kw)
            ctx.count(1)
            if not isinstance(e, exc):
                ctx.violation(f"bincount: {exc.__name__} expected, got {type(e).__name__}", f=bc, args=a, kw=kw, got=r)
            if before is not None and not np.array_equal(before, kw["out"]):
                ctx.violation("bincount: a call that fails changed out", f=bc, args=a, kw=kw, got=kw["out"])
        for m in (np.int8(3), np.uint64(3), True, np.array(3)):
            g = ctx.call(bc, x, m)
            ctx.count(1)
            if g.tolist() != [1, 2, 0][: int(m)]:
                ctx.violation("bincount: m as another integer type", f=bc, args=(x, m), got=g)
        for t in XT:      # lists and python ints
            g = ctx.call(bc, x.astype(t).tolist(), 3)
            ctx.count(1)
            if g.tolist() != [1, 2, 0]:
                ctx.violation("bincount of a list", f=bc, args=(x.tolist(), 3), got=g)
        for wt in ("e", ">h", ">d", ">F", "b", "I"):      # the result has the type of the weights
            for wv in ([2, 3, 5], [2, 0, 1]):
                wa = np.array(wv, dtype=wt)
                g = ctx.call(bc, x, 3, wa)
                ctx.count(1)
                if g.dtype != wa.dtype or g.tolist() != [wv[0], wv[1] + wv[2], 0]:
                    ctx.violation(f"bincount with weights of type {wt}", f=bc, args=(x, 3, wa), got=g)
        # m from the largest value of x: large ones exhaust the memory or the index type; they do not wrap around
        for t in ("i", "I", "l", "L"):
            top = int(np.iinfo(t).max)
            for k in sorted({top, top - 1, 2**62 - 1, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**60, 2**31, 2**31 + 2, 2**32, 2**32 + 3}):
                if k > top:
                    continue
                for a in ((np.array([1, k, 1], dtype=t),), (np.array([1, k, 1], dtype=t), None, np.ones(3, dtype="b"))):
                    g, e = ctx.attempt(bc, *a)
                    ctx.count(1)
                    if e is not None:
                        ok = isinstance(e, (MemoryError, ValueError, OverflowError)) and (k > 2**32 or not isinstance(e, ValueError))
                    else:
                        ok = g.shape == (k + 1,) and g[1] == 2 and g[k] == 1 and not g[k - 1] and not g[2]
                    if not ok:
                        ctx.violation(f"bincount of a value of {k} ({t}), m not given", f=bc, args=a, got=None if g is None else g.shape if g.size > 99 else g)
                    del g
