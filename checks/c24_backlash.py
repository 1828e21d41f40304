"""C24: backlash and backlash_sum as state machines."""

import itertools

import numpy as np

from mc import seq as S
from mc.auto import Machine

PROP = "C24"
LEVEL = "model_checking"
RULE = ("one case = one input sequence x deadband x initial state x data type x memory layout, replayed against the "
        "explicit state graph of the operator; non-trivial = at least two inputs and a positive deadband")
ASSUMPTIONS = ["values are multiples of 1/4, so that the model is exact, or judged up to one rounding", "deadbands are not negative"]
X = [0, 4, -4, 10, 2, -7, 5]      # quarters


def machine(db, init, letters):
    """States and letters in quarters; db in quarters, even."""
    h = db // 2

    def step(y, x):
        if x - h > y:
            y = x - h
        elif x + h < y:
            y = x + h
        return y, y
    return Machine(step, init, letters)


def shards(tier):
    return [[f"one_{t}_{db}", t, db] for t in S.FLOATS for db in (0, 2, 4, 8, 14)] + \
        [[f"long_{t}", t] for t in S.FLOATS] + [[f"sum_{t}", t] for t in S.FLOATS] + [[f"weights_{t}", t] for t in S.FLOATS] + [[f"scale_{t}", t] for t in S.FLOATS] + \
        [[f"real_{t}", t] for t in S.FLOATS] + [["inf"]]


def reals(t):
    """Numbers with full mantissas, of many magnitudes."""
    t = np.dtype(t).type
    third, pi = t(1) / t(3), t(np.pi) + t(1.2246467991473532e-16)
    return np.array([third, -third, pi, -pi, t(1) + np.finfo(t).eps, t(1e-3) * pi, t(1e6) * third, -t(1e10) * pi,
                     np.finfo(t).max / t(64) * third, np.finfo(t).tiny * pi], dtype=t)


def play(x, db, ini):
    """The operator, in the type of the operands, row by row."""
    h = db / 2
    cur = ini.copy()
    y = np.empty_like(x)
    for k in range(x.shape[1]):
        c = x[:, k]
        cur = np.where(c - h > cur, c - h, np.where(c + h < cur, c + h, cur))
        y[:, k] = cur
    return y, cur


def near(scale, n):
    """A rounding of the type at the magnitude of the operands, n of them."""
    def f(got, exp):
        sc = scale.reshape((-1,) + (1,) * (got.ndim - 1))
        return (np.abs(got - exp) <= n * np.finfo(got.dtype).eps * sc) | (got == exp)
    return f


def real(ctx, u, t):
    """Operands that are not dyadic: each output is what the operator gives, up to a rounding of the type."""
    v = reals(t)
    for db in (t_ for t_ in (v[0], v[2], v[4], v[6], np.dtype(t).type(0))):
        for ini in (v[1], v[4], v[8]):
            for L in (1, 2, 3):
                x = S.words(v, L)
                n = len(x)
                D, I = np.full(n, db), np.full(n, ini)
                y, _ = play(x, D, I)
                sc = np.maximum(np.abs(x).max(axis=1), np.maximum(np.abs(D), np.abs(I)))
                S.compare(ctx, u.backlash, [x, D, I], y, near(sc, 1), what=f"backlash {t} reals", dtypes=[t])
                if L == 1:
                    # one step leaves the output alone, or exactly deadband/2 away
                    S.compare(ctx, u.backlash, [x, D, I], y, what=f"backlash {t} one step", dtypes=[t])
                ctx.graph(traces=n)
        if ctx.full:
            return
    v = v[:8]
    for m in (1, 2, 3):
        for k, (W, db, ini) in enumerate(zip(np.roll(S.words(v, m)[:: 1 + 8 ** (m - 1)], 1, axis=0), np.abs(S.words(v, m)[3:: 1 + 8 ** (m - 1)]),
                                              S.words(v, m)[5:: 1 + 8 ** (m - 1)])):
            x = S.words(v, 3)[k % 5:: 5]
            n = len(x)
            q = [np.tile(a, (n, 1)) for a in (W, db, ini)]
            ys = [play(x, q[1][:, j].copy(), q[2][:, j].copy()) for j in range(m)]
            y = sum((y_[0] * w for y_, w in zip(ys, W)), np.zeros(x.shape, dtype=t))
            fin = np.stack([y_[1] for y_ in ys], axis=1)
            sc = np.maximum(np.abs(x).max(axis=1), max(np.abs(db).max(), np.abs(ini).max()))
            S.compare(ctx, u.backlash_sum, [x] + q, (y.astype(t), fin.astype(t)), (near(sc * np.abs(W).sum(), 2 + m), near(sc, 1)),
                      what=f"backlash_sum {t} reals m={m}", dtypes=[t, t])
            ctx.graph(traces=n)


def scale(ctx, u, t):
    """Everything multiplied by a power of two, weights too; and values one or a few roundings apart: exact."""
    T = np.dtype(t).type
    x0 = S.words(np.array(X[:5]) / 4, 3).astype(t)
    n = len(x0)
    for s in S.scales(t, 12, 12):
        for db, ini in ((0, 0), (1, 0.75), (2, -0.25), (0.5, 3)):
            D, I = np.full(n, T(db) * s), np.full(n, T(ini) * s)
            y, cur = play(x0 * s, D, I)
            S.compare(ctx, u.backlash, [x0 * s, D, I], y, what=f"backlash {t} times {s}", dtypes=[t])
            for w in (T(1), T(-2), 1 / s):
                W = np.full((n, 1), w)
                S.compare(ctx, u.backlash_sum, [x0 * s, W, D[:, None], I[:, None]], (y * w, cur[:, None]),
                          what=f"backlash_sum {t} times {s}, weight {w}", dtypes=[t, t])
            for w in (s, s * 4, -s):      # a weight of any magnitude
                W = np.full((n, 1), w)
                y1, cur1 = play(x0, D / s, I / s)
                S.compare(ctx, u.backlash_sum, [x0, W, D[:, None] / s, I[:, None] / s], (y1 * w, cur1[:, None]),
                          what=f"backlash_sum {t}, weight {w}", dtypes=[t, t])
            ctx.graph(traces=14 * n)
            if ctx.full:
                return
        # neighbours: x - deadband/2 exceeds the state by a rounding
        one, k = s, np.arange(-3, 4)
        v = np.array([one * (1 + int(j) * np.finfo(t).eps) for j in k], dtype=t)
        for db in (T(0), 4 * np.finfo(t).eps * s, s):
            x = S.words(v, 3)
            D, I = np.full(len(x), db), np.full(len(x), v[3] - (db / 2 if db == s else 0))
            y, cur = play(x, D, I)
            S.compare(ctx, u.backlash, [x, D, I], y, what=f"backlash {t} neighbours of {s}", dtypes=[t])
            S.compare(ctx, u.backlash_sum, [x, np.ones((len(x), 1), dtype=t), D[:, None], I[:, None]], (y, cur[:, None]),
                      what=f"backlash_sum {t} neighbours of {s}", dtypes=[t, t])
            ctx.graph(traces=4 * len(x))


def weights(ctx, u, t):
    """Every choice of weights, also zero and equal ones: the states do not depend on them."""
    w1 = [0, 1, -2, 0.5]
    x = np.array(X)[S.words(np.arange(4), 3).astype(int)]
    n = len(x)
    for m in (1, 2, 3):
        for db, ini in ((([4, 8, 0][:m]), [0, 6, -3][:m]), ([8, 8, 8][:m], [0, 0, 0][:m])):
            ys = [play(x / 4, np.full(n, d / 4), np.full(n, i / 4)) for d, i in zip(db, ini)]
            fin = np.stack([f for _, f in ys], axis=1)
            for W in itertools.product(w1, repeat=m):
                y = sum(q * w for (q, _), w in zip(ys, W))
                a = [x / 4] + [np.tile(np.array(q, dtype=float).reshape(1, m) / r, (n, 1)) for q, r in ((W, 1), (db, 4), (ini, 4))]
                S.compare(ctx, u.backlash_sum, [q.astype(t) for q in a], ((y + np.zeros(x.shape)).astype(t), fin.astype(t)),
                          what=f"backlash_sum {t} weights {W}", dtypes=[t, t])
                ctx.graph(traces=n)
            if ctx.full:
                return


def run(shard, ctx):
    import ufunclab as u
    if shard[0].startswith("real"):
        return real(ctx, u, shard[1])
    if shard[0].startswith("scale"):
        return scale(ctx, u, shard[1])
    if shard[0].startswith("weights"):
        return weights(ctx, u, shard[1])
    kind = shard[0].split("_")[0]
    if kind == "one":
        t, db = shard[1:]
        M = machine(db, [0, 3, -20], X)
        ctx.graph(len(M.states), M.transitions)
        st = np.array(M.states)
        xs = np.array(X)
        # from the initial states: every path; from every reachable state: every path of length 3
        for starts, L in [(M.init, l) for l in range(0, 7 if ctx.thorough else 6)] + [(range(len(M.states)), 3)]:
            w = S.words(np.arange(len(X)), L)
            for s in starts:
                vis = M.run(s, w)
                n = len(w)
                S.compare(ctx, u.backlash, [(xs[w] / 4).astype(t).reshape(n, L), np.full(n, db / 4, dtype=t), np.full(n, st[s] / 4, dtype=t)],
                          (st[vis] / 4).astype(t).reshape(n, L), what=f"backlash {t}", dtypes=[t],
                          nontrivial=n if L > 1 and db else 0)
                ctx.graph(traces=2 * n)
        ctx.sample(f"{t} deadband {db / 4}: {len(M.states)} states, {M.transitions} transitions; every path up to length "
                   f"{6 if ctx.thorough else 5} from 3 states, of length 3 from every state")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            x = S.pseudo(n, "l")
            rows = S.spots(x, [60, -60])
            for db in (0, 6, 30):
                h = db // 2
                y = np.empty_like(rows)
                cur = np.full(len(rows), 5)
                for k in range(n):
                    cur = np.where(rows[:, k] - h > cur, rows[:, k] - h, np.where(rows[:, k] + h < cur, rows[:, k] + h, cur))
                    y[:, k] = cur
                m = len(rows)
                S.compare(ctx, u.backlash, [(rows / 4).astype(t), np.full(m, db / 4, dtype=t), np.full(m, 1.25, dtype=t)],
                          (y / 4).astype(t), what=f"backlash {t} n={n}", dtypes=[t], lays=("contig", "strided", "reversed"))
                ctx.graph(traces=3 * m)
            if ctx.full:
                return
    elif kind == "sum":
        t = shard[1]
        xs = np.array(X)
        dbs = [0, 4, 8, 14]
        for m in (0, 1, 2, 3):
            for db in itertools.product(dbs, repeat=m):
                inits = list(itertools.product([0, 6], repeat=m))
                for L in range(0, 5 if ctx.thorough else 4):
                    w = xs[S.words(np.arange(5), L).astype(int)]
                    W = [1, -2, 0.5][:m]
                    for ini in inits:
                        n = len(w)
                        cur = np.tile(np.array(ini, dtype=np.int64).reshape(1, m), (n, 1))
                        y = np.zeros((n, L))
                        hb = np.array(db, dtype=np.int64).reshape(1, m) // 2
                        for k in range(L):
                            x = w[:, k:k + 1]
                            cur = np.where(x - hb > cur, x - hb, np.where(x + hb < cur, x + hb, cur))
                            y[:, k] = (cur * np.array(W).reshape(1, m)).sum(axis=1)
                        a = [(w / 4), np.tile(np.array(W, dtype=float).reshape(1, m), (n, 1)),
                             np.tile(np.array(db, dtype=float).reshape(1, m) / 4, (n, 1)),
                             np.tile(np.array(ini, dtype=float).reshape(1, m) / 4, (n, 1))]
                        a = [q.astype(t) for q in a]
                        S.compare(ctx, u.backlash_sum, a, ((y / 4).astype(t), (cur / 4).astype(t)),
                                  what=f"backlash_sum {t} m={m}", dtypes=[t, t], nontrivial=n if m and L > 1 else 0)
                        ctx.graph(traces=2 * n)
                        # continuation: the final states are the initial states of the rest
                        for cut in range(1, L):
                            y1, f1 = ctx.call(u.backlash_sum, a[0][:, :cut], *a[1:])
                            y2, f2 = ctx.call(u.backlash_sum, a[0][:, cut:], a[1], a[2], f1)
                            ctx.count(n)
                            if not (np.array_equal(np.concatenate([y1, y2], axis=1), (y / 4).astype(t)) and
                                    np.array_equal(f2, (cur / 4).astype(t))):
                                ctx.violation("backlash_sum in two chunks differs from one call", f=u.backlash_sum,
                                              args=tuple(q[0] for q in a))
                                return
                if ctx.full:
                    return
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            for m in (1, 2, 5):
                rows = S.spots(S.pseudo(n, "l"), [60])[:: S.step(n, 8)]
                db = np.array([4, 12, 0, 30, 8])[:m]
                W = np.array([1.0, 0.5, -2, 4, 0.25])[:m]
                cur = np.tile(np.array([0, 8, -4, 100, 3])[:m], (len(rows), 1))
                ini = cur.copy()
                y = np.zeros(rows.shape)
                for k in range(n):
                    x = rows[:, k:k + 1]
                    cur = np.where(x - db // 2 > cur, x - db // 2, np.where(x + db // 2 < cur, x + db // 2, cur))
                    y[:, k] = (cur * W).sum(axis=1)
                B = len(rows)
                a = [(rows / 4).astype(t), np.tile(W, (B, 1)).astype(t), np.tile(db / 4, (B, 1)).astype(t), (ini / 4).astype(t)]
                S.compare(ctx, u.backlash_sum, a, ((y / 4).astype(t), (cur / 4).astype(t)), what=f"backlash_sum {t} n={n} m={m}",
                          dtypes=[t, t], lays=("contig", "strided", "reversed"))
                ctx.graph(traces=3 * B)
            if ctx.full:
                return
    else:
        # an infinite input drives the output to infinity, from where a finite one returns
        for t in S.FLOATS:
            x = np.array([0, np.inf, 1, -np.inf, 3, 3], dtype=t)
            e = np.array([0, np.inf, 2, -np.inf, 2, 2], dtype=t)
            S.compare(ctx, u.backlash, [x[None], np.full(1, 2, dtype=t), np.zeros(1, dtype=t)], e[None], what="backlash inf")
            # every sequence with infinities and nan; nothing is outside of the band for a nan
            v = np.array([0, 1, -3, np.inf, -np.inf, np.nan], dtype=t)
            for L in (1, 2, 3, 4):
                x = S.words(v, L)
                n = len(x)
                for db, ini in ((0, 0), (2, 1), (8, -1), (np.inf, 2), (1, np.inf), (1, -np.inf), (2, np.nan)):
                    D, I = np.full(n, db, dtype=t), np.full(n, ini, dtype=t)
                    y, cur = play(x, D, I)
                    S.compare(ctx, u.backlash, [x, D, I], y, what=f"backlash {t} special {db} {ini}", dtypes=[t])
                    S.compare(ctx, u.backlash_sum, [x, np.full((n, 1), 2, dtype=t), D[:, None], I[:, None]], (2 * y, cur[:, None]),
                              what=f"backlash_sum {t} special {db} {ini}", dtypes=[t, t])
                    ctx.graph(traces=2 * n)
            for n in (40, 300):
                x = np.tile(np.array([0, 1, -3, 2, 5, -1], dtype=t), (n, n // 6 + 1))[:, :n]
                x[np.arange(n), np.arange(n)] = np.nan
                D, I = np.full(n, 2, dtype=t), np.full(n, 1, dtype=t)
                S.compare(ctx, u.backlash, [x, D, I], play(x, D, I)[0], what=f"backlash {t} one nan", dtypes=[t])
