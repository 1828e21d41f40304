"""C28: sosfilter, sosfilter_ic, sosfilter_ic_contig as linear state machines."""

import itertools
from fractions import Fraction

import numpy as np

from mc import seq as S
from mc.auto import Machine

PROP = "C28"
LEVEL = "model_checking"
RULE = ("one case = one filter x input sequence x initial state x data type x memory layout, replayed against the explicit "
        "state graph of the filter; non-trivial = at least one section and two inputs")
ASSUMPTIONS = ["coefficients and inputs are dyadic, so that the model is exact", "a0 is 1 (the functions assume it)",
               "sosfilter_ic_contig is only promised for contiguous arrays"]
COEF = [(1, 0, 0, 1, 0, 0), (0.5, 1, 0, 1, 0, 0), (1, -1, 0.5, 1, 0.5, 0), (0, 0, 1, 1, 0, -0.5), (2, 0, -1, 1, -1, 1),
        (1, 2, 4, 1, 0.5, -1), (0, 0, 0, 1, -0.5, 0.5)]


def cascade(sos):
    def step(state, x):
        z = []
        for (b0, b1, b2, _, a1, a2), (z0, z1) in zip(sos, state):
            y = b0 * x + z0
            z.append((z1 + b1 * x - a1 * y, b2 * x - a2 * y))
            x = y
        return tuple(z), x
    return step


def shards(tier):
    N = len(COEF)
    fs = [()] + [(i,) for i in range(N)] + list(itertools.product(range(N), repeat=2))
    if tier == "thorough":
        fs += list(itertools.product(range(1, N), repeat=3))
    else:
        fs += [(0, 6, 0), (1, 2, 4), (4, 4, 3), (2, 5, 1), (3, 2, 2)]
    return [[f"path_{i}", fs[i::8]] for i in range(8)] + [["long_" + t, t] for t in S.FLOATS] + [["real_" + t, t] for t in S.FLOATS] + \
        [["scale_" + t, t] for t in S.FLOATS]


def real(ctx, u, t):
    """Coefficients and inputs with full mantissas against exact rational arithmetic."""
    T = np.dtype(t).type
    th, pi = T(1) / T(3), T(np.pi) + T(1.2246467991473532e-16)
    coef = [(th, -pi / 2, th * th, T(1), -th, th / 4), (pi, T(1) / pi, T(-0.1), T(1), T(0.7), T(-0.15)), (T(0.3), T(0), pi / 7, T(1), -pi / 4, T(0.6))]
    eps = np.finfo(t).eps
    for m in (1, 2, 3):
        for f in itertools.product(range(3), repeat=m):
            sos = np.array([coef[i] for i in f], dtype=t)
            x = np.concatenate([S.words(np.array([pi, -th, T(1e-4) / 3], dtype=t), 2),
                                S.words(np.array([th, T(1e3) * pi], dtype=t), 4 if m < 3 else 3)[:, :2]])
            x = np.concatenate([x, x[::-1], -x / 7], axis=1)
            n = len(x)
            zi = np.array([[pi / (k + 2), -th / (k + 1)] for k in range(m)], dtype=t)
            for z0 in (np.zeros((m, 2), dtype=t), zi):
                Y, Z, YA, ZA = exact(sos, x, z0)
                s, z = np.tile(sos[None], (n, 1, 1)), np.tile(z0[None], (n, 1, 1))

                def ok(B, k=16 * (m + x.shape[1])):
                    return lambda g, e: np.abs(g.astype(np.longdouble) - e) <= k * eps * B
                ms = (ok(YA), ok(ZA))
                E = (Y.astype(t), Z.astype(t))
                S.compare(ctx, u.sosfilter_ic, [s, x, z], E, ms, what=f"sosfilter_ic {t} reals {f}", dtypes=[t, t])
                S.compare(ctx, u.sosfilter_ic_contig, [s, x, z], E, ms, what=f"sosfilter_ic_contig {t} reals {f}", dtypes=[t, t], mix=False,
                          lays=("contig",))
                if not z0.any():
                    S.compare(ctx, u.sosfilter, [s, x], E[0], ms[0], what=f"sosfilter {t} reals {f}", dtypes=[t])
                ctx.graph(traces=3 * n)
            if ctx.full:
                return


def scale(ctx, u, t):
    """The exact filters with the input and the states multiplied by powers of two over the whole range of the type."""
    for f in [(i,) for i in range(len(COEF))] + [(1, 2), (4, 3), (5, 1)]:
        m = len(f)
        sos = [COEF[i] for i in f]
        M = cascade(sos)
        w = S.words(np.array([1.0, 0.0, -2.0]), 4)
        n = len(w)
        for ini in (tuple((0.0, 0.0) for _ in f), tuple((1.0 + k, -0.5) for k in range(m))):
            y, zf = np.empty((n, 4)), np.empty((n, m, 2))
            for r in range(n):
                st = ini
                for k in range(4):
                    st, y[r, k] = M(st, w[r, k])
                zf[r] = st
            for s in S.scales(t, 40, 40):
                SO = np.tile(np.array(sos)[None], (n, 1, 1)).astype(t)
                Xs, Z0, Y, ZF = w.astype(t) * s, np.tile(np.array(ini)[None], (n, 1, 1)).astype(t) * s, y.astype(t) * s, zf.astype(t) * s
                S.compare(ctx, u.sosfilter_ic, [SO, Xs, Z0], (Y, ZF), what=f"sosfilter_ic {t} times {s}", dtypes=[t, t])
                S.compare(ctx, u.sosfilter_ic_contig, [SO, Xs, Z0], (Y, ZF), what=f"sosfilter_ic_contig {t} times {s}", dtypes=[t, t], mix=False, lays=("contig",))
                if not np.any(ini):
                    S.compare(ctx, u.sosfilter, [SO, Xs], Y, what=f"sosfilter {t} times {s}", dtypes=[t])
                ctx.graph(traces=3 * n)
                # coefficients of another scale: b times s
                if not np.any(ini):
                    SB = SO.copy()
                    SB[:, 0, :3] *= s
                    S.compare(ctx, u.sosfilter, [SB, w.astype(t)], Y, what=f"sosfilter {t}, b times {s}", dtypes=[t])
                if ctx.full:
                    return


def frac(v):
    hi = float(v)
    return Fraction(hi) + Fraction(float(v - type(v)(hi)))


def to_ld(x):
    if isinstance(x, (list, tuple)):
        return np.array([to_ld(q) for q in x], dtype=np.longdouble)
    hi = float(x)
    return np.longdouble(hi) + np.longdouble(float(x - Fraction(hi)))


def exact(sos, x, z0):
    """The outputs and final states in rational arithmetic, and the same of the absolute values (the scale of the rounding errors)."""
    F = frac

    def one(sos, x, z, sign):
        z = [list(q) for q in z]
        y = []
        for v in x:
            for k, (b0, b1, b2, _, a1, a2) in enumerate(sos):
                w = b0 * v + z[k][0]
                z[k] = [z[k][1] + b1 * v - sign * a1 * w, b2 * v - sign * a2 * w]
                v = w
            y.append(v)
        return y, z
    S_, Z_ = [[F(c) for c in r] for r in sos], [[F(c) for c in r] for r in z0]
    res = []
    for row in x:
        X = [F(c) for c in row]
        a = one(S_, X, Z_, 1)
        b = one([[abs(c) for c in r] for r in S_], [abs(c) for c in X], [[abs(c) for c in r] for r in Z_], -1)
        res.append((a[0], a[1], b[0], b[1]))
    return [np.array([to_ld(r[i]) for r in res]) for i in range(4)]


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "real":
        return real(ctx, u, shard[1])
    if kind == "scale":
        return scale(ctx, u, shard[1])
    if kind == "long":
        return long(ctx, u, shard[1])
    for f in shard[1]:
        m = len(f)
        sos = [COEF[i] for i in f]
        inits = [tuple((0.0, 0.0) for _ in f), tuple((1.0 + k, -0.5) for k in range(m))]
        D = 6 if ctx.thorough and m < 2 else 5 if m < 2 else 4
        letters = [1.0, 0.0, -2.0]
        M = Machine(cascade(sos), list(dict.fromkeys(inits)), letters, depth=D)
        ctx.graph(len(M.states), M.transitions)
        out = np.array([[o for o in r] if r else [np.nan] * 3 for r in M.out])
        st = np.array([np.array(s, dtype=float).reshape(m, 2) for s in M.states]).reshape(len(M.states), m, 2)
        for L in range(0, D + 1):
            w = S.words(np.arange(3), L)
            n = len(w)
            x = np.array(letters)[w].reshape(n, L)
            for k, ini in enumerate(M.init):
                vis = M.run(ini, w)
                prev = np.concatenate([np.full((n, 1), ini), vis], axis=1)[:, :L]
                y = out[prev, w].reshape(n, L)
                zf = st[vis[:, -1]] if L else np.broadcast_to(st[ini], (n, m, 2)).copy()
                for t in S.FLOATS:
                    s = np.tile(np.array(sos).reshape(1, m, 6), (n, 1, 1)).astype(t)
                    X, Y, ZF = x.astype(t), y.astype(t), zf.astype(t)
                    zi = np.tile(st[ini][None], (n, 1, 1)).astype(t)
                    nt = n if m and L > 1 else 0
                    kw = dict(nontrivial=nt)
                    S.compare(ctx, u.sosfilter_ic, [s, X, zi], (Y, ZF), what=f"sosfilter_ic {t} {f}", dtypes=[t, t], **kw)
                    S.compare(ctx, u.sosfilter_ic_contig, [s, X, zi], (Y, ZF), what=f"sosfilter_ic_contig {t} {f}",
                              dtypes=[t, t], mix=False, lays=("contig",), **kw)
                    ctx.graph(traces=3 * n)
                    if k == 0:
                        S.compare(ctx, u.sosfilter, [s, X], Y, what=f"sosfilter {t} {f}", dtypes=[t], **kw)
                        ctx.graph(traces=2 * n)
                    # the input in two chunks: the final state is the initial state of the rest
                    for g in (u.sosfilter_ic, u.sosfilter_ic_contig):
                        for cut in range(0, L + 1):
                            y1, z1 = ctx.call(g, s, np.ascontiguousarray(X[:, :cut]), zi)
                            y2, z2 = ctx.call(g, s, np.ascontiguousarray(X[:, cut:]), z1)
                            ctx.count(n, nt)
                            ctx.graph(traces=n)
                            ok = (np.concatenate([y1, y2], axis=1) == Y).all(axis=1) & (z2 == ZF).reshape(n, -1).all(axis=1)
                            if not ok.all():
                                b = int(np.argmin(ok))
                                ctx.violation(f"{g.__name__}: filtering in two chunks (cut at {cut}) differs from one call",
                                              f=g, args=(s[b], X[b], zi[b]), got=(y1[b], y2[b], z2[b]), exp=(Y[b], ZF[b]))
                                return
            if ctx.full:
                return
        ctx.sample(f"filter {[COEF[i] for i in f]}: {len(M.states)} states, {M.transitions} transitions, all inputs over "
                   f"{letters} up to length {D}, all cuts")


def long(ctx, u, t):
    """Impulse at every position, many lengths and numbers of sections; finite impulse response, so exact."""
    for n in S.sizes(ctx.thorough, 70001)[1:]:
        for m in (0, 1, 2, 3, 4, 5, 8):
            if m > 3 and n > 40 and not ctx.thorough:
                continue
            b = [[(1, 0, 2), (1, -1, 0), (0, 1, 1), (2, 1, 0), (1, 0, 0), (1, 0, -1), (0, 1, 0), (1, 1, 0)][k] for k in range(m)]
            s = np.zeros((m, 6))
            for k in range(m):
                s[k, :3] = b[k]
                s[k, 3] = 1
            h = np.array([1.0])
            for q in b:
                h = np.convolve(h, q)
            x = S.spots(np.zeros(n), [1, 3])[:: S.step(n, 12)]
            x2 = np.tile(S.pseudo(n, "d", m), (2, 1))
            for X in (x, x2):
                Y = np.array([np.convolve(r, h)[:n] for r in X])
                B = len(X)
                ss = np.tile(s, (B, 1, 1)).astype(t)
                S.compare(ctx, u.sosfilter, [ss, X.astype(t)], Y.astype(t), what=f"sosfilter {t} n={n} m={m}", dtypes=[t],
                          lays=("contig", "strided", "reversed"))
                z = np.zeros((B, m, 2), dtype=t)
                g = ctx.call(u.sosfilter_ic, S.lay(ss, "strided"), X.astype(t), z)[0]
                h2 = ctx.call(u.sosfilter_ic_contig, ss, X.astype(t), z)[0]
                ctx.count(2 * B)
                ctx.graph(traces=5 * B)
                if not (np.array_equal(g, Y) and np.array_equal(h2, Y)):
                    ctx.violation(f"sosfilter_ic {t} n={n} m={m}: wrong result", f=u.sosfilter_ic,
                                  args=(ss[0], X[0].astype(t), z[0]), got=(g[0], h2[0]), exp=Y[0])
                    return
        if ctx.full:
            return
