"""C25: hysteresis_relay as a state machine."""

import numpy as np

from mc import seq as S
from mc.auto import Machine

PROP = "C25"
LEVEL = "model_checking"
RULE = ("one case = one input sequence x thresholds x initial value x data type x memory layout, replayed against the "
        "explicit state graph of the relay; non-trivial = at least two inputs")
ASSUMPTIONS = ["low_threshold <= high_threshold; the relay only compares and copies, so the alphabet (below, at, "
               "between, at, above, infinite, nan) stands for all inputs"]
CFG = [(-1, 1, -5, 5, 2), (0, 0, 3, 7, 9), (-2, 3, 4, 4, 0), (1, 2, 8, -8, 100)]


def fine(t):
    """Thresholds and values with full mantissas, next to each other, huge, tiny, infinite."""
    t = np.dtype(t).type
    i = np.finfo(t)
    third, one, inf, nan = t(1) / t(3), t(1), t(np.inf), t(np.nan)
    a, b, c = -i.max * third * third, i.max * third, i.tiny * third
    return [(-third, third, third * t(7), -third / t(7), third * t(1e10)),
            (one - i.epsneg, one + i.eps, one + i.eps, one - i.epsneg, one),
            (a, b, b, a, c), (c, np.nextafter(c, one), c, -c, third), (-inf, third, one, third, -third), (third, inf, one, third, c),
            (third, np.nextafter(third, one), inf, -inf, third), (-t(0), t(0), third, c, -c),
            # any initial value, any pair of levels: they are only copied
            (-one, one, -third, third, nan), (-one, one, nan, third, one), (-one, one, third, nan, one), (-one, one, nan, nan, one), (-one, one, -third, third, inf),
            (-one, one, inf, -inf, nan), (-one, one, t(0), t(0), nan), (-one, one, -t(0), t(0), -t(0)), (t(0), one, t(0), one, t(0)), (-one, t(0), -one, t(0), t(0))]


def shards(tier):
    return [[f"path_{t}_{i}", t, i] for t in S.FLOATS for i in range(len(CFG))] + [[f"fine_{t}", t] for t in S.FLOATS] + [["long_" + t, t] for t in S.FLOATS]


def machine(cfg):
    lo, hi, lv, hv, init = cfg
    letters = [lo, lo - 1, (lo + hi) / 2, hi, hi + 1, "-inf", "inf", "nan"]

    def step(s, a):
        x = float(a)
        if x < lo:
            s = lv
        elif x > hi:
            s = hv
        return s, s
    return Machine(step, [init], letters)


def run(shard, ctx):
    import ufunclab as u
    kind, t = shard[0].split("_")[0], shard[1]
    if kind == "fine":
        for lo, hi, lv, hv, init in fine(t):
            inf = lo.dtype.type(np.inf)
            with np.errstate(all="ignore"):
                let = np.array([lo, np.nextafter(lo, -inf), np.nextafter(lo, inf), hi, np.nextafter(hi, -inf), np.nextafter(hi, inf), -inf, inf],
                               dtype=t)
            for L in (1, 2, 3):
                w = S.words(let, L)
                n = len(w)
                cur, e = np.full(n, init, dtype=t), np.empty_like(w)
                for k in range(L):
                    cur = np.where(w[:, k] < lo, lv, np.where(w[:, k] > hi, hv, cur))
                    e[:, k] = cur
                S.compare(ctx, u.hysteresis_relay, [w] + [np.full(n, v, dtype=t) for v in (lo, hi, lv, hv, init)], e,
                          what=f"hysteresis_relay {t} {(lo, hi, lv, hv, init)}", dtypes=[t])
                ctx.graph(traces=2 * n)
            if ctx.full:
                return
        return
    if kind == "path":
        cfg = CFG[shard[2]]
        M = machine(cfg)
        ctx.graph(len(M.states), M.transitions)
        let = np.array([float(a) for a in M.letters], dtype=t)
        st = np.array(M.states, dtype=t)
        for L in range(0, 7 if ctx.thorough else 6):
            w = S.words(np.arange(len(let)), L)
            for s in range(len(M.states)):
                vis = M.run(s, w)
                n = len(w)
                a = [let[w].reshape(n, L)] + [np.full(n, v, dtype=t) for v in cfg[:4]] + [np.full(n, st[s], dtype=t)]
                S.compare(ctx, u.hysteresis_relay, a, st[vis].reshape(n, L), what=f"hysteresis_relay {t} {cfg}", dtypes=[t],
                          nontrivial=n if L > 1 else 0)
                ctx.graph(traces=2 * n)
        ctx.sample(f"{t} {cfg}: {len(M.states)} states, {M.transitions} transitions; every path of length <= {L} from each")
    else:
        for n in S.sizes(ctx.thorough, 70001)[1:]:
            x = S.spots(np.zeros(n), [2, -2, np.nan])
            x2 = x.copy()
            x2[:, n // 2] = -2
            x3 = S.spots(S.pseudo(n, "d") / 25, [2, -2])
            for q in (x, x2, x3):
                cur = np.full(len(q), 9.0)
                e = np.empty_like(q)
                for k in range(n):
                    cur = np.where(q[:, k] < -1, 3.0, np.where(q[:, k] > 1, 7.0, cur))
                    e[:, k] = cur
                a = [q.astype(t)] + [np.full(len(q), v, dtype=t) for v in (-1, 1, 3, 7, 9)]
                S.compare(ctx, u.hysteresis_relay, a, e.astype(t), what=f"hysteresis_relay {t} n={n}", dtypes=[t],
                          lays=("contig", "strided", "reversed"))
                ctx.graph(traces=3 * len(q))
            if ctx.full:
                return
