"""C10: first and argfirst."""

import itertools
import operator
from fractions import Fraction

import numpy as np

from mc import seq as S

PROP = "C10"
LEVEL = "exploration"
RULE = ("one case = one sequence x operation x target (x default) x data type x memory layout; non-trivial = the "
        "sequence is not empty")
ASSUMPTIONS = ["values outside the alphabet of a type behave like those in it (comparisons only)"]
OPS = dict(LT=operator.lt, LE=operator.le, EQ=operator.eq, NE=operator.ne, GT=operator.gt, GE=operator.ge)
TYPES = S.INTS + S.FLOATS + ["O"]


def shards(tier):
    return [[k + t, t] for t in TYPES for k in ("seq_", "fine_") if t != "O" or k == "seq_"] + [["long_" + t, t] for t in TYPES if t != "O"] + [["mixed"]]


def ref(x, opf, t, oth):
    with np.errstate(all="ignore"):
        m = opf(x, t[:, None])
    if x.shape[1] == 0:
        return oth.copy(), np.full(len(x), -1)
    any_ = m.any(axis=1)
    k = m.argmax(axis=1)
    return np.where(any_, x[np.arange(len(x)), k], oth), np.where(any_, k, -1)


def run(shard, ctx):
    import ufunclab as u
    op = u.op
    kind = shard[0].split("_")[0]
    if kind in ("seq", "fine"):
        t = shard[1]
        if t == "O":
            return objects(ctx, u)
        a = S.alphabet(t, 5, nan=True)
        if t in "fdg":
            a = np.array([1, -2.5, np.nan, -np.inf, 0.0], dtype=t)
        oth = np.array([a[0], S.big(t)], dtype=t)
        if kind == "fine":
            a = S.fine(t)
            oth = np.array([a[0], a[4]], dtype=t)
        for L in range(0, 6 if ctx.thorough else 5 - (kind == "fine")):
            w = S.words(a, L)
            W, T, O = S.product(w, a, oth)
            for name, f in OPS.items():
                o = np.full(len(W), getattr(op, name), dtype=np.int8)
                e, k = ref(W, f, T, O)
                ctx.tick(f"{t} {name} {L}")
                nt = len(W) if L else 0
                S.compare(ctx, u.first, [W, o, T, O], e, S.m_bits, what=f"first {name} {t}", dtypes=[t], nontrivial=nt)
                W2, T2 = W[::len(oth)], T[::len(oth)]
                S.compare(ctx, u.argfirst, [W2, o[::len(oth)], T2], k[::len(oth)], what=f"argfirst {name} {t}",
                          dtypes=["l"], nontrivial=nt)
            # codes that are no comparison: nothing matches
            for code in (-128, -1, 6, 7, 127):
                o = np.full(len(W), code, dtype=np.int8)
                S.compare(ctx, u.first, [W, o, T, O], O, what=f"first op={code} {t}")
                S.compare(ctx, u.argfirst, [W, o, T], np.full(len(W), -1), what=f"argfirst op={code} {t}")
        ctx.sample(f"{t}: all sequences over {a.tolist()} up to length {L}, six operations, five targets")
    elif kind == "long":
        t = shard[1]
        for n in S.sizes(ctx.thorough, 70001):
            if n == 0:
                continue
            base = np.full(n, 3, dtype=t)
            x = S.spots(base, [5, 1])
            x2 = x.copy()      # two matches: the first one counts
            x2[:, n // 2:] = np.where(x2[:, n // 2:] == 3, 5, x2[:, n // 2:])
            T = np.full(len(x), 3, dtype=t)
            O = np.full(len(x), 9, dtype=t)
            for xx in (x, x2):
                for name, f in OPS.items():
                    o = np.full(len(xx), getattr(op, name), dtype=np.int8)
                    e, k = ref(xx, f, T, O)
                    S.compare(ctx, u.first, [xx, o, T, O], e, S.m_bits, what=f"first {name} {t} n={n}",
                              lays=("contig", "strided", "reversed"))
                    S.compare(ctx, u.argfirst, [xx, o, T], k, what=f"argfirst {name} {t} n={n}",
                              lays=("contig", "strided", "reversed"))
            if ctx.full:
                return
    else:
        mixed(ctx, u)


def objects(ctx, u):
    vals = [1, 0.5, Fraction(1, 3), float("nan"), 2**70, True]
    for L in range(0, 5 if ctx.thorough else 4):
        for w, x in S.laid(itertools.product(vals, repeat=L)):
            for t in (1, 0.5, 2**70):
                for name, f in OPS.items():
                    o = getattr(u.op, name)
                    k = next((i for i, v in enumerate(w) if f(v, t)), -1)
                    exp = w[k] if k >= 0 else "none"
                    g = ctx.call(u.first, x, o, t, "none")
                    if g is not exp and not (type(g) is type(exp) and g == exp):
                        ctx.violation(f"first {name} object: wrong result", f=u.first, args=(x, o, t, "none"), got=g, exp=exp)
                        return
                    h = ctx.call(u.argfirst, x, o, t)
                    if h != k:
                        ctx.violation(f"argfirst {name} object: wrong result", f=u.argfirst, args=(x, o, t), got=h, exp=k)
                        return
            for code in (-128, -1, 6, 7, 127):
                g, h = ctx.call(u.first, x, code, 1, "none"), ctx.call(u.argfirst, x, code, 1)
                if g != "none" or h != -1:
                    ctx.violation(f"first, argfirst object, op={code}: something matched", f=u.first, args=(x, code, 1, "none"), got=(g, h), exp=("none", -1))
                    return
            ctx.count(46, 46 if L else 0)


def mixed(ctx, u):
    """Broadcasting op, target and default against several rows at once."""
    x = np.array([[1, 5, 3], [7, 7, 7], [0, 2, 9], [4, 4, 1]], dtype=float)
    ops = np.array([getattr(u.op, n) for n in OPS])
    T = np.array([0.0, 4.0, 7.0])
    g = ctx.call(u.argfirst, x[:, None, None, :], ops[:, None], T)
    h = ctx.call(u.first, x[:, None, None, :], ops[:, None], T, -1.0)
    for i in range(4):
        for j, f in enumerate(OPS.values()):
            for k in range(3):
                m = [f(v, T[k]) for v in x[i]]
                e = m.index(True) if any(m) else -1
                if g[i, j, k] != e or h[i, j, k] != (x[i][e] if e >= 0 else -1.0):
                    ctx.violation("broadcast argfirst/first wrong", f=u.argfirst, args=(x[i], ops[j], T[k]), got=g[i, j, k], exp=e)
                    return
    ctx.count(72)
