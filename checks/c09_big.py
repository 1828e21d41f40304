"""C09: more than 2**31 elements, and distances of more than 2**31 bytes."""

import itertools
import math
import os
import sys

import numpy as np

from mc.bigmem import P, Sparse, Tile, view
from mc.catalog import entries, functions
from mc.cmp import same
from mc.common import agrees, scale_of, tup

PROP = "C09"
LEVEL = "exploration"
RULE = ("one case = one loop of one function x (one operand or axis at a time, or all, with elements 2**31 or 2**32 bytes apart, "
        "forwards or backwards; or a core dimension of 2**31+2**18 with the decisive element behind 2**31; or a batch of "
        "2**31+2**18 rows); all of them non-trivial: a 32-bit count, index or offset overflows")
ASSUMPTIONS = ["the same pages are mapped repeatedly, so that a long array repeats itself except in its last 2**18 elements"]
N = 2**31 + P
B31 = 2**31
HANG_S = 3000 if os.environ.get("VERIF_TIER") == "thorough" or "thorough" in sys.argv else 400
SKIP_BATCH = {"mad", "rmad", "gini", "sosfilter", "tri_area", "tri_area_indexed", "expint1", "exponential_ramp", "logexpint1",
              "normal.logcdf", "normal.logsf", "hmean", "multivariate_logbeta", "invsmoothstep3", "inv_yeo_johnson", "pow1pm1", "erfcx",
              "log_logistic", "yeo_johnson", "logistic_deriv", "gmeanw", "sosfilter_ic", "sosfilter_ic_contig", "hyperbolic_ramp", "semivar.exponential", "backlash_sum"}


# --------------------------------------------------------------------------------------------- core dimensions

class Arena:
    """Makes tiles and removes them."""

    def __init__(self):
        self.ts = []

    def __call__(self, dt, base=0, last=None, **kw):
        t = Tile(dt, base, **kw)
        for k, v in (last or {}).items():
            t.tail[k] = v
        self.ts.append(t)
        return t

    def close(self):
        for t in self.ts:
            t.close()
        self.ts = []


CORE = {}


def core(*names):
    def deco(g):
        for n in names:
            CORE[n] = g
        return g
    return deco


def near(g, x, tol):
    x = np.asarray(x).astype(g.dtype)
    if tol == 0:
        return same(g, x)
    with np.errstate(all="ignore"):
        return g.shape == x.shape and bool(np.all((np.abs(g - x) <= tol * np.abs(x)) | (g == x) | ((g != g) & (x != x))))


def chk(ctx, f, args, exp, tol=0.0, **kw):
    got = tup(ctx.call(f, *args, **kw))
    exp = exp if isinstance(exp, tuple) else (exp,)
    for g, x in zip(got, exp):
        g, x = np.asarray(g), np.asarray(x)
        if not near(g, x, tol):
            ctx.violation(f"{f.__name__}: wrong for a core dimension of 2**31+2**18 (the decisive elements are behind 2**31)",
                          got=g, exp=x, repro=f"types {[getattr(a, 'dtype', type(a)) for a in args]}")
    ctx.count(1)


def tail(ctx, f, args, outs, exp, tol=0.0, bases=None):
    """outs: tiles given as out; exp: what their last chunk must hold."""
    ctx.call(f, *args, out=tuple(o.array if isinstance(o, Tile) else o for o in outs))
    for k, (o, x) in enumerate(zip(outs, exp)):
        g = np.array(o.tail if isinstance(o, Tile) else o)
        if not near(g, x, tol):
            bad = np.flatnonzero(~((g == x) | ((g != g) & (x != x))).reshape(len(g), -1).all(axis=1)) if g.ndim else [0]
            i = int(bad[0]) if len(bad) else 0
            ctx.violation(f"{f.__name__}: wrong behind element 2**31 (at 2**31+{i})", got=g[i:i + 8], exp=np.asarray(x)[i:i + 8])
        if bases is not None and isinstance(o, Tile) and not np.all((o.base == bases[k]) | (o.base != o.base)):
            ctx.violation(f"{f.__name__}: wrong before element 2**31", got=o.base[:8], exp=bases[k])
    ctx.count(1)


@core("all_same")
def _(ctx, f, t, T):
    x = T(t[0], 1)
    chk(ctx, f, [x.array], True)
    x.tail[5] = 0
    chk(ctx, f, [x.array], False)


@core("first", "argfirst")
def _(ctx, f, t, T):
    import ufunclab as u
    x = T(t[0])
    arg = f.__name__ == "argfirst"
    a = [u.op.EQ, x.dt.type(1)] + ([] if arg else [x.dt.type(9)])
    a[0] = np.int8(a[0])
    chk(ctx, f, [x.array] + a, -1 if arg else 9)
    x.tail[5] = x.tail[7] = 1
    chk(ctx, f, [x.array] + a, B31 + 5 if arg else 1)


@core("ordered")
def _(ctx, f, t, T):
    import ufunclab as u
    x = T(t[0], 2)
    chk(ctx, f, [x.array, np.int8(u.op.LE)], True)
    x.tail[5] = 1
    chk(ctx, f, [x.array, np.int8(u.op.LE)], False)


@core("argmin", "argmax", "argminmax", "minmax", "min_argmin", "max_argmax", "peaktopeak")
def _(ctx, f, t, T):
    x = T(t[0], 2, {5: 1, 9: 4, 11: 1, 12: 4})
    i, j = B31 + 5, B31 + 9
    exp = {"argmin": i, "argmax": j, "argminmax": [i, j], "minmax": [1, 4], "min_argmin": (1, i), "max_argmax": (4, j),
           "peaktopeak": 3}[f.__name__]
    chk(ctx, f, [x.array], exp)


@core("searchsortedl", "searchsortedr")
def _(ctx, f, t, T):
    x = T(t[0], 1)
    x.tail[6:] = 3
    left = f.__name__.endswith("l")
    for v in (0, 1, 2, 3, 4):
        exp = (0 if v <= 1 else B31 + 6 if v <= 3 else N) if left else (0 if v < 1 else B31 + 6 if v < 3 else N)
        chk(ctx, f, [x.array, x.dt.type(v)], exp)


@core("kbnsum")
def _(ctx, f, t, T):
    x = T(t[0], 0, {5: 3.5})
    chk(ctx, f, [x.array], 3.5)


@core("gmean")
def _(ctx, f, t, T):
    x = T(t[0], 1)
    x.tail[...] = 2.0**64
    chk(ctx, f, [x.array], 2 ** (64 * P / N), 1e-2 if t[0] == "f" else 1e-9)


@core("hmean")
def _(ctx, f, t, T):
    x = T(t[0], 1e30, {5: 2.0})
    chk(ctx, f, [x.array], 2.0 * N, 1e-6)


@core("gmeanw", "hmeanw")
def _(ctx, f, t, T):
    x, w = T(t[0], 3, {5: 7}), T(t[1], 0, {5: 2})
    chk(ctx, f, [x.array, w.array], 7, 1e-6)


@core("pmean")
def _(ctx, f, t, T):
    x = T(t[0], 0, {5: N / 4})
    ty = x.dt.type
    chk(ctx, f, [x.array, ty(1)], 0.25, 1e-6)
    if not ctx.thorough:
        return
    chk(ctx, f, [x.array, ty(np.inf)], N / 4, 1e-6)
    chk(ctx, f, [x.array, ty(2)], N / 4 / math.sqrt(N), 1e-5)


@core("pmeanw")
def _(ctx, f, t, T):
    x, w = T(t[0], 3, {5: 7}), T(t[1], 0, {5: 2})
    for p in (1, 2, -1) if ctx.thorough else (1,):
        chk(ctx, f, [x.array, w.array, x.dt.type(p)], 7, 1e-6)


@core("meanvar")
def _(ctx, f, t, T):
    v = 100.0
    x = T(t[0], 0, {5: v})
    m = v / N
    for d in (0, 1) if ctx.thorough else (1,):
        chk(ctx, f, [x.array, np.int64(d)], [m, (v * v * (1 - 1 / N)) / (N - d)], 1e-5 if t[0] == "f" else 1e-9)


@core("vnorm")
def _(ctx, f, t, T):
    x = T(t[0], 0, {5: 3, 6: -4})
    for p, e in ((1, 7), (2, 5), (np.inf, 4), (3, 91 ** (1 / 3))):
        if p == 3 and not ctx.thorough:
            continue
        chk(ctx, f, [x.array, np.dtype(t[1]).type(p)], e, 1e-6)


@core("rms")
def _(ctx, f, t, T):
    x = T(t[0], 0, {5: 3, 6: -4})
    chk(ctx, f, [x.array], 5 / math.sqrt(N), 1e-6)


@core("vdot")
def _(ctx, f, t, T):
    x, y = T(t[0], 0, {5: 3}), T(t[1], 1, {5: 4})
    chk(ctx, f, [x.array, y.array], 12)
    chk(ctx, f, [y.array, x.array], 12)


@core("percentileofscore")
def _(ctx, f, t, T):
    x = T(t[0], 1, {5: 4, 6: 5, 7: 5})
    lt, eq = N - 2, 2
    for kind, e in enumerate(kinds()):
        e = {"rank": (2 * lt + eq + 1) * 50 / N, "weak": (lt + eq) * 100 / N, "strict": lt * 100 / N,
             "mean": (2 * lt + eq) * 50 / N}[e]
        chk(ctx, f, [x.array, x.dt.type(5), np.int64(kind)], e, 1e-13)


def kinds():
    import ufunclab as u
    return sorted(("rank", "weak", "strict", "mean"), key=lambda k: int(getattr(u.op, "KIND_" + k.upper(), 0)))


@core("pearson_corr")
def _(ctx, f, t, T):
    x, y = T(t[0], 0, {5: 1, 8: 1}), T(t[1], 0, {5: 1})
    chk(ctx, f, [x.array, y.array], math.sqrt(0.5), 1e-5)


@core("wjaccard")
def _(ctx, f, t, T):
    x, y = T(t[0], 0, {5: 3, 6: 2}), T(t[1], 0, {5: 4, 6: 1})
    chk(ctx, f, [x.array, y.array], 4 / 6, 1e-6)


@core("fillnan1d")
def _(ctx, f, t, T):
    x = T(t[0], np.nan, {5: 1, 9: 3})
    o = T(t[0], -1)
    e = np.full(P, 3.0)
    e[:10] = [1, 1, 1, 1, 1, 1, 1.5, 2, 2.5, 3]
    tail(ctx, f, [x.array], [o], [e], 1e-6, bases=[1])


def stationary(ctx, f, t, T, x0, params, tol=0.0):
    """A function of a sequence that has long come to rest at 2**31: the last chunk as after two chunks."""
    from mc.catalog import FL
    x = T(t[0], x0)
    x.tail[:] = np.resize(np.array(FL), P)
    small = np.concatenate([x.base, x.tail])
    r = tup(ctx.call(f, *place(small, params)))
    outs = [T(t[-1], -77)] + [np.empty_like(q) for q in r[1:]]
    tail(ctx, f, place(x.array, params), outs, [np.array(r[0][P:])] + list(r[1:]), tol, bases=[r[0][P - 1]] + [None] * (len(r) - 1))


def place(x, params):
    return [x if q is None else q for q in params]


@core("backlash")
def _(ctx, f, t, T):
    stationary(ctx, f, t, T, 0.5, [None] + [np.dtype(t[0]).type(v) for v in (1, 0.25)])


@core("backlash_sum")
def _(ctx, f, t, T):
    a = [np.array(v, dtype=t[0]) for v in ([1, 0.5], [1, 2], [0.25, 0.5])]
    stationary(ctx, f, t, T, 0.5, [None] + a)


@core("hysteresis_relay")
def _(ctx, f, t, T):
    stationary(ctx, f, t, T, 0.0, [None] + [np.dtype(t[0]).type(v) for v in (-1, 1, -5, 5, 3)])


@core("unwrap")
def _(ctx, f, t, T):
    stationary(ctx, f, t, T, 0.5, [None, np.dtype(t[0]).type(2)])


@core("softmax")
def _(ctx, f, t, T):
    stationary(ctx, f, t, T, -np.inf, [None], 1e-6)


SOS = [[0.5, 0.25, 0.125, 1, 0.25, 0.125], [1, 0.5, 0, 1, -0.5, 0.25]]


@core("sosfilter")
def _(ctx, f, t, T):
    stationary(ctx, f, t, T, 0.0, [np.array(SOS, t[0]), None])


@core("sosfilter_ic", "sosfilter_ic_contig")
def _(ctx, f, t, T):
    stationary(ctx, f, t, T, 0.0, [np.array(SOS, t[0]), None, np.zeros((2, 2), t[0])])


@core("linear_interp1d")
def _(ctx, f, t, T):
    x = T(t[0], -1)
    x.tail[:] = np.arange(P)
    y = T(t[0], 0, {5: 8, 6: 16})
    y.tail[-1] = 77
    for v, e in ((5, 8), (5.5, 12), (6.25, 12), (-2, np.nan), (P - 1, 77), (P, np.nan)):
        chk(ctx, f, [x.dt.type(v), x.array, y.array], e)


@core("_bincount")
def _(ctx, f, t, T):
    x = T(t[0], 0, {5: 2})
    chk(ctx, f, [x.array], np.array([N - 1, 0, 1]), out=np.zeros(3, np.int64))
    if np.dtype(t[0]).itemsize == 8:
        o = T("l", 0)
        e = np.zeros(P, int)
        e[5], e[7] = 2, 1
        tail(ctx, f, [np.array([B31 + 5, B31 + 7, B31 + 5], t[0])], [o], [e], bases=[0])


@core("_bincountw")
def _(ctx, f, t, T):
    x = T(t[0], 0, {5: 2, 6: 2})
    w = T(t[1], 0, {4: 3, 5: 4, 6: 5})
    chk(ctx, f, [x.array, w.array], np.array([3, 0, 9]), out=np.zeros(3, t[2]))
    if np.dtype(t[0]).itemsize == 8:
        o = T(t[2], 0)
        e = np.zeros(P, t[2])
        e[5], e[7] = 6, 2
        tail(ctx, f, [np.array([B31 + 5, B31 + 7, B31 + 5], t[0]), np.array([1, 2, 5], t[1])], [o], [e], bases=[0])


@core("_convert_to_base")
def _(ctx, f, t, T):
    o = T(t[2], 3)
    tail(ctx, f, [np.dtype(t[0]).type(5), np.dtype(t[0]).type(2)], [o], [np.zeros(P, t[2])])


@core("_one_hot")
def _(ctx, f, t, T):
    o = T("l", 3)
    e = np.zeros(P, int)
    e[5] = 1
    tail(ctx, f, [np.int64(B31 + 5)], [o], [e], bases=[0])


@core("_nextn_greater", "_nextn_less")
def _(ctx, f, t, T):
    o = T(t[1], 3)
    d = 1 if f.__name__.endswith("greater") else -1
    x = np.dtype(t[0]).type(-d * 1.5)
    if t[0] == "f":
        i = np.array(1.5, np.float32).view(np.int32).astype(np.int64)
        r = np.arange(1, P + 1) + B31 - i              # ordinal of the results, counted from zero
        e = np.where(r >= 0, r, -r)
        # -1.5 ... -0, 0 is one value for nextafter
        e = e.astype(np.int32).view(np.float32) * np.where(r >= 0, d, -d)
    else:
        s = np.spacing(abs(x)) * d
        e = x + (np.arange(1, P + 1) + float(B31)).astype(t[0]) * s
        if abs(e[-1]) < 1:
            return
    tail(ctx, f, [x], [o], [e])


@core("tri_area")
def _(ctx, f, t, T):
    # three rows of N elements, each one chunk further on in memory
    L = [np.zeros(P, t[0]) for _ in range(3)]
    L[1][5] = 3
    L[2][6] = 4
    x = T(t[0], 0, tails=L, chunks=8195)
    v = np.lib.stride_tricks.as_strided(x.array, (3, N), (P * x.dt.itemsize, x.dt.itemsize))
    chk(ctx, f, [v], 7.5, 1e-6)


@core("tri_area_indexed")
def _(ctx, f, t, T):
    x = T(t[0], 0, width=2)
    x.tail[5], x.tail[6] = [3, 0], [0, 4]
    for idx, e in (([0, B31 + 5, B31 + 6], 6), ([B31 + 5, B31 + 6, B31], 6), ([B31 + 6, 1, B31 + 6], 0)):
        chk(ctx, f, [x.array, np.array(idx, t[1])], e, 1e-6)


@core("multivariate_logbeta")
def _(ctx, f, t, T):
    x = T(t[0], 1)
    x.tail[5] = 2
    # lgamma(N + 1), to the precision of Stirling's series
    n = float(N) + 1
    chk(ctx, f, [x.array], -((n - 0.5) * math.log(n) - n + 0.5 * math.log(2 * math.pi) + 1 / (12 * n)), 1e-6)


@core("mad", "rmad", "gini")
def _(ctx, f, t, T):
    if t[0] != "f":
        return
    x = T(t[0], 0)
    x.tail[5] = N / 4
    m = 0.25
    md = 2 * m * (N - 1) / N
    e = {"mad": md, "rmad": md / m, "gini": md / m / 2}[f.__name__]
    chk(ctx, f, [x.array, False], e, 1e-5)


SLOW_CORE = {"multivariate_logbeta", "mad", "rmad", "gini"}
HEAVY = {"mad", "rmad", "gini"}


# --------------------------------------------------------------------------------------------- distances

def distances(ctx, e):
    """One axis of one operand at a time (and all outermost, all innermost axes) with big steps."""
    dims = e.sizes[-1]
    if e.name == "sosfilter_ic_contig":
        return
    B = 3
    ins = e.inputs(dims, B, 1)
    init = e.new_out(dims, B) if e.needs_out else None
    kw = {"out": tuple(o.copy() for o in init)} if init else {}
    try:
        exp = tup(ctx.call(e.f, *[np.array(x) for x in ins], **kw))
    except Exception:
        raise
    exp = [np.asarray(x) for x in exp]
    shapes = [x.shape for x in ins] + [x.shape for x in exp]
    nin = len(ins)
    sites = [(j, a) for j, s in enumerate(shapes) for a in range(len(s))]
    plans = [[s] for s in sites]
    plans.append([(j, 0) for j in range(len(shapes))])
    plans.append([(j, len(s) - 1) for j, s in enumerate(shapes)])
    # the number of bytes per element-to-element step: as a 32-bit number positive but wrong, negative, and zero
    steps = [2**31 + 64, 2**32 + 64, -(2**31 + 64), -(2**32 + 64), 2**32] if ctx.thorough else [2**31 + 64, -(2**32 + 64)]
    mem = [None] * len(shapes)
    try:
        for plan in plans:
            for step in steps:
                big = dict(plan)
                arrs, olds = [], []
                for j, s in enumerate(shapes):
                    src = ins[j] if j < nin else (init[j - nin] if init else np.zeros_like(exp[j - nin]))
                    if j not in big:
                        arrs.append(np.array(src))
                        continue
                    ax = big[j]
                    it = src.dtype.itemsize
                    st = [0] * len(s)
                    acc = it
                    for a in reversed(range(len(s))):
                        if a != ax:
                            st[a] = acc
                            acc *= s[a]
                    st[ax] = step
                    size = abs(step) * s[ax] + acc + 4096
                    sp = Sparse(size + 2**33)
                    olds.append(sp)
                    org = sp.addr + 2**32 + (abs(step) * (s[ax] - 1) if step < 0 else 0)
                    org -= org % 64
                    v = view(org, s, src.dtype, tuple(st))
                    v[...] = src
                    arrs.append(v)
                try:
                    got = tup(ctx.call(e.f, *arrs[:nin], out=tuple(arrs[nin:])))
                    for k, x in enumerate(exp):
                        if not agrees(e, arrs[nin + k], x, scale_of(ins)):
                            ctx.violation(f"{e.key}: wrong with elements {step} bytes apart (operand, axis: {plan})",
                                          got=np.array(arrs[nin + k]), exp=x, repro=f"dims {dims}")
                    for j in range(nin):
                        if not same(np.array(arrs[j]), np.array(ins[j])):
                            ctx.violation(f"{e.key}: an operand was changed, with elements {step} bytes apart ({plan})")
                    ctx.count(1, part="distances")
                finally:
                    arrs = v = None
                    for sp in olds:
                        sp.close()
                if ctx.full:
                    return
    finally:
        del mem


# --------------------------------------------------------------------------------------------- batches

def batch(ctx, e):
    """2**31 + 2**18 rows: the last 2**18 as in a small call."""
    dims = e.sizes[0]
    R = 1024
    rows = e.inputs(dims, R, 1)
    base = e.inputs(dims, R, 0)
    outs0 = e.new_out(dims, R) if e.needs_out else None
    slow = e.name not in ("hmean", "normal.logcdf", "normal.logsf", "exponential_ramp", "erfcx")
    for x in base:
        if x.dtype.kind in "fc" and slow:
            x[...] = np.nan
    kw = {"out": tuple(o.copy() for o in outs0)} if outs0 else {}
    exp = [np.asarray(x) for x in tup(ctx.call(e.f, *rows, **kw))]
    T, ts = Arena(), []
    try:
        ops = []
        for b, r in zip(base, rows):
            w = int(np.prod(b.shape[1:], dtype=int))
            t = T(b.dtype, 0, width=w)
            t.base[...] = np.tile(b.reshape((R, w) if w != 1 else (R,)), (P // R,) + (1,) * (w != 1))
            t.tail[...] = np.tile(r.reshape((R, w) if w != 1 else (R,)), (P // R,) + (1,) * (w != 1))
            ops.append(t.array.reshape((N,) + b.shape[1:]) if b.ndim > 1 else t.array)
        outs = []
        for x in exp:
            w = int(np.prod(x.shape[1:], dtype=int))
            t = T(x.dtype, 0, width=w)
            ts.append(t)
            outs.append(t.array.reshape((N,) + x.shape[1:]) if x.ndim > 1 else t.array)
        for o, x in zip(outs, ops):
            assert not np.shares_memory(o[:1], x[:1])
        ctx.call(e.f, *ops, out=tuple(outs))
        for t, x in zip(ts, exp):
            got = np.array(t.tail).reshape((P // R,) + x.shape)
            if not agrees(e, got, np.broadcast_to(x, got.shape), scale_of(rows)):
                ctx.violation(f"{e.key}: wrong in rows behind 2**31 of a batch", got=got[0][:6], exp=x[:6], repro=f"dims {dims}")
        ctx.count(1, part="batches")
    finally:
        T.close()


def gendots(ctx):
    import ufunclab as u
    T = Arena()
    try:
        for nm, p, s, base, last, exp in (
                ("minmaxdot", np.minimum, np.maximum, 1, {5: (3, 4)}, 3),
                ("anddot", np.logical_and, np.logical_or, 0, {5: (1, 1)}, True),
                ("muladd", np.multiply, np.add, 0, {5: (3, 4), 6: (5, 6)}, 42)):
            if nm == "anddot" and not ctx.thorough:
                continue
            g = u.gendot(p, s, name=nm)
            ty = "?" if nm == "anddot" else "b"
            x, y = T(ty, base), T(ty, base)
            for k, (a, b) in last.items():
                x.tail[k], y.tail[k] = a, b
            chk(ctx, g, [x.array, y.array], exp)
        # a vector of products of more than 2**32 bytes
        x, y = T("d", 1, {P - 3: 3}), T("d", 1, {P - 3: 4})
        n = 2**29 + P
        chk(ctx, u.gendot(np.minimum, np.maximum, name="minmaxdot"), [x.array[-n:], y.array[-n:]], 3.0)
    finally:
        T.close()


def wrappers(ctx):
    """bincount of a long array, and of numbers beyond 2**31 (nothing but the bins in between)."""
    import ufunclab as u
    T = Arena()
    try:
        x = T("b", 0, {5: 2})
        chk(ctx, u.bincount, [x.array, 3], np.array([N - 1, 0, 1]))
    finally:
        T.close()


def shards(tier):
    r = []
    fs = functions()
    seen = set()
    loops = set()
    for e in entries():
        if e.isobject:
            continue
        k = (e.name, np.dtype(e.it[0]).itemsize)
        first = e.name not in seen
        seen.add(e.name)
        # in the quick tier one loop of each function (the narrowest); two of those that have their own code for some types
        if e.name in CORE and (tier == "thorough" or (first and e.name not in SLOW_CORE) or (e.name, e.types) in ALSO):
            r.append(("core", e.name, e.types))
        kind = e.name if e.name in OWN_LOOP else (e.sig, e.f.nin, e.f.nout)
        rep = kind not in loops and first and e.name not in SKIP_BATCH
        if rep:
            loops.add(kind)
        if rep or (tier == "thorough" and e.name not in ("gini", "mad", "rmad") and
                                                    max(np.dtype(t).itemsize for t in e.it + e.ot) <= 8):
            r.append(("batch", e.name, e.types))
    r.append(("gendot",))
    r.append(("wrappers",))
    w = {"gendot": 9, "pmeanw": 8, "pearson_corr": 7, "vnorm": 6, "unwrap": 5, "pmean": 4, "softmax": 3, "meanvar": 2}    # the long ones first
    r.sort(key=lambda s: -w.get(s[1] if s[0] == "core" else s[0], 0))
    return r + [("dist", n) for n in fs]


# functions whose loop over the batch is written by hand; the others come from one generator, and the quick tier takes one
# function of each signature
OWN_LOOP = {"abssq", "debye1", "issnan", "linear_interp1d", "log1p_theorem4", "log1p_doubledouble", "logfactorial", "loggamma1p",
            "gmean", "hmean", "pmean", "gmeanw", "hmeanw", "pmeanw", "peaktopeak", "searchsortedl", "searchsortedr"}
ALSO = {("_bincount", "l->l"), ("_bincountw", "ll->l")}


def run(shard, ctx):
    ctx.part = "core dimensions"
    if shard[0] == "dist":
        for e in entries({shard[1]}):
            if not e.isobject:
                ctx.tick(f"distances {e.key}")
                distances(ctx, e)
            if ctx.full:
                return
    elif shard[0] == "gendot":
        gendots(ctx)
    elif shard[0] == "wrappers":
        wrappers(ctx)
    else:
        e = next(x for x in entries({shard[1]}) if x.types == shard[2])
        ctx.tick(f"{shard[0]} {e.key}")
        if shard[0] == "core":
            T = Arena()
            try:
                CORE[e.name](ctx, e.f, e.types.replace("->", ""), T)
            finally:
                T.close()
        else:
            batch(ctx, e)
    ctx.sample(str(shard))
