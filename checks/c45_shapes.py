"""C45: which shapes a call accepts, and the shape of the result."""

import itertools
import json
import os
import re

import numpy as np

from mc.catalog import functions
from mc.common import chunks, tup

PROP = "C45"
LEVEL = "exploration"
RULE = ("one case = one assignment of shapes to the operands (and to `out`, axis, axes, keepdims) of one function; non-trivial = the call "
        "is refused, or an operand is broadcast, or an axis is given")
ASSUMPTIONS = ["the rules of NumPy for core dimensions, broadcasting, axis, axes and keepdims, as transcribed in model()",
               "the core signatures and the smallest core sizes each function is to have are listed in mc/shapes.json"]
NCH = 24
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHAPES = json.load(open(os.path.join(HERE, "mc", "shapes.json")))
AxisError = np.exceptions.AxisError
BATCH = [(), (1,), (2,), (3,), (0,), (2, 1), (1, 3), (2, 3), (3, 2), (0, 1), (2, 0), (1, 1)]
BATCH3 = BATCH + [(2, 2, 3), (1, 2, 1), (3, 1, 1), (0, 2, 3), (2, 1, 3)]


def shards(tier):
    return chunks(NCH) + [["wrappers_" + n, n] for n in ("bincount", "weights", "convert_to_base", "nextn_less", "nextn_greater", "one_hot")] + [["gendot"]]


def parse(sig):
    a, b = sig.replace(" ", "").split("->")
    return [[tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", s)] for s in (a, b)]


class Refused(Exception):
    pass


class Either(Exception):
    """Either is fine: `out` lacks leading dimensions of size 1 (NumPy's ufuncs refuse it, its gufuncs do not), or the
    core size is too small, but there is nothing to compute."""


def bcast(shapes):
    n = max((len(s) for s in shapes), default=0)
    r = []
    for k in range(n):
        d = {s[k - n + len(s)] for s in shapes if k - n + len(s) >= 0}
        d.discard(1)
        if len(d) > 1:
            raise Refused("broadcast")
        r.append(d.pop() if d else 1)
    return tuple(r)


def model(ci, co, mins, shapes, outs=None):
    """Shapes of the results, or Refused.  outs: shapes of the given outputs (None where not given)."""
    dims = {}
    batch = []
    outs = outs or [None] * len(co)
    for core, s in list(zip(ci, shapes)) + [(c, o) for c, o in zip(co, outs) if o is not None]:
        if len(s) < len(core):
            raise Refused("dimensions")
        k = len(s) - len(core)
        batch.append(tuple(s[:k]))
        for d, n in zip(core, s[k:]):
            if dims.setdefault(d, int(d) if d.isdigit() else n) != n:
                raise Refused("core size")
    for c in co:
        for d in c:
            if d.isdigit():
                dims[d] = int(d)
            elif d not in dims:
                raise Refused("unknown core size")
    b = bcast(batch)
    for d, m in mins.items():
        if dims[d] < m:
            if 0 in b:
                raise Either
            raise Refused("too small")
    for o, c in zip(outs, co):
        q = None if o is None else tuple(o[:len(o) - len(c)])
        if q is not None and q != b:
            if len(q) < len(b) and b[len(b) - len(q):] == q and set(b[:len(b) - len(q)]) == {1}:
                raise Either
            raise Refused("out")
    return [b + tuple(dims[d] for d in c) for c in co]


_AR = {}


def arr(shape, t):
    k = (shape, t)
    if k not in _AR:
        _AR[k] = np.ones(shape, dtype=t)
        _AR[k].setflags(write=False)
    return _AR[k]


class Fn:
    def __init__(self, name, f, e):
        self.name, self.f = name, f
        self.ci, self.co = parse(e["sig"]) if e["sig"] else ([()] * f.nin, [()] * f.nout)
        self.mins = e["min"]
        ts = [t for t in f.types if "O" not in t]
        t = next((t for t in ts if set(t.split("->")[0]) <= set("dlp?")), ts[0])
        self.it, self.ot = (list(x) for x in t.split("->"))
        self.free = {d for c in self.co for d in c if not d.isdigit()} - {d for c in self.ci for d in c}

    def one(self, ctx, shapes, outs=None, kw=None, exp=None):
        """One call against the model; exp: what the model said already (a list or an exception class)."""
        kw = dict(kw or {})
        err = ValueError
        if exp is None:
            try:
                exp = model(self.ci, self.co, self.mins, shapes, outs)
            except Refused:
                exp = None
            except Either:
                return True
        elif isinstance(exp, type):
            err, exp = exp, None
        args = [arr(s, t) for s, t in zip(shapes, self.it)]
        bufs = None
        if outs is not None:
            bufs = [None if o is None else np.full(o, 3, dtype=t) for o, t in zip(outs, self.ot)]
            kw["out"] = tuple(bufs) if len(bufs) > 1 else bufs[0]
        r, e = ctx.attempt(self.f, *args, **kw)
        if exp is None:
            bad = not isinstance(e, err)
            if not bad and bufs is not None:
                bad = any(b is not None and (b != np.full(b.shape, 3, dtype=b.dtype)).any() for b in bufs)
            if bad:
                ctx.violation(f"{self.name}{tuple(shapes)}{'' if outs is None else f' out={outs}'}{kw_(kw)}: "
                              f"{'no ' + err.__name__ if e is None else 'not a ' + err.__name__ + ' but ' + type(e).__name__ if not isinstance(e, err) else 'out changed'}",
                              f=self.f, args=tuple(args), kw=kw, got=e if r is None else r)
                return False
            return True
        if e is not None:
            ctx.violation(f"{self.name}{tuple(shapes)}{'' if outs is None else f' out={outs}'}{kw_(kw)} is refused", f=self.f, args=tuple(args), kw=kw, got=e,
                          exp=f"results of shapes {exp}")
            return False
        g = [np.shape(x) for x in tup(r)]
        ok = g == [tuple(x) for x in exp]
        if bufs is not None:
            ok = ok and all(b is None or x is b for b, x in zip(bufs, tup(r)))
        if not ok:
            ctx.violation(f"{self.name}{tuple(shapes)}{'' if outs is None else f' out={outs}'}{kw_(kw)}: wrong shape of the result", f=self.f, args=tuple(args), kw=kw,
                          got=g, exp=exp)
        return ok


def kw_(kw):
    k = {a: b for a, b in kw.items() if a != "out"}
    return f" {k}" if k else ""


def menu(core, big):
    """Shapes for an operand with these core dimensions, smallest set first."""
    sizes = [[1, 2, 3] + ([int(d)] if d.isdigit() and int(d) > 3 else []) + ([0] if big or not d.isdigit() else []) for d in core]
    cs = list(itertools.product(*sizes))
    if len(cs) > 20 and not big:
        cs = [c for c in cs if len(set(c)) < 3 and c[-1] in (2, 3, 6) or c == (1, 6)]
    r = [b + tuple(c) for b in (BATCH3 if big else BATCH) for c in cs]
    for k in range(len(core)):      # fewer dimensions than the core needs
        r += [(2,) * k, (3,) * k]
    return sorted(set(r))


def base(core):
    return tuple(int(d) if d.isdigit() else 2 for d in core)


def explore(ctx, F, thorough):
    nin = len(F.ci)
    b0 = [base(c) for c in F.ci]
    free = [base(c) if any(d in F.free for d in c) else None for c in F.co]
    outs0 = free if any(f is not None for f in free) else None
    n = 0
    men = [menu(c, True) for c in F.ci]
    few = [menu(c, False) for c in F.ci]
    one = [menu(c, True) for c in F.ci]
    # each operand alone, with every shape of the large menu; and with the same shape where the core agrees
    for j in range(nin):
        for s in one[j]:
            sh = list(b0)
            sh[j] = s
            o = outs0
            if outs0 is not None:
                k = len(s) - len(F.ci[j])
                o = [None if q is None else (tuple(s[:k]) if k > 0 else ()) + q for q in outs0]
            n += 1
            if not F.one(ctx, sh, o):
                return n
    # pairs of operands
    for j, k in itertools.combinations(range(nin), 2):
        for s, t in itertools.product(men[j], men[k]):
            sh = list(b0)
            sh[j], sh[k] = s, t
            o = outs0
            if o is not None:
                try:
                    b = bcast([s[:len(s) - len(F.ci[j])], t[:len(t) - len(F.ci[k])]])
                except Refused:
                    b = ()
                o = [None if q is None else b + q for q in outs0]
            n += 1
            if not F.one(ctx, sh, o):
                return n
    # triples of operands
    if outs0 is None:
        some = few if thorough else [[b + base(c) for b in BATCH[:8]] for c in F.ci]
        for q in itertools.combinations(range(nin), 3):
            for ss in itertools.product(*[some[j][::1 if len(some[j]) < 40 else 3] for j in q]):
                sh = list(b0)
                for j, s in zip(q, ss):
                    sh[j] = s
                n += 1
                if not F.one(ctx, sh):
                    return n
    # all operands with the same batch, all core sizes
    letters = sorted({d for c in F.ci + F.co for d in c if not d.isdigit()})
    for dims in itertools.product((0, 1, 2, 3, 4), repeat=len(letters)):
        D = dict(zip(letters, dims))
        for b in BATCH3:
            sh = [b + tuple(int(d) if d.isdigit() else D[d] for d in c) for c in F.ci]
            so = [b + tuple(int(d) if d.isdigit() else D[d] for d in c) for c in F.co]
            n += 3
            if not (F.one(ctx, sh, so if F.free else None) and F.one(ctx, sh, so) and F.one(ctx, [sh[0]] + [s[len(b):] for s in sh[1:]], so)):
                return n
    # the outputs
    for b in BATCH:
        sh = [b + s for s in b0]
        for j, c in enumerate(F.co):
            for s in one_out(c):
                o = [b + base(q) if (any(d in F.free for d in q)) else None for q in F.co]
                o[j] = s
                n += 1
                if not F.one(ctx, sh, o):
                    return n
        if len(F.co) > 1:
            for s, t in itertools.product(*[BATCH[:8] for _ in F.co]):
                n += 1
                if not F.one(ctx, sh, [s + base(F.co[0]), t + base(F.co[1])]):
                    return n
    # a call with free core sizes and no out is refused
    if F.free:
        n += 1
        if not F.one(ctx, b0):
            return n
    # wrong numbers of operands
    for k in range(0, nin + len(F.co) + 2):
        if nin <= k <= nin + len(F.co):
            continue
        r, e = ctx.attempt(F.f, *[np.ones(2)] * k)
        n += 1
        if not isinstance(e, TypeError):
            ctx.violation(f"{F.name} with {k} operands: TypeError expected", f=F.f, got=r if e is None else e)
            return n
    return n + axes(ctx, F)


def one_out(core):
    return [s for s in menu(core, True) if len(s) < 4]


def norm(ax, nd):
    if not -nd <= ax < nd:
        raise Refused("axis")
    return ax % nd


def move(s, ax):
    """The shape with the axis moved to the end."""
    return s[:ax] + s[ax + 1:] + (s[ax],)


def axis_model(F, shapes, axis, keep):
    """Expected shapes for axis= (None: the last) and keepdims=; an exception class if the call is refused."""
    letters = {d for c in F.ci + F.co for d in c}
    if axis is not None and (len(letters) != 1 or any(len(c) > 1 for c in F.ci + F.co)):
        return TypeError
    if keep and (len({len(c) for c in F.ci}) != 1 or any(F.co)):
        return TypeError
    nc = len(F.ci[0])
    ms = []
    try:
        for c, s in zip(F.ci, shapes):
            if len(s) < len(c):
                return ValueError
            ms.append(move(s, norm(axis, len(s))) if c and axis is not None else s)
        exp = model(F.ci, F.co, F.mins, ms)
    except Refused as e:
        return AxisError if str(e) == "axis" else ValueError
    except Either:
        return None
    b = bcast([s[:len(s) - len(c)] for c, s in zip(F.ci, ms)])
    r = []
    for c, e in zip(F.co, exp):
        try:
            if keep:
                e = e + (1,) * nc
                if axis is not None:
                    k = norm(axis, len(e))
                    e = e[:-1][:k] + (1,) + e[:-1][k:]
            elif c and axis is not None:
                k = norm(axis, len(b) + 1)
                e = b[:k] + (e[-1],) + b[k:]
        except Refused:
            return AxisError
        r.append(e)
    return r


def axes(ctx, F):
    n = 0
    if F.f.signature is None:
        return 0
    if F.free:
        return 0
    mn = max(F.mins.values(), default=0)
    for core in (2, 3):
        for b in ((), (2,), (3,), (3, 2), (2, 1, 3)):
            full = [b + tuple(int(d) if d.isdigit() else core for d in c) for c in F.ci]
            for which in ("all", "first", "last"):
                sh = [s if which == "all" or (which == "first") == (j == 0) else s[len(b):] for j, s in enumerate(full)]
                for axis in [None] + list(range(-5, 5)):
                    ss = sh
                    if axis is not None:
                        # place the core dimension where the axis says, as far as it goes
                        ss = []
                        for c, s in zip(F.ci, sh):
                            if len(c) == 1 and -len(s) <= axis < len(s):
                                k = axis % len(s)
                                s = s[:-1][:k] + (s[-1],) + s[:-1][k:]
                            ss.append(s)
                    for keep in (False, True):
                        kw = {}
                        if axis is not None:
                            kw["axis"] = axis
                        if keep:
                            kw["keepdims"] = True
                        for q in ([ss, sh] if ss != sh else [ss]):
                            n += 1
                            exp = axis_model(F, q, axis, keep)
                            if exp is not None and not F.one(ctx, q, kw=kw, exp=exp):
                                return n
    assert mn <= 2
    return n


# ---- wrappers -----------------------------------------------------------------------------------

def insert(shape, axis, n):
    """Shape with a dimension n as axis `axis` of the result."""
    nd = len(shape) + 1
    if not -nd <= axis < nd:
        raise Refused("axis")
    k = axis % nd
    return shape[:k] + (n,) + shape[k:]


def wrapper(ctx, which, thorough):
    import ufunclab as u
    B = BATCH3
    n = 0

    def check(f, args, kw, exp, lazy=None):
        nonlocal n
        n += 1
        r, e = ctx.attempt(f, *args, **kw)
        what = f"{which}{[np.shape(a) if isinstance(a, np.ndarray) else a for a in args]}{ {k: (v.shape if isinstance(v, np.ndarray) else v) for k, v in kw.items()} }"
        if isinstance(exp, tuple):
            if e is not None or np.shape(r) != exp or ("out" in kw and r is not kw["out"]):
                ctx.violation(f"{what}: wrong shape or refused", f=f, args=args, kw=kw, got=e if e is not None else np.shape(r), exp=exp)
                return False
            if lazy is not None:
                w = lazy()
                if w is not None and not np.array_equal(r, w):
                    ctx.violation(f"{what}: wrong result", f=f, args=args, kw=kw, got=r, exp=w)
                    return False
        else:
            if not isinstance(e, exp) or ("out" in kw and (kw["out"] != 3).any()):
                ctx.violation(f"{what}: {'refused in another way' if e is not None else 'not refused'}, or out changed", f=f, args=args, kw=kw, got=e if r is None else r, exp=exp.__name__)
                return False
        return True

    def outs(exp, t):
        """out arguments: (array, fits)"""
        yield None, True
        yield np.full(exp, 3, dtype=t), True
        bad = {exp + (1,), (1,) + exp, exp[1:], exp[:-1], exp[::-1], tuple(x + 1 for x in exp), exp[:-1] + (exp[-1] + 1,), (exp[0] + 1,) + exp[1:]} - {exp}
        for s in sorted(bad):
            yield np.full(s, 3, dtype=t), False

    def run(f, args, shape, axis, size, t, lazy=None, extra=None):
        try:
            exp = insert(shape, axis, size)
        except Refused:
            return check(f, args, dict(extra or {}, axis=axis), AxisError)
        for o, ok in outs(exp, t):
            kw = dict(extra or {}, axis=axis)
            if o is not None:
                kw["out"] = o
            if not check(f, args, kw, exp if ok else ValueError, lazy if o is None or which not in ("bincount", "weights") else None):
                return False
            if axis == -1:
                kw = {k: v for k, v in kw.items() if k != "axis"}
                if "out" in kw:
                    kw["out"] = np.full(o.shape, 3, dtype=t)
                if not check(f, args, kw, exp if ok else ValueError, lazy if o is None else None):
                    return False
        return True

    axs = range(-5, 5)
    if which in ("nextn_less", "nextn_greater", "one_hot"):
        f = getattr(u, which)
        t = "d" if which != "one_hot" else "l"
        for s, axis, size in itertools.product(B, axs, (0, 1, 3, 4)):
            x = (np.arange(int(np.prod(s))).reshape(s) % 5).astype(t)

            def lazy():
                e = np.zeros((size,) + s, dtype=t)
                v = x
                for k in range(size):
                    if t == "d":
                        v = np.nextafter(v, np.inf if which == "nextn_greater" else -np.inf)
                        e[k] = v
                    else:
                        e[k] = x == k
                return np.moveaxis(e, 0, axis)
            if not run(f, (x, size), s, axis, size, t, lazy):
                return n
        for bad in (1.5, "3", None, 2.0, [2]):
            if not check(f, (np.ones(2, dtype=t), bad), {}, ValueError):
                return n
        if not check(f, (np.ones(2, dtype=t), -1), {}, ValueError):
            return n
    elif which == "convert_to_base":
        f = u.convert_to_base
        for s, s2, axis, size in itertools.product(B, B, axs, (0, 1, 3)):
            if not thorough and size != 3 and (len(s) > 1 or len(s2) > 1):
                continue
            k = np.arange(int(np.prod(s))).reshape(s) * 3 + 1
            b = np.arange(int(np.prod(s2))).reshape(s2) % 4 + 2
            try:
                bs = bcast([s, s2])
            except Refused:
                if not check(f, (k, b, size), dict(axis=axis), ValueError):
                    return n
                continue

            def lazy():
                e = np.zeros((size,) + bs, dtype=int)
                q = np.broadcast_to(k, bs)
                for i in range(size):
                    e[i] = q % b
                    q = q // b
                return np.moveaxis(e, 0, axis)
            if not run(f, (k, b, size), bs, axis, size, "l", lazy):
                return n
        for bad in (1.5, "3", None, 2.0, [2], -1):
            if not check(f, (7, 2, bad), {}, ValueError):
                return n
    else:
        f = u.bincount
        for s in B:
            for axis in axs:
                nd = len(s)
                x = (np.arange(int(np.prod(s))).reshape(s) * 3) % 4
                for m in (0, 1, 4, 5):
                    if not -nd <= axis < nd:
                        if not check(f, (x, m) + ((np.ones(s),) if which == "weights" else ()), dict(axis=axis), AxisError):
                            return n
                        continue
                    k = axis % nd
                    rest = s[:k] + s[k + 1:]
                    if which == "bincount":

                        def lazy():
                            y = np.moveaxis(x, axis, -1)
                            return np.moveaxis((y[..., None, :] == np.arange(m)[:, None]).sum(axis=-1), -1, axis)
                        if not run(f, (x, m), rest, axis, m, "l", lazy):
                            return n
                    else:
                        for s2 in B:
                            nd2 = len(s2)
                            w = np.arange(int(np.prod(s2))).reshape(s2) * 2.0 + 1
                            if not -nd2 <= axis < nd2:
                                if not check(f, (x, m, w), dict(axis=axis), AxisError):
                                    return n
                                continue
                            k2 = axis % nd2
                            try:
                                if s2[k2] != s[k]:
                                    raise Refused
                                b = bcast([rest, s2[:k2] + s2[k2 + 1:]])
                                insert(b, axis, m)
                            except Refused:
                                if not check(f, (x, m, w), dict(axis=axis), ValueError):
                                    return n
                                continue

                            def lazy():
                                y, z = np.moveaxis(x, axis, -1), np.moveaxis(w, axis, -1)
                                return np.moveaxis(((y[..., None, :] == np.arange(m)[:, None]) * z[..., None, :]).sum(axis=-1), -1, axis)
                            if not run(f, (x, m, w), b, axis, m, "d", lazy):
                                return n
    ctx.sample(f"{which}: {len(B)} shapes, axes from -5 to 4, sizes, nine shapes of out")
    return n


def run(shard, ctx):
    np.seterr(all="ignore")
    kind = shard[0].split("_")[0]
    if kind == "wrappers":
        n = wrapper(ctx, shard[1], ctx.thorough)
    elif kind == "gendot":
        import ufunclab as u
        n = 0
        for p, s in ((np.multiply, np.add), (np.minimum, np.maximum), (np.add, u.peaktopeak), (np.equal, np.logical_or), (np.subtract, u.kbnsum)):
            F = Fn("gendot", ctx.call(u.gendot, p, s), dict(sig="(n),(n)->()", min={"n": 1} if s.identity is None else {}))
            n += explore(ctx, F, ctx.thorough)
    else:
        fs = sorted(functions().items(), key=lambda kv: (-kv[1].nin, kv[0]))
        n = 0
        missing = sorted(set(SHAPES) - {k for k, _ in fs})
        if missing:
            ctx.violation(f"these functions are missing: {missing}")
        for name, f in fs[shard[1]::shard[2]]:
            if name not in SHAPES:
                continue
            e = SHAPES[name]
            sig = f.signature and f.signature.replace(" ", "")
            n += 1
            if sig != e["sig"] or (f.nin, f.nout) != (e["nin"], e["nout"]):
                ctx.violation(f"{name}: signature {sig}, {f.nin} inputs and {f.nout} outputs", exp=e)
                continue
            n += explore(ctx, Fn(name, f, e), ctx.thorough)
        ctx.sample("all pairs of shapes for each pair of operands, all shapes of each operand and output, all axes from -5 to 4")
    ctx.count(n, n)
