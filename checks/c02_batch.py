"""C02: a batch is computed slice by slice; operands broadcast."""

import itertools

import numpy as np

from mc.cmp import close, same
from mc.common import agrees, chunks, my_entries, scale_of, tup

PROP = "C02"
LEVEL = "exploration"
RULE = ("one case = one loop of one function x core sizes x one assignment of batch shapes to the operands (all assignments for up to "
        "two operands, all pairs beyond), or one batch length, or one `where` mask, or one special value in one slice, or one ufunc method; non-trivial = operands of "
        "different batch shapes or more than one slice")
ASSUMPTIONS = ["the reference is the same function applied to each slice alone", "NumPy's broadcasting and buffering"]
NCH = 48
TARGETS = [(), (1,), (3,), (2, 3), (0,), (2, 0), (0, 3), (1, 0, 2), (2, 1, 3)]


def shards(tier):
    return chunks(NCH)


def variants(shape):
    """The batch shapes that broadcast to `shape`."""
    r = set()
    for k in range(len(shape) + 1):
        t = shape[k:]
        if any(n != 1 for n in shape[:k]):
            pass
        for m in itertools.product(*[(n, 1) if n != 1 else (1,) for n in t]):
            r.add(tuple(m))
    return sorted(r, key=lambda s: (len(s), s))


class Ref:
    """f on the slices with the given row of each operand, memoised."""

    def __init__(self, ctx, e, dims, rows, call=None):
        self.call, self.e, self.rows = call or ctx.call, e, rows
        self.init = e.new_out(dims, 1) if e.needs_out else None
        self.memo = {}

    def __call__(self, ids):
        r = self.memo.get(ids)
        if r is None:
            e = self.e
            args = []
            for j, i in enumerate(ids):
                s = self.rows[j][i]
                if e.it[j] == "O":
                    q = np.empty(np.shape(s), dtype=object)
                    q[...] = s
                    s = q
                args.append(np.array(s))
            kw = {"out": tuple(o[0].copy() for o in self.init)} if self.init is not None else {}
            r = self.memo[ids] = [np.asarray(v, dtype=t) for v, t in zip(tup(self.call(e.f, *args, **kw)), e.ot)]
        return r


def expect(ref, shape, idx):
    """Results for the batch `shape`, idx[j] = array of row numbers of operand j, already broadcast."""
    e = ref.e
    out = None
    for p in np.ndindex(*shape):
        r = ref(tuple(int(i[p]) for i in idx))
        if out is None:
            out = [np.empty(shape + v.shape, dtype=t) for v, t in zip(r, e.ot)]
        for o, v in zip(out, r):
            o[p] = v[()] if v.shape == () else v
    return out


def take(rows, idx):
    return rows[idx]


def run(shard, ctx):
    for e in my_entries(shard):
        ctx.part = e.name
        for d, dims in enumerate(e.sizes):
            if d not in (0, len(e.sizes) - 1) and not ctx.thorough:
                continue
            ctx.tick(f"{e.key} {dims}")
            rows = e.inputs(dims, 5, d)
            sc = scale_of(rows)
            ref = Ref(ctx, e, dims, rows)
            shapes(ctx, e, dims, rows, ref, sc)
            if d == len(e.sizes) - 1 or ctx.thorough:
                special(ctx, e, dims, rows, sc)
            if d == len(e.sizes) - 1:
                long(ctx, e, dims, rows, ref, sc)
            if ctx.full:
                return
        if e.sig is None and not e.isobject:
            where(ctx, e)
            if len(e.it) == 2 and len(e.ot) == 1 and len(set(e.it + e.ot)) == 1:
                methods(ctx, e)
        if ctx.full:
            return


def shapes(ctx, e, dims, rows, ref, sc):
    n = k = 0
    nin = len(e.it)
    for tgt in TARGETS:
        vs = variants(tgt)
        if nin <= 2:
            asg = list(itertools.product(vs, repeat=nin))
        else:
            asg = []
            for i, j in itertools.combinations(range(nin), 2):
                for a, b in itertools.product(vs, repeat=2):
                    for rest in {tgt, vs[0]}:
                        t = [rest] * nin
                        t[i], t[j] = a, b
                        asg.append(tuple(t))
            asg = list(dict.fromkeys(asg))
        if e.sig is not None and len(tgt) > 1 and nin > 2 and not ctx.thorough:
            asg = asg[::3]
        for a in asg:
            shape = np.broadcast_shapes(*a)
            idx, args = [], []
            for j, s in enumerate(a):
                i = (np.arange(int(np.prod(s, dtype=int))).reshape(s) * (j + 1) + j) % 5
                args.append(take(rows[j], i) if s or rows[j].ndim > 1 else rows[j][int(i)])
                idx.append(np.broadcast_to(i, shape))
            args = [np.array(v, dtype=t) if not isinstance(v, np.ndarray) and t != "O" else v for v, t in zip(args, e.it)]
            if any(t == "O" and not isinstance(v, np.ndarray) for v, t in zip(args, e.it)):
                continue
            kw = {}
            if e.needs_out:
                kw["out"] = tuple(np.zeros(shape + s, dtype=t) for s, t in zip(e.out_shapes(dims), e.ot))
            res = tup(ctx.call(e.f, *args, **kw))
            k += 1
            n += len(set(a)) > 1 or int(np.prod(shape, dtype=int)) > 1
            exp = expect(ref, shape, idx) if 0 not in shape else [np.empty(shape + s, dtype=t) for s, t in zip(e.out_shapes(dims), e.ot)]
            for r, x in zip(res, exp):
                if np.shape(r) != x.shape or np.asarray(r).dtype != x.dtype and x.dtype != object or not agrees(e, r, x, sc):
                    ctx.violation(f"{e.key}: batch shapes {a} with sizes {dims} differ from the slices alone", f=e.f, args=tuple(args), kw=kw,
                                  got=np.asarray(r), exp=x)
                    return
    ctx.count(k, n)
    ctx.sample(f"{e.key} {dims}: {k} assignments of batch shapes")


def special(ctx, e, dims, rows, sc):
    """One slice holds a special value (in all of an operand, at its start or at its end): the other slices are unaffected."""
    n = 0
    np.seterr(all="ignore")
    for j, t in enumerate(e.it):
        k = np.dtype(t).kind
        vals = [np.nan, np.inf, -np.inf, 0, -1] if k in "fc" else [0, -1] if k == "i" else [0] if k == "u" else []
        core = int(np.prod(rows[j].shape[1:], dtype=int))
        for v in vals:
            for part in ("all", "first", "last") if core > 1 else ("all",):
                for p in (0, 1, 4):
                    q = list(rows)
                    q[j] = rows[j].copy()
                    flat = q[j].reshape(5, -1)
                    flat[p, slice(None) if part == "all" else 0 if part == "first" else -1] = v
                    ref = Ref(ctx, e, dims, q, lambda f, *a, **k: f(*a, **k))
                    for fixed in [None] + list(range(len(e.it)) if len(e.it) > 1 else ()) + (["others"] if len(e.it) > 2 else []):
                        idx = [np.full(5, p) if i == fixed or fixed == "others" and i != j else np.arange(5) for i in range(len(e.it))]
                        if fixed == j:
                            continue
                        args = [take(q[i], p if i == fixed or fixed == "others" and i != j else slice(None)) for i in range(len(e.it))]
                        if any(not isinstance(a, np.ndarray) and c == "O" for a, c in zip(args, e.it)):
                            continue
                        try:
                            exp = expect(ref, (5,), idx)
                        except Exception:
                            continue       # not a valid argument by itself
                        out = []
                        for x in exp:
                            o = np.zeros(x.shape, dtype=x.dtype)
                            if not e.needs_out and x.dtype != object:
                                o.view(np.uint8)[...] = 77 if x.dtype != bool else 1
                            out.append(o)
                        res = tup(ctx.call(e.f, *args, out=tuple(out)))
                        n += 1
                        for r, x in zip(res, exp):
                            if not agrees(e, r, x, sc):
                                ctx.violation(f"{e.key} {dims}: {v} in slice {p} ({part} of operand {j}; operand {fixed} broadcast) changes other slices",
                                              f=e.f, args=tuple(args), got=np.asarray(r), exp=x)
                                return
    ctx.count(n, n)


def long(ctx, e, dims, rows, ref, sc):
    """Long batches (NumPy's buffers hold 8192 elements), each operand full, or one of them broadcast."""
    n = 0
    if e.isobject:
        Ns = (1, 2, 7, 50)
    else:
        Ns = tuple(range(1, 34)) + (63, 64, 65, 127, 129, 257, 8191, 8192, 8193, 16385) if e.sig is None else (1, 2, 7, 31, 64, 257, 8193)
    for N in Ns:
        ids = [(np.arange(N) * (j + 1) + j) % 5 for j in range(len(e.it))]
        for fixed in [None] + list(range(len(e.it)) if len(e.it) > 1 else ()):
            idx = [np.full(N, 2) if j == fixed else i for j, i in enumerate(ids)]
            # the result has period 5
            per = expect(ref, (min(N, 5),), [i[:5] for i in idx])
            args = [take(rows[j], 2 if j == fixed else i) for j, i in enumerate(idx)]
            if any(not isinstance(v, np.ndarray) and t == "O" for v, t in zip(args, e.it)):
                continue
            exp = [x[np.arange(N) % 5] for x in per]
            modes = ["plain"]
            if not e.isobject and N in (7, 33, 8193, 257):
                modes.append("swapped")
            for m in modes:
                a = [np.asarray(v).astype(np.dtype(t).newbyteorder()) if m == "swapped" and np.dtype(t).itemsize > 1 else v for v, t in zip(args, e.it)]
                kw = {}
                if e.needs_out:
                    kw["out"] = tuple(np.zeros((N,) + s, dtype=t) for s, t in zip(e.out_shapes(dims), e.ot))
                res = tup(ctx.call(e.f, *a, **kw))
                n += 1
                for r, x in zip(res, exp):
                    if np.shape(r) != x.shape or not agrees(e, r, x, sc):
                        ctx.violation(f"{e.key}: batch of {N} slices ({m}, operand {fixed} broadcast) differs from the slices alone", f=e.f,
                                      args=tuple(v[:8] if np.ndim(v) else v for v in args), got=np.asarray(r)[:16], exp=x[:16])
                        return
    ctx.count(n, n - 1)


def where(ctx, e):
    """Every mask of five elements: exactly the selected elements are written."""
    rows = e.inputs({}, 5, 1)
    full = tup(ctx.call(e.f, *rows))
    n = 0
    for m in range(32):
        mask = np.array([m >> i & 1 for i in range(5)], dtype=bool)
        for strided in (False, True):
            a = [np.repeat(v, 2)[::2] if strided else v for v in rows]
            out = tuple(np.full(10 if strided else 5, 7, dtype=t)[:: 2 if strided else 1] for t in e.ot)
            res = tup(ctx.call(e.f, *a, out=out, where=mask))
            n += 1
            for r, x, o in zip(res, full, out):
                q = np.where(mask, x, np.array(7, dtype=x.dtype))
                if r is not o or not (same(r, q) if e.exact or r.dtype.kind not in "fc" else close(r, q, 64)):
                    ctx.violation(f"{e.key}: where={mask}", f=e.f, args=tuple(rows), got=r, exp=q)
                    return
    ctx.count(n)


def methods(ctx, e):
    """reduce, accumulate, outer and reduceat of a binary ufunc are the folds of the ufunc itself."""
    t = e.it[0]
    x = np.array([0.5, 0.25, 1.5, 0.75, 2.0, 1.25, 0.125, 3.0, 0.5], dtype=t)
    n = 0
    for L in range(1, len(x) + 1):
        v = x[:L]
        acc = [v[0]]
        for k in range(1, L):
            acc.append(ctx.call(e.f, acc[-1], v[k]))
        acc = np.array(acc, dtype=t)
        for lay in (v, np.repeat(v, 2)[::2], v[::-1].copy()[::-1]):
            r = ctx.call(e.f.reduce, lay)
            a = ctx.call(e.f.accumulate, lay)
            o = ctx.call(e.f.outer, lay, x)
            m = ctx.call(e.f.reduce, np.stack([lay, lay * 2], axis=1), axis=0)
            n += 4
            eo = np.array([[ctx.call(e.f, p, q) for q in x] for p in v], dtype=t)
            for g, q, w in ((r, acc[-1], "reduce"), (a, acc, "accumulate"), (o, eo, "outer"), (m[0], acc[-1], "reduce of the columns")):
                if not close(np.asarray(g), np.asarray(q), 64):
                    ctx.violation(f"{e.key}.{w} of {L} elements", f=e.f, args=(v,), got=g, exp=q)
                    return
    ctx.count(n)
