"""C06: the result of a call does not depend on the calls made before it."""

import os
import pickle
import struct

import numpy as np

from mc import catalog
from mc.cmp import same
from mc.common import tup

PROP = "C06"
LEVEL = "model_checking"
RULE = ("one case = one call at the end of one history (an edge of the graph whose states are the last calls made); the reference is the "
        "same call made first in a process of its own; non-trivial = an earlier call was made")
ASSUMPTIONS = ["a forked process in which no function was called yet stands for a fresh one",
               "a result is compared bit for bit, nan with nan; an exception by its type and text"]
MODS = None


class Call:
    def __init__(self, key, f, args, kw=None, out=None):
        self.key, self.f, self.args, self.kw, self.out = key, f, args, kw or {}, out

    def __call__(self):
        kw = dict(self.kw)
        if self.out is not None:
            kw["out"] = tuple(o.copy() for o in self.out)
            if not isinstance(self.f, np.ufunc):
                kw["out"] = kw["out"][0]
        try:
            r = self.f(*self.args, **kw)
        except Exception as e:
            return ("exc", type(e).__name__, str(e))
        return tuple(np.asarray(q) for q in tup(r))


def equal(a, b):
    if (len(a) == 3 and isinstance(a[0], str)) or (len(b) == 3 and isinstance(b[0], str)):
        return a == b
    return len(a) == len(b) and all(x.dtype == y.dtype and same(x, y) for x, y in zip(a, b))


def bigger(e):
    d = e.sizes[-1]
    if not d:
        return None
    r = {k: (37 if k == "n" or len(d) == 1 else v) for k, v in d.items()}
    return r if e.name not in ("tri_area_indexed",) else None


def calls_of(e, rich=True):
    r = []
    d0, d1 = e.sizes[0], e.sizes[-1]

    def add(tag, dims, B, v, f=None):
        x = e.inputs(dims, B, v)
        if f:
            x = [f(a) for a in x]
        r.append(Call(f"{e.key} {tag}", e.f, x, out=e.new_out(dims, B) if e.needs_out else None))
    add("small", d0, 1, 0)
    add("batch", d1, 3, 1)
    if rich:
        if bigger(e):
            add("longer", bigger(e), 2, 2)
        if any(np.dtype(t).kind in "fc" for t in e.it):
            add("nan", d1, 2, 0, lambda a: np.full_like(a, np.nan) if a.dtype.kind in "fc" else a)
            add("inf", d1, 2, 0, lambda a: np.full_like(a, np.inf) if a.dtype.kind in "fc" else a)
        if e.sig and any(d and not d[0].isdigit() for d in e.ci) and e.name not in ("tri_area_indexed",):
            try:
                add("empty", {k: 0 for k in d0}, 2, 0)
            except (IndexError, ZeroDivisionError, ValueError):
                pass
    return r


def wrappers():
    import ufunclab as u
    x = np.array([3, 1, 4, 1, 5, 9, 2, 6])
    w = np.arange(8) / 4
    c = [Call("bincount", u.bincount, (x,)), Call("bincount m", u.bincount, (x, 4)), Call("bincount w", u.bincount, (x, 4, w)),
         Call("bincount u8", u.bincount, (x.astype("B"), 3)), Call("bincount bad", u.bincount, (x * 1.5, 3)),
         Call("one_hot", u.one_hot, (x, 12)), Call("one_hot axis", u.one_hot, (x, 3, 0)), Call("one_hot bad", u.one_hot, (x, -1)),
         Call("convert_to_base", u.convert_to_base, (x, 3, 5)), Call("convert_to_base axis", u.convert_to_base, (x, 10, 2, 0)),
         Call("convert_to_base bad", u.convert_to_base, (x, 10, -2)),
         Call("nextn_greater", u.nextn_greater, (1.5, 3)), Call("nextn_less", u.nextn_less, (np.float32(1.5), 4)), Call("nextn bad", u.nextn_less, (1.5, -4))]
    for n in (5, 64, 65, 100):
        for k in (-1, 3, n, n - 1):
            for t in "lB" if k >= 0 else "l":
                c.append(Call(f"one_hot {k} {n} {t} out", u.one_hot, (np.array([k, 2], dtype=t), n), out=[np.full((2, n), 7, dtype=t)]))
                c.append(Call(f"one_hot [2, {k}] {n} {t}", u.one_hot, (np.array([2, k], dtype=t), n)))
        c.append(Call(f"convert_to_base {n} digits", u.convert_to_base, (12345, 7, n), out=[np.full(n, 7)]))
        c.append(Call(f"bincount {n}", u.bincount, (np.arange(2 * n) % 9 - 1, n), out=[np.full(n, 7)]))
        c.append(Call(f"bincount {n} w", u.bincount, (np.arange(2 * n) % 9 - 1, n, np.arange(2 * n) / 4), out=[np.full(n, 7.0)]))
        c.append(Call(f"nextn_less {n}", u.nextn_less, (0.0, n), out=[np.full(n, 7.0)]))
    for p, s in ((np.multiply, np.add), (np.minimum, np.maximum), (np.logical_and, np.logical_or), (np.subtract, np.multiply), (np.hypot, np.add)):
        g = u.gendot(p, s)
        for t in "bdlfD":
            try:
                a = np.arange(1, 6).astype(t)
                g(a, a)
            except TypeError:
                continue
            c.append(Call(f"gendot({p.__name__}, {s.__name__}) {t}", g, (a, a[::-1].copy())))
        c.append(Call(f"new gendot({p.__name__}, {s.__name__})", lambda *q, p=p, s=s: u.gendot(p, s)(*q), (w, w)))
    return c


def universe():
    """{module: [calls]}"""
    m = {}
    for e in catalog.entries():
        m.setdefault(e.module, []).append(e)
    return m


def shards(tier):
    from mc.catalog import MODULES  # noqa: F401
    r = [["module", m] for m in sorted(universe())]
    big = {"minmax", "first", "searchsorted", "cross", "means", "ordered"}
    r.sort(key=lambda s: s[1] not in big)
    r += [["triples", m] for m in sorted(universe())] + [["across", k, 4] for k in range(4)] + [["same", 0, 4], ["same", 1, 4], ["same", 2, 4], ["same", 3, 4]] + [["wrappers"], ["repeat", 0, 4], ["repeat", 1, 4], ["repeat", 2, 4], ["repeat", 3, 4]]
    return [[f"{s[0]}_{s[1] if len(s) > 1 else ''}"] + s[1:] for s in r]


def fresh(ctx, calls):
    """The result of each call, made first in a process of its own."""
    res = []
    W = 1
    for c in calls:
        ctx.tick(c.key)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                b = pickle.dumps(c())
                os.write(wr, struct.pack("<q", len(b)))
                v = memoryview(b)
                while v:
                    n = os.write(wr, v)
                    v = v[n:]
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        buf = b""
        while True:
            q = os.read(rd, 1 << 16)
            if not q:
                break
            buf += q
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            ctx.violation(f"{c.key}: the process died (status {st}) in its first call", f=c.f, args=tuple(c.args), kw=c.kw)
            res.append(None)
        else:
            res.append(pickle.loads(buf[8:]))
    return res


def bad(ctx, hist, c, got, exp):
    ctx.violation(f"{c.key}: another result after the calls {[h.key for h in hist]}", f=c.f, args=tuple(c.args), kw=c.kw, got=got, exp=exp,
                  repro=f"make these calls in one process: {[h.key for h in hist]}, then {c.key}")


def pairs(ctx, calls, ref):
    """Every ordered pair of calls, adjacent, on one path."""
    n = len(calls)
    for i in range(n):
        ctx.tick(calls[i].key)
        for j in range(n):
            a = calls[i]()
            b = calls[j]()
            ctx.res.calls += 2
            if ref[i] is not None and not equal(a, ref[i]):
                bad(ctx, [calls[j - 1]] if j else [calls[i - 1], calls[-1]], calls[i], a, ref[i])
                return False
            if ref[j] is not None and not equal(b, ref[j]):
                bad(ctx, [calls[i]], calls[j], b, ref[j])
                return False
    ctx.count(2 * n * n)
    ctx.graph(n, n * n, traces=n * n)
    return True


def in_place(ctx, e):
    """One element of an operand changed in place between two calls on the same memory, and back."""
    if e.isobject or e.name == "tri_area_indexed":
        return True
    d = bigger(e) or e.sizes[-1]
    if len(d) == 1:
        d = {k: 7 for k in d}
    x = e.inputs(d, 1, 1)
    init = e.new_out(d, 1) if e.needs_out else None
    edits = []
    for j, a in enumerate(x):
        v = a.reshape(-1)
        for p in dict.fromkeys((0, 1, v.size // 2, v.size - 2, v.size - 1)):
            q = (p + v.size // 3 + 1) % v.size if v.size > 2 else -1
            if 0 <= p < v.size and q >= 0 and v[q] != v[p]:
                edits.append((j, p, v[q]))
    calls = [Call(e.key, e.f, x, out=init)]
    for j, p, val in edits:
        y = [a.copy() for a in x]
        y[j].reshape(-1)[p] = val
        calls.append(Call(e.key, e.f, y, out=init))
    ref = fresh(ctx, calls)
    buf = [a.copy() for a in x]
    n = 0
    for rounds in range(2):
        for k in [i for q in range(1, len(calls)) for i in (0, q, q)] + list(range(1, len(calls))):
            for b, y in zip(buf, calls[k].args):
                b[...] = y
            r = Call(e.key, e.f, buf, out=init)()
            n += 1
            if ref[k] is not None and not equal(r, ref[k]):
                ctx.violation(f"{e.key}: another result after one element was changed in place", f=e.f, args=tuple(buf), got=r, exp=ref[k])
                return False
    ctx.count(n)
    ctx.graph(len(calls), 3 * len(calls), traces=n)
    return True


def run(shard, ctx):
    kind = shard[0].split("_")[0]
    if kind == "module":
        es = universe()[shard[1]]
        calls = []
        for i, e in enumerate(es):
            calls += calls_of(e, rich=len(es) < 40 or ctx.thorough or i % 4 == 0)
        ref = fresh(ctx, calls)
        pairs(ctx, calls, ref)
        ctx.sample(f"{shard[1]}: all ordered pairs of {len(calls)} calls")
    elif kind == "triples":
        by = {}
        for e in universe()[shard[1]]:
            by.setdefault(e.name, []).append(e)
        for name, es in by.items():
            pick = [e for e in es if e.it[0] in "dDlO"] or es[:1]
            calls = [c for e in pick[:2] for c in calls_of(e)]
            if not ctx.thorough:
                calls = calls[:9]
            ref = fresh(ctx, calls)
            n = len(calls)
            ctx.tick(name)
            for i in range(n):
                for j in range(n):
                    for k in range(n):
                        h = (calls[i](), calls[j](), calls[k]())
                        for q, r, p in zip(h, (ref[i], ref[j], ref[k]), (i, j, k)):
                            if r is not None and not equal(q, r):
                                bad(ctx, [calls[i], calls[j], calls[k]], calls[p], q, r)
                                return
                ctx.tick(name)
            ctx.res.calls += 3 * n ** 3
            ctx.count(n ** 3)
            ctx.graph(n * n, n ** 3, traces=n ** 3)
    elif kind == "across":
        first = {}
        for e in catalog.entries():
            if e.it[0] in "dlD" or e.name not in first:
                first[e.name] = e
        calls = [c for e in first.values() for c in calls_of(e)[:: 2]]
        ref = fresh(ctx, calls)
        n = len(calls)
        for i in range(shard[1], n, shard[2]):
            ctx.tick(calls[i].key)
            for j in range(n):
                a, b = calls[i](), calls[j]()
                for q, r, p in ((a, ref[i], i), (b, ref[j], j)):
                    if r is not None and not equal(q, r):
                        bad(ctx, [calls[i], calls[j], calls[i]] if p == i else [calls[i]], calls[p], q, r)
                        return
            ctx.count(n)
            ctx.res.calls += 2 * n
            ctx.graph(1, n, traces=n)
        ctx.sample(f"all ordered pairs of {n} calls of all {len(first)} functions")
    elif kind == "wrappers":
        calls = wrappers()
        ref = fresh(ctx, calls)
        if not pairs(ctx, calls, ref):
            return
        ctx.sample(f"all ordered pairs of {len(calls)} calls of bincount, one_hot, convert_to_base, nextn and gendot")
    elif kind == "same":
        # the same memory with other contents, and the same output array
        for e in catalog.entries()[shard[1]::shard[2]]:
            ctx.tick(e.key)
            for d in dict.fromkeys(tuple(sorted(q.items())) for q in (e.sizes[0], e.sizes[-1])):
                d = dict(d)
                data = [e.inputs(d, 2, v) for v in (0, 1, 3)]
                init = e.new_out(d, 2) if e.needs_out else None
                ref = [Call(e.key, e.f, x, out=init)() for x in data]
                buf = [x.copy() for x in data[0]]
                out = [np.empty(r.shape, dtype=r.dtype) for r in ref[0]]
                for w in np.ndindex(3, 3, 3):
                    for k in w:
                        for b, x in zip(buf, data[k]):
                            b[...] = x
                        if init is not None:
                            for o, q in zip(out, init):
                                o[...] = q
                        g = ctx.call(e.f, *buf, out=tuple(out))
                        if not equal(tuple(np.asarray(q) for q in tup(g)), ref[k]):
                            ctx.violation(f"{e.key}: another result for the same contents after the memory held something else (data sets {w})", f=e.f,
                                          args=tuple(buf), got=g, exp=ref[k])
                            return
                ctx.count(81)
                ctx.graph(3, 9, traces=27)
            if not in_place(ctx, e):
                return
    else:
        N = 2000 if ctx.thorough else 300
        for e in catalog.entries()[shard[1]::shard[2]]:
            ctx.tick(e.key)
            c = calls_of(e, False)[1]
            r0 = c()
            for k in range(N):
                r = c()
                if not equal(r, r0):
                    bad(ctx, [c] * (k + 1), c, r, r0)
                    return
            ctx.res.calls += N
            ctx.count(N)
            ctx.graph(0, 0, traces=1)
