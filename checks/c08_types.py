"""C08: which loop a call uses, and what the conversion of operands and results does."""

import itertools
import json
import os

import numpy as np

from mc.catalog import MAKE, Entry, entries, functions  # noqa: F401
from mc.cmp import same
from mc.common import chunks, tup

PROP = "C08"
LEVEL = "exploration"
RULE = ("one case = one combination of operand types (or Python numbers, lists, `signature`, `casting`, type of `out`) of one function; "
        "non-trivial = the operands are not already of the types of one loop")
ASSUMPTIONS = ["the safe and same-kind casting tables and the conversions are NumPy's",
               "the loops each function is to have are listed in mc/loops.json"]
NCH = 32
TYPES = ["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "G", "O", "S1", "U1", "M8[s]", "m8[s]", "V4"]
SWAPPED = [">h", ">i", ">l", ">L", ">e", ">f", ">d", ">D", ">g"]
LOOPS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "loops.json")))


def shards(tier):
    return chunks(NCH)


_CAST = {}


def can(a, b, how="safe"):
    k = (a, b, how)
    r = _CAST.get(k)
    if r is None:
        r = _CAST[k] = np.can_cast(np.dtype(a), np.dtype(b), how)
    return r


def model(name, dts):
    """The loop that operands of these types use, or None."""
    for t in LOOPS[name]:
        i = t.split("->")[0]
        if "O" in i and "O" not in dts:
            continue
        if all(can(a, b) for a, b in zip(dts, i)):
            return t
    return None


def explicit(e, t, args):
    return [np.asarray(a).astype(c) for a, c in zip(args, t.split("->")[0])]


class Fn:
    def __init__(self, name, f):
        self.name, self.f = name, f
        es = entries({name})
        self.es = {e.types: e for e in es}
        self.order = [e.types for e in es]

    def data(self, t, v=0):
        e = self.es[t]
        dims = e.sizes[-1] if len(e.sizes) < 3 else e.sizes[2]
        return e, e.inputs(dims, 2, v)


def conv(a, dt):
    d = np.dtype(dt)
    with np.errstate(all="ignore"):
        if d.kind in "SUV":
            return np.full(a.shape, b"1" if d.kind != "U" else "1", dtype=d) if d.kind != "V" else np.zeros(a.shape, d)
        if d.kind in "mM":
            return np.ones(a.shape, dtype="i8").astype(d)
        if a.dtype == object:
            a = np.array([int(x) for x in a.ravel()], dtype=float).reshape(a.shape)
        if d == object:
            r = np.empty(a.shape, object)
            r.ravel()[...] = 0
            for i in np.ndindex(a.shape):
                r[i] = a[i].item() if a.dtype.kind != "g" and a.dtype.itemsize <= 8 else float(a[i].real)
            return r
        if a.dtype.kind == "c" and d.kind != "c":
            a = a.real
        if d.kind in "iu" and a.dtype.kind == "f":
            a = np.where(np.isfinite(a), np.abs(a) if d.kind == "u" else a, 1)
        return a.astype(d)


def identical(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype == object:
        return same(a, b)
    return same(a, b) and (a.dtype.kind not in "f" or bool(np.all(np.signbit(a) == np.signbit(b))) or bool(np.isnan(a).any()))


def judge(ctx, F, args, dts, what, base):
    """One call with operands of the types dts."""
    f, name = F.f, F.name
    t = model(name, dts)
    e = F.es[t] if t in F.es else None
    kw = {}
    if base.needs_out:
        dims = {d: n for c, a in zip(base.ci, args) for d, n in zip(c, a.shape[1:])}
        m = {"m": 10, "n": 4}
        shp = [tuple(dims.get(d, m[d]) for d in c) for c in base.co]
        lt = t or F.order[0]
        kw = {"out": tuple(np.zeros((2,) + s, c) for s, c in zip(shp, lt.split("->")[1]))}
    got, err = ctx.attempt(f, *args, **kw)
    ctx.count(1, int(t is None or any(np.dtype(a).char != c for a, c in zip(dts, t))), part=what)
    if t is None:
        if not isinstance(err, TypeError):
            ctx.violation(f"{name} of operands of types {','.join(dts)}: no loop can take them, but the answer is {err or 'a result'}",
                          f=f, args=tuple(args), got=None if err else got)
        return
    if e is None:
        ctx.violation(f"{name} has no loop {t}")
        return
    ex = explicit(e, t, args)
    kw2 = {k: tuple(np.zeros_like(o) for o in v) for k, v in kw.items()}
    exp, err2 = ctx.attempt(f, *ex, **kw2)
    if (err is None) != (err2 is None) or (err is not None and type(err) is not type(err2)):
        ctx.violation(f"{name} of operands of types {','.join(dts)} (loop {t}): {err!r}; of the converted operands: {err2!r}",
                      f=f, args=tuple(args))
        return
    if err is not None:
        return
    for k, (g, x, c) in enumerate(zip(tup(got), tup(exp), t.split("->")[1])):
        g, x = np.asarray(g), np.asarray(x)
        if c != "O" and g.dtype != np.dtype(c):
            ctx.violation(f"{name} of operands of types {','.join(dts)}: the result has type {g.dtype}, not {np.dtype(c)} (loop {t})",
                          f=f, args=tuple(args), got=g)
        elif not (identical(g, x)):
            ctx.violation(f"{name} of operands of types {','.join(dts)}: not the result for the operands converted to {t}",
                          f=f, args=tuple(args), got=g, exp=x)


def dispatch(ctx, F):
    nin = F.f.nin
    bases = [F.order[0], F.order[-1] if "O" not in F.order[-1] else F.order[-2]]
    mid = [t for t in F.order if t.split("->")[0][0] == "d"]
    bases = list(dict.fromkeys(bases + mid[:1]))
    seen = set()
    al = TYPES + SWAPPED
    for bt in bases:
        e, x = F.data(bt)
        it = bt.split("->")[0]
        memo = {}

        def arg(j, dt):
            r = memo.get((j, dt))
            if r is None:
                r = memo[(j, dt)] = conv(x[j], dt)
            return r
        if nin == 1:
            combos = [(a,) for a in al]
        elif nin <= (3 if ctx.thorough or bt == bases[0] else 2):
            combos = list(itertools.product(al, repeat=nin))
        else:
            few = al
            combos = [(a,) * nin for a in al]
            for i, j in itertools.combinations(range(nin), 2):
                for a, b in itertools.product(few, repeat=2):
                    q = list(it)
                    q[i], q[j] = a, b
                    combos.append(tuple(q))
        for q in combos:
            if (q, bt) in seen:
                continue
            seen.add((q, bt))
            judge(ctx, F, [arg(j, c) for j, c in enumerate(q)], q, "types", e)
            if ctx.full:
                return
        ctx.tick(f"{F.name} {bt}")


def python_numbers(ctx, F):
    """Python numbers take the type of the arrays; lists are arrays of the default types."""
    f = F.f
    for t in F.order:
        i = t.split("->")[0]
        if "O" in t:
            continue
        e, x = F.data(t)
        if e.needs_out:
            continue
        kinds = [np.dtype(c).kind for c in i]
        scalars = [j for j, c in enumerate(e.ci) if c == ()]
        rows = [np.array(a[0]) for a in x]
        exp = [np.asarray(v) for v in tup(ctx.call(f, *rows))]
        for r in range(1, len(scalars) + 1):
            for js in itertools.combinations(scalars, r):
                rest = [j for j in range(len(i)) if j not in js]
                if not rest or np.dtype(i[js[0]]).itemsize > 8:
                    continue
                args = list(rows)
                ok = True
                for j in js:
                    v = rows[j].item()
                    if kinds[j] == "u" and v < 0:
                        ok = False
                    args[j] = v
                # a Python number must not be what decides: some array has the type of each operand that it replaces
                if not ok or any(not any(i[k] == i[j] for k in rest) for j in js) or model(F.name, [i[k] for k in range(len(i))]) != t:
                    continue
                got, err = ctx.attempt(f, *args)
                ctx.count(1, part="Python numbers")
                if err is not None or not all(identical(g, v) for g, v in zip(map(np.asarray, tup(got)), exp)):
                    ctx.violation(f"{F.name}[{t}]: other result with Python numbers for operands {js}: {err or ''}",
                                  f=f, args=tuple(args), got=got, exp=exp[0])
        # lists
        if all(c in "ld?" for c in i):
            got, err = ctx.attempt(f, *[a.tolist() for a in rows])
            ctx.count(1, part="lists")
            if err is not None or not all(identical(g, v) for g, v in zip(map(np.asarray, tup(got)), exp)):
                ctx.violation(f"{F.name}[{t}]: other result for lists: {err or ''}", f=f, args=tuple(rows), got=got, exp=exp[0])
        if ctx.full:
            return


def outs(ctx, F):
    """Every type of `out`, with every casting rule; a refused one stays as it was."""
    f = F.f
    for t in F.order if len(F.order) <= 20 or ctx.thorough else F.order[::7]:
        if "O" in t:
            continue
        e, x = F.data(t, 1)
        if e.needs_out or F.name == "sosfilter_ic_contig":
            continue
        if model(F.name, list(t.split("->")[0])) != t:
            continue
        exp = [np.asarray(v) for v in tup(ctx.call(f, *[a.copy() for a in x]))]
        for k, c in enumerate(t.split("->")[1]):
            for dt in TYPES + SWAPPED:
                for how in ("same_kind", "safe", "no", "equiv", "unsafe"):
                    d = np.dtype(dt)
                    o = [None] * len(exp)
                    o[k] = np.zeros(exp[k].shape, d)
                    if d == object:
                        o[k][...] = 7
                    before = o[k].copy()
                    good = can(c, dt, how)
                    got, err = ctx.attempt(f, *x, out=tuple(o), casting=how)
                    ctx.count(1, part="out")
                    # inputs are of the loop's own types, whatever the rule; V and S out of numbers is NumPy's affair
                    if d.kind in "SUVMm":
                        continue
                    if not good:
                        if not isinstance(err, TypeError):
                            ctx.violation(f"{F.name}[{t}] into out of type {d} with casting={how!r}: {err or 'accepted'}", got=o[k])
                        elif not (o[k].tobytes() == before.tobytes()):
                            ctx.violation(f"{F.name}[{t}]: out of type {d} was refused and changed", got=o[k], exp=before)
                        continue
                    if err is not None:
                        ctx.violation(f"{F.name}[{t}] into out of type {d} with casting={how!r}: {err!r}", f=f, args=tuple(x))
                        continue
                    if how == "unsafe" and (d.kind in "iu" and exp[k].dtype.kind in "fc" or d.kind == "b" or exp[k].dtype.kind == "c"):
                        continue
                    with np.errstate(all="ignore"):
                        w = exp[k].astype(d)
                    if not (same(o[k], w) or d == object and same(o[k].astype(complex), w.astype(complex))):
                        ctx.violation(f"{F.name}[{t}] into out of type {d}: not the converted result", f=f, args=tuple(x), got=o[k], exp=w)
                    if tup(got)[k] is not o[k]:
                        ctx.violation(f"{F.name}[{t}]: out is not what is returned")
            if ctx.full:
                return


def signatures(ctx, F):
    """signature= selects a loop."""
    f = F.f
    for bt in dict.fromkeys([F.order[0], F.order[-1]]):
        if "O" in bt:
            bt = F.order[-2]
        e, x = F.data(bt)
        if e.needs_out:
            continue
        it = bt.split("->")[0]
        for t in F.order:
            i = t.split("->")[0]
            if "O" in t:
                continue
            for how in ("same_kind", "unsafe", "safe"):
                good = all(can(a, b, how) for a, b in zip(it, i))
                got, err = ctx.attempt(f, *x, signature=t, casting=how)
                ctx.count(1, part="signature")
                if not good:
                    if not isinstance(err, TypeError):
                        ctx.violation(f"{F.name} of {it} with signature={t!r}, casting={how!r}: {err or 'accepted'}", got=got)
                    continue
                exp, err2 = ctx.attempt(f, *[a.astype(c) for a, c in zip(x, i)], signature=t)
                if type(err) is not type(err2):
                    ctx.violation(f"{F.name} of {it} with signature={t!r}, casting={how!r}: {err!r}, of converted operands {err2!r}")
                elif err is None and not all(identical(np.asarray(a), np.asarray(b)) and np.asarray(a).dtype == np.dtype(c)
                                             for a, b, c in zip(tup(got), tup(exp), t.split("->")[1])):
                    ctx.violation(f"{F.name} of {it} with signature={t!r}: not the result for converted operands", f=f, args=tuple(x), got=got, exp=exp)
        for bad in ("S" * f.nin + "->" + "S" * f.nout, "M" * f.nin + "->" + "M" * f.nout):
            got, err = ctx.attempt(f, *x, signature=bad, casting="unsafe")
            ctx.count(1, part="signature")
            if not isinstance(err, TypeError):
                ctx.violation(f"{F.name}: signature={bad!r} {err or 'accepted'}")
        if ctx.full:
            return


def table(ctx, F):
    ctx.count(1, part="table")
    if list(F.f.types) != LOOPS[F.name]:
        gone = [t for t in LOOPS[F.name] if t not in F.f.types]
        if gone:
            ctx.violation(f"{F.name} no longer has the loops {gone}")


def wrappers(ctx):
    import ufunclab as u
    ints = ["b", "B", "h", "H", "i", "I", "l", "L", ">h", ">l"]

    def eq(what, got, exp, args):
        ctx.count(1, part="wrappers")
        if not (np.asarray(got).dtype == np.asarray(exp).dtype and same(got, exp)):
            ctx.violation(f"{what}: the type of the operands matters", args=args, f=what, got=got, exp=exp)
    for c in ints:
        x = np.array([1, 0, 1], c)
        l = np.array([1, 0, 1])
        eq("bincount", ctx.call(u.bincount, x, 3), ctx.call(u.bincount, l, 3), (x, 3))
        eq("bincount", ctx.call(u.bincount, x), ctx.call(u.bincount, l), (x,))
        for w in ints + ["f", "d", "F", "D", "e"]:
            ww = np.array([2, 3, 5], w)
            r, err = ctx.attempt(u.bincount, x, 3, weights=ww)
            r2, err2 = ctx.attempt(u.bincount, l.astype(np.dtype(c).newbyteorder("=")), 3, weights=ww)
            ctx.count(1, part="wrappers")
            if type(err) is not type(err2) or (err is None and not (same(r, r2) and r.dtype == r2.dtype)):
                ctx.violation(f"bincount({c}, weights {w}): {err or r}, of converted operands {err2 or r2}")
            if err is None and r.dtype != ww.dtype:
                ctx.violation(f"bincount with weights of type {w} returns {r.dtype}")
            if err is None and not same(r.astype(float), np.array([3.0, 7.0, 0.0])):
                ctx.violation(f"bincount({c}, weights {w})", got=r)
        eq("one_hot", ctx.call(u.one_hot, np.array(1, c), 3).astype(int), ctx.call(u.one_hot, 1, 3), (c,))
        eq("convert_to_base", np.asarray(ctx.call(u.convert_to_base, np.array(13, c), np.array(3, c), 4)).astype(int),
           np.asarray(ctx.call(u.convert_to_base, 13, 3, 4)).astype(int), (c,))
    for c in ["f", "d", ">f", ">d"]:
        for f in (u.nextn_greater, u.nextn_less):
            t = c[-1]
            eq(f.__name__ if hasattr(f, "__name__") else "nextn", ctx.call(f, np.array(3, c), 4).astype(t), ctx.call(f, np.dtype(t).type(3), 4), (c,))


def run(shard, ctx):
    fs = sorted(functions().items(), key=lambda kv: (-kv[1].nin * (kv[1].ntypes > 60) - kv[1].nin, kv[0]))
    for name, f in fs[shard[1]::shard[2]]:
        ctx.tick(name)
        if name not in LOOPS:
            continue
        F = Fn(name, f)
        table(ctx, F)
        dispatch(ctx, F)
        python_numbers(ctx, F)
        outs(ctx, F)
        signatures(ctx, F)
        if ctx.full:
            return
    if shard[1] == NCH - 1:
        wrappers(ctx)
    ctx.sample("types of two operands at a time over 33 types; out of 33 types with 5 casting rules")
