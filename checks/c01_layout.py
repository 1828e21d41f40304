"""C01: the answer does not depend on how operands and results lie in memory."""

import itertools

import numpy as np

from mc import catalog
from mc.common import agrees, alone, chunks, my_entries, scale_of, tup
from mc.layout import LAYOUTS, OUT_LAYOUTS, gaps_ok, lay, raw_bytes

PROP = "C01"
LEVEL = "exploration"
RULE = ("one case = one loop of one function x core sizes x data variant x one assignment of memory layouts to "
        "operands and outputs (all assignments for up to two operands, all pairs of operands beyond), or one way of "
        "naming axes, or one aliasing of an output with an input; non-trivial = at least one operand or output is "
        "not plain contiguous, or aliased")
ASSUMPTIONS = ["the reference is the same function applied to each slice alone on fresh contiguous arrays",
               "values outside the fixed data patterns are covered by the other properties"]
NCH = 48
# sosfilter_ic_contig is documented to require operands whose core dimensions are C-contiguous.
CONTIG_ONLY = "sosfilter_ic_contig"
CORE_CONTIG = ["contig", "rows", "misaligned", "swapped", "readonly"]


def shards(tier):
    return chunks(NCH)


def special(e, args, v):
    """The same data with infinities and NaNs in it (in the first floating-point operand)."""
    j = next((j for j, t in enumerate(e.it) if np.dtype(t).kind in "fc"), None)
    if j is None or e.name.startswith("sos") or e.name == "linear_interp1d":
        return None
    args = [a.copy() for a in args]
    flat = args[j].reshape(args[j].shape[0], -1)
    sp = [np.inf, -np.inf, np.nan] if v == "s" else [np.inf, np.inf, -np.inf]
    n = flat.shape[1]
    for b in range(flat.shape[0]):
        flat[b, b % n] = sp[b % 3]
        if n > 3 and b % 2:
            flat[b, (b + 2) % n] = sp[(b + 1) % 3]
    return args


BIG = list(range(6, 21)) + [31, 32, 33, 63, 64, 65, 127, 128, 129]


def assignments(e, names, small):
    """Layout assignments for the inputs of e."""
    nin = len(e.it)
    if nin == 1:
        return [(n,) for n in names]
    if not small:
        r = [(n,) * nin for n in names]
        for j in range(nin):
            for n in names:
                r.append(tuple(n if i == j else "contig" for i in range(nin)))
        return list(dict.fromkeys(r))
    if nin == 2:
        return list(itertools.product(names, repeat=2))
    r = [(n,) * nin for n in names]
    for i, j in itertools.combinations(range(nin), 2):
        for a, b in itertools.product(names, repeat=2):
            t = ["contig"] * nin
            t[i], t[j] = a, b
            r.append(tuple(t))
    return list(dict.fromkeys(r))


def big_sizes(e, thorough):
    letters = sorted({d for c in e.ci + e.co for d in c if not d.isdigit()})
    if not letters or "3" in "".join("".join(c) for c in e.ci) and e.name.startswith("tri_area_"):
        return []
    out = []
    for n in BIG:
        d = dict(e.sizes[-1])
        key = "n" if "n" in d else letters[0]
        if e.name.startswith("sos") or e.name == "backlash_sum":
            key = "n"
        d[key] = n
        out.append(d)
    if e.name.startswith("sos") or e.name == "backlash_sum":
        for m in (4, 5, 8, 9, 16, 17):
            out.append(dict(n=4, m=m))
    return out


def run(shard, ctx):
    for e in my_entries(shard):
        ctx.part = e.name
        B = 3
        names = list(LAYOUTS)
        if e.name == CONTIG_ONLY:
            names = CORE_CONTIG
        cases = [(d, v, True) for d in e.sizes for v in ((0, 1, 2, 3, "s", "t") if ctx.thorough else (0, 1, "s", "t"))]
        if not e.isobject:
            cases += [(d, v, ctx.thorough and i % 4 == 0) for i, d in enumerate(big_sizes(e, ctx.thorough))
                      for v in (0,)]
        for dims, v, small in cases:
            ctx.tick(f"{e.key} {dims}")
            args = e.inputs(dims, B, v) if isinstance(v, int) else special(e, e.inputs(dims, B, 0), v)
            if args is None:
                continue
            init = e.new_out(dims, B) if e.needs_out else None
            if init is not None and e.name.startswith("_bincount"):
                for o in init:
                    o[...] = 2
            exp = alone(ctx, e, args, init)
            sc = scale_of(args)
            one(ctx, e, dims, args, init, exp, sc, names, small)
            if small:
                outs(ctx, e, dims, args, init, exp, sc, names)
                alias(ctx, e, dims, args, init, exp, sc)
                axes(ctx, e, dims, args, init, exp, sc)
        if ctx.full:
            return


def check(ctx, e, views, bases, before, res, exp, sc, what, kw=None):
    for r, x in zip(res, exp):
        if not agrees(e, r, x, sc):
            ctx.violation(f"{e.key}: result depends on memory layout ({what})", f=e.f, args=tuple(views), kw=kw,
                          got=np.asarray(r), exp=x)
            return False
    for j, (b, q) in enumerate(zip(bases, before)):
        if raw_bytes(b) != q:
            ctx.violation(f"{e.key}: input {j} was modified ({what})", f=e.f, args=tuple(views))
            return False
    return True


def one(ctx, e, dims, args, init, exp, sc, names, small):
    n = 0
    for asg in assignments(e, names, small):
        k = n % 3
        bv = [lay(a, l, k + j) for j, (a, l) in enumerate(zip(args, asg))]
        bases, views = [b for b, _ in bv], [w for _, w in bv]
        before = [raw_bytes(b) for b in bases]
        kw = {"out": tuple(o.copy() for o in init)} if init is not None else {}
        res = tup(ctx.call(e.f, *views, **kw))
        if not check(ctx, e, views, bases, before, res, exp, sc, f"layouts {asg}, sizes {dims}"):
            return
        n += 1
    ctx.count(n, n - 1)
    ctx.sample(f"{e.key} {dims}: {n} layout assignments, result {exp[0].ravel()[:3].tolist()}")


def outs(ctx, e, dims, args, init, exp, sc, names):
    n = 0
    nout = len(e.ot)
    start = init if init is not None else [np.zeros_like(x) for x in exp]
    onames = [o for o in OUT_LAYOUTS if o in names]
    if nout == 1:
        oas = [(o,) for o in onames]
    else:
        oas = list(itertools.product(onames, repeat=2))
    ins = ["contig", "step2", "rev", "field", "fortran"] if nout == 1 else ["contig", "step2"]
    ins = [i for i in ins if i in names]
    raw = e.name.startswith("_bincount")
    for il in ins:
        for oa in oas:
            if raw and any(o in ("misaligned", "swapped", "field") for o in oa):
                continue        # the accumulating gufunc itself; the wrapper's `out` is C32's subject
            bv = [lay(a, il, n + j) for j, a in enumerate(args)]
            ov = [lay(s, o, n) for s, o in zip(start, oa)]
            before = [raw_bytes(b) for b, _ in bv]
            obefore = [b.copy(order="K") for b, _ in ov]
            views = [w for _, w in bv]
            given = tuple(w for _, w in ov)
            res = tup(ctx.call(e.f, *views, out=given))
            n += 1
            for r, g, o, x in zip(res, given, oa, exp):
                if r is not g:
                    ctx.violation(f"{e.key}: the array passed as out is not returned", f=e.f, args=tuple(views))
                    return
            if not check(ctx, e, views, [b for b, _ in bv], before, given, exp, sc,
                         f"inputs {il}, outputs {oa}, sizes {dims}", kw={"out": given}):
                return
            for (b, w), q in zip(ov, obefore):
                if not gaps_ok(b, w, q):
                    ctx.violation(f"{e.key}: memory outside the output elements was written (outputs {oa})",
                                  f=e.f, args=tuple(views), kw={"out": given})
                    return
    ctx.count(n, n - 1, part=e.name)


def alias(ctx, e, dims, args, init, exp, sc):
    """An output that is, or partly overlaps, an input."""
    n = 0
    for oi, (x, t) in enumerate(zip(exp, e.ot)):
        for j, a in enumerate(args):
            if a.shape != x.shape or a.dtype != x.dtype or e.isobject:
                continue
            if init is not None:
                continue
            others = [q.copy() for q in args]
            given = [None] * len(exp)
            given[oi] = others[j]
            res = tup(ctx.call(e.f, *others, out=tuple(given)))
            n += 1
            bad = False
            for r, y in zip(res, exp):
                if not agrees(e, r, y, sc):
                    ctx.violation(f"{e.key}: wrong result when output {oi} is input {j}, sizes {dims}", f=e.f,
                                  args=tuple(args), got=r, exp=y, key=f"alias:{e.name}:out{oi}=in{j}")
                    bad = True
                    break
            for i, q in enumerate(others):
                if not bad and i != j and raw_bytes(q) != raw_bytes(args[i].copy()):
                    ctx.violation(f"{e.key}: input {i} was modified when out is input {j}", f=e.f, args=tuple(args))
                    return
            # overlap shifted by one element in the first and in the last axis
            for ax in ({0} if e.name == CONTIG_ONLY else {0, a.ndim - 1}):
                for d in (0, 1):
                    shp = list(a.shape)
                    shp[ax] += 1
                    buf = np.zeros(shp, dtype=a.dtype)
                    s0 = tuple(slice(d, d + a.shape[k]) if k == ax else slice(None) for k in range(a.ndim))
                    s1 = tuple(slice(1 - d, 1 - d + a.shape[k]) if k == ax else slice(None) for k in range(a.ndim))
                    buf[s0] = a
                    others = [q.copy() for q in args]
                    others[j] = buf[s0]
                    given = [None] * len(exp)
                    given[oi] = buf[s1]
                    res = tup(ctx.call(e.f, *others, out=tuple(given)))
                    n += 1
                    for r, y in zip(res, exp):
                        if not agrees(e, r, y, sc):
                            ctx.violation(f"{e.key}: wrong result when out overlaps input {j} shifted by one "
                                          f"along axis {ax}, sizes {dims}", f=e.f, args=tuple(args), got=r, exp=y)
                            return
    ctx.count(n, n, part=e.name)


def axes(ctx, e, dims, args, init, exp, sc):
    """Core dimensions anywhere among the axes."""
    if e.sig is None or init is not None or e.name == CONTIG_ONLY:
        return
    n = 0
    core = [len(c) for c in e.ci]
    # every operand's core axes moved in front of the outer axis, reversed, or rotated
    for perm in ("front", "reverse", "neg"):
        moved, spec = [], []
        for a, c in zip(args, core):
            if c == 0:
                moved.append(a)
                spec.append(())
                continue
            nd = a.ndim
            if perm == "front":
                m = np.moveaxis(a, list(range(nd - c, nd)), list(range(c)))
                spec.append(tuple(range(c)))
            elif perm == "reverse":
                m = np.moveaxis(a, list(range(nd - c, nd)), list(range(nd - 1, nd - 1 - c, -1)))
                spec.append(tuple(range(nd - 1, nd - 1 - c, -1)))
            else:
                m = np.moveaxis(a, list(range(nd - c, nd)), list(range(c)))
                spec.append(tuple(k - nd for k in range(c)))
            moved.append(m)
        ospec = [tuple(range(len(c))) if perm != "reverse" else tuple(range(len(c), 0, -1)) for c in e.co]
        ax = [(s if len(s) != 1 else s[0]) for s in spec + ospec]
        res = tup(ctx.call(e.f, *moved, axes=ax))
        n += 1
        for r, y, c, s in zip(res, exp, e.co, ospec):
            r = np.moveaxis(r, list(s), list(range(1, 1 + len(c)))) if c else r
            if not agrees(e, r, y, sc):
                ctx.violation(f"{e.key}: result depends on the position of the core axes ({ax})", f=e.f,
                              args=tuple(moved), kw={"axes": ax}, got=r, exp=y)
                return
    if len({d for c in e.ci for d in c}) == 1 and all(c <= 1 for c in core) and all(len(c) == 0 for c in e.co):
        for axis in (0, -2):
            if all(c == 1 for c in core):
                moved = [np.moveaxis(a, 1, 0) for a in args]
                for keep in (False, True):
                    res = tup(ctx.call(e.f, *moved, axis=axis, keepdims=keep))
                    n += 1
                    for r, y in zip(res, exp):
                        y2 = y[None, :] if keep else y
                        if not agrees(e, r, y2, sc):
                            ctx.violation(f"{e.key}: wrong with axis={axis}, keepdims={keep}", f=e.f,
                                          args=tuple(moved), kw=dict(axis=axis, keepdims=keep), got=r, exp=y2)
                            return
    ctx.count(n, n, part=e.name)
