"""Exhaustive families of small inputs, and batch comparison of a function with its reference."""

import itertools

from fractions import Fraction

import numpy as np

INTS = ["b", "B", "h", "H", "i", "I", "l", "L"]
FLOATS = ["f", "d", "g"]


def big(dt):
    dt = np.dtype(dt)
    return np.finfo(dt).max if dt.kind == "f" else np.iinfo(dt).max


def small(dt):
    return np.finfo(dt).min if np.dtype(dt).kind == "f" else np.iinfo(dt).min


def alphabet(dt, n=7, nan=False, inf=True):
    """A few values of the type: its extremes and the neighbourhood of zero."""
    dt = np.dtype(dt)
    if dt.kind == "u":
        v = [1, 0, 2, big(dt), big(dt) - 1, 3, big(dt) // 2 + 1, 7]
    elif dt.kind == "i":
        v = [1, 0, -1, big(dt), small(dt), 2, small(dt) + 1, -7]
    else:
        v = [1, 0, -2.5] + ([np.inf, -np.inf] if inf else [3.0, -0.5]) + [2.0, -1.0, 0.5]
        if nan:
            v.insert(3, np.nan)
    return np.array(v[:n], dtype=dt)


def fine(dt):
    """Neighbours that only the full width of the type tells apart, and its largest and smallest magnitudes."""
    dt = np.dtype(dt)
    if dt.kind == "f":
        one, b = dt.type(1), np.finfo(dt).max
        v = [np.nextafter(one, dt.type(2)), one, np.nextafter(b, one), b, np.finfo(dt).smallest_subnormal, 0]
    else:
        v = [big(dt) - 1, big(dt), small(dt) + 1, small(dt), big(dt) // 2 + 1, big(dt) // 2]
    return np.array(v, dtype=dt)


def reals(dt, n=7, positive=False):
    """Values that use the whole mantissa of a floating point type, of several magnitudes."""
    T, fi = np.dtype(dt).type, np.finfo(dt)
    h = fi.nmant // 2
    v = [np.sqrt(T(2)), -np.sqrt(T(3)), np.nextafter(T(1), T(2)), T(-1), np.ldexp(np.sqrt(T(7)), -h), -np.ldexp(np.sqrt(T(11)), h - 2),
         T(1) / T(3), np.ldexp(np.sqrt(T(5)), -fi.nmant)]
    v = np.array(v[:n], dtype=dt)
    return np.abs(v) if positive else v


def words(alpha, L):
    """All sequences of length L, as an array (len(alpha)**L, L)."""
    alpha = np.asarray(alpha)
    k = len(alpha)
    if L == 0:
        return np.empty((1, 0), dtype=alpha.dtype)
    idx = np.indices((k,) * L, dtype=np.int16).reshape(L, -1).T
    return np.ascontiguousarray(alpha[idx])


def num(t, v):
    """v in the type t, decimal fractions and thirds, sevenths... to the full precision of the type (long double included)."""
    ty = np.dtype(t).type
    if isinstance(v, np.generic) or not np.isfinite(v):
        return ty(v)
    q = Fraction(v).limit_denominator(1000)
    if q and abs(q - Fraction(v)) <= abs(q) / 10 ** 15:
        return ty(np.longdouble(q.numerator) / np.longdouble(q.denominator))
    return ty(np.longdouble(repr(float(v))))


def beside(t, vals, rel=(1e-3, 1e-6, 1e-9, 1e-12)):
    """Numbers of the type close to the given ones, at several relative (to 1, if smaller) distances, and their neighbours."""
    ty, eps = np.dtype(t).type, np.finfo(t).eps
    r = []
    for v in vals:
        v = num(t, v)
        for d in rel:
            if d > 4 * eps:
                r += [ty(v + max(abs(v), ty(1)) * num(t, d) * s) for s in (1, -1)]
        r += [np.nextafter(v, ty(np.inf)), np.nextafter(v, ty(-np.inf))]
    return [v for v in dict.fromkeys(r)]


def scales(t, small=8, large=8):
    """Powers of two over the whole range of the type, `small` and `large` bits from its ends."""
    T, fi = np.dtype(t).type, np.finfo(t)
    e = [fi.minexp + small, fi.minexp // 2, fi.minexp // 4, fi.minexp // 8, -fi.nmant - 2, -fi.nmant // 2, 8, fi.nmant + 2, fi.maxexp // 4, fi.maxexp // 2, fi.maxexp - large]
    return [np.ldexp(T(1), k) for k in sorted(set(e))]


def product(*arrs):
    """All combinations of the rows of the given arrays."""
    n = [len(a) for a in arrs]
    idx = np.indices(n).reshape(len(arrs), -1)
    return [np.ascontiguousarray(a[i]) for a, i in zip(arrs, idx)]


def positions(n):
    """Every position of a short sequence; of a long one the ends and the neighbourhoods of some powers of two."""
    if DENSE:
        return sorted({0, n // 2, max(n - 2, 0), n - 1})
    if n <= 260:
        return list(range(n))
    p = {0, 1, n // 3, n // 2, n - 2, n - 1}
    for b in (256, 512, 1024, 4096, 8192, 32768, 65536, 2**18):
        p |= {b - 1, b}
    return sorted(q for q in p if q < n)


def step(n, k):
    """Thin a list of rows of a short sequence (long ones are thin already)."""
    return max(1, n // k) if n <= 260 else 1


def spots(base, specials):
    """For every position p (see positions) and special value s: `base` with s at p."""
    base = np.asarray(base)
    n = len(base)
    pos = positions(n)
    out = np.tile(base, (len(pos) * len(specials), 1))
    r = 0
    for p in pos:
        for s in specials:
            out[r, p] = s
            r += 1
    return out


def lay(x, kind):
    """x in another layout (x has a batch axis first)."""
    if kind == "contig" or x.ndim == 0:
        return x
    if kind == "strided":
        b = np.zeros(tuple(2 * n + 1 for n in x.shape), dtype=x.dtype)
        v = b[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
        v[...] = x
        return v
    if kind == "reversed":
        f = (slice(None, None, -1),) * x.ndim
        return np.ascontiguousarray(x[f])[f]
    if kind == "fortran":
        return np.asfortranarray(x)
    if kind == "padded":
        b = np.zeros((x.shape[0],) + tuple(n + 3 for n in x.shape[1:]), dtype=x.dtype)
        v = b[(slice(None),) + tuple(slice(1, n + 1) for n in x.shape[1:])]
        v[...] = x
        return v
    raise ValueError(kind)


LAYS = ("contig", "strided")


def row_mask(ok, nb):
    ok = np.asarray(ok)
    if ok.ndim > 1:
        ok = ok.reshape(nb, -1).all(axis=1)
    return ok


def m_same(got, exp):
    """Elementwise: identical, or both nan."""
    if got.dtype == object:
        return np.array([type(a) is type(b) and (a is b or a == b)
                         for a, b in zip(got.ravel().tolist(), exp.ravel().tolist())]).reshape(got.shape)
    e = got == exp
    if got.dtype.kind in "fc":
        e |= (got != got) & (exp != exp)
    return e


def m_bits(got, exp):
    """Identical including the sign of zero; any nan equals any nan."""
    e = m_same(got, exp)
    if got.dtype.kind == "f":
        e &= (np.signbit(got) == np.signbit(exp)) | (got != got)
    return e


def m_rel(mult, floor=0.0):
    """|got-exp| <= mult*eps(got)*(|exp|+floor); inf and nan in the same places."""
    def f(got, exp):
        eps = np.finfo(got.dtype).eps
        fl = floor(got, exp) if callable(floor) else floor
        w = np.result_type(got.dtype, exp.dtype)
        g, e = got.astype(w), exp.astype(w)
        return (np.abs(g - e) <= mult * eps * (np.abs(e) + fl)) | (g == e) | ((g != g) & (e != e))
    return f


def compare(ctx, f, args, exp, mask=m_same, lays=LAYS, what="", kw=None, dtypes=None, nontrivial=None, mix=True):
    """Call f on the whole batch (each layout) and compare with exp (array or tuple of arrays)."""
    exps = exp if isinstance(exp, tuple) else (exp,)
    nb = len(args[0])
    masks = mask if isinstance(mask, (tuple, list)) else (mask,) * len(exps)
    base = None
    for l in lays:
        views = [lay(a, l) for a in args]
        r = ctx.call(f, *views, **(kw or {}))
        rs = r if isinstance(r, tuple) else (r,)
        rs = [np.asarray(g) for g in rs]
        for i, (g, e) in enumerate(zip(rs, exps)):
            if g.shape != e.shape or (dtypes and g.dtype != np.dtype(dtypes[i])):
                ctx.violation(f"{what}: output {i} has shape {g.shape}, type {g.dtype}; expected {e.shape}, "
                              f"{dtypes[i] if dtypes else e.dtype}", f=f,
                              args=tuple(a[:2] for a in args), kw=kw)
                return False
            with np.errstate(all="ignore"):
                ok = row_mask(masks[i](g, e), nb)
            if not ok.all():
                b = int(np.argmin(ok))
                ctx.violation(f"{what}: wrong result ({int((~ok).sum())} of {nb} cases, {l} layout)", f=f,
                              args=tuple(lay(a, l)[b] for a in args), kw=kw, got=g[b], exp=e[b])
                return False
        base = base or rs
        ctx.count(nb, nb if nontrivial is None else min(nb, nontrivial))
    return variants(ctx, f, args, exps, masks, base, what, kw, mix)


def variants(ctx, f, args, exps, masks, base, what, kw, mix=True):
    """Some rows again: one operand at a time in another layout, padded rows, given outputs, one operand broadcast."""
    kw = kw or {}
    nb = len(args[0])
    isuf = isinstance(f, np.ufunc)
    if nb == 0 or not all(isinstance(a, np.ndarray) and a.ndim and len(a) == nb for a in args) or any(e.ndim == 0 for e in exps) or "out" in kw:
        return True
    plans = []
    if len(args) > 1:
        for i in range(len(args)):
            for l in ("strided", "reversed") if mix else ():
                plans.append((f"operand {i} {l}, the others contiguous", "lay", {i: l}))
        sets = [c for r in range(1, len(args) if len(args) <= 4 else 3) for c in itertools.combinations(range(len(args)), r)]
        plans += [(f"operands {c} broadcast", "cast", c) for c in sets if isuf]
    if mix:
        plans.append(("rows that are not adjacent", "lay", dict.fromkeys(range(len(args)), "padded")))
    if isuf:
        plans.append(("into given outputs", "out", 1))
        if mix and any(e.ndim > 1 for e in exps):
            plans.append(("into given outputs with gaps", "out", 2))
    if isuf and nb > 1 and not same_twice(ctx, f, args, kw, what):
        return False
    full = [b.copy() for b in base]
    tags = {}
    for p, (tag, how, par) in enumerate(plans):
        rows = np.arange(p % nb, nb, max(1, len(plans), nb // 24))[:24]
        sub = [a[rows] for a in args]
        k2 = dict(kw)
        wholes = []
        if how == "lay":
            sub = [lay(a, par[i]) if i in par else a for i, a in enumerate(sub)]
        elif how == "out":
            outs = []
            for b in base:
                o = np.empty((2 * len(rows) + 2,) + tuple(par * n + 2 * mix for n in b.shape[1:]), dtype=b.dtype)
                if b.dtype == bool:
                    o.view(np.uint8)[...] = 77
                else:
                    o[...] = 77 if b.dtype != object else None
                inside = (slice(1, 2 * len(rows), 2),) + (slice(1, -1, par) if mix else slice(None),) * (b.ndim - 1)
                outs.append(o[inside])
                wholes.append(o)
            k2["out"] = tuple(outs)
        else:
            if any(args[i].size > 10**6 or args[i].dtype == object for i in par):
                continue
            alike = np.ones(nb, dtype=bool)
            for i in par:
                raw = np.ascontiguousarray(args[i]).reshape(nb, -1)
                raw = raw.view(np.uint8).reshape(nb, -1) if raw.size else np.zeros((nb, 1), dtype=np.uint8)
                alike &= (raw == raw[nb // 3]).all(axis=1)
            rows = np.nonzero(alike)[0]
            if len(rows) < 2:
                if not cast_alike(ctx, f, args, par, kw, what):
                    return False
                continue
            rows = rows[:: max(1, len(rows) // 24)][:24]
            sub = [q[nb // 3] if i in par else q[rows] for i, q in enumerate(args)]
        r = ctx.call(f, *sub, **k2)
        rs = [np.asarray(g) for g in (r if isinstance(r, tuple) else (r,))]
        for i, o in enumerate(wholes):
            inside = (slice(1, 2 * len(rows), 2),) + (slice(1, -1, par) if mix else slice(None),) * (o.ndim - 1)
            # nothing but the elements of the output is written
            gap = np.ones(o.shape, dtype=bool)
            gap[inside] = False
            left = (o.view(np.uint8) if o.dtype == bool else o)[gap]
            if not (left == 77).all() if o.dtype != object else any(q is not None for q in left):
                ctx.violation(f"{what}, {tag}: output {i} is written outside its elements", f=f, args=tuple(sub), kw=kw)
                return False
        if not all(a.dtype == object or len(a) != len(rows) or a.tobytes() == args[j][rows].tobytes() for j, a in enumerate(sub) if a.ndim == args[j].ndim):
            ctx.violation(f"{what}, {tag}: an operand was modified", f=f, args=tuple(sub), kw=kw)
            return False
        for g, h in zip(rs, full):
            if g.shape != (len(rows),) + h.shape[1:] or g.dtype != h.dtype:
                ctx.violation(f"{what}, {tag}: the result has shape {g.shape}, type {g.dtype}; expected {(len(rows),) + h.shape[1:]}, {h.dtype}",
                              f=f, args=tuple(sub), kw=kw)
                return False
        for i, (g, h) in enumerate(zip(rs, full)):
            redo = [j for j, q in enumerate(rows) if q in tags]
            if redo:
                # a row that an earlier variant has used: judge that one first
                if not judge_variants(ctx, f, args, exps, masks, full, tags, what, kw):
                    return False
                tags.clear()
            h[rows] = g
        for q in rows:
            tags[int(q)] = (tag, sub)
        ctx.count(len(rows))
    return judge_variants(ctx, f, args, exps, masks, full, tags, what, kw)


def judge_variants(ctx, f, args, exps, masks, full, tags, what, kw):
    nb = len(args[0])
    for m, g, e in zip(masks, full, exps):
        with np.errstate(all="ignore"):
            ok = row_mask(m(g, e), nb)
        if not ok.all():
            b = int(np.argmin(ok))
            tag, sub = tags.get(b, ("?", args))
            ctx.violation(f"{what}, {tag}: wrong result", f=f, args=tuple(sub), kw=kw, got=g[b], exp=e[b],
                          repro=f"arguments of the wrong row: {[a[b].tolist() for a in args]!r}; {tag}")
            return False
    return True


def same_twice(ctx, f, args, kw, what):
    """One array as two operands gives what a copy of it as the second one gives."""
    nb = len(args[0])
    for i, j in itertools.combinations(range(len(args)), 2):
        if args[i].shape != args[j].shape or args[i].dtype != args[j].dtype or args[i].dtype == object or args[i].size > 10**6:
            continue
        for src in (i, j):
            raw = args[src].reshape(nb, -1)
            first = [0]          # rows that differ
            for q in np.arange(0, nb, max(1, nb // 40)):
                if raw[q].tobytes() != raw[first[-1]].tobytes():
                    first.append(int(q))
            rows = np.array(first)
            for l in ("contig", "strided"):
                a = [lay(q[rows], l) for q in args]
                one = list(a)
                one[i] = one[j] = a[src]
                two = list(one)
                two[j] = lay(a[src].copy(), l)
                exp, ex = ctx.attempt(f, *two, **kw)
                got, e2 = ctx.attempt(f, *one, **kw)
                ctx.count(len(rows))
                if (ex is None) != (e2 is None):
                    ctx.violation(f"{what}, one array as operands {i} and {j}: {e2!r}; a copy of it: {ex!r}", f=f, args=tuple(one), kw=kw)
                    return False
                if ex is None and not near(ctx, f, one, kw, got, exp, f"{what}, one array as operands {i} and {j}: another result than with a copy of it"):
                    return False
    return True


def near(ctx, f, args, kw, got, exp, text):
    for g, e in zip(got if isinstance(got, tuple) else (got,), exp if isinstance(exp, tuple) else (exp,)):
        with np.errstate(all="ignore"):
            if g.dtype.kind in "fc":
                tol = np.finfo(g.dtype).eps * 2**12
                ok = (g == e) | (np.abs(g - e) <= tol * np.abs(e)) | ((g != g) & (e != e))
            else:
                ok = g == e
        if g.shape != e.shape or not np.all(ok):
            ctx.violation(text, f=f, args=tuple(args), kw=kw, got=g, exp=e)
            return False
    return True


def cast_alike(ctx, f, args, par, kw, what):
    """The operands `par` are one row each for a batch of the others: as if they were repeated."""
    nb = len(args[0])
    rows = np.unique(np.linspace(0, nb - 1, 5).astype(int))
    if len(rows) < 2:
        return True
    one = [a[nb // 3] for a in args]
    tiled = [np.ascontiguousarray(np.broadcast_to(one[j], (len(rows),) + one[j].shape)) if j in par else a[rows] for j, a in enumerate(args)]
    cast = [one[j] if j in par else a[rows] for j, a in enumerate(args)]
    exp, ex = ctx.attempt(f, *tiled, **kw)
    got, e2 = ctx.attempt(f, *cast, **kw)
    if (ex is None) != (e2 is None):
        ctx.violation(f"{what}, operands {par} broadcast: {e2!r}; repeated: {ex!r}", f=f, args=tuple(cast), kw=kw)
        return False
    if ex is not None:
        return True
    ctx.count(len(rows))
    return near(ctx, f, cast, kw, got, exp, f"{what}, operands {par} broadcast: another result than with the operands repeated")


DENSE = None        # (k, parts): this process takes the k-th part of the dense lengths


def dense(thorough):
    """Lengths that meet a block or a threshold of any usual size with any remainder: all up to 300 (thorough 1100), and those from just
    below to 17 above a power of two (3 above other round numbers)."""
    v = set(range(41, 1100 if thorough else 300))
    for b in (256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536):
        v |= set(range(b - 2, b + (66 if thorough and b <= 4096 else 18 if b <= 4096 else 3)))
    for b in (500, 1000, 1500, 2000, 3000, 5000, 10000, 20000, 30000, 50000):
        v |= set(range(b - 1, b + 4 if b <= 5000 else b + 2))
    return sorted(v)


def sizes(thorough, top=0):
    """Lengths: all the small ones, those around powers of two, and a few long ones up to `top`."""
    if DENSE:
        if top < 1000:
            return []
        return [5, 6, 7] + [n for n in dense(thorough) if n <= top][DENSE[0]::DENSE[1]]
    v = list(range(0, 41)) + [47, 48, 49, 63, 64, 65] + ([71, 127, 128, 129, 255, 256, 257] if thorough else [128, 129])
    more = [513, 1025, 2050, 4099, 10007, 33000, 70001, 2**18 + 3] if thorough else [513, 1025, 4099, 10007, 70001]
    return v + [n for n in more if n <= top * (4 if thorough else 1)]


def pseudo(n, dt, k=0, lo=-50, hi=50):
    """A fixed scrambled sequence of n distinct-ish values."""
    i = np.arange(n, dtype=np.int64)
    v = (i * (2 * k + 37) + 11 * k + (i * i * 7) % 13) % (hi - lo) + lo
    if np.dtype(dt).kind == "u":
        v = v - lo
    return v.astype(dt)


def laid(words):
    """Object arrays: each word, contiguous, strided (with something else in the gaps) and reversed: (word, array)."""
    for w in words:
        n = len(w)
        x = np.empty(n, dtype=object)
        x[:] = w
        yield w, x
        if n > 1:
            b = np.full(2 * n + 1, "gap", dtype=object)
            b[1::2] = x
            yield w, b[1::2]
            yield w, x[::-1].copy()[::-1]


def chunk_ids(n):
    return [[f"chunk{i}", i, n] for i in range(n)]
