"""C36: gendot(prodfunc, sumfunc) is the left fold of sumfunc over prodfunc."""

import ctypes
import gc
import itertools
import sys
import warnings

import numpy as np

from mc import seq as S

PROP = "C36"
LEVEL = "exploration"
RULE = ("one case = one pair of ufuncs x type loop x pair of sequences x memory layout, against the explicit fold with the two "
        "ufuncs themselves; non-trivial = at least two elements")
ASSUMPTIONS = ["the values of NumPy's own ufuncs", "functions that NumPy rounds differently for different strides (power, "
               "hypot, ...) are compared with a tolerance, and only where the other function is continuous"]
NAMES = ("add subtract multiply minimum maximum fmin fmax logical_and logical_or logical_xor bitwise_and bitwise_or "
         "bitwise_xor equal not_equal less less_equal greater greater_equal floor_divide remainder fmod divide power "
         "hypot arctan2 logaddexp logaddexp2 copysign nextafter heaviside gcd lcm left_shift right_shift float_power ldexp").split()
ROUNDED = {"power", "float_power", "hypot", "arctan2", "logaddexp", "logaddexp2"}
SMOOTH = {"add", "subtract", "multiply", "minimum", "maximum", "fmin", "fmax"}
SUMG = ["kbnsum", "peaktopeak", "argmin", "argmax", "all_same", "gmean", "rms"]


def shards(tier):
    return [["pairs_" + n, n] for n in NAMES] + [["gsum_" + n, n] for n in SUMG] + [["long_" + n, n] for n in NAMES[:21]] + [["meta"], ["life"]]


def data(f, types):
    """Letters for the two operands of a ufunc loop."""
    r = []
    for j, c in enumerate(types[:2]):
        k = np.dtype(c).kind
        if c == "?":
            v = [True, False, True]
        elif k == "c":
            v = [1 + 2j, 0, -3j]
        elif k == "u" or (f in ("power", "float_power", "left_shift", "right_shift", "ldexp") and k == "i"):
            v = [1, 0, 3]
        elif k == "i":
            v = [1, 0, -3]
        else:
            v = [1.5, 0, -3] if f not in ("power", "float_power") else [1.5, 0, 3]
        r.append(np.array(v, dtype=c))
    return r


def inexact(name, types):
    t = types[-1]
    k = np.dtype(types[0]).kind
    return (name in ROUNDED and not (name == "power" and k in "iub")) or (name in ("divide", "multiply", "power") and t in "FDG" and name != "multiply")


def fold(prod, sum_, pt, x, y):
    """(B, n) operands -> (B,); sum_ elementwise with loop c,c->c."""
    t = prod(x, y, signature=tuple(pt.replace("->", "")))
    c = t.dtype.char
    a = t[:, 0].copy()
    for k in range(1, t.shape[1]):
        a = sum_(a, t[:, k], signature=(c, c, c))
    return a, t


def loops(prod, sum_):
    """Matching loops by the documented rule: [(prod loop, sum loop)]."""
    r = []
    for p in prod.types:
        if "O" in p:
            continue
        for s in sum_.types:
            i, o = s.split("->")
            if i == p[-1] * sum_.nin and (sum_.nin == 1 or o == p[-1]):
                r.append((p, s))
    return r


def resolvable(g, t):
    """Calling g with exactly these input types uses exactly this loop."""
    return next(q for q in g.types if q[:2] == t[:2]) == t


def run(shard, ctx):
    import ufunclab as u
    np.seterr(all="ignore")
    kind = shard[0].split("_")[0]
    if kind == "life":
        life(ctx, u)
    elif kind == "pairs":
        pn = shard[1]
        prod = getattr(np, pn)
        for sn in NAMES:
            pair(ctx, u, pn, prod, sn, getattr(np, sn))
            if ctx.full:
                return
        ctx.sample(f"{pn} with each of {len(NAMES)} reductions, every matching loop, all pairs of sequences up to length 3")
    elif kind == "gsum":
        sf = getattr(u, shard[1])
        for pn in ("add", "multiply", "minimum", "subtract", "logical_and", "divide", "less", "copysign"):
            prod = getattr(np, pn)
            g = ctx.call(u.gendot, prod, sf)
            ls = loops(prod, sf)
            exp = {p[:2] + "->" + s[-1] for p, s in ls}
            if set(g.types) != exp:
                ctx.violation(f"gendot({pn}, {sf.__name__}): loops", got=sorted(g.types), exp=sorted(exp))
            for p, s in ls:
                t = p[:2] + "->" + s[-1]
                if any(c in "mM" for c in t) or not resolvable(g, t):
                    continue
                a, b = data(pn, p)
                if shard[1] == "gmean":
                    a, b = np.abs(a) + 1, np.abs(b) + 1
                    a, b = a.astype(p[0]), b.astype(p[1])
                for n in range(1, 4):
                    X, Y = S.product(S.words(a, n), S.words(b, n))
                    with np.errstate(all="ignore"):
                        e = sf(prod(X, Y, signature=tuple(p.replace("->", ""))), signature=tuple(s.replace("->", "")))
                    S.compare(ctx, g, [X, Y], e, S.m_rel(8 * n) if e.dtype.kind == "f" else S.m_same,
                              what=f"gendot({pn}, {sf.__name__}) {t}", lays=S.LAYS + ("reversed",), dtypes=[s[-1]], nontrivial=len(X) if n > 1 else 0)
                # long sequences: the products may be wider than the result
                for n in S.sizes(ctx.thorough, 10007)[4 :: 1 if ctx.thorough else 3] + [4099, 10007]:
                    x, y = a[np.arange(n) * 7 % 11 % len(a)], b[np.arange(n) * 5 % 13 % len(b)]
                    X = np.stack([x, x[::-1], np.full(n, a[0])])
                    Y = np.stack([y, y, np.full(n, b[0])])
                    with np.errstate(all="ignore"):
                        e = sf(prod(X, Y, signature=tuple(p.replace("->", ""))), signature=tuple(s.replace("->", "")))
                    S.compare(ctx, g, [X, Y], e, S.m_rel(8 * n) if e.dtype.kind == "f" else S.m_same,
                              what=f"gendot({pn}, {sf.__name__}) {t} n={n}", lays=S.LAYS + ("reversed",), dtypes=[s[-1]], nontrivial=len(X))
                r, e = ctx.attempt(g, np.empty((2, 0), dtype=t[0]), np.empty((2, 0), dtype=t[1]))
                ctx.count(1)
                if sf.identity is None and not isinstance(e, ValueError):
                    ctx.violation(f"gendot({pn}, {sf.__name__}) of empty arrays", f=g, args=(np.empty((2, 0), dtype=t[0]),) * 2, got=r)
                if ctx.full:
                    return
    elif kind == "long":
        pn = shard[1]
        prod = getattr(np, pn)
        for sn in ("add", "maximum", "subtract", "logical_xor", "multiply", "bitwise_xor"):
            sf = getattr(np, sn)
            g = ctx.call(u.gendot, prod, sf)
            for p, s in loops(prod, sf):
                t = p[:2] + "->" + s[-1]
                if any(c in "mMFDGe" for c in t) or not resolvable(g, t):
                    continue
                big = sn == "multiply" and p[-1] in "fdg"
                for n in S.sizes(ctx.thorough, 4099)[1::1 if ctx.thorough else 4]:
                    x = (S.pseudo(n, "l") % (3 if big else 40)).astype(t[0])
                    y = (S.pseudo(n, "l", 2) % (3 if big else 30)).astype(t[1])
                    X = S.spots(x, [1, 7])[:: S.step(n, 4)] if not big else x[None]
                    Y = np.tile(y, (len(X), 1))
                    e, _ = fold(prod, sf, p, X, Y)
                    S.compare(ctx, g, [X, Y], e, what=f"gendot({pn}, {sn}) {t} n={n}", lays=("contig", "strided", "reversed"), dtypes=[s[-1]],
                              nontrivial=len(X) if n > 1 else 0)
                    # one operand shared by the whole batch
                    h = ctx.call(g, X, y)
                    h2 = ctx.call(g, X[:, None, :], Y[None, :2, :])
                    ctx.count(len(X) * 3)
                    if not S.m_same(h, e).all() or not S.m_same(h2, np.stack([e] * min(2, len(Y)), axis=1)).all():
                        ctx.violation(f"gendot({pn}, {sn}) {t} n={n}: broadcasting", f=g, args=(X[:2], y), got=h[:2], exp=e[:2])
                        return
                if ctx.full:
                    return
    else:
        meta(ctx, u)


def pair(ctx, u, pn, prod, sn, sf):
    g = ctx.call(u.gendot, prod, sf)
    ls = loops(prod, sf)
    exp = {p[:2] + "->" + s[-1] for p, s in ls}
    ctx.count(1)
    if set(g.types) != exp or g.signature.replace(" ", "") != "(n),(n)->()" or (g.nin, g.nout) != (2, 1):
        ctx.violation(f"gendot({pn}, {sn}): loops {g.types}, expected {sorted(exp)}; signature {g.signature}")
        return
    if g.__name__ != f"gendot_{pn}_{sn}":
        ctx.violation(f"gendot({pn}, {sn}) is called {g.__name__}")
    for p, s in ls:
        t = p[:2] + "->" + s[-1]
        if not resolvable(g, t):
            continue
        if any(c in "mM" for c in t):
            dates(ctx, g, pn, prod, sn, sf, t)
            continue
        ot = np.dtype(s[-1])
        # the empty sequence
        E = [np.empty((3, 0), dtype=c) for c in t[:2]]
        r, err = ctx.attempt(g, *E)
        ctx.count(3)
        if sf.identity is None:
            if not isinstance(err, ValueError):
                ctx.violation(f"gendot({pn}, {sn}) {t} of empty sequences did not raise ValueError", f=g, args=tuple(E), got=r)
                return
        else:
            i = np.full(3, np.array(sf.identity).astype(ot))
            if err is not None or r.dtype != ot or not S.m_same(r, i).all():
                ctx.violation(f"gendot({pn}, {sn}) {t} of empty sequences is not the identity", f=g, args=tuple(E), got=r if err is None else err, exp=i)
                return
            # ... in every layout of the output; what is not part of it stays as it is
            for sl in (slice(0, 3), slice(1, 9, 3), slice(8, 0, -3)):
                whole = np.full(10, 7).astype(ot)
                w = whole.copy()
                w[sl] = i
                r, err = ctx.attempt(g, *E, out=whole[sl])
                ctx.count(3)
                if err is not None or not S.m_same(whole, w).all():
                    ctx.violation(f"gendot({pn}, {sn}) {t} of empty sequences into out[{sl.start}:{sl.stop}:{sl.step}]", f=g, args=tuple(E), got=whole if err is None else err, exp=w)
                    return
        ip, is_ = inexact(pn, p), inexact(sn, s)
        if (ip and sn not in SMOOTH) or (is_ and pn not in SMOOTH and ip) or (is_ and pn in ("divide", "hypot")) or (is_ and t[0] in "FDG"):
            lim = 1            # only the products
        else:
            lim = 3 if t[0] in "bBldfFe?" or ctx.thorough else 2
        a, b = data(pn, p)
        if sn == "power" and np.dtype(p[-1]).kind == "i" and lim > 1:
            a, b = np.abs(a), np.abs(b)
            if pn == "subtract" or pn in ("bitwise_xor",):
                lim = 1
        if sn in ("left_shift", "right_shift") and np.dtype(p[-1]).kind == "i" and pn in ("subtract", "multiply", "minimum"):
            a, b = np.abs(a), np.abs(b) * 0 + 1
        for n in range(1, lim + 1):
            X, Y = S.product(S.words(a, n), S.words(b, n))
            try:
                e, tmp = fold(prod, sf, p, X, Y)
            except ValueError:          # negative integer powers
                continue
            if ip or is_:
                sc = np.abs(np.where(np.isfinite(tmp), tmp, 0)).astype(np.longdouble).max(axis=1)
                k = np.finfo(ot).eps if ot.kind in "fc" else 0

                def mask(gv, ev, sc=sc, k=k, n=n):
                    gl, el = gv.astype(np.clongdouble), ev.astype(np.clongdouble)
                    return (np.abs(gl - el) <= 64 * n * k * (np.abs(el) + sc ** (n if sn == "multiply" else 1) + (sn != "multiply"))) | (gl == el) | \
                        (np.isnan(gl) & np.isnan(el))
            else:
                mask = S.m_same
            S.compare(ctx, g, [X, Y], e, mask, what=f"gendot({pn}, {sn}) {t}", lays=S.LAYS if n > 1 else ("contig",), dtypes=[s[-1]],
                      nontrivial=len(X) if n > 1 else 0)
        if ctx.full:
            return


def dates(ctx, g, pn, prod, sn, sf, t):
    """The loops for datetime64 and timedelta64: they exist for the generic unit only."""
    nat = np.iinfo(np.int64).min
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        def letters(c):
            if c in "mM":
                return np.array([1, 7, -3, nat]).view(c + "8")
            return data(pn, c)[0]
        a, b = letters(t[0]), letters(t[1])
        for n in range(0, 4):
            X, Y = S.product(S.words(a, n), S.words(b, n)) if n else (np.empty((2, 0), a.dtype), np.empty((2, 0), b.dtype))
            r, err = ctx.attempt(g, X, Y)
            ctx.count(len(X), len(X) if n > 1 else 0)
            if n == 0:
                if sf.identity is None:
                    ok = isinstance(err, ValueError)
                else:
                    ok = err is None and (r == np.array(sf.identity).astype(r.dtype)).all()
            elif err is not None:
                ok = sn == "power" and "negative" in str(err)
            else:
                q = prod(X, Y)
                e = q[:, 0]
                for k in range(1, n):
                    e = sf(e, q[:, k])
                ok = r.dtype.char == t[-1] and r.shape == e.shape and r.dtype == e.dtype and (r.view("B") == e.view("B")).all()
            if not ok:
                ctx.violation(f"gendot({pn}, {sn}) {t} n={n}", f=g, args=(X.view("q") if t[0] in "mM" else X, Y), got=r if err is None else err,
                              exp=e if n and err is None else None)
                return


def meta(ctx, u):
    V = ValueError
    for a in ((np.sin, np.add), (np.add, np.sin), (np.matmul, np.add), (np.add, np.matmul), (1, np.add), (np.add, 1), (np.divmod, np.add),
              (np.add, np.divmod), (sum, np.add), (np.add, u.minmax), (np.add, u.meanvar), (u.kbnsum, np.add), (np.modf, np.add), (np.add, u.vdot),
              (None, np.add), (np.add, None), (np.add, u.cross2), (np.add, u.all_same.__call__)):
        r, e = ctx.attempt(u.gendot, *a)
        ctx.count(1)
        if not isinstance(e, V):
            ctx.violation(f"gendot{a}: ValueError expected, got {type(e).__name__}", f=u.gendot, got=r)
    g = ctx.call(u.gendot, np.multiply, np.add, name="dot", doc="the doc")
    ctx.count(1)
    if g.__name__ != "dot" or "the doc" not in g.__doc__:
        ctx.violation(f"gendot: name {g.__name__}, doc {g.__doc__!r}")
    # nothing matches: no loops, calls fail
    g = ctx.call(u.gendot, np.ldexp, u.argmin)
    # every order of creating, deleting and calling: the functions stay independent
    defs = [(np.multiply, np.add), (np.minimum, np.maximum), (np.subtract, u.kbnsum), (np.add, np.bitwise_and)]
    x, y = np.array([5, 3, 8]), np.array([2, 4, 1])
    exp = [5 * 2 + 3 * 4 + 8, 3, 3 - 1 + 7, (7 & 7 & 9)]
    k = 0
    for perm in itertools.permutations(range(4)):
        for dele in itertools.permutations(range(4), 2):
            fs = {}
            for i in perm:
                fs[i] = ctx.call(u.gendot, *defs[i])
            for d in dele:
                del fs[d]
                gc.collect() if k % 16 == 0 else None
                for i, f in fs.items():
                    z = (x, y) if i != 2 else (x * 1.0, y * 1.0)
                    r = ctx.call(f, *z)
                    k += 1
                    if r != exp[i]:
                        ctx.violation(f"gendot: function {i} is wrong after creating {perm} and deleting {dele}", f=f, args=z, got=r, exp=exp[i])
                        return
    ctx.count(k, k)
    ctx.sample("every order of creating four functions and deleting two of them, calling the others in between")


class Owner:
    """Keeps what a ufunc that is made at run time needs; the ufunc is the only one that refers to it."""

    def __init__(self, log, name, keep):
        self.log, self.name, self.keep = log, name, keep

    def __del__(self):
        self.log.append(self.name)


def dynamic(log, name, py, nin=2):
    """A ufunc (nin = 2: elementwise, dd->d and ll->l; nin = 1: (n)->()) whose loops live as long as it does, as those of JIT compilers do."""
    api = ctypes.pythonapi.PyCapsule_GetPointer
    api.restype, api.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    from numpy._core import _multiarray_umath as mu
    table = ctypes.cast(api(mu._UFUNC_API, None), ctypes.POINTER(ctypes.c_void_p))
    LOOP = ctypes.CFUNCTYPE(None, ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_ssize_t), ctypes.POINTER(ctypes.c_ssize_t), ctypes.c_void_p)

    def make_loop(ct):
        def at(a):
            return ctypes.cast(a, ctypes.POINTER(ct))

        def loop(args, dims, steps, data):
            # called without the GIL: ctypes takes it
            for j in range(dims[0]):
                if nin == 2:
                    at(args[2] + j * steps[2])[0] = py(at(args[0] + j * steps[0])[0], at(args[1] + j * steps[1])[0])
                else:
                    at(args[1] + j * steps[1])[0] = py([at(args[0] + j * steps[0] + k * steps[2])[0] for k in range(dims[1])])
        return LOOP(loop)
    cts = [ctypes.c_long, ctypes.c_double]
    loops = [make_loop(c) for c in cts]
    funcs = (ctypes.c_void_p * 2)(*[ctypes.cast(q, ctypes.c_void_p).value for q in loops])
    data = (ctypes.c_void_p * 2)()
    types = (ctypes.c_char * (2 * (nin + 1)))(*([7] * (nin + 1) + [12] * (nin + 1)))
    nm = ctypes.create_string_buffer(name.encode())
    mk = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int,
                           ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p)(table[31])
    sig = ctypes.create_string_buffer(b"(n)->()")
    at = ctypes.addressof
    f = mk(at(funcs), at(data), at(types), 2, nin, 1, -1, at(nm), at(nm), 0, at(sig) if nin == 1 else None)
    o = Owner(log, name, (loops, funcs, data, types, nm, sig))
    ctypes.pythonapi.Py_IncRef(ctypes.py_object(o))
    # PyUFuncObject.obj
    ctypes.c_void_p.from_address(id(f) + 88).value = id(o)
    return f


def life(ctx, u):
    """The function works after the ufuncs it was made from are gone, and they go when it goes."""
    log = []
    f = dynamic(log, "alone", lambda a, b: a * b)
    z = f(np.array([2.0, 3]), np.array([5.0, 7]))
    del f
    gc.collect()
    if z.tolist() != [10, 21] or log != ["alone"]:
        ctx.note("ufuncs made at run time cannot be observed here")
        return
    x, y = np.array([5, 3, 8]), np.array([2, 4, 1])
    prods = {"mul": (lambda a, b: a * b, lambda a, b: a * b), "sub3": (lambda a, b: a - 3 * b, lambda a, b: a - 3 * b)}
    sums = {"add": (lambda a, b: a + b, sum, 2), "keep": (lambda a, b: 2 * a + b, lambda t: (2 * (2 * t[0] + t[1]) + t[2]), 2), "gmax": (max, max, 1)}
    n = 0
    for (pn, (pf, pe)), (sn, (sf, se, nin)) in itertools.product(prods.items(), sums.items()):
        for own in ("both", "prod", "sum"):
            for order in itertools.permutations(["prod", "sum", "dot"]):
                log.clear()
                P = dynamic(log, "prod", pf) if own != "sum" else np.multiply
                Q = dynamic(log, "sum", sf, nin) if own != "prod" else np.add
                D = ctx.call(u.gendot, P, Q)
                t = [(pe if own != "sum" else (lambda a, b: a * b))(int(a), int(b)) for a, b in zip(x, y)]
                e = se(t) if own != "prod" else sum(t)
                dead = False
                for what in order:
                    if what == "prod":
                        P = None
                    elif what == "sum":
                        Q = None
                    else:
                        D = None
                        dead = True
                    gc.collect()
                    if not dead:
                        if log:
                            ctx.violation(f"gendot: {log} of {pn}, {sn} is deallocated although the function made from it is in use (deleted in the order {order})")
                            return
                        for dt in (float, int):
                            r = ctx.call(D, x.astype(dt), y.astype(dt))
                            n += 1
                            if r != e:
                                ctx.violation(f"gendot of {pn} and {sn}: wrong after {what} is deleted", got=r, exp=e)
                                return
                n += 1
                if sorted(log) != {"both": ["prod", "sum"], "prod": ["prod"], "sum": ["sum"]}[own]:
                    ctx.violation(f"gendot of {pn} and {sn}: the ufuncs are not deallocated with the function; deallocated are {log}")
                    return
    # repeated creation leaves no references
    before = [sys.getrefcount(q) for q in (np.add, np.multiply)]
    for _ in range(500):
        ctx.call(u.gendot, np.multiply, np.add)
    after = [sys.getrefcount(q) for q in (np.add, np.multiply)]
    if max(b - a for a, b in zip(before, after)) > 20:
        ctx.violation(f"gendot: references to its arguments are leaked: {before} -> {after} after 500 calls")
    ctx.count(n, n)
    ctx.sample("two functions made at run time, and their gendot, deleted in every order, called in between")
