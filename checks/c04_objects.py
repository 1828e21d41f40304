"""C04: Python code that fails inside an object loop; references and memory of every call."""

import ctypes
import itertools
import operator
import sys

import numpy as np

from mc.common import chunks, my_entries

PROP = "C04"
LEVEL = "fault_enumeration"
RULE = ("one case = one call of an object loop with a fault at one of its calls into Python code (every one of them, as an exception "
        "in the operation or in the truth value of a comparison) x kind of output, or one loop of one function x a kind of call "
        "whose references and memory are counted; non-trivial = a fault was injected")
ASSUMPTIONS = ["the elements are instances of one class that defines the comparisons and + - *",
               "the callbacks do not modify the arrays that are being read",
               "memory is counted with mallinfo2 and sys.getallocatedblocks; NumPy's own caches are warmed up first"]
NCH = 24


class Boom(Exception):
    pass


class Plan:
    n = k = 0
    mode = "raise"
    exc = None


class Verdict:
    """A truth value that cannot be determined."""
    live = 0

    def __init__(self):
        Verdict.live += 1

    def __del__(self):
        Verdict.live -= 1

    def __bool__(self):
        raise Plan.exc


class P:
    live = 0

    def __init__(self, v):
        P.live += 1
        self.v = v

    def __del__(self):
        P.live -= 1

    def __repr__(self):
        return f"P({self.v})"


def fault(isbool):
    Plan.n += 1
    if Plan.n == Plan.k:
        if Plan.mode == "raise" or not isbool:
            raise Plan.exc
        return True
    return False


def _cmp(name):
    f = getattr(operator, name)

    def g(self, other):
        if fault(True):
            return Verdict()
        return f(self.v, other.v)
    return g


def _arith(name):
    f = getattr(operator, name)

    def g(self, other):
        fault(False)
        return P(f(self.v, other.v))
    return g


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(P, f"__{_n}__", _cmp(_n))
P.__hash__ = object.__hash__
for _n in ("add", "sub", "mul"):
    setattr(P, f"__{_n}__", _arith(_n))


def oarr(v):
    v = np.array(v, dtype=object)
    a = np.empty(v.shape, dtype=object)
    for i, q in np.ndenumerate(v):
        a[i] = P(int(q))
    return a


FUNCS = ["all_same", "argfirst", "argmax", "argmin", "argminmax", "cross2", "cross3", "first", "max_argmax", "min_argmin", "minmax", "ordered",
         "peaktopeak", "searchsortedl", "searchsortedr"]


def shards(tier):
    return [["fault_" + f, f] for f in FUNCS] + [["refs_" + c[0], *c[1:]] for c in chunks(NCH)] + [["alien"]]


def cases(name, u, thorough):
    """Arguments: a list of (array-of-ints or scalar op)."""
    ops = [getattr(u.op, o) for o in ("LT", "LE", "EQ", "NE", "GT", "GE")]
    A = (0, 1, 2)
    words = [w for L in range(1, 5 if thorough else 4) for w in itertools.product(A, repeat=L)]
    pairs = [list(p) for p in itertools.product(itertools.product(A, repeat=2), repeat=2)]
    batch = [list(w) for w in words] + pairs + [[[0, 1, 2], [2, 1, 0], [1, 1, 1]], [[2, 0, 1], [0, 0, 2], [1, 2, 2]]]
    if name in ("argmax", "argmin", "argminmax", "max_argmax", "min_argmin", "minmax", "peaktopeak", "all_same"):
        return [(b,) for b in batch]
    if name == "ordered":
        return [(b, ("op", o)) for b in batch for o in ops]
    if name in ("first", "argfirst"):
        r = []
        for b in batch[:: 1 if thorough else 2]:
            for o in ops:
                for t in A:
                    r.append((b, ("op", o), t) + ((7,) if name == "first" else ()))
        return r
    if name.startswith("search"):
        srt = [list(w) for w in words if list(w) == sorted(w)]
        r = [(w, t) for w in srt for t in A]
        r += [([a, b], [s, t]) for a in srt if len(a) == 3 for b in srt if len(b) == 3 for s in A for t in A]
        return r
    if name == "cross2":
        w = list(itertools.product(A, repeat=2))
        return [(a, b) for a in w for b in w] + [([a, b], c) for a in w for b in w for c in w]
    w = list(itertools.product(A[:2], repeat=3))
    return [(a, b) for a in w for b in w] + [([a, b], c) for a in w[:4] for b in w[:4] for c in w[:4]]


def build(case):
    return [a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] == "op" else oarr(a) for a in case]


def outs(f, args, kind):
    """Output arrays of the right shape, object elements set to marked values; or None."""
    if kind == "none":
        return None
    saved = Plan.k
    Plan.k = 0
    r = f(*args)
    Plan.k = saved
    r = r if isinstance(r, tuple) else (r,)
    o = []
    for q in r:
        a = np.asarray(q) if not isinstance(q, P) else oarr(q.v)
        if a.dtype == object:
            b = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                b[i] = P(1000)
            o.append(b)
        else:
            o.append(np.full(a.shape, 99).astype(a.dtype))
    return tuple(o)


def elements(arrays):
    r = []
    for a in arrays:
        if isinstance(a, np.ndarray) and a.dtype == object:
            r.extend(a.ravel().tolist())
    return r


def counts(els):
    return [sys.getrefcount(els[i]) for i in range(len(els))]


def one(ctx, u, name, case, k, mode, okind):
    """One call; k = 0: no fault.  Returns (number of callbacks, ok)."""
    f = getattr(u, name)
    live0 = P.live, Verdict.live
    args = build(case)
    out = outs(f, args, okind)
    els, oels = elements(args), elements(out or ())
    before = counts(els)
    alive = P.live
    Plan.n, Plan.k, Plan.mode, Plan.exc = 0, k, mode, Boom(k)
    kw = {} if out is None else {"out": out}
    r, e = ctx.attempt(f, *args, **kw)
    n, Plan.k = Plan.n, 0
    what = f"{name}: fault in callback {k} ({mode}), out {okind}"
    bad = None
    if k and e is not Plan.exc:
        bad = f"raised {e!r} instead of the exception of the callback" if e is not None else "the exception of the callback was lost"
    elif not k and e is not None:
        bad = f"raised {e!r}"
    elif k and (e.__cause__ is not None or e.__context__ is not None):
        bad = f"the exception was chained to {e.__cause__ or e.__context__!r}"
    if e is not None:
        e.__traceback__ = None
    e = Plan.exc = None
    if not bad and r is not None and out is None and k:
        bad = "returned a result"
    # what is in the outputs is alive and holds exactly one reference each
    if not bad and out is not None:
        for o in out:
            if o.dtype == object and not all(isinstance(q, P) or (k and q is None) for q in o.ravel().tolist()):
                bad = f"the output contains {o.tolist()!r}"
    r = None
    if not bad:
        # every element of out refers either to an input, a marked value or something new
        held = {}
        for q in elements(out or ()):
            held[id(q)] = held.get(id(q), 0) + 1
        q = None
        after = counts(els)
        exp = [b + held.get(id(x), 0) for b, x in zip(before, els)]
        if after != exp:
            bad = f"the numbers of references to the elements of the inputs are {after}, expected {exp}"
    if not bad:
        x = None
        new = len({id(q) for q in elements(out or ()) if q is not None} - {id(q) for q in els} - {id(q) for q in oels})
        q = None
        if P.live != alive + new:
            bad = f"{P.live - alive - new} objects leaked (or freed too early)"
    ctx.count(1, 1 if k else 0)
    if bad:
        ctx.violation(f"{what}: {bad}", f=f, args=(repr(case),), repro=f"ufunclab.{name} on object arrays with the values {case!r}; {what}")
        return n, False
    out = oels = els = kw = args = o = q = x = None
    if (P.live, Verdict.live) != live0:
        ctx.violation(f"{what}: {P.live - live0[0]} elements and {Verdict.live - live0[1]} comparison results are still alive after the call",
                      f=f, args=(repr(case),), repro=f"ufunclab.{name} on object arrays with the values {case!r}; {what}")
        return n, False
    return n, True


def run(shard, ctx):
    import ufunclab as u
    kind = shard[0].split("_")[0]
    if kind == "fault":
        name = shard[1]
        cs = cases(name, u, ctx.thorough)
        most = 0
        for i, case in enumerate(cs):
            ctx.tick(f"{name} {case}")
            n, ok = one(ctx, u, name, case, 0, "raise", "none")
            most = max(most, n)
            if not ok:
                return
            for okind in ("none", "given"):
                if not one(ctx, u, name, case, 0, "raise", okind)[1]:
                    return
                for k in range(1, n + 1):
                    for mode in ("raise", "bool"):
                        if not one(ctx, u, name, case, k, mode, okind)[1]:
                            return
            # and the next call works
            if not one(ctx, u, name, case, 0, "raise", "none")[1]:
                return
        ctx.sample(f"{name}: {len(cs)} inputs, a fault at each of up to {most} callbacks in 2 ways, with and without out")
    elif kind == "alien":
        alien(ctx, u)
    else:
        refs(ctx, shard)


def alien(ctx, u):
    """Elements that do not support the operation: TypeError (or ValueError), references balanced."""
    class Mute:
        __slots__ = ()
    bads = [None, Mute(), 1j, "x", [1], {}]
    for name in FUNCS:
        f = getattr(u, name)
        if name in ("all_same",):
            continue
        for bad in bads:
            for p in range(3):
                if name == "cross2" and p > 1:
                    continue
                x = np.array([3, 1, 2][: 2 if name == "cross2" else 3], dtype=object)
                x[p] = bad
                y = np.array([1, 2, 3][: len(x)], dtype=object)
                args = {"ordered": (x, u.op.LT), "first": (x, u.op.LT, 0, 9), "argfirst": (x, u.op.LT, 0), "searchsortedl": (x, 2), "searchsortedr": (x, 2),
                        "cross2": (x, y), "cross3": (x, y)}.get(name, (x,))
                xs = np.stack([y, x, y]) if not name.startswith("search") else None
                for a in (args, None if xs is None else (xs,) + args[1:]):
                    if a is None:
                        continue
                    for _ in range(2):
                        before = sys.getrefcount(bad)
                        r, e = ctx.attempt(f, *a)
                        ctx.count(1)
                        if e is not None and type(e) is not TypeError and not isinstance(e, (TypeError, ValueError, AttributeError)):
                            ctx.violation(f"{name} of an array with {bad!r}: {e!r}", f=f, args=tuple(map(repr, a)))
                            return
                        if e is not None:
                            e.__traceback__ = None
                        r = e = None
                        if bad is not None and bad != "x" and sys.getrefcount(bad) != before:
                            ctx.violation(f"{name} of an array with {bad!r}: references changed by {sys.getrefcount(bad) - before}", f=f, args=tuple(map(repr, a)))
                            return
    ctx.sample("elements without the operation at every position, alone and in a batch")


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def refs(ctx, shard):
    """Every loop of every function: references to operands and types, and memory, over many calls."""
    libc = ctypes.CDLL(None)
    try:
        mall = libc.mallinfo2
        mall.restype = MallInfo
    except AttributeError:
        mall = None

    def used():
        m = mall() if mall else None
        return (m.uordblks + m.hblkhd) if m else 0, sys.getallocatedblocks()

    N = 200 if ctx.thorough else 60
    for e in my_entries(shard):
        ctx.tick(e.key)
        dims = e.sizes[min(2, len(e.sizes) - 1)]
        x = e.inputs(dims, 2)
        o = e.new_out(dims, 2)
        variants = [("plain", [x, {}] if not e.needs_out else [x, {"out": tuple(o)}]), ("out", [x, {"out": tuple(o)}])]
        if not e.isobject:
            y = [a.astype(a.dtype.newbyteorder()) for a in x]
            variants.append(("swapped", [y, variants[0][1][1]]))
            if not e.needs_out:
                variants.append(("raising", [[a.astype("U8") if a.dtype.kind != "c" else a.astype("U30") for a in x], {}]))
                if e.ci and any(e.ci):
                    variants.append(("dims", [[a[..., None][:0, 0] if a.ndim > 1 else a for a in x], {}]))
        for nm, (a, kw) in variants:
            f = e.f

            def burst(n):
                for _ in range(n):
                    try:
                        f(*a, **kw)
                    except Exception:
                        pass
            ctx.res.calls += 4 * N
            burst(8)
            objs = list(a) + list(kw.get("out", ())) + sorted({np.dtype(t) for t in e.it + e.ot + ["l", "d", "O"]}, key=str)
            r0 = [sys.getrefcount(q) for q in objs]
            burst(N)
            ctx.tick()
            r1 = [sys.getrefcount(q) for q in objs]
            lost = [(q.str if isinstance(q, np.dtype) else f"operand of type {q.dtype}", d - c) for q, c, d in zip(objs, r0, r1) if abs(d - c) >= N // 2]
            grow = []
            for _ in range(3):
                m0 = used()
                burst(N)
                m1 = used()
                grow.append((m1[0] - m0[0], m1[1] - m0[1]))
            ctx.count(1, 1)
            if lost:
                ctx.violation(f"{e.key} ({nm}): {N} calls changed the number of references: {lost}", f=f, args=tuple(a), kw=kw)
                return
            if all(g[0] >= N * 12 for g in grow) or all(g[1] >= N // 2 for g in grow):
                ctx.violation(f"{e.key} ({nm}): {N} calls use (bytes, blocks) {grow} more memory each time", f=f, args=tuple(a), kw=kw)
                return
