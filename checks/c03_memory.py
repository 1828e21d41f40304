"""C03: only the elements of the operands are read, only those of the outputs are written."""

import ctypes
import itertools
import os
import subprocess

import numpy as np

from mc import env as E
from mc.common import chunks, my_entries, tup

PROP = "C03"
LEVEL = "exploration"
RULE = ("one case = one call of one type loop with every byte around and between the elements of its operands poisoned "
        "(AddressSanitizer build); non-trivial = the batch and the core dimensions are not empty")
ASSUMPTIONS = ["NumPy and the C library are not instrumented: an access they make on behalf of a loop is seen only in memcpy and the like",
               "C++ code is compiled with -O1 for this check"]
NCH = 40


def variant(site):
    san = "bounds,null,integer-divide-by-zero,vla-bound,bool,enum,return,unreachable"
    new = E.build_variant("asan", [f"-Db_sanitize=address,undefined", "-Db_lundef=false", "-Doptimization=1", "-Db_ndebug=true"],
                          cflags=f"-fno-sanitize=undefined -fsanitize={san} -fno-sanitize-recover=all -fno-omit-frame-pointer")

    def lib(n):
        return os.path.realpath(subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip())
    env = dict(LD_PRELOAD=lib("libasan.so") + " " + lib("libstdc++.so.6"), PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
    return new, env


def shards(tier):
    return chunks(NCH) + [[f"objects{k}", k, 4] for k in range(4)] + [["gendot", 0], ["gendot", 1], ["gendot", 2], ["gendot", 3], ["wrappers"], ["monitor"]]


class Asan:
    def __init__(self):
        lib = ctypes.CDLL(None)
        self.poison, self.unpoison = (getattr(lib, f"__asan_{n}poison_memory_region") for n in ("", "un"))
        for f in (self.poison, self.unpoison):
            f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
            f.restype = None


GRAIN = 16


def up(n, g=GRAIN):
    return (n + g - 1) // g * g


class Field:
    """An arena in which operands are placed; everything that is not an element is poisoned."""

    def __init__(self, asan, size=1 << 20):
        self.asan, self.size = asan, size
        self.mem = np.zeros(size + 64, dtype=np.uint8)
        self.base = self.mem.ctypes.data
        self.off0 = (-self.base) % 64
        self.buf = memoryview(self.mem)
        self.pos = 0
        self.used = []

    def reset(self):
        self.asan.unpoison(self.base, self.size + 64)
        self.pos = self.off0 + 64
        self.used = []

    def place(self, shape, dt, kind):
        """An array of the given shape; kind: rows (core contiguous), strided, reversed."""
        dt = np.dtype(dt)
        it = dt.itemsize
        B, core = shape[0], shape[1:]
        n = int(np.prod(core, dtype=int))
        if kind == "rows":
            cs, s = [], it
            for c in reversed(core):
                cs.insert(0, s)
                s *= max(c, 1)
            row = up(n * it) + GRAIN
            total = max(B, 1) * row
            spans = [(b * row, n * it) for b in range(B)]
            strides = (row, *cs)
            start = 0
        elif kind in ("strided", "reversed"):
            el = up(it) + (GRAIN if kind == "strided" else 0)
            cs, s = [], el
            for c in reversed(core):
                cs.insert(0, s)
                s *= max(c, 1)
            row = max(n, 1) * el
            total = max(B, 1) * row
            spans = [(k * el, it) for k in range(B * n if core else B)]
            strides = (row, *cs)
            start = 0
            if kind == "reversed":
                if B * n:
                    start = sum((c - 1) * q for c, q in zip(shape, strides))
                strides = tuple(-q for q in strides)
        else:
            raise ValueError(kind)
        at = self.pos
        if at + total + 128 > self.off0 + self.size:
            raise MemoryError("arena too small")
        self.pos = at + up(total, 64) + 64
        a = np.ndarray(shape, dtype=dt, buffer=self.buf, offset=at + start, strides=strides)
        self.used.append((at, total, [(at + o, ln) for o, ln in spans if ln]))
        return a

    def arm(self):
        """Poison everything but the elements."""
        p = self.asan.poison
        cur = self.off0
        for at, total, spans in self.used:
            for o, ln in spans:
                if o > cur:
                    p(self.base + cur, o - cur)
                cur = o + ln
        p(self.base + cur, self.off0 + self.size - cur)

    def disarm(self):
        self.asan.unpoison(self.base, self.size + 64)


KINDS = ("rows", "strided", "reversed")


def assignments(nop, thorough):
    r = [(k,) * nop for k in KINDS]
    for i in range(nop):
        for k in ("strided", "reversed"):
            q = ["rows"] * nop
            q[i] = k
            r.append(tuple(q))
    if thorough:
        r += list(itertools.product(KINDS, repeat=nop)) if nop <= 4 else []
    seen = []
    for q in r:
        if q not in seen:
            seen.append(q)
    return seen


def extreme(x, w, only=None):
    """The data with special values."""
    r = []
    for i, a in enumerate(x):
        a = a.copy()
        if (only is None or only == i) and a.size:
            t = a.dtype
            if t.kind in "fc":
                v = dict(nan=np.nan, inf=np.inf, ninf=-np.inf, big=np.finfo(t).max, small=-np.finfo(t).max, zero=0, neg=-1)[w]
            elif t.kind == "b":
                v = w in ("big", "neg", "nan")
            else:
                v = dict(nan=np.iinfo(t).max, inf=np.iinfo(t).max - 1, ninf=np.iinfo(t).min, big=np.iinfo(t).max, small=np.iinfo(t).min, zero=0,
                         neg=np.iinfo(t).max if t.kind == "u" else -1)[w]
            a[...] = v
        r.append(a)
    return r


WHAT = ("nan", "inf", "ninf", "big", "small", "zero", "neg")


def dims_of(e, thorough):
    """The menu, and every dimension from 0 to 5 (thorough: 9)."""
    r = [dict(d) for d in e.sizes]
    letters = sorted({d for c in e.ci + e.co for d in c if not d.isdigit()})
    if letters and e.f.ntypes > 60 and not thorough:     # _bincountw: 8 integer types x the types of the weights
        r += [dict(zip(letters, q)) for q in itertools.product((0, 1, 3), repeat=len(letters))]
    elif letters:
        top = (10 if thorough else 6) if len(letters) == 1 else (6 if thorough else 4)
        for q in itertools.product(range(top), repeat=len(letters)):
            r.append(dict(zip(letters, q)))
        if len(letters) == 1 or thorough:
            r += [{l: n for l in letters} for n in (8, 9, 16, 17, 33)]
    seen = []
    for d in r:
        if d not in seen:
            seen.append(d)
    return seen


def inputs(e, dims, B, v):
    try:
        return e.inputs(dims, B, v)
    except (ZeroDivisionError, IndexError, ValueError):
        return [np.zeros((B,) + s, dtype=t) for t, s in zip(e.it, e.in_shapes(dims))]


def run(shard, ctx):
    kind = shard[0].rstrip("0123456789")
    asan = Asan()
    if kind == "chunk":
        F = Field(asan)
        for e in my_entries(shard, lambda e: not e.isobject):
            numeric(ctx, F, e)
        ctx.sample("every byte that is not an element poisoned; operands with contiguous rows, strided, reversed")
    elif kind == "objects":
        for e in my_entries([0, shard[1], shard[2]], lambda e: e.isobject):
            objects(ctx, asan, e)
    elif kind == "gendot":
        gendot(ctx, shard[1])
    elif kind == "wrappers":
        wrappers(ctx)
    else:
        monitor(ctx, asan)


def numeric(ctx, F, e):
    rng = e.name not in ("sosfilter_ic_contig",)
    for dims in dims_of(e, ctx.thorough):
        ctx.tick(f"{e.key} {dims}")
        size = int(np.prod([q + 1 for q in dims.values()], dtype=int)) if dims else 1
        for B in (0, 1, 3) if size <= 40 else (2,):
            shapes = e.in_shapes(dims)
            oshapes = e.out_shapes(dims)
            nop = len(shapes) + len(oshapes)
            datas = [("plain", inputs(e, dims, B, 0)), ("other", inputs(e, dims, B, 1))]
            if B:
                datas += [(w, extreme(datas[0][1], w)) for w in WHAT]
                if len(shapes) > 1:
                    datas += [(f"{w} in operand {i}", extreme(datas[0][1], w, i)) for i in range(len(shapes)) for w in WHAT]
            asg = assignments(nop, ctx.thorough) if rng else [("rows",) * nop]
            if e.f.ntypes > 60 and not ctx.thorough:
                asg = asg[:3]
            for k, q in enumerate(asg):
                # all data in the first layouts; the two plain data sets in all
                for nm, x in (datas if k < (3 if B == 3 or ctx.thorough else 1) else datas[:2]):
                    F.reset()
                    ins = [F.place(a.shape, a.dtype, kk) for a, kk in zip(x, q)]
                    outs = [F.place((B,) + s, t, kk) for t, s, kk in zip(e.ot, oshapes, q[len(x):])]
                    for a, b in zip(ins, x):
                        a[...] = b
                    for o in outs:
                        o[...] = 0
                    ctx.part = e.name
                    F.arm()
                    try:
                        ctx.attempt(e.f, *ins, out=tuple(outs))
                    finally:
                        F.disarm()
                    if any(not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") for a, b in zip(ins, x)):
                        ctx.violation(f"{e.key} {dims} batch {B} {nm}: an input was modified", f=e.f, args=tuple(x))
                        return
                    ctx.count(1, 1 if B and all(dims.values()) else 0, part=e.name)
            if ctx.full:
                return
    spread(ctx, F, e)


GRID = sorted({s * m * 2.0**k for s in (1, -1) for m in (1.0, 1.375, 1.75) for k in range(-40, 41)}
              | {k / 4 for k in range(-80, 241)} | {s * v for s in (1, -1) for v in (0.0, 5e-324, 1e-310, 1e-300, 1e-45, 1e-38, 88.0, 104.0, 710.0, 746.0, 1e30, 1e300)})


def spread(ctx, F, e):
    """Numbers of all sizes in one scalar operand at a time (tables and series that are chosen by the size of a number)."""
    n = 400
    for dims in e.sizes[:1] + (e.sizes[-1:] if len(e.sizes) > 1 else []):
        shapes = e.in_shapes(dims)
        for i, s in enumerate(shapes):
            if s != () and e.sig is not None and len(shapes) > 1:
                continue
            t = np.dtype(e.it[i])
            with np.errstate(all="ignore"):
                g = np.array(GRID).astype(t) if t.kind in "fc" else np.arange(-200, 200).astype(t)
            for c in range(0, len(g), n):
                h = g[c:c + n]
                for v in (0, 1):
                    x = e.inputs(dims, len(h), v)
                    x[i] = np.ascontiguousarray(np.broadcast_to(h.reshape((-1,) + (1,) * len(s)), (len(h),) + s))
                    F.reset()
                    ins = [F.place(a.shape, a.dtype, "rows") for a in x]
                    outs = [F.place((len(h),) + q, w, "rows") for w, q in zip(e.ot, e.out_shapes(dims))]
                    for a, b in zip(ins, x):
                        a[...] = b
                    ctx.tick(f"{e.key} {dims} operand {i} numbers of all sizes")
                    F.arm()
                    try:
                        ctx.attempt(e.f, *ins, out=tuple(outs))
                    finally:
                        F.disarm()
                    ctx.count(len(h), part=e.name)


def objects(ctx, asan, e):
    """Object arrays: isolated elements, and every element alive only through the arrays."""
    for dims in dims_of(e, ctx.thorough):
        ctx.tick(f"{e.key} {dims}")
        size = int(np.prod([q + 1 for q in dims.values()], dtype=int)) if dims else 1
        for B in (0, 1, 3) if size <= 40 else (2,):
            data = inputs(e, dims, B, 0)
            for step in (1, 2, -2):
                for oinit in (None, "x"):
                    bases, views = [], []
                    for a in [*data, *[np.zeros((B,) + s, dtype=t) for t, s in zip(e.ot, e.out_shapes(dims))]]:
                        n = a.size
                        s = abs(step)
                        base = np.empty(max(n, 1) * s * 2 + 300, dtype=a.dtype)   # more than 1024 bytes: from malloc
                        sl = base[128: 128 + n * s: s]
                        if step < 0:
                            sl = sl[::-1]
                        v = sl.reshape(a.shape) if n and sl.strides[0] == a.itemsize else np.lib.stride_tricks.as_strided(
                            sl, a.shape, tuple(sl.strides[0] * int(np.prod(a.shape[i + 1:], dtype=int)) for i in range(a.ndim)))
                        v[...] = a if len(views) < len(data) else 0
                        if v.dtype == object:
                            for i in np.ndindex(*v.shape):
                                v[i] = [1000 + a[i], "x"][0] if len(views) < len(data) else oinit
                        bases.append(base)
                        views.append(v)
                    dead = []
                    for base, v in zip(bases, views):
                        lo, it = base.ctypes.data, base.itemsize
                        held = sorted(v.ctypes.data + sum(k * q for k, q in zip(i, v.strides)) for i in np.ndindex(*v.shape))
                        cur = lo
                        for h in held:
                            if h > cur:
                                dead.append((cur, h - cur))
                            cur = h + it
                        dead.append((cur, lo + base.nbytes - cur))
                    # an empty array has no element that may be touched
                    for at, ln in dead:
                        asan.poison(at, ln)
                    try:
                        ctx.attempt(e.f, *views[:len(data)], out=tuple(views[len(data):]))
                    finally:
                        for at, ln in dead:
                            asan.unpoison(at, ln)
                    ctx.count(1, 1 if B and all(dims.values()) else 0, part=e.name)
                    # use and drop what was stored
                    for v in views:
                        if v.dtype == object:
                            repr(v.tolist())
                            v[...] = None
                    # results that nothing else keeps alive
                    r, ex = ctx.attempt(e.f, *[a.copy() for a in views[:0]] or data)
                    repr(r)
                    del r, ex, views, bases, v, base


def gendot(ctx, part):
    import ufunclab as u
    bins = [getattr(np, n) for n in ("add", "subtract", "multiply", "divide", "floor_divide", "minimum", "maximum", "logical_and", "logical_or", "logical_xor",
                                     "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "gcd", "lcm", "hypot", "arctan2", "logaddexp", "less", "equal",
                                     "not_equal", "power", "float_power", "copysign", "fmax", "remainder", "nextafter", "ldexp")]
    k = 0
    sums = bins + [getattr(u, n) for n in ("kbnsum", "peaktopeak", "argmin", "argmax", "all_same", "gmean", "hmean", "rms")]
    for p, s in itertools.product(bins, sums):
        k += 1
        if k % 4 != part:
            continue
        try:
            g = u.gendot(p, s)
        except Exception:
            continue
        ctx.tick(g.__name__)
        for t in g.types:
            ti = t.split("->")[0]
            if "O" in t or "M" in t or "m" in t:
                continue
            for n in (0, 1, 2, 5, 33, 700, 1500, 4500) if ctx.thorough else (0, 1, 5, 700) if s.signature is None else (1, 5, 700, 4100):
                for B in (1, 3):
                    bufs = []
                    for c in ti:
                        it = np.dtype(c).itemsize
                        # the operand ends where its block ends (blocks of more than 1024 bytes come from malloc)
                        b = np.empty(1100 // it + n * B + 1, dtype=c)
                        b[...] = 1
                        bufs.append(b[len(b) - n * B:].reshape(B, n))
                    ctx.attempt(g, *bufs)
                    if n:
                        ctx.attempt(g, *[q[:, ::-2] for q in bufs])
                    ctx.count(2, 2 if n else 0)
    ctx.sample("gendot of all pairs of 29 ufuncs, or of one with a reduction of this package, all types, lengths to 1500")


def wrappers(ctx):
    import ufunclab as u

    def tail(a):
        """A copy that ends where its block ends."""
        a = np.asarray(a)
        b = np.empty(1100 // a.itemsize + a.size + 1, dtype=a.dtype)
        v = b[len(b) - a.size:].reshape(a.shape)
        v[...] = a
        return v
    ints = "bBhHiIlL"
    for t in ints:
        hi = np.iinfo(t).max
        for n in (0, 1, 2, 5, 400):
            for x in ([0] * n, list(range(n)), [hi] * n, [np.iinfo(t).min] * n, [0, hi] * (n // 2)):
                try:
                    x = tail(np.array(x, dtype=t))
                except OverflowError:
                    continue
                for m in (0, 1, 3, 257):
                    ctx.attempt(u.bincount, x, m)
                    for wt in "fdlD":
                        ctx.attempt(u.bincount, x, m, tail(np.ones(len(x), dtype=wt)))
                    for ot in "ldfbH":
                        ctx.attempt(u.bincount, x, m, out=tail(np.zeros(m, dtype=ot)))
                    ctx.attempt(u.one_hot, x, m)
                    ctx.attempt(u.one_hot, x, m, 0)
                    ctx.count(12, 12 if n else 0)
                for base in (-1, 0, 1, 2, 10, 127):
                    for nd in (0, 1, 5, 70):
                        ctx.attempt(u.convert_to_base, x, base, nd)
                        ctx.count(1)
    for t in "fdg":
        for v in (0.0, 1.5, -np.inf, np.inf, np.nan, np.finfo(t).max, -np.finfo(t).max):
            for n in (0, 1, 2, 300):
                for f in (u.nextn_less, u.nextn_greater):
                    ctx.attempt(f, np.array(v, dtype=t), n)
                    ctx.attempt(f, tail(np.full(3, v, dtype=t)), n)
                    ctx.count(2)
    for f in (u.gendot_inspect if hasattr(u, "gendot_inspect") else None, u.ufunc_inspector):
        if f is None:
            continue
        for n in dir(np):
            q = getattr(np, n)
            if isinstance(q, np.ufunc):
                import contextlib
                import io
                with contextlib.redirect_stdout(io.StringIO()):
                    ctx.attempt(f, q)
                ctx.count(1)


def monitor(ctx, asan):
    """The monitor itself: an access to a poisoned byte next to an element, by a loop, ends the process."""
    import ufunclab as u
    for far in (0, 1):
        for n in (4, 5):
            pid = os.fork()
            if pid == 0:
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                F = Field(asan)
                F.reset()
                x = F.place((1, 4), "d", ("rows", "strided")[far])
                x[...] = 1.0
                F.arm()
                y = np.lib.stride_tricks.as_strided(x, (1, n), x.strides)
                u.all_same(y)
                u.minmax(y)
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            ctx.count(1)
            if (os.WEXITSTATUS(st) != 0 or os.WIFSIGNALED(st)) != (n == 5):
                raise OSError(f"the monitor does not work: status {st} for {n} elements of 4")
