"""C05: calls that run at the same time in two threads."""

import ctypes
import itertools
import os
import subprocess
import sys
import threading

import numpy as np

from mc import catalog
from mc import env as E
from mc.common import chunks, my_entries, tup

PROP = "C05"
LEVEL = "model_checking"
RULE = ("one case = one schedule of two threads that execute inner loops of the real modules (compiled so that every memory access is a "
        "point of preemption); the states are the points of preemption; non-trivial = a thread was preempted")
ASSUMPTIONS = ["memory is sequentially consistent; a preemption is possible at every load, store and call of the compiled code, not between two "
               "instructions of one access",
               "the loops are compiled with -O0 for this check",
               "NumPy calls the loops of a ufunc without the GIL and with operands that are not shared for writing"]
NCH = 32


def variant(site):
    flags = ["-Dc_args=-fsanitize=thread", "-Dcpp_args=-fsanitize=thread", "-Db_lundef=false", "-Doptimization=0"]
    new = E.build_variant("tsan", flags)
    d = E.scratch_dir("sched")
    nat = os.path.join(E.VERIF, "mc", "native")
    lib, toy = os.path.join(d, "mcsched.so"), os.path.join(d, "mctoy.so")
    for cmd in (["gcc", "-O2", "-fPIC", "-shared", "-o", lib, os.path.join(nat, "sched.c"), "-lpthread"],
                ["gcc", "-O1", "-fPIC", "-c", "-fsanitize=thread", "-o", toy + ".o", os.path.join(nat, "toy.c")],
                ["gcc", "-shared", "-o", toy, toy + ".o", "-lpthread"]):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise E.BuildError(p.stderr)
    return new, dict(LD_PRELOAD=lib, MC_SCHED=lib, MC_TOY=toy)


def shards(tier):
    return [["python", k, 8] for k in range(8)] + chunks(NCH) + [["cross", k, 8] for k in range(8)] + [["gendot"], ["toy"]]


class Job(ctypes.Structure):
    _fields_ = [("loop", ctypes.c_void_p), ("data", ctypes.c_void_p), ("nargs", ctypes.c_ssize_t), ("args", ctypes.c_void_p * 32),
                ("dims", ctypes.c_ssize_t * 32), ("steps", ctypes.c_ssize_t * 64)]


class Chk(ctypes.Structure):
    _fields_ = [("out", ctypes.c_void_p), ("init", ctypes.c_void_p), ("ref", ctypes.c_void_p), ("bytes", ctypes.c_ssize_t),
                ("item", ctypes.c_ssize_t), ("valid", ctypes.c_ssize_t)]


REC = np.dtype([("addr", "u8"), ("point", "u4"), ("size", "u1"), ("write", "u1"), ("thread", "u1"), ("pad", "u1")])


class Sched:
    def __init__(self):
        self.lib = ctypes.CDLL(os.environ["MC_SCHED"])
        self.lib.mc_sweep.restype = ctypes.c_long
        self.info = (ctypes.c_long * 8)()
        self.log = np.zeros(200000, dtype=REC)

    def checks(self, calls):
        v = [q for c in calls for q in c.checks]
        return (Chk * len(v))(*v), len(v)

    def one(self, a, b, first, plan, log=False):
        k, n = self.checks((a, b))
        p = (ctypes.c_int32 * (2 * len(plan) or 1))(*[x for q in plan for x in q])
        bad = self.lib.mc_one(ctypes.byref(a.job), ctypes.byref(b.job), first, p, len(plan), k, n,
                              ctypes.c_void_p(self.log.ctypes.data if log else 0), ctypes.c_long(len(self.log) if log else 0), self.info)
        return bad, list(self.info[:5])

    def sweep(self, a, b, first, lo, hi, step=1):
        k, n = self.checks((a, b))
        bad = self.lib.mc_sweep(ctypes.byref(a.job), ctypes.byref(b.job), first, ctypes.c_long(lo), ctypes.c_long(hi), ctypes.c_long(step), k, n, self.info)
        return bad, self.info[5]

    def conflicts(self, n):
        """Points of either thread that touch a byte which both touch and one of them writes."""
        r = self.log[:n]
        r = r[r["size"] > 0]
        rd = {0: {}, 1: {}}
        wr = {0: {}, 1: {}}
        for q in r:
            t = int(q["thread"])
            for b in range(int(q["addr"]), int(q["addr"]) + int(q["size"])):
                (wr if q["write"] else rd)[t].setdefault(b, []).append(int(q["point"]))
        pts = (set(), set())
        for t in (0, 1):
            o = 1 - t
            for b, p in wr[t].items():
                if b in wr[o] or b in rd[o]:
                    pts[t].update(p)
                    pts[t].update(rd[t].get(b, ()))
                    pts[o].update(wr[o].get(b, ()))
                    pts[o].update(rd[o].get(b, ()))
        return sorted(pts[0]), sorted(pts[1])


class Call:
    """One execution of one inner loop, with its own operands."""

    def __init__(self, key, f, index, ci, co, args, outs):
        self.key, self.f, self.args, self.outs = key, f, args, outs
        names = []
        for c in list(ci) + list(co):
            for d in c:
                if d not in names:
                    names.append(d)
        dims = {}
        for a, c in zip(list(args) + list(outs), list(ci) + list(co)):
            for d, n in zip(c, a.shape[1:]):
                dims[d] = n
        ops = list(args) + list(outs)
        j = self.job = Job()
        base = id(f)
        funcs = ctypes.c_void_p.from_address(base + 32).value
        data = ctypes.c_void_p.from_address(base + 40).value
        j.loop = ctypes.c_void_p.from_address(funcs + 8 * index).value
        j.data = ctypes.c_void_p.from_address(data + 8 * index).value if data else None
        j.nargs = len(ops)
        for i, a in enumerate(ops):
            j.args[i] = a.ctypes.data
            j.steps[i] = a.strides[0]
        j.dims[0] = len(ops[0])
        for i, d in enumerate(names):
            j.dims[i + 1] = dims[d]
        s = len(ops)
        for a in ops:
            for q in a.strides[1:]:
                j.steps[s] = q
                s += 1
        self.init = [o.copy() for o in outs]

    def reference(self, ctx):
        """The result of the ufunc itself, called from Python."""
        o = tuple(np.zeros_like(q) for q in self.outs)
        for q, i in zip(o, self.init):
            q[...] = i
        r, e = ctx.attempt(self.f, *self.args, out=o)
        if e is not None:
            return False
        self.ref = [np.ascontiguousarray(q) for q in o]
        self.checks = []
        for o, i, r in zip(self.outs, self.init, self.ref):
            it = r.dtype.itemsize
            item, valid = (16, 10) if r.dtype.char in "gG" else (it, it)
            self.checks.append(Chk(o.ctypes.data, i.ctypes.data, r.ctypes.data, r.nbytes, item, valid))
        return True


def calls(ctx, e, dims, v, B=2):
    idx = e.f.types.index(e.types)
    c = Call(f"{e.key} {dims} v{v}", e.f, idx, e.ci, e.co, e.inputs(dims, B, v), [np.zeros((B,) + s, dtype=t) for t, s in zip(e.ot, e.out_shapes(dims))])
    return c if c.reference(ctx) else None


def pair(ctx, S, a, b, what, cap, deep=True):
    """All schedules with one preemption of a by b; and, where they share memory, with more."""
    bad, info = S.one(a, b, 0, [], log=True)
    ctx.count(1, 0)
    if bad:
        ctx.violation(f"{what}: a loop called in a thread of its own does not give the result of the ufunc", f=a.f, args=tuple(a.args))
        return False
    na, nb = info[0], info[1]
    conf = S.conflicts(info[2]) if deep else ((), ())
    step = max(1, -(-na // cap))
    bad, n = S.sweep(a, b, 0, 1, na + 1, step)
    ctx.count(n, n)
    ctx.graph(states=n, transitions=na + nb, traces=n)
    ctx.res.calls += 2 * n
    if not bad and step > 1:
        # not all points: at least those that touch shared memory
        for p in conf[0]:
            if S.one(a, b, 0, [(0, p)])[0]:
                bad = p
                break
    if not bad and (conf[0] or conf[1]):
        ctx.res.parts["pairs with shared memory"] = ctx.res.parts.get("pairs with shared memory", 0) + 1
        ca, cb = conf[0][:40], conf[1][:40]
        for i, j in itertools.product(ca, cb):
            ctx.count(1, 1)
            ctx.graph(traces=1)
            if S.one(a, b, 0, [(0, i), (1, j)])[0]:
                bad = (i, j)
                break
            ctx.tick()
    if bad:
        ctx.violation(f"{what}: wrong result when the first call is preempted at its access {bad} and the second one runs", f=a.f, args=tuple(a.args),
                      repro=f"two threads: {a.key} is preempted at access {bad}; {b.key} runs; the first continues")
        return False
    return True


def menu(e):
    d = list(e.sizes)
    return d[min(1, len(d) - 1)], d[min(2, len(d) - 1)]


def run(shard, ctx):
    kind = shard[0].rstrip("0123456789")
    if kind == "python":
        return python_level(ctx, shard[1], shard[2])
    S = Sched()
    cap = 4000 if ctx.thorough else 400
    if kind == "chunk":
        for e in my_entries(shard, lambda e: not e.isobject):
            ctx.tick(e.key)
            d1, d2 = menu(e)
            x, y, z = calls(ctx, e, d1, 0), calls(ctx, e, d1, 1), calls(ctx, e, d2, 2, 3)
            many = e.f.ntypes > 60 and not ctx.thorough
            for a, b in ((x, y), (y, x), (x, z), (z, x))[: 2 if many else 4]:
                if a is None or b is None:
                    continue
                ctx.part = e.name
                if not pair(ctx, S, a, b, f"{a.key} and {b.key}", cap):
                    return
        ctx.sample("every loop with itself, other data and sizes: preempted at every access")
    elif kind == "cross":
        mods = {}
        for e in catalog.entries():
            if not e.isobject:
                mods.setdefault(e.module, {}).setdefault(e.name, []).append(e)
        for m in sorted(mods)[shard[1]::shard[2]]:
            ctx.tick(m)
            cs = []
            for name, es in sorted(mods[m].items()):
                pick = [e for e in es if e.it[0] in "df"] or es
                for e in pick[:2] + ([es[-1]] if ctx.thorough else []):
                    c = calls(ctx, e, menu(e)[0], 0)
                    if c is not None:
                        cs.append(c)
            for a, b in itertools.permutations(cs, 2):
                if not pair(ctx, S, a, b, f"{a.key} and {b.key}", cap):
                    return
        ctx.sample("pairs of functions of one module")
    elif kind == "gendot":
        import ufunclab as u
        for p, s in ((np.multiply, np.add), (np.minimum, np.maximum), (np.add, np.multiply), (np.logical_and, np.logical_or), (np.subtract, np.maximum),
                     (np.equal, np.logical_and), (np.hypot, np.add), (np.less, np.logical_or)):
            g = u.gendot(p, s)
            for t in ("ll->l", "dd->d", "ff->f", "gg->g", "dd->?", "BB->B"):
                if t not in g.types:
                    continue
                ti, to = t[0], t[-1]
                cs = []
                for n, v in ((3, 0), (3, 1), (7, 2), (40, 3)):
                    x = [catalog.pat(catalog.INT, (2, n), ti, v + k) for k in (0, 1)]
                    c = Call(f"{g.__name__} {t} n={n}", g, g.types.index(t), [("n",), ("n",)], [()], x, [np.zeros(2, dtype=to)])
                    if c.reference(ctx):
                        cs.append(c)
                for a, b in itertools.permutations(cs, 2):
                    if not pair(ctx, S, a, b, f"{a.key} and {b.key}", cap):
                        return
        ctx.sample("functions made by gendot")
    elif kind == "toy":
        toy(ctx, S)


def toy(ctx, S):
    """The scheduler finds a shared accumulator, and accepts private, thread-local and locked ones."""
    lib = ctypes.CDLL(os.environ["MC_TOY"])

    class T(Call):
        def __init__(self, fn, x):
            out = np.zeros(len(x))
            super().__init__("toy", np.add, 0, [("n",)], [()], [x], [out])
            self.job.loop = ctypes.cast(getattr(lib, fn), ctypes.c_void_p).value
            self.job.data = None
            self.ref = [x.sum(axis=1)]
            self.checks = [Chk(out.ctypes.data, self.init[0].ctypes.data, self.ref[0].ctypes.data, out.nbytes, 8, 8)]
    x = np.arange(6.0).reshape(2, 3)
    y = x * 10 + 1
    for fn, racy in (("toy_plain", 0), ("toy_static", 1), ("toy_tls", 0), ("toy_locked", 0)):
        a, b = T(fn, x), T(fn, y)
        bad, info = S.one(a, b, 0, [], log=True)
        conf = S.conflicts(info[2])
        points = range(1, info[0] + 1) if fn != "toy_locked" else range(1, info[0] + 1, 5)
        found = [p for p in points if S.one(a, b, 0, [(0, p)])[0]]
        ctx.tick(fn)
        ctx.count(len(points), len(points))
        ctx.graph(states=len(points), transitions=sum(info[:2]), traces=len(points))
        if bad or bool(found) != bool(racy) or (racy and not conf[0]):
            raise OSError(f"the scheduler does not work: {fn} {bad} {found[:3]} {conf[0][:3]}")


# ---- first use of the public names by two threads --------------------------------------------------
def python_level(ctx, k, m):
    """Thread A is stopped at each line that it executes in ufunclab's own Python files; thread B then runs to its end."""
    import ufunclab as u
    top = os.path.dirname(u.__file__)
    names = [n for n in u.__all__ if n not in ("op",)]
    x = np.array([3, 1, 2])
    acts = {
        "bincount": lambda u: u.bincount(x, 4).tolist(), "bincount w": lambda u: u.bincount(x + 1, 3, x / 2).tolist(),
        "one_hot": lambda u: u.one_hot(x, 4).tolist(), "one_hot2": lambda u: u.one_hot(x + 1, 6, axis=0).tolist(),
        "convert": lambda u: u.convert_to_base(x, 2, 3).tolist(), "convert2": lambda u: u.convert_to_base(x * 100, 10, 4, axis=0).tolist(),
        "nextn": lambda u: u.nextn_greater(1.0, 3).tolist(), "nextn2": lambda u: u.nextn_less(np.float32(2.0), 2).tolist(),
        "gendot": lambda u: u.gendot(np.multiply, np.add)(x, x).tolist(), "gendot2": lambda u: u.gendot(np.minimum, np.maximum)(x / 2, x).tolist(),
    }
    # one name of each module, loaded for the first time by both threads
    for n in names[:: 1 if ctx.thorough else 6]:
        acts["load " + n] = lambda u, n=n: getattr(getattr(u, n), "__name__", "?")
    keys = sorted(acts)
    exp = {}
    for q in keys:
        exp[q] = _fork(lambda: acts[q](_fresh()))
    pairs = []
    act = [q for q in keys if not q.startswith("load")]
    load = [q for q in keys if q.startswith("load")]
    for a in act:
        pairs += [(a, b) for b in act if ctx.thorough or a[:5] == b[:5]]
    pairs += list(zip(act, act[2:] + act[:2]))
    for a in load:
        pairs += [(a, a)]
    for a, b in zip(load, load[1:] + load[:1]):
        pairs += [(a, b), (b, act[len(a) % len(act)])]
    pairs = pairs[k::m]
    for a, b in pairs:
        p, limit = 1, 400
        while p <= limit:
            ctx.tick(f"{a} | {b} at line {p}")
            got = _fork(lambda: _duel(acts[a], acts[b], p, top, exp[a], exp[b]))
            ctx.count(1, 1)
            if isinstance(got, str):
                ctx.violation(f"threads: {a!r} stopped at its line {p}, {b!r} run: {got}", f=a, args=(),
                              repro="in two threads of a fresh process, see message")
                return
            lines, ra, rb = got
            ctx.graph(states=1, transitions=lines, traces=1)
            if p > lines:
                break
            if ra != exp[a] or rb != exp[b]:
                ctx.violation(f"threads: {a!r} stopped at its line {p} of {lines}, {b!r} run: results {ra!r}, {rb!r}; expected {exp[a]!r}, {exp[b]!r}", f=a, args=(),
                              repro="in two threads of a fresh process, see message")
                return
            # all lines of short runs; long ones (the making of a gendot function) in steps
            p += 1 if p < (40 if not ctx.thorough else 400) else 17
    ctx.sample("two threads in the Python code: all stops of the first, the second runs to its end")


def _fresh():
    """The package as at its first import (in a forked process)."""
    for n in [n for n in sys.modules if n == "ufunclab" or n.startswith("ufunclab.")]:
        del sys.modules[n]
    import ufunclab
    return ufunclab


def _fork(f):
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                b = pickle.dumps(f())
            except BaseException as e:
                b = pickle.dumps(f"raised {e!r}")
            os.write(wr, b)
        finally:
            os._exit(0)
    os.close(wr)
    buf = b""
    while True:
        q = os.read(rd, 1 << 16)
        if not q:
            break
        buf += q
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if st or not buf:
        return f"the process died (status {st})"
    return pickle.loads(buf)


def _duel(fa, fb, at, top, ea, eb):
    u = _fresh()
    seen = [0]
    res = {}
    reached, resume, bdone = threading.Event(), threading.Event(), threading.Event()

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(top):
            return None
        if event == "line":
            seen[0] += 1
            if seen[0] == at:
                reached.set()
                resume.wait()
        return trace

    def ta():
        sys.settrace(trace)
        try:
            res["a"] = fa(u)
        except BaseException as e:
            res["a"] = f"raised {e!r}"
        finally:
            sys.settrace(None)
            reached.set()

    def tb():
        try:
            res["b"] = fb(u)
        except BaseException as e:
            res["b"] = f"raised {e!r}"
        bdone.set()
    A, B = threading.Thread(target=ta), threading.Thread(target=tb)
    A.start()
    reached.wait()
    B.start()
    bdone.wait(0.3)          # b may wait for something that a holds (an import lock)
    resume.set()
    A.join()
    B.join()
    return seen[0], res["a"], res["b"]
