"""C07: the public names, in whatever order they are used first."""

import os
import pickle
import sys

PROP = "C07"
LEVEL = "model_checking"
IMPORT = False
RULE = ("one case = one fresh process in which two (or three) public names are used in one order after importing ufunclab; "
        "non-trivial = the names come from different modules")
ASSUMPTIONS = ["a forked process that has imported numpy only stands for a fresh interpreter"]
NCH = 32
ODD = ["nope", "bincountw", "bincounts", "Op", "__path_x__", "first_", "", "gmean "]


def shards(tier):
    return [[f"orders{i}", i] for i in range(NCH)] + [["surface"], ["star"], ["copies"]]


def in_child(fn, *args):
    """fn(*args) in a forked process; returns its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                b = pickle.dumps(fn(*args))
            except BaseException as e:
                b = pickle.dumps(dict(bad=[f"{type(e).__name__}: {e}"], states=[]))
            with os.fdopen(w, "wb") as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not b:
        return dict(bad=[f"the process ended with status {st}"], states=[])
    return pickle.loads(b)


def loaded():
    return frozenset(m[9:] for m in sys.modules if m.startswith("ufunclab."))


def get(u, n):
    o = u
    for p in n.split("."):
        o = getattr(o, p)
    return o


def use(u, n, bad):
    """First use of a name: what a user sees."""
    import numpy as np
    o = get(u, n)
    if get(u, n) is not o:
        bad.append(f"{n}: two accesses give different objects")
    short = n.split(".")[-1]
    if isinstance(o, np.ufunc) and o.__name__ != short:
        bad.append(f"{n} is the ufunc {o.__name__}")
    elif not isinstance(o, np.ufunc) and callable(o) and getattr(o, "__name__", short) not in (short, "op"):
        bad.append(f"{n} is {o!r}")
    if "." not in n and n in u.__all__:
        ns = {}
        exec(f"from ufunclab import {n}", ns)
        if ns[n] is not o:
            bad.append(f"from ufunclab import {n} is not ufunclab.{n}")
    return o


def unknown(u, bad):
    for n in ODD:
        try:
            getattr(u, n)
            bad.append(f"ufunclab.{n!r} exists")
        except AttributeError as e:
            if repr(n) not in str(e):
                bad.append(f"the AttributeError for {n!r} does not name it: {e}")


def leaks(u, what, bad):
    """Using names adds nothing to the package that is not one of its names or submodules."""
    known = set(u.__all__) | {"erfcx", "normal", "semivar"}
    for n, v in list(vars(u).items()):
        if n.startswith("_") or n in known or n in START:
            continue
        if n != "name" and not (type(v) is type(sys) and v.__name__ == "ufunclab." + n):
            bad.append(f"after the use of {what}, ufunclab has the new attribute {n}")


START = set()


def names():
    import ufunclab as u
    r = [n for n in u.__all__] + ["erfcx"]
    return r + [f"normal.{k}" for k in ("cdf", "logcdf", "sf", "logsf")] + [f"semivar.{k}" for k in ("exponential", "linear", "spherical", "parabolic")]


def order(first, rest, deep):
    """In a fresh process: use `first`, then (each in its own process) one of rest, then (deep) one more."""
    import ufunclab as u
    START.update(vars(u))
    bad, st, n = [], [loaded()], 0
    use(u, first, bad)
    unknown(u, bad)
    leaks(u, first, bad)
    st.append(loaded())
    out = []
    for k, b in enumerate(rest):
        d = in_child(second, first, b, rest[(k * 7 + 3) % len(rest)] if deep else None)
        n += 1
        bad += [f"after {first}: {m}" for m in d["bad"]]
        out += d["states"]
    return dict(bad=bad, states=st + out, n=n)


def second(first, b, c):
    import ufunclab as u
    bad = []
    o = get(u, first)
    st = [loaded()]
    use(u, b, bad)
    leaks(u, f"{first}, {b}", bad)
    st.append(loaded())
    if get(u, first) is not o:
        bad.append(f"using {b} changed {first}")
    if c:
        use(u, c, bad)
        st.append(loaded())
    return dict(bad=bad, states=st)


def run(shard, ctx):
    kind = shard[0].rstrip("0123456789")
    if kind == "surface":
        d = in_child(surface)
        ctx.count(d.get("n", 1))
        for b in d["bad"]:
            ctx.violation(b)
        return
    if kind in ("star", "copies"):
        d = in_child(star if kind == "star" else copies)
        ctx.count(d.get("n", 1))
        for b in d["bad"]:
            ctx.violation(b)
        return
    ns = in_child(lambda: dict(bad=[], states=[], r=names()))
    if ns["bad"]:
        ctx.violation(f"ufunclab cannot be imported: {ns['bad']}")
        return
    ns = ns["r"]
    states, trans = set(), set()
    for a in ns[shard[1]::NCH]:
        ctx.tick(a)
        d = in_child(order, a, ns, ctx.thorough)
        s = d["states"]
        states |= set(s)
        for x, y in zip(s, s[1:]):
            if len(x) < len(y):
                trans.add((x, y))
        ctx.count(d.get("n", 0) + 1)
        ctx.graph(traces=d.get("n", 0))
        for b in d["bad"]:
            ctx.violation(b, repro=f"fresh interpreter: import ufunclab; use {a}, then as described")
        if ctx.full:
            break
    ctx.graph(states=len(states), transitions=len(trans))
    ctx.sample(f"first names {ns[shard[1]::NCH]}, each followed by every one of {len(ns)} names")


def surface():
    import numpy as np
    import ufunclab as u
    bad = []
    if sorted(u.__all__) != sorted(set(u.__all__)):
        bad.append("__all__ has duplicates")
    if sorted(dir(u)) != sorted(u.__all__):
        bad.append("dir(ufunclab) is not __all__")
    # every function of the documentation's table
    for n in names():
        o = get(u, n)
        if isinstance(o, np.ufunc):
            if not o.types or not (o.__doc__ or "").strip():
                bad.append(f"{n} has no loops or no documentation")
        if callable(o) and not isinstance(o, type) and not (o.__doc__ or "").strip() and n != "__version__":
            bad.append(f"{n} has no documentation")
    if not isinstance(u.__version__, str) or not u.__version__[0].isdigit():
        bad.append(f"__version__ is {u.__version__!r}")
    ops = [u.op.LT, u.op.LE, u.op.EQ, u.op.NE, u.op.GT, u.op.GE]
    if len({int(v) for v in ops}) != 6 or any(type(v) is not np.int8 for v in ops):
        bad.append(f"the comparison codes are {ops!r}")
    # the codes mean what their names say
    x = np.array([1.0, 2.0, 3.0])
    exp = dict(LT=1.0, LE=1.0, EQ=2.0, NE=1.0, GT=3.0, GE=2.0)
    for k, e in exp.items():
        r = u.first(x, getattr(u.op, k), 2.0, -1.0)
        if r != e:
            bad.append(f"first([1,2,3], op.{k}, 2) is {r}")
    x = np.array([1.0, 2.0, 2.0, 5.0])
    for k, e in dict(KIND_RANK=62.5, KIND_WEAK=75.0, KIND_STRICT=25.0, KIND_MEAN=50.0).items():
        r = u.percentileofscore(x, 2.0, getattr(u.op, k))
        if r != e:
            bad.append(f"percentileofscore([1,2,2,5], 2, op.{k}) is {r}, not {e}")
        if type(getattr(u.op, k)) is not np.intp:
            bad.append(f"op.{k} is not an intp")
    unknown(u, bad)
    unknown(u, bad)
    for n in ("semivar", "normal"):
        m = getattr(u, n)
        if m is not sys.modules["ufunclab." + n] or m is not getattr(u, n):
            bad.append(f"ufunclab.{n} is {m!r}")
    return dict(bad=bad, states=[], n=len(names()) + 20)


def star():
    bad = []
    ns = {}
    exec("from ufunclab import *", ns)
    import ufunclab as u
    for n in u.__all__:
        if n not in ns or ns[n] is not getattr(u, n):
            bad.append(f"from ufunclab import * does not give {n}")
    return dict(bad=bad, states=[], n=len(u.__all__))


def objects(u):
    """Every public function."""
    import numpy as np
    r = {}
    for n in names():
        o = get(u, n)
        if isinstance(o, np.ufunc) or (callable(o) and not isinstance(o, type)):
            r[n] = o
    return r


def unpickle(data):
    """In a process in which nothing of ufunclab has been used."""
    if any(m.split(".")[0] == "ufunclab" for m in sys.modules):
        return dict(bad=["ufunclab is already loaded"], states=[])
    bad, d = [], {}
    for n, b in data.items():
        d[n] = pickle.loads(b)
    import ufunclab as u
    for n, o in objects(u).items():
        if n in d and d[n] is not o:
            bad.append(f"the pickle of {n}, loaded in another process, is {d[n]!r}")
    return dict(bad=bad, states=[])


def one_pickle(n, b):
    return unpickle({n: b})


def copies():
    """A public function survives pickling and copying: it is the same object afterwards."""
    got = in_child(pickles)
    bad = list(got["bad"])
    got.setdefault("data", {})
    n = len(got["data"])
    for k, b in got["data"].items():
        d = in_child(one_pickle, k, b)
        bad += d["bad"]
    bad += in_child(unpickle, got["data"])["bad"]
    return dict(bad=bad, states=[], n=2 * n + 1)


def pickles():
    import copy
    import ufunclab as u
    bad, data = [], {}
    for n, o in objects(u).items():
        for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
            try:
                b = pickle.dumps(o, p)
                r = pickle.loads(b)
            except Exception as e:
                bad.append(f"{n} cannot be pickled (protocol {p}): {type(e).__name__}: {e}")
                break
            if r is not o:
                bad.append(f"{n} is another object after pickling: {r!r}")
            data[n] = b
        if copy.copy(o) is not o or copy.deepcopy([o])[0] is not o:
            bad.append(f"a copy of {n} is another object")
    return dict(bad=bad, states=[], data=data)
