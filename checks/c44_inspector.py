"""C44: ufunc_inspector prints the structure of the ufunc."""

import ctypes
import itertools
import os
import re
import tempfile

import numpy as np

PROP = "C44"
LEVEL = "exploration"
RULE = "one case = one ufunc or one object that is not a ufunc; non-trivial = a gufunc, or a ufunc with one to four inputs and one output"
ASSUMPTIONS = ["the attributes that NumPy reports for the ufunc (name, signature, nin, nout, types)", "the wording of the report is that of the current version"]


def shards(tier):
    return [["ours"], ["numpy"], ["made"], ["others"], ["user"]] + [[f"signatures{k}", k] for k in range(4)]


def output(ctx, f, arg):
    """What the call prints on the C stdout, and its value."""
    libc = ctypes.CDLL(None)
    with tempfile.TemporaryFile() as tf:
        libc.fflush(None)
        old = os.dup(1)
        os.dup2(tf.fileno(), 1)
        try:
            r = ctx.call(f, arg)
            libc.fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        tf.seek(0)
        return tf.read().decode(errors="replace"), r


def expected_core(f):
    ins, outs = f.signature.replace(" ", "").split("->")
    args = [[x for x in g.split(",") if x] for g in re.findall(r"\(([^)]*)\)", ins + "," + outs)]
    names = []
    flags = {}
    for a in args:
        for x in a:
            b = x.rstrip("?")
            if b not in names:
                names.append(b)
            flags.setdefault(b, set())
            if x.endswith("?"):
                flags[b].add("CAN_IGNORE")
            if not b.isdigit():
                flags[b].add("SIZE_INFERRED")
    num = [len(a) for a in args]
    off = [sum(num[:i]) for i in range(len(num))]
    return names, [int(n) if n.isdigit() else -1 for n in names], flags, num, off, [[names.index(x.rstrip("?")) for x in a] for a in args]


def judge(f, txt):
    """-> list of complaints"""
    bad = []
    lines = txt.split("\n")
    if f.signature:
        if lines[0] != f"'{f.__name__}' is a gufunc with signature '{f.signature}'.":
            bad.append(f"first line {lines[0]!r}")
        names, sizes, flags, num, off, ixs = expected_core(f)
        get = lambda key: next((l.split("= ", 1)[1] if "= " in l else l.split("=", 1)[1] for l in lines if l.startswith("..." + key)), None)
        if names:
            exp = {"core_num_dim_ix": str(len(names)), "core_dim_sizes": str(sizes), "core_num_dims": str(num), "core_offsets": str(off)}
            for k, e in exp.items():
                if (get(k) or "").strip() != e:
                    bad.append(f"{k}: {get(k)!r}, expected {e}")
            g = [[int(v) for v in re.findall(r"\d+", s)] for s in re.findall(r"\[([^]]*)\]", get("core_dim_ixs") or "")]
            if g != ixs:
                bad.append(f"core_dim_ixs: {g}, expected {ixs}")
            fl = [set(re.findall(r"\w+", s)) for s in (get("core_dim_flags") or "").strip("[]").split(",")]
            if fl != [flags[n] for n in names]:
                bad.append(f"core_dim_flags: {fl}, expected {[flags[n] for n in names]}")
        o = [int(x) for x in re.findall(r"\d+", get("op_flags") or "")]
        a = ctypes.cast(ctypes.c_void_p.from_address(id(f) + 176).value, ctypes.POINTER(ctypes.c_uint32))
        if names and o != [a[k] for k in range(f.nargs)]:
            bad.append(f"op_flags: {o}, expected {[a[k] for k in range(f.nargs)]}")
    elif lines[0] != f"'{f.__name__}' is a ufunc.":
        bad.append(f"first line {lines[0]!r}")
    if f"nin = {f.nin}, nout = {f.nout}" not in lines:
        bad.append("nin, nout")
    if f"ntypes = {f.ntypes}" not in lines:
        bad.append("ntypes")
    if 1 <= f.nin <= 4 and f.nout == 1:
        got = [(int(m[1]), [int(v) for v in re.findall(r"\d+", m[2])], m[3]) for m in (re.match(r"\s*(\d+): (.*?)  \((\S*->\S)\)  ", l) for l in lines) if m]
        exp = [(i, [np.dtype(c).num for c in t.replace("->", "")], t) for i, t in enumerate(f.types)]
        if got != exp:
            bad.append(f"loops: {[g for g in got if g not in exp][:3]}, expected {[e for e in exp if e not in got][:3]}")
    return bad


V = ["", "n", "n?", "3", "3?", "m,n", "n,n", "m?,n", "n,2,m"]


def make(api, sig, nin, nout, types, names=[]):
    """A ufunc (sig None) or gufunc with the given loops, which must not be called."""
    mk = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int,
                           ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p)(api[31])
    n = len(types)
    loops = sorted(GENERIC)
    funcs = (ctypes.c_void_p * max(n, 1))(*[loops[i % len(loops)] for i in range(n)])
    data = (ctypes.c_void_p * max(n, 1))()
    ty = (ctypes.c_char * max(n * (nin + nout), 1))(*[c for t in types for c in t])
    nm = ctypes.create_string_buffer(f"made_{nin}_{nout}".encode())
    sg = None if sig is None else ctypes.create_string_buffer(sig.encode())
    names.append((funcs, data, ty, nm, sg))
    at = ctypes.addressof
    return mk(at(funcs) if n else None, at(data) if n else None, at(ty) if n else None, n, nin, nout, -1, at(nm), at(nm), 0, sg and at(sg))


def table():
    """NumPy's C interface for ufuncs, and the addresses of its generic loops."""
    get = ctypes.pythonapi.PyCapsule_GetPointer
    get.restype, get.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    from numpy._core import _multiarray_umath as mu
    t = ctypes.cast(get(mu._UFUNC_API, None), ctypes.POINTER(ctypes.c_void_p))
    with open(os.path.join(np.get_include(), "numpy", "__ufunc_api.h")) as f:
        h = re.sub(r"\\\n", " ", f.read())
    for m in re.finditer(r"#define PyUFunc_(\w+_\w+)\s+\(\*\(void \(\*\)\(char \*\*[^[]*PyUFunc_API\[(\d+)\]\)", h):
        GENERIC[t[int(m[2])]] = m[1]
    return t


GENERIC = {}


def generic(f, txt):
    """The names of the generic loops behind the types (one and two inputs)."""
    bad = []
    if f.nin not in (1, 2) or f.nout != 1:
        return bad
    fn = ctypes.cast(ctypes.c_void_p.from_address(id(f) + 32).value, ctypes.POINTER(ctypes.c_void_p))
    lines = [m for m in (re.match(r"\s*(\d+): .*?\(\S*->\S\)  (.*)", l) for l in txt.split("\n")) if m]
    for i, m in enumerate(lines):
        name = GENERIC.get(fn[i])
        if name is not None and (name[0].islower() or name[0] in "FDGO") and len(name.split("_")[0].rstrip("n")) in (f.nin, f.nin + 0) or name is None:
            e = "not generic (or not in the checked generics)" if name is None else "PyUFunc_" + name
            if m[2] != e:
                bad.append(f"loop {i}: {m[2]!r}, expected {e!r}")
    return bad


def signatures(ctx, insp, api, part):
    """Every signature of one and two inputs, one and two outputs over V."""
    def dims(s):
        return {d.rstrip("?") for d in s.split(",") if d}
    n = 0
    for nin, nout in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2)):
        vs = V if nin + nout < 4 else V[:6] if ctx.thorough else ["", "n?", "3", "m,n"]
        for c in itertools.product(vs, repeat=nin + nout):
            # a name has to carry the same modifier wherever it occurs
            allnames = [d for s in c for d in s.split(",") if d]
            if any((d + "?") in allnames for d in allnames):
                continue
            n += 1
            if n % 4 != part:
                continue
            sig = ",".join(f"({s})" for s in c[:nin]) + "->" + ",".join(f"({s})" for s in c[nin:])
            if n % 3 == 0:
                sig = sig.replace(",", ", ")
            types = [[(n + 5 * i + j) % 17 for j in range(nin + nout)] for i in range(n % 3 + 1)]
            f = make(api, sig, nin, nout, types)
            t, r = output(ctx, insp, f)
            bad = judge(f, t)
            ctx.count(1)
            if bad or r is not None:
                ctx.violation(f"ufunc_inspector of a gufunc with signature {sig}: {bad[:4]}", got=t)
                if ctx.full:
                    return
    ctx.sample(f"every fourth of {n} signatures")


def user(ctx, insp, api):
    """Loops that are registered for a user type: all of them are printed, under their type."""
    from numpy._core import _rational_tests as rt
    R, R2 = np.dtype(rt.rational).num, np.dtype(rt.rational2).num
    names = {R: "numpy._core._rational_tests.rational", R2: "numpy._core._rational_tests.rational2"}
    reg = ctypes.PYFUNCTYPE(ctypes.c_int, ctypes.py_object, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)(api[2])
    loop = sorted(GENERIC)[0]

    def registered(t):
        got, cur = {}, None
        lines = t.split("\n")
        if "Registered user loops:" not in lines:
            return got
        for l in lines[lines.index("Registered user loops:") + 1:]:
            m = re.match(r"\s*typenum = (\d+); type name is '(.*)'$", l)
            if m:
                cur = got.setdefault((int(m[1]), m[2]), [])
                continue
            m = re.match(r"\s*arg_types:  in:([ \d]*?)   out:([ \d]*)$", l)
            if m and cur is not None:
                cur.append(([int(x) for x in m[1].split()], [int(x) for x in m[2].split()]))
            elif l.strip():
                got[l] = "?"
        return got
    n = 0
    for f, e in ((np.add, {R: [([R, R], [R])], R2: [([R2, R2], [R2])]}), (np.equal, {R: [([R, R], [0])], R2: [([R2, R2], [0])]}), (rt.numerator, {R: [([R], [7])]}),
                 (rt.test_add, {R: [([7, 7], [R])]}), (np.sin, {}), (rt.test_add_rationals, {R: [([R, R], [R])]})):
        t, r = output(ctx, insp, f)
        n += 1
        if registered(t) != {(k, names[k]): v for k, v in e.items()} or r is not None:
            ctx.violation(f"ufunc_inspector({f.__name__}): registered loops", got=t, exp=str(e))
    # every set of up to three loops of new functions
    for nin, nout in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2)):
        combos = [c for c in itertools.product([R, 7, 12], repeat=nin + nout) if R in c][:9]
        for k in range(4):
            for chosen in itertools.permutations(combos, k) if k < 3 else itertools.combinations(combos, k):
                if len({c[:nin] for c in chosen}) < len(chosen):
                    continue
                for ty in ([R] if k != 2 else [R, R2]):
                    f = make(api, None, nin, nout, [[12] * (nin + nout)])
                    e = {}
                    for i, c in enumerate(chosen):
                        t = ty if i == 0 else R
                        arr = (ctypes.c_int * len(c))(*c)
                        if reg(ctypes.py_object(f), t, loop, ctypes.addressof(arr), None):
                            raise RuntimeError("PyUFunc_RegisterLoopForType failed")
                        e.setdefault((t, names[t]), []).append((list(c[:nin]), list(c[nin:])))
                    t, r = output(ctx, insp, f)
                    n += 1
                    g = registered(t)
                    if r is not None or judge(f, t) or {k: sorted(v) for k, v in g.items()} != {k: sorted(v) for k, v in e.items()}:
                        ctx.violation(f"ufunc_inspector: registered loops {e}: {judge(f, t)}", got=t)
                        if ctx.full:
                            return
    ctx.count(n, n)
    ctx.sample("every set of up to three loops over a user type, of functions with one to three inputs and one or two outputs")


def run(shard, ctx):
    import ufunclab as u
    from mc import catalog
    kind = shard[0]
    insp = u.ufunc_inspector
    api = table()
    if len(GENERIC) < 15:
        raise RuntimeError("the table of NumPy's generic loops was not found")
    if kind.startswith("signatures"):
        return signatures(ctx, insp, api, shard[1])
    if kind == "user":
        return user(ctx, insp, api)
    if kind == "ours":
        fs = list(catalog.functions().values())
    elif kind == "numpy":
        fs = [v for v in vars(np).values() if isinstance(v, np.ufunc)] + [v for v in vars(np._core.umath).values() if isinstance(v, np.ufunc)]
        fs = list({id(f): f for f in fs}.values())
    elif kind == "made":
        fs = [np.frompyfunc(lambda *a: a[0], i, 1) for i in range(1, 6)] + [u.gendot(a, b) for a in (np.multiply, np.add, np.minimum) for b in (np.add, np.maximum)]
    else:
        for x in (None, 1, "sin", np.sin.reduce, len, np.array(3), u.bincount, np, int, lambda x: x):
            t, r = output(ctx, insp, x)
            ctx.count(1)
            if r is not None or t != "Not a ufunc.\n":
                ctx.violation("ufunc_inspector of an object that is not a ufunc", f=insp, args=(repr(x),), got=t)
        for a in ((), (np.sin, np.cos)):
            r, e = ctx.attempt(insp, *a)
            ctx.count(1)
            if not isinstance(e, TypeError):
                ctx.violation("ufunc_inspector with a wrong number of arguments", got=r)
        return
    for f in fs:
        t, r = output(ctx, insp, f)
        bad = judge(f, t) + generic(f, t)
        ctx.count(1, int(bool(f.signature) or (1 <= f.nin <= 4 and f.nout == 1)))
        t2, _ = output(ctx, insp, f)
        if bad or r is not None or t2 != t:
            ctx.violation(f"ufunc_inspector({f.__name__}): {bad[:4]}", got=t)
            return
    ctx.sample(", ".join(f.__name__ for f in fs[:12]) + f" ... ({len(fs)})")
