"""C48: tools/uwrap builds wrappers that mean what the ufuncs they wrap mean."""

import importlib.util
import inspect
import itertools
import os
import subprocess
import sys
import tempfile

import numpy as np

from mc import catalog as C, cmp as X, env as E

PROP = "C48"
LEVEL = "exploration"
RULE = ("one case = one call of one generated wrapper (a split of the operands into positional and keyword arguments, defaults left out or given, or an option passed on) "
        "compared with the call of the ufunc, one value of `axis` of a set reduction, or one parameter list given to uwrap(); non-trivial = operands given by keyword, or an option")
ASSUMPTIONS = ["the names of the operands are those of the first line of the function's own docstring, `name(a, b, /, ...)`",
               "the wrappers of set reductions are called with arrays, as their body requires, and with axis=None only without keepdims"]
TOOL = os.path.join(E.REPO, "tools", "uwrap", "uwrap.py")
REDUCE = ["all_same", "gmean", "hmean", "mad", "peaktopeak", "rmad"]
STEPS = {"a": 0, "b": 1, "fa": 0, "fb": 1}
DEFAULTS = {"vnorm": {"p": 2}, "step": {"a": 0, "flow": 0, "fa": 0.5, "fhigh": 1}, "linearstep": STEPS, "smoothstep3": STEPS, "smoothstep5": STEPS}
NP = 6


def shards(tier):
    return [[f"calls{k}", "c", k] for k in range(NP)] + [["options", "o", 0], ["axis", "a", 0], ["lists", "l", 0]]


def generate(ctx):
    """The module that the command writes, imported."""
    import ufunclab
    with tempfile.TemporaryDirectory(prefix="mc-uwrap-") as d:
        env = dict(E.clean_env())
        env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(ufunclab.__file__)))
        p = subprocess.run([sys.executable, TOOL], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ctx.count(1)
        if p.returncode or os.listdir(d) != ["wrappers.py"]:
            ctx.violation(f"uwrap.py: exit {p.returncode}, wrote {os.listdir(d)}: {p.stdout[-500:]}")
            return None
        spec = importlib.util.spec_from_file_location("mc_wrappers", os.path.join(d, "wrappers.py"))
        m = importlib.util.module_from_spec(spec)
        try:
            sys.dont_write_bytecode = True
            spec.loader.exec_module(m)
        except Exception as e:
            ctx.violation(f"wrappers.py cannot be imported: {type(e).__name__}: {e}")
            return None
    return m


def ufuncs():
    import ufunclab as u
    return {n: getattr(u, n) for n in dir(u) if isinstance(getattr(u, n), np.ufunc)}


def docnames(f):
    """The operands as the first line of the docstring names them; None if it does not have the form."""
    line = f.__doc__.splitlines()[2].strip()
    name, _, rest = line.partition("(")
    if name != f.__name__ or not rest.endswith(", /, ...)"):
        return None
    return rest[:-len(", /, ...)")].split(", ")


def run(shard, ctx):
    if shard[1] == "l":
        return lists(ctx)
    m = generate(ctx)
    if m is None:
        return
    fs = ufuncs()
    if shard[1] == "c":
        for k, (n, f) in enumerate(sorted(fs.items())):
            if k % NP == shard[2]:
                one(ctx, m, n, f)
    elif shard[1] == "o":
        for n, f in sorted(fs.items()):
            options(ctx, m, n, f)
    else:
        axis(ctx, m, fs)


def bits(a):
    a = np.asarray(a)
    return (a.dtype, a.shape, a.strides if a.size else None)


def alike(r, e):
    r, e = (list(x) if isinstance(x, tuple) else [x] for x in (r, e))
    return len(r) == len(e) and all(type(a) is type(b) and bits(a)[:2] == bits(b)[:2] and X.same(a, b) for a, b in zip(r, e))


def both(ctx, what, w, wa, wk, f, fa, fk, nontrivial=1):
    """Wrapper and ufunc: the same result, or the same kind of error."""
    r, re = ctx.attempt(w, *wa, **wk)
    e, ee = ctx.attempt(f, *fa, **fk)
    ctx.count(1, nontrivial)
    if (re is None) != (ee is None) or (re is not None and type(re) is not type(ee)):
        ctx.violation(f"{what}: {re!r}, where the ufunc gives {ee!r}", f=f, args=fa, kw=fk)
        return False
    if re is None and not alike(r, e):
        ctx.violation(f"{what}: differs from the ufunc", f=f, args=fa, kw=fk, got=r[0] if isinstance(r, tuple) else r, exp=e[0] if isinstance(e, tuple) else e)
        return False
    return True


def entries_of(n, thorough):
    es = C.entries([n])
    return es if thorough else es[:1] + es[-1:]


def one(ctx, m, n, f):
    """Signature, docstring, and every split of the operands."""
    w = getattr(m, n, None)
    names = docnames(f)
    ctx.count(1)
    if names is None or len(names) != f.nin:
        return ctx.violation(f"{n}: the docstring starts with {f.__doc__.splitlines()[2]!r}; {n} with {f.nin} operands is expected")
    if w is None or w.__name__ != n:
        return ctx.violation(f"{n}: no wrapper")
    d = DEFAULTS.get(n, {})
    P = inspect.signature(w).parameters
    red = n in REDUCE
    opts = dict(out=None if f.nout == 1 else (None,) * f.nout, casting="same_kind", order="K", subok=True, dtype=None)
    if f.signature is None:
        opts["where"] = True
    if red:
        opts["axis"] = None
    want = [(x, inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.empty) for x in names if x not in d]
    want += [(x, inspect.Parameter.KEYWORD_ONLY, d[x]) for x in names if x in d]
    got = [(p.name, p.kind, p.default) for p in P.values()]
    head, rest = got[:len(want)], got[len(want):]
    okrest = {a: c for a, b, c in rest if b == inspect.Parameter.KEYWORD_ONLY} == opts and [b for a, b, c in rest].count(inspect.Parameter.VAR_KEYWORD) == 1 and len(rest) == len(opts) + 1
    if head != want or not okrest:
        ctx.violation(f"{n}: the wrapper has the signature {inspect.signature(w)}")
        return
    body = [x.strip() for x in f.__doc__.splitlines()[4:]]
    doc = [x.strip() for x in (w.__doc__ or "").strip("\n").splitlines()]
    if "".join(body) != "".join(doc):
        ctx.violation(f"{n}: the wrapper's docstring differs", got=w.__doc__)
    npos = len(want) - len(d)
    kx = {"axis": -1} if red else {}
    for e in entries_of(n, ctx.thorough):
        for dims in e.sizes[-2:]:
            for v in (0, 1):
                a = e.inputs(dims, 3, v)
                if e.needs_out:
                    kx = dict(kx, out=e.new_out(dims, 3)[0] if f.nout == 1 else tuple(e.new_out(dims, 3)))
                    fk = {"out": e.new_out(dims, 3)[0] if f.nout == 1 else tuple(e.new_out(dims, 3))}
                else:
                    fk = {}
                for k in range(npos + 1):
                    rest = list(zip(names, a))[k:]
                    # every order of the keywords would mean the same; forwards and backwards
                    for kws in (rest, rest[::-1]):
                        if not both(ctx, f"{e.key}: wrapper, {k} positional", w, a[:k], dict(kws, **kx), f, a, fk, nontrivial=int(k < len(names))):
                            return
                # every subset of the defaults
                dn = [x for x in names if x in d]
                for s in itertools.product([0, 1], repeat=len(dn)):
                    given = {x for x, g in zip(dn, s) if g}
                    fa = [y if x not in d or x in given else d[x] for x, y in zip(names, a)]
                    if not both(ctx, f"{e.key}: wrapper, {sorted(given)} given", w, a[:npos], dict({x: y for x, y in zip(names, a) if x in given}, **kx), f, fa, fk):
                        return
                # an operand too few, an operand too many, an unknown keyword
                for wa, wk in ((a[:npos - 1], {}), (a[:npos] + [a[0]], {}), (a[:npos], {names[0]: a[0]}), (a[:npos], {"nosuch": 1})):
                    r, x = ctx.attempt(w, *wa, **wk)
                    ctx.count(1)
                    if not isinstance(x, TypeError):
                        ctx.violation(f"{n}: TypeError expected of {len(wa)} positional arguments and {list(wk)}, not {x!r}", f=f, args=wa)
    ctx.sample(f"{n}: {inspect.signature(w)}")


def options(ctx, m, n, f):
    """out, where, casting, order, subok, dtype, signature, keepdims, axes are the ufunc's own."""
    w = getattr(m, n, None)
    if w is None or docnames(f) is None:
        return
    d = DEFAULTS.get(n, {})
    names = docnames(f)
    red = n in REDUCE
    ax = {"axis": -1} if red else {}

    def cmp(what, a, mk, mkf=None):
        """mk() makes the options anew for each call; the arrays in `out` are compared too."""
        wk, fk = mk(), (mkf or mk)()
        npos = len([x for x in names if x not in d])
        kws = {x: y for x, y in zip(names, a) if x in d}
        if not both(ctx, f"{n}: {what}", w, a[:npos], dict(kws, **{**ax, **wk}), f, a, fk):
            return
        ow, of = wk.get("out"), fk.get("out")
        if ow is not None:
            for x, y in zip(ow if isinstance(ow, tuple) else (ow,), of if isinstance(of, tuple) else (of,)):
                if x is not None and (x.flags.c_contiguous != y.flags.c_contiguous or not X.same(x, y)):
                    ctx.violation(f"{n}: {what}: `out` differs", f=f, args=a, got=x, exp=y)

    for e in C.entries([n])[-1 if not ctx.thorough else 0:]:
        if e.isobject:
            continue
        dims = e.sizes[-1]
        a = e.inputs(dims, 4, 0)
        osh = [(4,) + s for s in e.out_shapes(dims)]

        def new(fill=0, swap=False, order="C"):
            os_ = [np.full(s, fill, np.dtype(t).newbyteorder("S") if swap else t, order=order) for s, t in zip(osh, e.ot)]
            return os_[0] if f.nout == 1 else tuple(os_)
        for swap in (False, True):
            for order in "CF":
                cmp(f"out, swapped {swap}, order {order}", a, lambda: dict(out=new(1, swap, order)))
        if f.nout > 1:
            for mask in itertools.product([0, 1], repeat=f.nout):
                cmp(f"out given for {mask}", a, lambda: dict(out=tuple(o if g else None for o, g in zip(new(), mask))) if not e.needs_out else dict(out=new()))
        if e.needs_out:
            continue
        if f.signature is None:
            for mask in itertools.product([False, True], repeat=4):
                cmp(f"where {mask}", a, lambda: dict(where=np.array(mask), out=new(3)))
            b = [np.array(np.broadcast_to(x, (3, 4))) for x in a]
            fl = [np.asfortranarray(x) for x in b]
            for args in (b, fl):
                for o in "CFAK":
                    cmp(f"order {o}", args, lambda: dict(order=o))
                    r, x = ctx.attempt(w, *args[:len(names) - len(d)], **{k: v for k, v in zip(names, args) if k in d}, order=o)
                    q = f(*args, order=o)
                    ctx.count(1)
                    r, q = (y[0] if isinstance(y, tuple) else y for y in (r, q))
                    if x is not None or (r.flags.f_contiguous, r.flags.c_contiguous) != (q.flags.f_contiguous, q.flags.c_contiguous):
                        ctx.violation(f"{n}: order={o} gives another memory order than the ufunc", f=f, args=args)
        for c in ("no", "equiv", "safe", "same_kind", "unsafe"):
            cmp(f"casting {c}", a, lambda: dict(casting=c))
            cmp(f"casting {c} to int16", a, lambda: dict(casting=c, out=np.zeros(osh[0], "h") if f.nout == 1 else tuple(np.zeros(s, "h") for s in osh)))
        for t in sorted({x.split("->")[0] for x in f.types}):
            cmp(f"signature {t}", a, lambda: dict(signature=t + "->" + next(x.split("->")[1] for x in f.types if x.startswith(t + "->")), casting="unsafe"))
        for t in "fdgFDi?":
            cmp(f"dtype {t}", a, lambda: dict(dtype=t))
            cmp(f"dtype {t}, unsafe", a, lambda: dict(dtype=np.dtype(t), casting="unsafe"))

        class Sub(np.ndarray):
            pass
        sa = [x.view(Sub) for x in a]
        for s in (True, False):
            cmp(f"subok {s}", sa, lambda: dict(subok=s))
        if f.signature is not None:
            red1 = [c for c in e.ci if c]
            if len(red1) == 1 and len(red1[0]) == 1 and not any(e.co):
                for kd in (False, True):
                    for q in range(2):
                        cmp(f"axis {q}, keepdims {kd}", [np.array(np.broadcast_to(y, y.shape)) for y in a] if q else [y[0] if y.ndim > 1 else y for y in a],
                            lambda: dict(axis=q if q else 0, keepdims=kd))
    ctx.sample("out, where, order, casting, signature, dtype, subok, axis, keepdims of every wrapper")


def axis(ctx, m, fs):
    """axis=None and every tuple of axes: the reduction over the set of the elements along them."""
    for n in REDUCE:
        if n not in fs:
            ctx.violation(f"{n} is no ufunc")
            continue
        f, w = fs[n], getattr(m, n)
        names = docnames(f)
        for e in entries_of(n, ctx.thorough):
            for shape in [(3,), (1,), (2, 3), (3, 1), (2, 3, 4), (3, 1, 2), (2, 2, 3, 2)] + ([(2, 3, 2, 2, 2)] if ctx.thorough else []):
                nd = len(shape)
                size = int(np.prod(shape))
                full = [np.array(y) for y in e.inputs({k: size for c in e.ci for k in c}, 1, 0)]
                x = full[0].reshape(shape)
                others = [y.reshape(()) if y.size == 1 else y[0] for y in full[1:]]
                if any(np.ndim(o) for o in others):
                    continue
                for lay in range(3):
                    xl = x if lay == 0 else np.asfortranarray(x) if lay == 1 else np.repeat(x, 2, axis=-1)[..., ::2]
                    axes = [None] + list(range(-nd, nd)) + [t for k in range(1, nd + 1) for t in itertools.permutations(range(nd), k)]
                    axes += [tuple(q - nd if (i + j) % 2 else q for i, q in enumerate(t)) for j in (0, 1) for k in range(1, nd + 1) for t in itertools.combinations(range(nd), k)]
                    for ax in axes:
                        t = tuple(range(nd)) if ax is None else (ax,) if isinstance(ax, int) else ax
                        t = [q % nd for q in t]
                        keep = [q for q in range(nd) if q not in t]
                        y = np.ascontiguousarray(np.transpose(x, keep + t)).reshape([shape[q] for q in keep] + [-1])
                        exp = ctx.call(f, y, *others)
                        for kw in ([{}] if ax is None else [dict(axis=ax)]) + [dict(axis=ax, out=np.zeros(np.shape(exp), e.ot[0]))] + ([dict(axis=None)] if ax is None else []):
                            got, err = ctx.attempt(w, xl, *others, **kw)
                            ctx.count(1, int(ax is None or not isinstance(ax, int)))
                            if err is not None:
                                ctx.violation(f"{n}: axis={ax} of shape {shape}: {err!r}", f=f, args=(xl,), kw=dict(axis=ax))
                                break
                            if not e.isobject and np.asarray(got).dtype != np.asarray(exp).dtype or not (X.same(np.asarray(got, e.ot[0]), np.asarray(exp, e.ot[0])) if e.exact or e.isobject else X.close(got, exp, 64)):
                                ctx.violation(f"{n}: axis={ax} of shape {shape}, operands {names}: not the function of the elements along these axes", f=f, args=(xl,), kw=dict(axis=ax), got=got, exp=exp)
                                break
                        if ctx.full:
                            return
                # axes that do not exist
                for bad in (nd, -nd - 1, (0, 0), (nd,), (0, nd)):
                    got, err = ctx.attempt(w, x, *others, axis=bad)
                    ctx.count(1)
                    if err is None:
                        ctx.violation(f"{n}: axis={bad} of shape {shape} is accepted", f=f, args=(x,), kw=dict(axis=bad), got=got)
    ctx.sample("all_same over every tuple of axes of a 2x3x4 array")


def lists(ctx):
    """uwrap() itself: every list of up to three parameters, named or with a default, on functions that return what they are given."""
    spec = importlib.util.spec_from_file_location("uwrap_under_test", TOOL)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    reserved = ["out", "casting", "order", "dtype", "subok", "signature", "extobj", "where", "axis", "axes", "keepdims"]
    for nin in (1, 2, 3, 4):
        for nout in (1, 2):
            g = np.frompyfunc((lambda *a: a) if nout == 1 else (lambda *a: (a, a[::-1])), nin, nout)
            items = ["p", ("q", 5), "out", ("where", 1)] if nin == 3 else ["p", ("q", 5)] + reserved[::2] + [(r, 0) for r in reserved[1::2]] + (["out1", "out2"] if nin < 3 else [])
            lens = {nin, nin - 1, nin + 1} if nin < 3 else {nin}
            if nin == 4:
                items = ["p", ("q", 5)]
            for k in sorted(lens):
                for pat in itertools.product(items, repeat=k):
                    params = [x + "abcdef"[i] if x == "p" else (x[0] + "abcdef"[i], x[1] + i) if isinstance(x, tuple) and x[0] == "q" else x for i, x in enumerate(pat)]
                    nm = [x if isinstance(x, str) else x[0] for x in params]
                    dflt = [not isinstance(x, str) for x in params]
                    bad = (k != nin or any(x in reserved or (nout > 1 and x in ("out1", "out2")) for x in nm) or any(a and not b for a, b in zip(dflt, dflt[1:])))
                    for rename in ((None, "other") if not bad else (None,)):
                        s, err = ctx.attempt(m.uwrap, g, "ns", params=params, name=rename)
                        ctx.count(1)
                        if bad:
                            if not isinstance(err, ValueError):
                                ctx.violation(f"uwrap with params={params} on {nin} inputs: ValueError expected, not {err!r}")
                            continue
                        if err is not None:
                            ctx.violation(f"uwrap with params={params} on {nin} inputs: {err!r}")
                            continue
                        if len(set(nm)) < len(nm):
                            continue
                        called = []

                        class NS:
                            pass

                        def spy(*a, **k):
                            called.append((a, k))
                            return "returned"
                        ns = NS()
                        setattr(ns, g.__name__.split(" ")[0], spy)
                        env = {"ns": ns}
                        # functions made by frompyfunc are called "? (vectorized)" or "<lambda> (vectorized)"
                        src = s.replace("ns." + g.__name__, "ns.target").replace("def " + g.__name__, "def target")
                        ns.target = spy
                        exec(src, env)
                        w = env[rename or "target"]
                        req = [x for x, y in zip(nm, dflt) if not y]
                        opt = [(x[0], x[1]) for x in params if not isinstance(x, str)]
                        for give in itertools.product([0, 1], repeat=len(opt)):
                            for kw in ({}, {"casting": "unsafe"}, {"order": "F", "subok": False}, {"dtype": "d"}, {"where": "W", "out": "O"}, {"signature": "S", "zzz": 3}):
                                called.clear()
                                vals = [f"v{x}" for x in req]
                                ok = {x: f"v{x}" for (x, _), gv in zip(opt, give) if gv}
                                r = w(*vals, **ok, **kw)
                                ctx.count(1)
                                exp = dict(out=None if nout == 1 else (None,) * nout, casting="same_kind", order="K", subok=True, where=True)
                                exp.update(kw)
                                if r != "returned" or called != [(tuple(vals + [ok.get(x, y) for x, y in opt]), exp)]:
                                    ctx.violation(f"the wrapper of params={params} called with {vals}, {ok}, {kw} calls the function with {called}")
    ctx.sample("every list of up to four parameters")
