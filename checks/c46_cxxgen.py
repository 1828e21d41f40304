"""C46: the code generators in tools/cxxgen build the ufuncs that a definition file describes."""

import importlib.util
import itertools
import os
import re
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np

from mc import env as E

PROP = "C46"
LEVEL = "exploration"
IMPORT = False
RULE = ("one case = one call of one loop of one generated ufunc (signature x types x sizes of the core dimensions x batch x layout), whose core "
        "function writes a weighted sum of all input elements and the sizes it was given, or one attribute of the ufunc; non-trivial = a loop "
        "with core dimensions, or with two or more inputs")
ASSUMPTIONS = ["g++ -O0", "core functions take the symbolic core dimensions in the order of their first appearance in the signature, and then, for every operand, the pointer and "
               "(unless it is a scalar) the stride or the array of strides, as the generator's own prototypes say; template parameters are the distinct "
               "sequences of types in the order of their first appearance"]
GEN = os.path.join(E.REPO, "tools", "cxxgen")
V = ["", "n", "m", "n,m", "m,n", "n,n", "2", "n,2", "3,m", "k,n,m"]
CT = {"f": "npy_float", "d": "npy_double", "g": "npy_longdouble", "l": "npy_long", "i": "npy_int", "h": "npy_short", "p": "npy_intp",
      "?": "npy_bool", "b": "npy_byte", "B": "npy_ubyte", "H": "npy_ushort", "I": "npy_uint", "L": "npy_ulong", "q": "npy_longlong", "Q": "npy_ulonglong",
      "P": "npy_uintp", "F": "npy_cfloat"}
XT = {"f": "float", "d": "double", "g": "long double", "F": "std::complex<float>", "D": "std::complex<double>", "G": "std::complex<long double>"}
NP = 14
CANON = str.maketrans({"p": np.dtype("p").char, "P": np.dtype("P").char})


def shards(tier):
    return [[f"gufuncs{k}", "g", k] for k in range(NP)] + [["ufuncs1", "u", 1], ["ufuncs2", "u", 2], ["ufuncs3", "u", 3], ["special", "s", 0], ["refused", "r", 0], ["repo", "repo", 0]]


def names(shape):
    return [d for d in shape.split(",") if d and not d.isdigit()]


def signatures(thorough):
    """All shape signatures over V with one and two inputs, a choice of those with more."""
    out = []

    def outs(ins, vs=V):
        have = {d for s in ins for d in names(s)}
        return [o for o in vs if set(names(o)) <= have]
    for a in V:
        out += [((a,), (o,)) for o in outs((a,))]
    for a, b in itertools.product(V, repeat=2):
        os_ = outs((a, b))
        out += [((a, b), (o,)) for o in os_]
    for i, t in enumerate(itertools.product(["", "n", "m,n", "2"], repeat=3)):
        os_ = outs(t)
        out += [(t, (o,)) for o in (os_ if thorough else [os_[i % len(os_)]])]
    for i, (a, b) in enumerate(itertools.product(["", "n", "n,m"], repeat=2)):
        os_ = outs((a, b), ["", "n", "m,n", "2", "3,m"])
        pairs = list(itertools.product(os_, repeat=2))
        out += [((a, b), p) for p in (pairs if thorough else pairs[i % 2::2])]
    out += [(("n", "", "m", "n,m"), ("m", "", "n")), (("", "", "n", "", "m"), ("n", "m")), (("k,n,m", "k,n,m"), ("m,n,k",)), (("n,m,k,2", "k"), ("m,k",))]
    return out


def patterns(nin, nout):
    """Types of the operands: lists of sources, each a list of type signatures."""
    def t(f, types):
        r = []
        for c in types:
            s = "".join(f(k, c) for k in range(nin + nout))
            r.append(s[:nin] + "->" + s[nin:])
        return r
    N = nin + nout
    p = [[t(lambda k, c: c, "fdl")],
         [t(lambda k, c: c if k < nin else "d", "fdg")],
         [t(lambda k, c: "p" if k == nin - 1 and nin > 1 else c, "fd")],
         [t(lambda k, c: c, "l"), t(lambda k, c: c, "fd")],
         [t(lambda k, c: c, "d")],
         [t(lambda k, c: c if k < nin else {"h": "f", "i": "d", "l": "g"}[c], "hil")],
         [t(lambda k, c: {"f": "fdg", "d": "dgf", "g": "gfd"}[c][k % 3], "fdg")],
         [t(lambda k, c: c if k % 2 else "i", "fd"), t(lambda k, c: "g" if k else "l", "x")],
         [t(lambda k, c: c if k < nin else "l", "bhBHiI?L"[:6])]]
    if N > 3:
        p.append([t(lambda k, c: c if k in (0, 3) else "l" if c == "f" else "i", "fd")])
    return p


def columns(sigs):
    """-> the distinct varying columns, and for each operand the index of its column or its constant type."""
    cols = list(zip(*[s.replace("->", "") for s in sigs]))
    ut, v = [], []
    for c in cols:
        if len(set(c)) == 1:
            v.append(c[0])
        else:
            if c not in ut:
                ut.append(c)
            v.append(ut.index(c))
    return ut, v


def core_source(name, ins, outs, sigs):
    """The core function of one source, written against the prototype."""
    ut, v = columns(sigs)
    dims = []
    for s in ins + outs:
        for d in names(s):
            if d not in dims:
                dims.append(d)
    tp = [chr(ord("T") + k) for k in range(len(ut))]
    args = [f"npy_intp {d}" for d in dims]
    ty = [tp[x] if isinstance(x, int) else CT[x] for x in v]
    body = ["    long double s = 0;"]
    tail = []
    for p, (s, c) in enumerate(zip(ins + outs, ty)):
        a = f"a{p}"
        args.append(f"{c} *p_{a}")
        dl = [d for d in s.split(",") if d]
        if len(dl) == 1:
            args.append(f"npy_intp {a}_stride")
            st = [f"{a}_stride"]
        elif dl:
            args.append(f"const npy_intp {a}_strides[{len(dl)}]")
            st = [f"{a}_strides[{k}]" for k in range(len(dl))]
        else:
            st = []
        loop = "".join(f"for (npy_intp i{k} = 0; i{k} < {d}; ++i{k}) " for k, d in enumerate(dl))
        off = " + ".join(f"i{k}*{q}" for k, q in enumerate(st)) or "0"
        idx = " + ".join(f"{w}*i{k}" for k, (_, w) in enumerate(zip(dl, (3, 17, 5, 2)))) or "0"
        if p < len(ins):
            body.append(f"    {loop}s += {p + 1}*(1 + {idx})*(long double) *({c} *)((char *) p_{a} + {off});")
        else:
            tail.append(f"    {loop}*({c} *)((char *) p_{a} + {off}) = ({c}) (s + {p} + {idx});")
    body += [f"    s += {w}*{d};" for d, w in zip(dims, (100, 700, 1500, 2500))]
    head = f"template<{', '.join('typename ' + t for t in tp)}>\n" if tp else ""
    return f"{head}static void {name}({', '.join(args)})\n{{\n" + "\n".join(body + tail) + "\n}\n"


def expected(ins, outs, sizes, arrays, batch):
    """In float64: the results for the given inputs (batch first)."""
    def grid(s):
        dl = [int(d) if d.isdigit() else sizes[d] for d in s.split(",") if d]
        g = np.zeros(dl)
        for k, w in zip(range(len(dl)), (3, 17, 5, 2)):
            g = g + w * np.arange(dl[k]).reshape([-1 if j == k else 1 for j in range(len(dl))])
        return g
    tot = np.zeros(batch)
    for p, (s, x) in enumerate(zip(ins, arrays)):
        g = grid(s)
        y = x.astype(float) * (p + 1) * (1 + g)
        tot = tot + y.sum(axis=tuple(range(y.ndim - g.ndim, y.ndim)))
    dims = []
    for s in ins + outs:
        for d in names(s):
            if d not in dims:
                dims.append(d)
    for d, w in zip(dims, (100, 700, 1500, 2500)):
        tot = tot + w * sizes[d]
    r = []
    for p, s in enumerate(outs):
        g = grid(s)
        r.append(tot.reshape(tot.shape + (1,) * g.ndim) + len(ins) + p + g)
    return r


class Build:
    """A scratch directory with the layout of the build."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.tmp = tempfile.TemporaryDirectory(prefix="mc-gen-")
        self.top = self.tmp.name
        for d in ("src", "ufunclab", "ufunclab/p", "def"):
            os.makedirs(os.path.join(self.top, d))
        os.rmdir(os.path.join(self.top, "src"))
        os.symlink(os.path.join(E.REPO, "src"), os.path.join(self.top, "src"))
        self.out = os.path.join(self.top, "ufunclab")

    def write(self, name, text):
        with open(os.path.join(self.top, "def", name), "w") as f:
            f.write(text)

    def generate(self, script):
        env = E.clean_env()
        p = subprocess.run([sys.executable, os.path.join(GEN, script), os.path.join(self.top, "def"), self.out], env=env, cwd=self.top,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.ctx.res.calls += 1
        return p

    def load(self, module, sources):
        so = os.path.join(self.out, module + ".so")
        inc = [sysconfig.get_path("include"), np.get_include(), self.out, os.path.join(self.out, "p")]
        p = subprocess.run(["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-shared", *[f"-I{i}" for i in inc],
                            *[os.path.join(self.out, s) for s in sources], "-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.out)
        if p.returncode:
            self.ctx.violation(f"the generated module {module} does not compile:\n" + "\n".join(q for q in p.stdout.split("\n") if "error" in q)[:1500])
            return None
        spec = importlib.util.spec_from_file_location(module, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m


def sigstr(ins, outs):
    return ",".join(f"({s})" for s in ins) + "->" + ",".join(f"({s})" for s in outs)


def run(shard, ctx):
    np.seterr(all="ignore")
    kind, k = shard[1], shard[2]
    {"g": gufuncs, "u": ufuncs, "s": special, "r": refused, "repo": repo}[kind](ctx, k)


def gufuncs(ctx, part):
    sel = []
    for j, (ins, outs) in enumerate(signatures(ctx.thorough)):
        pt = patterns(len(ins), len(outs))
        use = range(len(pt)) if ctx.thorough or len(ins) == 1 else {(j + q) % len(pt) for q in (0, 2, 5)}
        for q in use:
            sel.append((ins, outs, pt[q]))
    mine = sel[part::NP]
    b = Build(ctx)
    hdr, defs = ["#pragma once\n#define NPY_NO_DEPRECATED_API NPY_API_VERSION\n#include \"numpy/ndarraytypes.h\"\n"], []
    letters = "xyzuvw"
    for i, (ins, outs, pat) in enumerate(mine):
        src = []
        for s, sigs in enumerate(pat):
            hdr.append(core_source(f"core_{i}_{s}", ins, outs, sigs))
            src.append(f"UFuncSource(funcname='core_{i}_{s}', typesignatures={sigs!r})")
        doc = f"fun{i}({', '.join(letters[:len(ins)])}, /, ...)\n\nFunction number {i} of this module.\n\n    indented\n"
        sg = sigstr(ins, outs)
        if i % 3 == 1:
            sg = sg.replace("->", " -> ").replace("),(", "), (")
        dims = list(dict.fromkeys(d for s in ins + outs for d in names(s)))
        nz = [dims[q] for q in range(len(dims)) if i >> q & 1] if i % 2 else None
        nz = nz or None
        mine[i] = (ins, outs, pat, sg, nz, doc)
        defs.append(f"UFunc(name='fun{i}', header='cores.h', docstring={doc!r}, signature={sg!r}, sources=[{', '.join(src)}], nonzero_coredims={nz!r})")
    b.write("cores.h", "\n".join(hdr))
    b.write("define_cxx_gufunc_extmod.py", "from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource\n\nextmod = UFuncExtMod(module='_gen', "
            "docstring='Doc of the module.', ufuncs=[\n    " + ",\n    ".join(defs) + "])\n")
    p = b.generate("generate_gufunc.py")
    ctx.tick("generated")
    if p.returncode:
        ctx.violation("the generator failed: " + p.stdout[-1500:])
        return
    m = b.load("_gen", ["_gen.cxx"])
    if m is None:
        return
    ctx.tick("compiled")
    ctx.count(1)
    if m.__doc__.strip() != "Doc of the module.":
        ctx.violation(f"docstring of the module: {m.__doc__!r}")
    for i, (ins, outs, pat, sg, nz, doc) in enumerate(mine):
        one(ctx, m, i, ins, outs, pat, sg, nz, doc)
        if ctx.full:
            return
    ctx.sample(f"{len(mine)} gufuncs, e.g. {mine[0][3]} for {mine[0][2]}, {mine[-1][3]} for {mine[-1][2]}")


def one(ctx, m, i, ins, outs, pat, sg, nz, doc):
    f = getattr(m, f"fun{i}", None)
    what = f"{sg} {pat}"
    types = [s for sigs in pat for s in sigs]
    ctx.count(4)
    if f is None or (f.nin, f.nout) != (len(ins), len(outs)) or list(f.types) != [q.translate(CANON) for q in types] or f.__name__ != f"fun{i}":
        ctx.violation(f"{what}: the module has {f}, types {getattr(f, 'types', None)}")
        return
    if all(s == "" for s in ins + outs):
        if f.signature not in (None, sigstr(ins, outs)):
            ctx.violation(f"{what}: signature {f.signature}")
    elif f.signature.replace(" ", "") != sigstr(ins, outs):
        ctx.violation(f"{what}: signature {f.signature}")
        return
    if [q.strip() for q in doc.rstrip().split("\n")] != [q.strip() for q in f.__doc__[f.__doc__.index(f"fun{i}({'x'}" if f"fun{i}(x" in f.__doc__ else "fun"):].rstrip().split("\n")][-len(doc.rstrip().split(chr(10))):]:
        ctx.violation(f"{what}: docstring {f.__doc__!r}")
        return
    dims = list(dict.fromkeys(d for s in ins + outs for d in names(s)))
    for t, ty in enumerate(types):
        it, ot = ty.split("->")
        small = [dict(zip(dims, c)) for c in itertools.product((0, 1, 2, 3) if ctx.thorough or len(dims) < 3 else (0, 2, 3), repeat=len(dims))]
        todo = small if t == 0 else [dict(zip(dims, (2, 4, 3)))]
        for sizes in todo:
            for mode in ("plain", "batch", "broadcast", "strided"):
                B = () if mode == "plain" else (2,) if mode != "strided" else (3,)
                args = []
                for p, (s, c) in enumerate(zip(ins, it)):
                    core = tuple(int(d) if d.isdigit() else sizes[d] for d in s.split(",") if d)
                    sh = (B if not (mode == "broadcast" and p == len(ins) - 1) else ()) + core
                    n = int(np.prod(sh, dtype=int))
                    x = ((np.arange(n) * 7 + 3 * p) % (2 if c == "?" else 8)).astype(c).reshape(sh)
                    if mode == "strided":
                        big = np.full(tuple(2 * q + 1 for q in sh), 1, dtype=c)
                        v = big[tuple(slice(1, None, 2) for _ in sh)]
                        v[...] = x
                        x = v if p % 2 else np.asfortranarray(x)
                    args.append(x)
                bad = nz is not None and any(sizes[d] == 0 for d in nz)
                kw = {}
                Bo = () if mode == "plain" or (mode == "broadcast" and len(ins) == 1) else B
                if mode == "strided":
                    kw["out"] = tuple(np.full(tuple(2 * int(q) for q in Bo + tuple(int(d) if d.isdigit() else sizes[d] for d in s.split(",") if d)), -7, dtype=c)[
                        tuple(slice(None, None, 2) for _ in Bo + tuple(d for d in s.split(",") if d))] for s, c in zip(outs, ot))
                r, e = ctx.attempt(f, *args, signature=tuple((it + ot).translate(CANON)), **kw)
                ctx.count(1, bool(dims) or len(ins) > 1)
                if bad:
                    if not isinstance(e, ValueError):
                        ctx.violation(f"{what}: sizes {sizes}, nonzero_coredims {nz}: ValueError expected, got {e or r!r}")
                        return
                    continue
                if e is not None:
                    ctx.violation(f"{what}: sizes {sizes} ({mode}), nonzero_coredims {nz}: {type(e).__name__}: {e}")
                    return
                exp = expected(ins, outs, sizes, [a if a.ndim > 0 or not Bo else a for a in args], Bo)
                for g, x, c in zip(r if len(outs) > 1 else (r,), exp, ot):
                    g = np.asarray(g)
                    if g.dtype.char != c.translate(CANON) or g.shape != x.shape or not (g.astype(float) == x).all():
                        ctx.violation(f"{what}: loop {ty}, sizes {sizes} ({mode}): the core function saw other elements or sizes than the operands have",
                                      f=f"fun{i}", args=tuple(args), got=g, exp=x)
                        return
    # core dimensions that do not match
    for d in dims:
        where = [p for p, s in enumerate(ins) if d in names(s)]
        if len(where) > 1:
            args = []
            for p, (s, c) in enumerate(zip(ins, types[0])):
                args.append(np.zeros([int(q) if q.isdigit() else 2 + (p == where[-1] and q == d) for q in s.split(",") if q], dtype=c))
            r, e = ctx.attempt(f, *args)
            ctx.count(1)
            if not isinstance(e, ValueError):
                ctx.violation(f"{what}: different sizes of {d} are accepted")


def ufuncs(ctx, nin):
    """tools/cxxgen/generate_ufuncs.py: plain ufuncs of one output."""
    b = Build(ctx)
    ch = "fdgFDG"
    combos = list(itertools.product(ch, repeat=nin + 1))
    if nin == 3:
        combos = [c for j, c in enumerate(combos) if ctx.thorough or j % 7 == 0]
    lists = [["".join(c[:-1]) + "->" + c[-1]] for c in combos]
    # also lists of several types
    lists += [["f" * nin + "->f", "d" * nin + "->d"], ["f" * nin + "->f", "F" * nin + "->F", "d" * nin + "->d", "D" * nin + "->D", "g" * nin + "->g"],
              ["d" * nin + "->D", "f" * nin + "->d"]]
    hdrs = ["one.h", "two.hh"] if nin < 3 else ["one.h"]
    text = {h: ["#pragma once\n#include <complex>\n#include <type_traits>\n" + (
        "template<typename T> struct is_c%d : std::false_type {};\ntemplate<typename T> struct is_c%d<std::complex<T>> : std::true_type {};\n"
        "template<typename T> std::complex<long double> up%d(T x) { if constexpr (is_c%d<T>::value) return {x.real(), x.imag()}; else return {(long double) x, 0.0L}; }\n"
        % ((j,) * 4))] for j, h in enumerate(hdrs)}
    funcs = {h: [] for h in hdrs}
    for i, ts in enumerate(lists):
        j = i % len(hdrs)
        h = hdrs[j]
        s = " + ".join(f"{k + 2}.0L*up{j}(x{k})" for k in range(nin))
        for ty in sorted({q.split("->")[0] for q in ts}):
            out = [q for q in ts if q.split("->")[0] == ty][0][-1]
            a = ", ".join(f"{XT[c]} x{k}" for k, c in enumerate(ty))
            v = "s" if out in "FDG" else "s.real() + 1000*s.imag()"
            conv = f"{XT[out]}((decltype({XT[out]}().real())) s.real(), (decltype({XT[out]}().real())) s.imag())" if out in "FDG" else f"({XT[out]}) ({v})"
            # each overload raises a floating point flag, which the loop has to clear
            text[h].append(f"static inline {XT[out]} core{i}({a})\n{{\n    volatile double one = 1, zero = 0, inf = one/zero; (void) inf;\n"
                           f"    std::complex<long double> s = {s};\n    return {conv};\n}}\n")
        doc = f"fun{i}({', '.join(f'x{k}' for k in range(nin))}, /, ...)\n\nNumber {i}.\n"
        funcs[h].append(f"Func(cxxname='core{i}', ufuncname='fun{i}', types={ts!r}, docstring={doc!r})")
    for h in hdrs:
        b.write(h, "\n".join(text[h]))
    b.write("extra.txt", "x")
    b.write("define_cxxgen_extmods.py", "from ufunc_config_types import ExtMod, Func\n\nextmods = [ExtMod(modulename='_genu', funcs={\n" + ",\n".join(
        f"{h!r}: [" + ",\n ".join(funcs[h]) + "]" for h in hdrs) + "}, extra_sources=['extra.txt'])]\n")
    p = b.generate("generate_ufuncs.py")
    if p.returncode:
        ctx.violation("generate_ufuncs.py failed: " + p.stdout[-1500:])
        return
    ctx.tick("generated")
    m = b.load("_genu", ["_genu.cxx"] + [h.split(".")[0] + "_concrete.cxx" for h in hdrs])
    if m is None:
        return
    ctx.tick("compiled")
    if not os.path.exists(os.path.join(b.out, "extra.txt")):
        ctx.violation("extra_sources are not copied")
    np.seterr(all="raise")
    rng = np.arange(1, 65)
    for i, ts in enumerate(lists):
        f = getattr(m, f"fun{i}", None)
        ctx.count(1)
        if f is None or list(f.types) != ts or (f.nin, f.nout) != (nin, 1) or f.signature is not None or f"Number {i}." not in f.__doc__:
            ctx.violation(f"{ts}: the module has {f}, types {getattr(f, 'types', None)}, doc {getattr(f, '__doc__', '')[-60:]!r}")
            return
        for ty in ts:
            it, ot = ty.split("->")
            for sh in ((), (1,), (5,), (2, 3), (0,)):
                for mode in ("plain", "strided", "broadcast", "reversed"):
                    args = []
                    for k, c in enumerate(it):
                        s = () if mode == "broadcast" and k == 0 else sh
                        n = int(np.prod(s, dtype=int))
                        x = rng[:n] * (k + 1) + 3 * k
                        x = (x + (x % 5) * 1j if c in "FDG" else x).astype(c).reshape(s)
                        if mode == "strided" and s:
                            q = np.zeros(tuple(2 * d + 1 for d in s), dtype=c)
                            v = q[tuple(slice(1, None, 2) for _ in s)]
                            v[...] = x
                            x = v
                        elif mode == "reversed" and s:
                            x = x[::-1]
                        args.append(x)
                    tot = sum((k + 2) * a.astype("G") for k, a in enumerate(args))
                    e = tot.astype(ot) if ot in "FDG" else (tot.real + 1000 * tot.imag).astype(ot)
                    r, err = ctx.attempt(f, *args, signature=tuple(it + ot))
                    ctx.count(1, nin > 1)
                    r = np.asarray(r)
                    if err is not None or r.dtype.char != ot or r.shape != np.shape(e) or not (r == e).all():
                        ctx.violation(f"plain ufunc {ts}, loop {ty}, shape {sh} ({mode})", f=f"fun{i}", args=tuple(args), got=r if err is None else err, exp=e)
                        return
    ctx.sample(f"{len(lists)} ufuncs of {nin} inputs: all types in fdgFDG for the inputs and the output")


SPECIAL = '''
#pragma once
#include <cstring>
#define NPY_NO_DEPRECATED_API NPY_API_VERSION
#include "numpy/ndarraytypes.h"
#include "numpy/ufuncobject.h"
template<typename T> static void ramp_(npy_intp n, npy_intp m, T *p_x, npy_intp x_stride, T *p_out, npy_intp out_stride)
{
    for (npy_intp i = 0; i < m; ++i) *(T *)((char *) p_out + i*out_stride) = (T) (n*10 + i);
}
extern "C" int ramp_dims(PyUFuncObject *f, npy_intp *d)
{
    if (d[1] == -1) { d[1] = d[0] + 1; return 0; }
    if (d[1] != d[0] + 1) { PyErr_SetString(PyExc_ValueError, "m must be n + 1"); return -1; }
    return 0;
}
template<typename T> static void count_(npy_intp n, T *p_x, npy_intp x_stride, npy_intp *p_out)
{
    *p_out = n;
}
static void count_O(npy_intp n, PyObject **p_x, npy_intp x_stride, npy_intp *p_out)
{
    npy_intp c = 0;
    for (npy_intp i = 0; i < n; ++i) {
        PyObject *r = PyNumber_Add(*(PyObject **)((char *) p_x + i*x_stride), Py_None);
        if (r == NULL) return;
        Py_DECREF(r);
        ++c;
    }
    *p_out = c;
}
'''
SPECIAL2 = '''
#pragma once
static int add_answer(PyObject *module)
{
    return PyModule_AddIntConstant(module, "answer", 42);
}
static int add_more(PyObject *module)
{
    return PyModule_AddIntConstant(module, "more", FAIL ? 1 : 43) || FAIL;
}
template<typename T> static void first_(T *p_x, T *p_out, T *p_out2)
{
    *p_out = *p_x;
    *p_out2 = *p_x + 1;
}
'''
SPECDEF = '''
from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
a = UFunc(name='ramp', header='one.h', docstring='ramp(x, /, ...)\\n\\nA ramp.', signature='(n)->(m)',
          sources=[UFuncSource(funcname='ramp_', typesignatures=['f->f', 'd->d'])], process_core_dims_func='ramp_dims')
b = UFunc(name='count', header='one.h', docstring='count(x, /, ...)', signature='(n)->()',
          sources=[UFuncSource(funcname='count_', typesignatures=['f->p', 'd->p']), UFuncSource(funcname='count_O', typesignatures=['O->p'])])
c = UFunc(name='first2', header='two.h', docstring='first2(x, /, ...)\\nTwo.', signature='()->(),()',
          sources=[UFuncSource(funcname='first_', typesignatures=['ff->f'.replace('ff->f', 'f->ff'), 'd->dd', 'l->ll'])])
extmod = UFuncExtMod(module='_spec', docstring='Special.', ufuncs=[a, b, c], extra_module_funcs=['add_answer', 'add_more'])
'''


def special(ctx, _):
    """process_core_dims_func, extra_module_funcs, several headers, object loops."""
    for fail in (0, 1):
        b = Build(ctx)
        b.write("one.h", SPECIAL)
        b.write("two.h", SPECIAL2.replace("FAIL", str(fail)))
        b.write("define_cxx_gufunc_extmod.py", SPECDEF)
        p = b.generate("generate_gufunc.py")
        ctx.count(1)
        if p.returncode:
            ctx.violation("the generator failed: " + p.stdout[-1500:])
            return
        try:
            m = b.load("_spec", ["_spec.cxx"])
        except SystemError:
            if not fail:
                raise
            m = None
        if fail or m is None:
            if m is not None:
                ctx.violation("an extra module function that fails does not make the import fail")
            continue
        if (getattr(m, "answer", None), getattr(m, "more", None)) != (42, 43):
            ctx.violation("extra_module_funcs are not called")
        for n in range(6):
            x = np.zeros((2, n))
            r, e = ctx.attempt(m.ramp, x)
            ctx.count(1)
            if e is not None or r.shape != (2, n + 1) or not (r == n * 10 + np.arange(n + 1)).all():
                ctx.violation("process_core_dims_func does not set the size of the output", got=r if e is None else e)
                return
            for k in range(8):
                r, e = ctx.attempt(m.ramp, x, out=np.zeros((2, k)))
                ctx.count(1)
                if (k == n + 1) != (e is None) or e is not None and not isinstance(e, ValueError):
                    ctx.violation(f"process_core_dims_func: n={n}, out of size {k}: {e or r}")
                    return
            if ctx.call(m.count, x).tolist() != [n, n]:
                ctx.violation("count")
        r = ctx.call(m.first2, np.arange(5))
        if r[0].tolist() != list(range(5)) or r[1].tolist() != list(range(1, 6)) or m.first2.types != ["f->ff", "d->dd", "l->ll"]:
            ctx.violation("two scalar outputs", got=r)

        class Adder:
            calls = []

            def __init__(self, bad):
                self.bad = bad

            def __add__(self, o):
                Adder.calls.append(self)
                if self.bad:
                    raise KeyError("bad")
                return o
        for B in range(1, 5):
            for at in itertools.chain([None], itertools.product(range(B), range(3))):
                x = np.array([[Adder(at == (i, j)) for j in range(3)] for i in range(B)], dtype=object)
                Adder.calls = []
                r, e = ctx.attempt(m.count, x)
                ctx.count(1)
                want = 3 * B if at is None else 3 * at[0] + at[1] + 1
                if (at is None) != (e is None) or (e is not None and not isinstance(e, KeyError)) or len(Adder.calls) != want:
                    ctx.violation(f"object loop, {B} slices, an exception at {at}: {len(Adder.calls)} calls, {e!r}")
                    return
    ctx.sample("sizes computed by process_core_dims_func; an exception at every element of up to four slices of objects")


def refused(ctx, _):
    """Definitions that are inconsistent are refused."""
    base = ("from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource\na = UFunc(name='f', header='one.h', docstring={doc!r}, signature={sig!r}, "
            "sources=[UFuncSource(funcname='g', typesignatures=['{ty}'])]{more})\nextmod = UFuncExtMod(module='_r', docstring='D', ufuncs=[a])\n")
    ok = dict(doc="f(x, y, /, ...)", sig="(n),()->()", ty="dd->d", more="")
    cases = [(ok, True), (dict(ok, doc="f(x, /, ...)"), False), (dict(ok, doc="f(x, y, z, /, ...)"), False), (dict(ok, sig="(n)->()"), False),
             (dict(ok, more=", nonzero_coredims=['n'], process_core_dims_func='h'"), False), (dict(ok, more=", nonzero_coredims=['n']"), True),
             (dict(ok, more=", process_core_dims_func='h'"), True), (dict(ok, more=", nonzero_coredims=['q']"), False), (dict(ok, ty="d!->d"), False)]
    for c, good in cases:
        b = Build(ctx)
        b.write("one.h", "\n")
        b.write("define_cxx_gufunc_extmod.py", base.format(**c))
        p = b.generate("generate_gufunc.py")
        ctx.count(1)
        if (p.returncode == 0) != good:
            ctx.violation(f"definition {c}: the generator {'failed: ' + p.stdout[-500:] if good else 'accepted it'}")
    # an existing module is not overwritten
    ctx.sample("definitions whose parameters do not match the signature, with contradictory or unknown options")


DUMP = """
import sys, json, glob, os, importlib
sys.path.insert(0, sys.argv[1])
r = []
for name in ("define_cxx_gufunc_extmod", "define_cxxgen_extmods"):
    for p in sorted(glob.glob(os.path.join(sys.argv[2], "*", name + ".py"))):
        sys.path.insert(0, os.path.dirname(p))
        m = importlib.import_module(name)
        del sys.modules[name], sys.path[0]
        if hasattr(m, "extmod"):
            for f in m.extmod.ufuncs:
                r.append([m.extmod.module, f.name, f.signature, [t for s in f.sources for t in s.typesignatures], f.docstring])
        else:
            for e in m.extmods:
                for fs in e.funcs.values():
                    for f in fs:
                        r.append([e.modulename, f.ufuncname, None, f.types, f.docstring])
print(json.dumps(r))
"""


def repo(ctx, _):
    """The modules of the package are those that their definition files describe."""
    import json
    p = subprocess.run([sys.executable, "-c", DUMP, GEN, os.path.join(E.REPO, "src")], env=E.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        ctx.violation("the definition files of the package cannot be read: " + p.stdout[-1500:])
        return
    import importlib
    n = 0
    for mod, name, sig, types, doc in json.loads(p.stdout):
        try:
            m = importlib.import_module("ufunclab." + mod)
        except ImportError:
            ctx.violation(f"module {mod} was not built")
            continue
        f = getattr(m, name, None)
        if f is None:         # moved to the package
            f = getattr(importlib.import_module("ufunclab"), name, None)
        n += 1
        want = [t.translate(CANON) for t in types]
        bad = f is None or list(f.types) != want or (sig is not None and (f.signature or "").replace(" ", "") not in (sig.replace(" ", ""), "" if "n" not in sig else "-"))
        if not bad:
            lines = [q.strip() for q in doc.strip().split("\n") if "\\" not in q]
            have = {q.strip() for q in f.__doc__.split("\n")}
            bad = any(q not in have for q in lines)
        if bad:
            ctx.violation(f"{mod}.{name} is not as defined: {f}, {getattr(f, 'signature', None)}, {getattr(f, 'types', None)}; defined: {sig}, {want}")
    ctx.count(n)
    ctx.sample(f"{n} functions of the package against their definition files")
