"""C47: tools/conv_template.py expands the repeat blocks of a template as its documentation says."""

import importlib.util
import itertools
import os
import re
import subprocess
import sys
import tempfile

from mc import env as E

PROP = "C47"
LEVEL = "exploration"
IMPORT = False
RULE = ("one case = one template (a tree of repeat blocks, each with its variables, its values and the notation of both), expanded and compared line by line "
        "with the expansion of the tree, or one erroneous template; non-trivial = at least one block with more than one value")
ASSUMPTIONS = ["the header of the file and blank lines are not compared", "an error names the line on which the body of the innermost block begins (1 outside of all blocks), as the #line directives do"]
TOOL = os.path.join(E.REPO, "tools", "conv_template.py")
NP = 8

# (values, how they are written)
ONE = [(["1"], "1"), (["1", "2"], "1, 2"), (["u", "v", "w"], "u,v,w"), (["x", "x", "x"], "x*3"), (["a", "b", "a", "b"], "(a, b)*2"), (["", ""], "()*2"),
       (["p", "q q", "", "f(0)"], " p ,q q,,  f(0)"), (["k", "k", "z", "1", "2", "1", "2"], "k*2, z, (1,2)*2"),
       (["npy_int *", "a.b", "->", "%d"], "npy_int *, a.b, ->, %d"), ([str(i) for i in range(12)], "0,1,2,3,\n *  4, 5 , 6,7,8,\n * 9, 10,11"),
       (["unsigned int", "unsigned int", "a.b *", "npy_int *", "npy_int *", "npy_int *"], "unsigned int*2, a.b *, (npy_int *)*3"), (["a.b", "a.b", "->", "->", "x"], "a.b*2, ->*2,x*1")]
SHAPES = ["T", "B0", "TB0T", "B0B0", "TB0TB0T", "B1", "B(TB0T)", "B(B0B0)", "TB(TB0TB0T)T", "B(B(B0))", "TB(TB(TB0T)T)T", "B(B0TB0)B0", "B(B(TT))"]


def shards(tier):
    return [[f"trees{k}", k] for k in range(NP)] + [["errors", "e"], ["exclude", "x"], ["files", "f"]]


def load():
    spec = importlib.util.spec_from_file_location("conv_template_under_test", TOOL)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def parse(shape):
    """-> list of nodes: "T" or ("B", children)"""
    def rec(i):
        r = []
        while i < len(shape) and shape[i] != ")":
            if shape[i] == "T":
                r.append("T")
                i += 1
            else:                               # B
                if shape[i + 1] == "(":
                    c, i = rec(i + 2)
                    i += 1
                else:
                    c = ["T"] * (1 + int(shape[i + 1]))
                    i += 2
                r.append(("B", c))
        return r, i
    return rec(0)[0]


def nblocks(nodes):
    return sum(1 + nblocks(n[1]) for n in nodes if n != "T")


class Tree:
    """Renders and expands a tree whose k-th block has the variables cfg[k] = [(name, values, written), ...]."""

    def __init__(self, nodes, cfg, style=0, extra=None, undefined=None):
        self.cfg, self.style, self.extra, self.undefined = cfg, style, extra or {}, undefined
        self.k = self.t = 0
        self.src = []
        self.where = {}
        body = self.build(nodes, 0, [])
        self.text = "\n".join(self.src) + "\n"
        self.lines = body({})

    def build(self, nodes, level, visible):
        parts = []
        begin = self.nline() + 1 if level else 1       # the line on which this body begins
        for n in nodes:
            if n == "T":
                i = self.t
                self.t += 1
                refs = [v for v in visible]
                line = f"L{i} " + "; ".join(f"@{v}@" for v in refs) + f" a@b {'@' if i % 3 == 0 else ''} e{i}" + ("".join(f"_@{v}@_" for v in refs[:1]) * 2)
                self.where["T", i] = begin
                if self.undefined == i:
                    line += " @nothere@"
                self.src.append(line)
                if i % 4 == 1:
                    self.src.append("   ")
                parts.append(("T", i, refs))
            else:
                k = self.k
                self.k += 1
                vs = self.cfg[k]
                self.header(level, vs, self.extra.get(k, []))
                first = self.where["B", k] = self.nline() + 1
                sub = self.build(n[1], level + 1, visible + [v[0] for v in vs])
                self.src.append(("    " if self.style == 1 else "") + f"/**end repeat{level or ''}**/")
                parts.append(("B", k, sub, vs, first))

        def expand(env):
            out = []
            for p in parts:
                if p[0] == "T":
                    _, i, refs = p
                    out.append(f"L{i} " + "; ".join(env[v] for v in refs) + f" a@b {'@' if i % 3 == 0 else ''} e{i}" + ("".join(f"_{env[v]}_" for v in refs[:1]) * 2))
                else:
                    _, k, sub, vs, first = p
                    for j in range(len(vs[0][1])):
                        e = dict(env)
                        e.update({v[0]: v[1][j] for v in vs})
                        if any(all(e.get(a) == b for a, b in x) for x in self.extra.get(k, [])):
                            continue
                        out += [f"#line {first}"] + sub(e)
            return out
        return expand

    def nline(self):
        return sum(q.count("\n") + 1 for q in self.src)

    def header(self, level, vs, ex):
        lv = level or ""
        if self.style == 2 and not ex and all("\n" not in w for _, _, w in vs):
            self.src.append(f"/**begin repeat{lv} " + " ".join(f"#{n}={w}#" for n, _, w in vs) + " */")
            return
        self.src.append(f"/**begin repeat{lv}")
        for n, _, w in vs:
            if self.style == 1:
                self.src.append(f"   # {n}  =  {w}#")
            else:
                self.src.append(f" * #{n} = {w}#")
        for x in ex:
            self.src.append(" * :exclude: " + ", ".join(f"{a}={b}" for a, b in x))
        self.src.append(" */")


def clean(text):
    """The lines of an expansion without header and white space at their ends."""
    r = [q.strip() for q in text.split("\n")]
    r = [q for q in r if q]
    return r[len(HEAD):] if r[:len(HEAD)] == HEAD else r


HEAD = []


def norm(lines):
    return [q.strip() for q in lines if q.strip()]


def configs(full):
    """Variables of one block."""
    out = [[("a", *v)] for v in ONE]
    # two variables: every pair of lists of the same length
    for p, q in itertools.product(ONE, repeat=2):
        if len(p[0]) == len(q[0]):
            out.append([("a", *p), ("b", *q)])
    out.append([("a", ["1", "2"], "1,2"), ("b", ["x", "y"], "x,y"), ("c", ["", "s"], ",s")])
    return out


def rename(vs, k):
    return [(f"{n}{k}", v, w) for n, v, w in vs]


def run(shard, ctx):
    m = load()
    HEAD[:] = clean(m.process_str("\n"))     # the header that the expansion of nothing consists of
    if shard[1] == "e":
        errors(ctx, m)
    elif shard[1] == "x":
        exclude(ctx, m)
    elif shard[1] == "f":
        files(ctx, m)
    else:
        trees(ctx, m, shard[1])


def one(ctx, m, t, what):
    r, e = ctx.attempt(m.process_str, t.text)
    ctx.count(1, len(t.lines) > 1)
    if e is not None or clean(r) != norm(t.lines):
        g = clean(r) if e is None else None
        ctx.violation(f"{what}: the expansion differs from the one of the tree", f="process_str", args=(t.text,), got=e if g is None else "\n".join(g), exp="\n".join(norm(t.lines)))
        return False
    return True


def trees(ctx, m, part):
    cs = configs(ctx.thorough)
    few = [cs[i] for i in (0, 1, 4, 5, 6, 10, 12, len(cs) - 1)] if not ctx.thorough else cs[:10] + cs[-4:]
    n = 0
    for s in SHAPES:
        nodes = parse(s)
        k = nblocks(nodes)
        menu = cs if k <= 1 else few if k == 2 else few[:5] if ctx.thorough else few[1:5]
        for cfg in itertools.product(menu, repeat=k):
            for style in (0, 1, 2):
                n += 1
                if n % NP != part:
                    continue
                if not one(ctx, m, Tree(nodes, [rename(c, q) for q, c in enumerate(cfg)], style), s):
                    return
    ctx.sample(f"{len(SHAPES)} trees of up to three blocks, {len(cs)} lists of variables and values, three layouts of the header")


def errors(ctx, m):
    """Undefined names, lists of different lengths and blocks without a variable are refused."""
    two = [("a", ["1", "2"], "1,2")]
    for s in SHAPES:
        nodes = parse(s)
        k = nblocks(nodes)
        cfg = [rename(two, q) for q in range(k)]
        nt = Tree(nodes, cfg).t
        for i in range(nt):
            t = Tree(nodes, cfg, undefined=i)
            refuse(ctx, m, t.text, f"{s}: text {i} uses an undefined name", t.where["T", i])
        for q in range(k):
            for bad in ([("a", ["1", "2"], "1,2"), ("b", ["1"], "1")], [("a", ["1"], "1"), ("b", ["1", "2", "3"], "1*3")], [("a", [], "()*0"), ("b", ["1", "2"], "1,2")]):
                c = list(cfg)
                c[q] = rename(bad, q)
                t = Tree.__new__(Tree)
                t.cfg, t.style, t.extra, t.undefined, t.k, t.t, t.src, t.where = c, 0, {}, None, 0, 0, [], {}
                t.build(nodes, 0, [])
                refuse(ctx, m, "\n".join(t.src) + "\n", f"{s}: block {q} has lists of different lengths", t.where["B", q])
            c = list(cfg)
            c[q] = []
            t = Tree.__new__(Tree)
            t.cfg, t.style, t.extra, t.undefined, t.k, t.t, t.src, t.where = c, 0, {}, None, 0, 0, [], {}
            t.build(nodes, 0, [])
            refuse(ctx, m, "\n".join(t.src) + "\n", f"{s}: block {q} has no variable", t.where["B", q])
    ctx.sample("an undefined name in every line, lists of different lengths and no variables in every block of every tree")


def refuse(ctx, m, text, what, line):
    r, e = ctx.attempt(m.process_str, text)
    ctx.count(1)
    if not isinstance(e, ValueError) or not str(e).startswith(f"line {line}:"):
        ctx.violation(f"{what}: ValueError for line {line} expected", f="process_str", args=(text,), got=e or r)


def exclude(ctx, m):
    """:exclude: drops exactly the combinations that it names."""
    A, B, C = [("a", ["1", "2"], "1,2")], [("b", ["x", "y", "1"], "x,y,1")], [("c", ["u", "v"], "u, v"), ("d", ["7", "8"], "7,8")]
    combos = [[("a", i), ("b", j)] for i in "12" for j in ("x", "y", "1")]
    single = [[("b", j)] for j in ("x", "y", "1")] + [[("a", i)] for i in "12"]
    for s in ("TB(TB0T)T", "B(B0B0)"):
        nodes = parse(s)
        for n in range(3):
            for ex in itertools.combinations(combos + single, n):
                extra = {1: [list(x) for x in ex]}
                cfg = [A, B] + ([[("b", ["x", "y"], "x,y")]] if s == "B(B0B0)" else [])
                if not one(ctx, m, Tree(nodes, cfg, 0, extra), f"{s} without {ex}"):
                    return
    nodes = parse("B(TB(TB0T))")
    trip = [[("a", i), ("b", j), ("c", k)] for i in "12" for j in ("x", "y", "1") for k in "uv"] + [[("a", "1"), ("d", "8")], [("d", "7"), ("b", "x")]]
    for n in (1, 2):
        for ex in itertools.combinations(trip, n):
            if not one(ctx, m, Tree(nodes, [A, B, C], 0, {2: [list(x) for x in ex]}), f"three levels without {ex}"):
                return
    ctx.sample("all sets of up to two excluded combinations of two and three nested blocks")


def files(ctx, m):
    """The command, the file it writes, and included templates."""
    t = Tree(parse("TB(TB0T)T"), [[("a", ["1", "2"], "1,2")], [("b", ["x", "y"], "x,y")]])
    for name in ("t.c.src", "one.two.h.src", "x.src"):
        with tempfile.TemporaryDirectory(prefix="mc-tmpl-") as d:
            os.makedirs(os.path.join(d, "in"))
            os.makedirs(os.path.join(d, "out"))
            src = os.path.join(d, "in", name)
            for text, good in ((t.text, True), (t.text + "@nothere@\n", False), ("no blocks\nat all\n", True), ("", True)):
                with open(src, "w") as f:
                    f.write(text)
                for o in os.listdir(os.path.join(d, "out")):
                    os.unlink(os.path.join(d, "out", o))
                p = subprocess.run([sys.executable, TOOL, os.path.join("in", name), "out"], cwd=d, env=E.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                ctx.count(1)
                if (p.returncode == 0) != good:
                    ctx.violation(f"conv_template.py {name}: exit {p.returncode}: {p.stdout[-400:]}")
                elif not good and not re.search(r"ValueError: In \S*" + re.escape(name) + r" loop at line \d+:", p.stdout):
                    ctx.violation(f"conv_template.py {name}: the error does not name the file and the line: {p.stdout[-400:]}")
                elif good:
                    got = os.listdir(os.path.join(d, "out"))
                    e = norm(t.lines) if text == t.text else norm(text.split("\n"))
                    if got != [name[:-4]] or clean(open(os.path.join(d, "out", name[:-4])).read()) != e:
                        ctx.violation(f"conv_template.py {name}: wrote {got}")
            # process_file includes other templates
            with open(os.path.join(d, "in", "inc.src"), "w") as f:
                f.write(t.text)
            with open(os.path.join(d, "in", "main.src"), "w") as f:
                f.write('before\n#include "inc.src"\n#include "other.h"\nafter\n')
            r = ctx.call(m.process_file, os.path.join(d, "in", "main.src"))
            ctx.count(1)
            nodir = lambda ls: [q for q in ls if not q.startswith("#line ")]
            if nodir(clean(r))[len(nodir(HEAD)):] != ["before"] + nodir(norm(t.lines)) + ['#include "other.h"', "after"]:
                ctx.violation("process_file: included template", got="\n".join(clean(r)))
            if clean(r)[0] != '#line 1 "%s"' % os.path.join(d, "in", "main.src"):
                ctx.violation("process_file: the result does not begin with the name of the source", got=r[:300])
            with open(os.path.join(d, "in", "main.src"), "a") as f:
                f.write("/**begin repeat\n * #a = 1,2#\n */\n@nothere@\n/**end repeat**/\n")
            r, e = ctx.attempt(m.process_file, os.path.join(d, "in", "main.src"))
            ctx.count(1)
            if not isinstance(e, ValueError) or not re.match(r'In "[^"]*main.src" loop at line \d+:', str(e)):
                ctx.violation("process_file: the error does not name the file and the line", got=e or r)
    ctx.sample("the command on four files of three names, an included template")
