"""Every loop of every public function, with deterministic valid inputs for it.

An Entry is one type loop of one function.  `sizes` is the menu of core dimensions; `make(dims, B, v)`
gives the list of input arrays, each of shape (B,)+core, C-contiguous; v selects a variant of the data."""

import re

import numpy as np

FL = [1.5, -2.25, 0.5, 3.0, -0.75, 7.0, 2.5, -4.0, 0.125, 6.5, -1.0, 0.0, 5.0, -3.5, 2.0, 0.25]
POS = [1.5, 2.25, 0.5, 3.0, 0.75, 7.0, 2.5, 4.0, 0.125, 6.5, 1.0, 0.375, 5.0, 3.5, 2.0, 0.25]
UNIT = [0.5, 0.25, 0.75, 0.125, 0.875, 0.0, 1.0, 0.375, 0.625, 0.0625]
INT = [3, 1, 7, 0, 5, 2, 6, 4, 9, 8, 1, 3]
SINT = [3, -1, 7, 0, -5, 2, 6, -4, 9, -8, 1, -3]


def pat(pal, shape, dt, v=0, a=5, c=3):
    """pal indexed by a*row + c*column + v: neighbouring rows and columns differ."""
    B = shape[0]
    m = int(np.prod(shape[1:], dtype=int)) if len(shape) > 1 else 1
    p = np.array(pal, dtype=object)
    idx = (a * np.arange(B)[:, None] + c * np.arange(m)[None, :] + 7 * v) % len(pal)
    x = p[idx].reshape(shape)
    dt = np.dtype(dt)
    if dt.kind == "c":
        y = p[(idx * 3 + 5) % len(pal)].reshape(shape)
        return (x.astype(float) + 1j * y.astype(float)).astype(dt)
    if dt == object:
        return x
    return x.astype(dt)


def pal_for(dt, kind="f"):
    dt = np.dtype(dt)
    if dt.kind == "u":
        return INT
    if dt.kind in "i":
        return SINT
    if dt == object:
        return SINT
    return POS if kind == "pos" else FL


class Entry:
    def __init__(self, name, f, types, make, sizes, module, exact=True, tol=0.0):
        self.name, self.f, self.module = name, f, module
        self.types = types
        i, o = types.split("->")
        self.it, self.ot = list(i), list(o)
        self.make = make
        self.sizes = sizes
        self.exact = exact
        self.tol = tol
        self.sig = f.signature
        if self.sig:
            a, b = self.sig.replace(" ", "").split("->")
            self.ci = [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", a)]
            self.co = [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", b)]
        else:
            self.ci = [()] * f.nin
            self.co = [()] * f.nout

    @property
    def key(self):
        return f"{self.name}[{self.types}]"

    def dim(self, d, dims):
        return int(d) if d.isdigit() else dims[d]

    def in_shapes(self, dims):
        return [tuple(self.dim(d, dims) for d in c) for c in self.ci]

    def out_shapes(self, dims):
        return [tuple(self.dim(d, dims) for d in c) for c in self.co]

    @property
    def isobject(self):
        return "O" in self.types

    def inputs(self, dims, B, v=0):
        return self.make(self, dims, B, v)

    def new_out(self, dims, B):
        """Fresh outputs (needed where the output has a core dimension no input has)."""
        r = []
        for t, s in zip(self.ot, self.out_shapes(dims)):
            r.append(np.zeros((B,) + s, dtype=t))
        return r

    @property
    def needs_out(self):
        """The output has a core dimension that no input determines."""
        i = {d for c in self.ci for d in c}
        return any(d not in i and not d.isdigit() for c in self.co for d in c)


def _generic(kind="f"):
    def make(e, dims, B, v):
        return [pat(pal_for(t, kind), (B,) + s, t, v + j, a=5 + 2 * j)
                for j, (t, s) in enumerate(zip(e.it, e.in_shapes(dims)))]
    return make


def _with(**fixed):
    """Generic data, with operand j taken from the palette fixed['pJ'] (optionally kind=...)."""
    kind = fixed.pop("kind", "f")
    pals = {int(k[1:]): p for k, p in fixed.items()}

    def make(e, dims, B, v):
        out = []
        for j, (t, s) in enumerate(zip(e.it, e.in_shapes(dims))):
            if j in pals:
                out.append(pat(pals[j], (B,) + s, t, v, a=1, c=1))
            else:
                out.append(pat(pal_for(t, kind), (B,) + s, t, v + j, a=5 + 2 * j))
        return out
    return make


def _sorted_first(e, dims, B, v):
    x = pat(pal_for(e.it[0]), (B,) + e.in_shapes(dims)[0], e.it[0], v)
    x = np.sort(x, axis=-1)
    y = pat(pal_for(e.it[1]), (B,), e.it[1], v + 1)
    return [x, y]


def _sos(e, dims, B, v):
    m = dims["m"]
    s = np.zeros((B, m, 6))
    c = [0.5, -0.25, 0.125, 1.0, 0.75, -0.5, 0.375]
    for b in range(B):
        for i in range(m):
            for k in range(6):
                s[b, i, k] = c[(b * 3 + i * 2 + k + v) % 7]
            s[b, i, 3] = 1.0
    r = [s.astype(e.it[0]), pat(FL, (B, dims["n"]), e.it[1], v)]
    if len(e.it) == 3:
        r.append(pat(FL, (B, m, 2), e.it[2], v + 1))
    return r


def _interp(e, dims, B, v):
    n = dims["n"]
    xp = np.cumsum(1 + pat(INT, (B, n), float, v), axis=-1) - 6.0
    x = pat([-9.0, 0.5, 2.0, 7.25, 30.0, -4.0, 11.5], (B,), float, v, a=1) if B else np.zeros(0)
    fp = pat(FL, (B, n), float, v + 2)
    return [x.astype(e.it[0]), xp.astype(e.it[1]), fp.astype(e.it[2])]


def _tri_idx(e, dims, B, v):
    m = dims["m"]
    idx = np.array([[(b + v) % m, (b + 1 + v) % m, (2 * b + 2 + v) % m] for b in range(B)],
                   dtype=e.it[1]).reshape(B, 3)
    return [pat(FL, (B, m, dims["n"]), e.it[0], v), idx]


def _fillnan(e, dims, B, v):
    x = pat(FL, (B, dims["n"]), e.it[0], v)
    k = (np.arange(B)[:, None] * 2 + np.arange(dims["n"])[None, :] + v) % 3
    x[k == 1] = np.nan
    return [x]


def _hyst(e, dims, B, v):
    x = pat(FL, (B, dims["n"]), e.it[0], v)
    P = [[-1.0, 1.0, -5.0, 5.0, 0.5], [-2.0, 2.0, 1.0, 4.0, 3.0], [0.0, 3.0, -1.0, 7.0, -2.0]]
    p = [np.array([P[(b + v) % 3][k] for b in range(B)]) for k in range(5)]
    return [x] + [q.astype(e.it[k + 1]) for k, q in enumerate(p)]


def _backlash_sum(e, dims, B, v):
    n, m = dims["n"], dims["m"]
    return [pat(FL, (B, n), e.it[0], v), pat(POS, (B, m), e.it[1], v), pat(POS, (B, m), e.it[2], v + 1),
            pat(FL, (B, m), e.it[3], v + 2)]


def _steps(e, dims, B, v):
    x = pat(FL, (B,), e.it[0], v, a=1)
    P = [[-1.0, 4.0, 10.0, 20.0], [0.0, 2.0, -3.0, 5.0], [-3.0, -0.5, 1.0, 2.0]]
    return [x] + [np.array([P[(b + v) % 3][k] for b in range(B)]).astype(e.it[k + 1]) for k in range(4)]


def _invstep(e, dims, B, v):
    P = [[-1.0, 4.0, 10.0, 20.0], [0.0, 2.0, -3.0, 5.0], [-3.0, -0.5, 1.0, 2.0]]
    u = pat(UNIT, (B,), float, v, a=1)
    lo = np.array([P[(b + v) % 3][2] for b in range(B)])
    hi = np.array([P[(b + v) % 3][3] for b in range(B)])
    x = lo + u * (hi - lo)
    return [x.astype(e.it[0])] + [np.array([P[(b + v) % 3][k] for b in range(B)]).astype(e.it[k + 1])
                                  for k in range(4)]


def _trap(e, dims, B, v):
    x = pat(FL, (B,), e.it[0], v, a=1)
    P = [[-3.0, -1.0, 2.0, 4.0, 2.5], [0.0, 1.0, 1.5, 6.0, -1.0], [-4.0, -4.0, 0.0, 1.0, 3.0]]
    return [x] + [np.array([P[(b + v) % 3][k] for b in range(B)]).astype(e.it[k + 1]) for k in range(5)]


def _pearson(e, dims, B, v):
    p0 = INT if np.dtype(e.it[0]).kind in "iu" else FL
    x = pat(p0, (B, dims["n"]), e.it[0], v)
    y = pat(p0, (B, dims["n"]), e.it[1], v + 1, a=3, c=5)
    return [x, y]


N1 = [dict(n=n) for n in (1, 2, 3, 5)]
N2 = [dict(n=n) for n in (2, 3, 5)]

MAKE = {
    # elementwise
    "deadzone": (_with(p1=[-1.0, -2.0, 0.0], p2=[1.0, 3.0, 0.5]), None),
    "step": (_steps, None), "linearstep": (_steps, None), "smoothstep3": (_steps, None),
    "smoothstep5": (_steps, None), "invsmoothstep3": (_invstep, None), "trapezoid_pulse": (_trap, None),
    "logfactorial": (_with(p0=[0, 1, 2, 5, 10, 100, -1, 170, 1000]), None),
    "pow1pm1": (_with(p0=[0.5, -0.25, 1e-3, 3.0, -0.9], p1=[2.0, -1.5, 0.5, 3.0, 10.0]), None),
    "debye1": (_generic(), None), "expint1": (_generic("pos"), None), "logexpint1": (_generic("pos"), None),
    "loggamma1p": (_generic("pos"), None), "erfcx": (_generic(), None),
    "hyperbolic_ramp": (_with(p1=POS), None), "exponential_ramp": (_with(p1=POS), None),
    "yeo_johnson": (_with(p1=[0.5, 2.0, 0.0, 1.0, -1.0, 3.0]), None),
    "inv_yeo_johnson": (_with(p1=[0.5, 1.0, 0.0, 1.5, 0.25, 0.75], p0=[0.25, -0.5, 0.5, -0.125, 0.75]), None),
    "semivar.exponential": (_with(p0=POS, p1=[1.0, 0.5], p2=[4.0, 3.0], p3=[2.0, 5.0]), None),
    "semivar.linear": (_with(p0=POS, p1=[1.0, 0.5], p2=[4.0, 3.0], p3=[2.0, 5.0]), None),
    "semivar.spherical": (_with(p0=POS, p1=[1.0, 0.5], p2=[4.0, 3.0], p3=[2.0, 5.0]), None),
    "semivar.parabolic": (_with(p0=POS, p1=[1.0, 0.5], p2=[4.0, 3.0], p3=[2.0, 5.0]), None),
    # gufuncs
    "first": (_with(p1=[4, 0, 2, 5, 1, 3]), N1), "argfirst": (_with(p1=[4, 0, 2, 5, 1, 3]), N1),
    "ordered": (_with(p1=[4, 0, 2, 5, 1, 3]), N1),
    "searchsortedl": (_sorted_first, [dict(m=m) for m in (1, 2, 3, 5)]),
    "searchsortedr": (_sorted_first, [dict(m=m) for m in (1, 2, 3, 5)]),
    "gini": (_with(p1=[False, True], kind="pos"), N2), "mad": (_with(p1=[False, True]), N2),
    "rmad": (_with(p1=[False, True], kind="pos"), N2),
    "gmean": (_generic("pos"), N1), "hmean": (_generic("pos"), N1),
    "gmeanw": (_generic("pos"), N1), "hmeanw": (_generic("pos"), N1),
    "pmean": (_with(p1=[2.0, -1.0, 0.0, 1.0, 3.0, np.inf, -np.inf], kind="pos"), N1),
    "pmeanw": (_with(p2=[2.0, -1.0, 0.0, 1.0, 3.0, np.inf, -np.inf], kind="pos"), N1),
    "meanvar": (_with(p1=[0, 1]), N2), "vnorm": (_with(p1=[2.0, 1.0, np.inf, 3.0]), N1),
    "percentileofscore": (_with(p2=[0, 1, 2, 3]), N1),
    "pearson_corr": (_pearson, N2),
    "wjaccard": (_generic("pos"), N1),
    "fillnan1d": (_fillnan, N1),
    "backlash": (_with(p1=[1.0, 2.0, 0.5]), N1),
    "backlash_sum": (_backlash_sum, [dict(n=n, m=m) for n in (1, 2, 5) for m in (1, 3)]),
    "hysteresis_relay": (_hyst, N1),
    "unwrap": (_with(p1=[1.0, 2.0, 5.0]), N1),
    "sosfilter": (_sos, [dict(m=m, n=n) for m in (1, 2, 3) for n in (1, 2, 5)]),
    "sosfilter_ic": (_sos, [dict(m=m, n=n) for m in (1, 2, 3) for n in (1, 2, 5)]),
    "sosfilter_ic_contig": (_sos, [dict(m=m, n=n) for m in (1, 2, 3) for n in (1, 2, 5)]),
    "linear_interp1d": (_interp, N1),
    "tri_area": (_generic(), N2),
    "tri_area_indexed": (_tri_idx, [dict(m=m, n=n) for m in (3, 5) for n in (2, 3)]),
    "multivariate_logbeta": (_generic("pos"), N1),
    "_bincount": (_with(p0=INT[:8]), [dict(n=n, m=m) for n in (1, 2, 5) for m in (1, 4, 8)]),
    "_bincountw": (_with(p0=INT[:8]), [dict(n=n, m=m) for n in (1, 2, 5) for m in (1, 4, 8)]),
    "_convert_to_base": (_with(p0=[13, 100, 7, 64, 0, 99], p1=[2, 10, 3, 7]), N1),
    "_one_hot": (_with(p0=[0, 1, 2, 3, 4, -1 & 7]), N1),
    "_nextn_greater": (_generic(), N1), "_nextn_less": (_generic(), N1),
}

# Relative tolerance, in units of the output type's eps, for results that are the outcome of rounded
# arithmetic: a refactoring may reassociate.  0: the result is a selection, a count or exact.
EXACT = {"issnan", "nan_to_num", "next_less", "next_greater", "step", "first", "argfirst", "argmin", "argmax",
         "minmax", "argminmax", "min_argmin", "max_argmax", "searchsortedl", "searchsortedr", "ordered",
         "peaktopeak", "all_same", "hysteresis_relay", "_bincount", "_convert_to_base", "_one_hot",
         "_nextn_greater", "_nextn_less", "deadzone"}

MODULES = {
    "minmax": "argmin argmax minmax argminmax min_argmin max_argmax".split(),
    "first": ["first", "argfirst"], "means": "gmean hmean pmean gmeanw hmeanw pmeanw".split(),
    "mad": ["mad", "rmad", "gini"], "vnorm": ["vnorm", "rms", "vdot"],
    "step": "step linearstep smoothstep3 smoothstep5 invsmoothstep3".split(),
    "logistic": "logistic logistic_deriv log_logistic swish".split(),
    "sosfilter": "sosfilter sosfilter_ic sosfilter_ic_contig".split(),
    "searchsorted": ["searchsortedl", "searchsortedr"], "cross": ["cross2", "cross3"],
    "backlash": ["backlash", "backlash_sum"], "expint1": ["expint1", "logexpint1"],
    "tri_area": ["tri_area", "tri_area_indexed"], "nextn": ["_nextn_greater", "_nextn_less"],
    "bincount": ["_bincount", "_bincountw"], "ramp": ["hyperbolic_ramp", "exponential_ramp"],
    "yeo_johnson": ["yeo_johnson", "inv_yeo_johnson"], "next": ["next_less", "next_greater"],
    "log1p": ["log1p_doubledouble", "log1p_theorem4"],
}
_MODOF = {f: m for m, fs in MODULES.items() for f in fs}


def functions():
    """{name: ufunc} of everything reachable from the public API."""
    import ufunclab as u
    out = {}
    for n in sorted(dir(u)):
        o = getattr(u, n)
        if isinstance(o, np.ufunc):
            out[n] = o
    for mod in ("normal", "semivar"):
        m = getattr(u, mod)
        for n in sorted(dir(m)):
            o = getattr(m, n)
            if isinstance(o, np.ufunc):
                out[f"{mod}.{n}"] = o
    out["erfcx"] = u.erfcx
    out["_bincount"] = u.bincount._bincount
    out["_bincountw"] = u.bincount._bincountw
    out["_convert_to_base"] = u.convert_to_base.gufunc
    out["_one_hot"] = u.one_hot.gufunc
    out["_nextn_greater"] = u.nextn_greater.gufunc
    out["_nextn_less"] = u.nextn_less.gufunc
    return out


def entries(names=None):
    r = []
    for n, f in functions().items():
        if names is not None and n not in names:
            continue
        if n in MAKE:
            mk, sizes = MAKE[n]
        else:
            mk, sizes = _generic(), None
        if sizes is None:
            sizes = [{}] if f.signature is None else None
        if sizes is None:
            letters = set(re.findall(r"[a-z]\w*", f.signature))
            sizes = [{l: k for l in letters} for k in (1, 2, 3, 5)] if letters else [{}]
        mod = _MODOF.get(n, n.split(".")[0])
        for t in f.types:
            r.append(Entry(n, f, t, mk, sizes, mod, exact=n in EXACT))
    return r
