import itertools
import os

import numpy as np

from . import catalog
from .cmp import close, same


def chunks(n):
    return [[f"chunk{i}", i, n] for i in range(n)]


def my_entries(shard, pred=None):
    es = [e for e in catalog.entries() if pred is None or pred(e)]
    return es[shard[1]::shard[2]]


def tup(r):
    return r if isinstance(r, tuple) else (r,)


def scale_of(args):
    s = 0.0
    for a in args:
        if a.dtype.kind in "fc" and a.size:
            m = np.abs(a)
            m = m[np.isfinite(m)]
            if m.size:
                s = max(s, float(m.max()))
    return s


def alone(ctx, e, args, outs=None, part=None):
    """Each slice of the batch evaluated on its own, from fresh contiguous arrays: the reference."""
    B = args[0].shape[0]
    res = [np.empty((B,) + s, dtype=t) for t, s in zip(e.ot, out_shapes_of(e, args, outs))]
    for b in range(B):
        kw = {}
        if outs is not None:
            kw["out"] = tuple(o[b].copy() for o in outs)
        r = tup(ctx.call(e.f, *[np.array(a[b]) if a.dtype != object else scalar_obj(a[b]) for a in args], **kw))
        for q, v in zip(res, r):
            q[b] = v
    return res


def scalar_obj(x):
    a = np.empty(np.shape(x) if isinstance(x, np.ndarray) else (), dtype=object)
    a[...] = x
    return a


def out_shapes_of(e, args, outs):
    if outs is not None:
        return [o.shape[1:] for o in outs]
    dims = {}
    for a, c in zip(args, e.ci):
        for d, n in zip(c, a.shape[1:]):
            dims[d] = n
    return [tuple(int(d) if d.isdigit() else dims[d] for d in c) for c in e.co]


def agrees(e, got, exp, scale):
    if e.exact:
        return same(got, exp)
    if np.asarray(got).dtype.kind in "fc":
        return close(got, exp, 64, scale)
    return same(got, exp)
