"""Memory layouts of an array with given contents."""

import numpy as np


class Bomb:
    """A poison object: any use of it is a fault."""
    def _boom(self, *a):
        raise RuntimeError("an element outside the operand was used")
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __add__ = __radd__ = __sub__ = __rsub__ = \
        __mul__ = __rmul__ = __bool__ = __neg__ = __abs__ = __float__ = __int__ = __index__ = _boom
    __hash__ = None

    def __reduce__(self):
        return (Bomb, ())


BOMB = Bomb()


def poison(dt, k):
    dt = np.dtype(dt)
    if dt == object:
        return BOMB
    if dt.kind in "fc":
        return [np.nan, 1e30, -1e30][k % 3] if dt.itemsize > 2 else [np.nan, 6e4, -6e4][k % 3]
    if dt.kind == "b":
        return bool(k % 2)
    return [101, 0, 119][k % 3] if dt.kind == "u" else [101, -101, 119][k % 3]


def _fill(shape, dt, k):
    b = np.empty(shape, dtype=dt)
    b[...] = poison(dt, k)
    return b


def l_contig(x, k):
    b = x.copy()
    return b, b


def l_step2(x, k):
    """every axis in steps of two; the gaps are poisoned"""
    b = _fill(tuple(2 * n + 1 for n in x.shape), x.dtype, k)
    v = b[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
    v[...] = x
    return b, v


def l_core2(x, k):
    """only the last axis in steps of three"""
    if x.ndim == 0:
        return l_contig(x, k)
    b = _fill(x.shape[:-1] + (3 * x.shape[-1],), x.dtype, k)
    v = b[..., 2::3]
    v[...] = x
    return b, v


def l_rev(x, k):
    """last axis reversed"""
    b = x[..., ::-1].copy() if x.ndim else x.copy()
    v = b[..., ::-1] if x.ndim else b
    return b, v


def l_rev2(x, k):
    """every axis reversed, in steps of -2"""
    b = _fill(tuple(2 * n + 1 for n in x.shape), x.dtype, k)
    v = b[tuple(slice(2 * n - 1, None, -2) if n else slice(0, 0) for n in x.shape)]
    v[...] = x
    return b, v


def l_fortran(x, k):
    b = np.array(x, order="F")
    return b, b


def l_rows(x, k):
    """first axis in steps of three, last contiguous"""
    if x.ndim == 0:
        return l_contig(x, k)
    b = _fill((3 * x.shape[0] + 1,) + x.shape[1:], x.dtype, k)
    v = b[1::3]
    v[...] = x
    return b, v


def l_misaligned(x, k):
    if x.dtype == object or x.dtype.itemsize == 1:
        return l_step2(x, k)
    raw = np.full(x.nbytes + 1, 0x55, dtype=np.uint8)
    v = raw[1:].view(x.dtype).reshape(x.shape)
    v[...] = x
    return raw, v


def l_swapped(x, k):
    if x.dtype == object or x.dtype.itemsize == 1:
        return l_rev2(x, k)
    b = x.astype(x.dtype.newbyteorder())
    return b, b


def l_field(x, k):
    """strides that are not a multiple of the item size (a field of a record)"""
    dt = x.dtype
    if dt == object:
        rec = np.dtype([("p", object), ("v", object)])
        b = np.empty(x.shape, dtype=rec)
        b["p"] = None
        b["v"] = x
        return b, b["v"]
    rec = np.dtype({"names": ["v"], "formats": [dt], "offsets": [dt.alignment],
                    "itemsize": dt.itemsize + dt.alignment * 2 if dt.itemsize == dt.alignment
                    else dt.itemsize + dt.alignment})
    raw = np.full(int(np.prod(x.shape, dtype=int)) * rec.itemsize, 0x5a, dtype=np.uint8)
    v = raw.view(rec).reshape(x.shape)["v"]
    v[...] = x
    return raw, v


def l_readonly(x, k):
    b = x.copy()
    b.flags.writeable = False
    return b, b


LAYOUTS = dict(contig=l_contig, step2=l_step2, core3=l_core2, rev=l_rev, rev2=l_rev2, fortran=l_fortran,
               rows=l_rows, misaligned=l_misaligned, swapped=l_swapped, field=l_field, readonly=l_readonly)
OUT_LAYOUTS = [n for n in LAYOUTS if n != "readonly"]


def lay(x, name, k=0):
    """-> (base buffer, view) where view has the contents of x."""
    return LAYOUTS[name](x, k)


def raw_bytes(b):
    """All bytes of a base buffer (objects: identities)."""
    if b.dtype == object:
        return [id(o) for o in b.ravel("K").tolist()]
    if b.dtype.hasobject:
        return [[id(o) for o in b[n].ravel("K").tolist()] for n in b.dtype.names]
    if b.flags.f_contiguous and not b.flags.c_contiguous:
        b = b.T
    return b.tobytes()


def gaps_ok(base, view, before):
    """Do the bytes of base outside view still have the values in `before` (a copy of base)?"""
    after = base.copy() if base.dtype.hasobject else base.copy(order="K")
    # put the view's elements back as they were and compare everything
    if base.dtype.hasobject:
        return True
    off = view.__array_interface__["data"][0] - base.__array_interface__["data"][0]
    a = np.ndarray(view.shape, view.dtype, after, off, view.strides) if after.strides == base.strides else None
    if a is None:
        return True
    b = np.ndarray(view.shape, view.dtype, before, off, view.strides)
    a[...] = b
    return raw_bytes(after) == raw_bytes(before)
