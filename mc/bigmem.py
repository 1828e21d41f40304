"""Arrays of more than 2**31 elements in a few megabytes: the same pages are mapped again and again.

A Tile is a 1-d array of N = chunks*P elements, the first chunks-k of which all show one piece of memory (`base`), the last k
a piece each (`tails`).  Reading costs nothing; what is written can be seen in base (whatever was written last) and tails."""

import ctypes
import mmap
import os
import tempfile

import numpy as np

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
RW = mmap.PROT_READ | mmap.PROT_WRITE
NORESERVE = 0x4000
FIXED = 0x10
POPULATE = 0x8000
P = 1 << 18


def _map(addr, size, flags, fd, off=0, prot=RW):
    p = _libc.mmap(addr, size, prot, flags, fd, off)
    if p is None or p == ctypes.c_void_p(-1).value:
        raise OSError(ctypes.get_errno(), "mmap")
    return p


def _fd(size):
    try:
        fd = os.memfd_create("tile")
    except (AttributeError, OSError):
        f = tempfile.TemporaryFile()
        fd = os.dup(f.fileno())
    os.ftruncate(fd, size)
    return fd


def view(addr, shape, dtype, strides=None):
    """An array on memory that the caller keeps mapped."""
    dtype = np.dtype(dtype)

    class Holder:
        pass
    h = Holder()
    h.__array_interface__ = dict(version=3, typestr=dtype.str, shape=tuple(shape), strides=strides, data=(addr, False))
    return np.asarray(h)


class Tile:
    def __init__(self, dtype, base=0, tails=(None,), chunks=8193, width=1):
        """base, tails: scalars or arrays (P, width) / (P,); None: like base."""
        self.dt = np.dtype(dtype)
        self.row = self.dt.itemsize * width
        self.width = width
        self.csize = P * self.row
        self.k = len(tails)
        self.chunks = chunks
        self.N = P * chunks
        self.size = self.csize * chunks
        fd = _fd(self.csize * (1 + self.k))
        os.posix_fallocate(fd, 0, self.csize * (1 + self.k))
        self.addr = None
        try:
            self.addr = _map(None, self.size, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | NORESERVE, -1, prot=0)
            for c in range(chunks):
                j = max(0, c - (chunks - self.k) + 1)
                _map(self.addr + c * self.csize, self.csize, mmap.MAP_SHARED | FIXED | POPULATE, fd, j * self.csize)
        finally:
            os.close(fd)
        self.array = view(self.addr, (self.N,) if width == 1 else (self.N, width), self.dt)
        self.base = self.array[:P]
        self.tails = [self.array[(chunks - self.k + i) * P:(chunks - self.k + i + 1) * P] for i in range(self.k)]
        self.base[...] = base
        for t, v in zip(self.tails, tails):
            t[...] = base if v is None else v

    @property
    def tail(self):
        return self.tails[-1]

    def close(self):
        if self.addr is not None:
            _libc.munmap(self.addr, self.size)
            self.addr = None
            self.array = self.base = None
            self.tails = []


class Sparse:
    """A stretch of addresses all of whose pages are zero until written."""

    def __init__(self, size):
        self.size = size
        self.addr = _map(None, size, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | NORESERVE, -1)

    def close(self):
        if self.addr is not None:
            _libc.munmap(self.addr, self.size)
            self.addr = None
