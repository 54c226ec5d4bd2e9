"""Dictionary-of-keys sparse matrix with symbolic entries."""

import numpy as np

from symx import arr, core
from symx.core import Sym

class SymSparse:
    def __init__(self, shape, dtype=None, **kw):
        if isinstance(shape, SymSparse):
            self.d = dict(shape.d)
            self.shape = shape.shape
        elif isinstance(shape, np.ndarray):
            a = arr.plain(shape)
            self.shape = a.shape
            self.d = {}
            for i in np.ndindex(*a.shape):
                if isinstance(a[i], Sym) or a[i] != 0:
                    self.d[i] = a[i]
        else:
            self.shape = tuple(int(n) for n in shape)
            self.d = {}
        self.dtype = dtype
        self.ndim = 2

    def _key(self, key):
        i, j = key
        i = int(i)
        j = int(j)
        n, m = self.shape
        if i < -n or i >= n or j < -m or j >= m:
            raise IndexError('index out of bounds')
        return i % n, j % m

    def __getitem__(self, key):
        i, j = key
        if isinstance(i, slice) or isinstance(j, slice):
            return self.toarray()[key]
        return self.d.get(self._key(key), 0.0)

    def __setitem__(self, key, value):
        i, j = key
        if isinstance(value, np.ndarray) or not np.isscalar(i) \
                or not np.isscalar(j):
            a = self.toarray()
            a[key] = value
            self.d = SymSparse(a).d
            return
        self.d[self._key(key)] = arr.scalar(value)

    def setdiag(self, values, k=0):
        n = min(self.shape[0] + min(k, 0), self.shape[1] - max(k, 0))
        scalar = not np.ndim(values)
        for i in range(n if scalar else min(n, len(values))):
            self[i - min(k, 0), i + max(k, 0)] = (values if scalar
                else values[i])

    def diagonal(self, k=0):
        return np.diagonal(self.toarray(), k)

    def toarray(self):
        a = arr.o_zeros(self.shape)
        for k, v in self.d.items():
            a[k] = v
        return a

    todense = toarray

    def tocsr(self, *a, **k):
        return self

    tocoo = todok = tolil = tocsc = copy_ = tocsr

    def copy(self):
        r = SymSparse(self.shape)
        r.d = dict(self.d)
        return r

    def items(self):
        return self.d.items()

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    @property
    def nnz(self):
        return len(self.d)

    def getnnz(self):
        return len(self.d)

    def _map(self, f):
        r = SymSparse(self.shape)
        r.d = {k: f(v) for k, v in self.d.items()}
        return r

    def conj(self):
        return self._map(lambda v: core.conj(v) if isinstance(v, Sym)
            else np.conj(v))

    conjugate = conj

    def transpose(self, *a):
        r = SymSparse(self.shape[::-1])
        r.d = {(j, i): v for (i, j), v in self.d.items()}
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self._map(lambda v: v.real)

    @property
    def imag(self):
        return self._map(lambda v: v.imag)

    def astype(self, dtype):
        return self.copy()

    def __add__(self, o):
        if isinstance(o, SymSparse):
            r = self.copy()
            for k, v in o.d.items():
                r.d[k] = r.d.get(k, 0.0) + v
            return r
        return self.toarray() + o

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymSparse):
            return self + (-1) * o
        return self.toarray() - o

    def __rsub__(self, o):
        return o - self.toarray()

    def __neg__(self):
        return self._map(lambda v: -v)

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, SymSparse)):
            return self.multiply(o)
        return self._map(lambda v: v * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._map(lambda v: v / o)

    def multiply(self, o):
        if isinstance(o, SymSparse):
            r = SymSparse(self.shape)
            r.d = {k: v * o.d[k] for k, v in self.d.items() if k in o.d}
            return r
        o = np.broadcast_to(arr.plain(o), self.shape)
        r = SymSparse(self.shape)
        r.d = {k: v * o[k] for k, v in self.d.items()}
        return r

    def dot(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(arr.matmul(self.toarray(), o.toarray()))
        return arr.matmul(self.toarray(), o)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return arr.matmul(o, self.toarray())

    def sum(self, axis=None):
        return self.toarray().sum(axis=axis)

    def diagonal(self):
        return np.diagonal(self.toarray())

    __array_ufunc__ = None
    __array_priority__ = 1e7
