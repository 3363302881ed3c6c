"""A numpy dtype whose subarray dimensions are symbolic."""
import numpy as np

from .core import Unsupported


class SymDtype:
    def __init__(self, base=None, shape=(), fields=None):
        """A simple dtype, a subarray of a SymDtype/dtype, or fields [(name, dtype)]."""
        self._b = base
        self._s = tuple(shape)
        self._f = fields

    @property
    def shape(self):
        return self._s

    @property
    def ndim(self):
        return len(self._s)

    @property
    def subdtype(self):
        return (self._b, self._s) if self._s else None

    @property
    def base(self):
        return self._b if self._s else self

    @property
    def names(self):
        return None if self._f is None or self._s else tuple(n for n, _ in self._f)

    @property
    def fields(self):
        if self._f is None or self._s:
            return None
        out, at = {}, 0
        for n, t in self._f:
            out[n] = (t, at)
            at = at + t.itemsize
        return out

    @property
    def itemsize(self):
        if self._f is not None and not self._s:
            return sum((t.itemsize for _, t in self._f), 0)
        n = self._b.itemsize
        for d in self._s:
            n = n * d
        return n

    @property
    def kind(self):
        return "V"

    char = kind

    @property
    def type(self):
        return np.void

    @property
    def hasobject(self):
        return any(t.hasobject for _, t in self._f) if self._f is not None and not self._s else self._b.hasobject

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s of a dtype with symbolic dimensions" % n)

    def __getitem__(self, n):
        return self.fields[n][0]

    def __len__(self):
        return 0 if self._f is None or self._s else len(self._f)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    @property
    def __class__(self):
        return np.dtype


def make(spec):
    """spec: 'u1' | ('sub', spec, dims) | ('fields', [(name, spec), ...])"""
    if isinstance(spec, str):
        return np.dtype(spec)
    if spec[0] == "sub":
        b, dims = make(spec[1]), tuple(spec[2])
        if isinstance(b, SymDtype) or type(b) is SymDtype:
            # numpy joins nested subarrays into one
            if b.subdtype is not None:
                return SymDtype(b._b, dims + b._s)
        elif b.subdtype is not None:
            return SymDtype(b.subdtype[0], dims + b.subdtype[1])
        return SymDtype(b, dims)
    return SymDtype(fields=[(n, make(t)) for n, t in spec[1]])


def real(spec):
    if isinstance(spec, str):
        return np.dtype(spec)
    if spec[0] == "sub":
        return np.dtype((real(spec[1]), tuple(spec[2])))
    return np.dtype([(n, real(t)) for n, t in spec[1]])
