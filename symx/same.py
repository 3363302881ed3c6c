"""Strict equality of values (type and content), symbolic or not."""
import collections
import datetime
import fractions
import struct

import numpy as np
import z3

try:
    from . import arr
    from .records import SymRecord
    from .rt import realtype
    from .strs import _Seq, codes_equal, codes_of
    from .terms import Sym, SymBool, SymComplex, SymFloat, SymInt, and_, mkbool, or_
except ImportError:  # pragma: no cover
    raise

FIELDS = {
    slice: ("start", "stop", "step"),
    range: ("start", "stop", "step"),
    datetime.date: ("year", "month", "day"),
    datetime.time: ("hour", "minute", "second", "microsecond", "tzinfo", "fold"),
    datetime.datetime: ("year", "month", "day", "hour", "minute", "second", "microsecond",
                        "tzinfo", "fold"),
    datetime.timedelta: ("days", "seconds", "microseconds"),
    fractions.Fraction: ("numerator", "denominator"),
}


def fbits(x):
    if isinstance(x, SymFloat):
        return x.t
    return z3.BitVecVal(struct.unpack("<Q", struct.pack("<d", x))[0], 64)


def tzparts(tz):
    if isinstance(tz, SymRecord):
        return (tz.f["offset"], tz.f["name"])
    r = tz.__reduce__()[1]
    return (r[0], r[1] if len(r) > 1 else None)


def raw_units(dt, bs):
    """Comparable units of an element independent of byte order."""
    if dt.subdtype is not None:
        b, sh = dt.subdtype
        out = []
        for i in range(int(np.prod(sh))):
            out += raw_units(b, bs[i * b.itemsize:(i + 1) * b.itemsize])
        return out
    if dt.names is not None:
        out = []
        for n in dt.names:
            ft, off = dt.fields[n][:2]
            out += raw_units(ft, bs[off:off + ft.itemsize])
        return out
    return arr.units(dt, bs)


def dtype_same(a, b, text_len=True):
    if a.kind != b.kind or a.hasobject != b.hasobject:
        return False
    if a.subdtype is not None or b.subdtype is not None:
        if a.subdtype is None or b.subdtype is None:
            return False
        return a.subdtype[1] == b.subdtype[1] and dtype_same(a.subdtype[0], b.subdtype[0],
                                                           text_len)
    if a.names is not None or b.names is not None:
        if a.names != b.names:
            return False
        return all(dtype_same(a.fields[n][0], b.fields[n][0], text_len) for n in a.names)
    if a.kind in "SU" and not text_len:
        return True
    return a.itemsize == b.itemsize


def pad_units(da, db, ua, ub):
    """The units with those of each text padded to the longer one."""
    ra, rb = [], []
    ua, ub = iter(ua), iter(ub)

    def walk(x, y):
        if x.subdtype is not None:
            for _ in range(int(np.prod(x.subdtype[1]))):
                walk(x.subdtype[0], y.subdtype[0])
        elif x.names is not None:
            for n in x.names:
                walk(x.fields[n][0], y.fields[n][0])
        else:
            n, m = count(x), count(y)
            xs, ys = [next(ua) for _ in range(n)], [next(ub) for _ in range(m)]
            if x.kind in "SU":
                xs += [0] * (m - n)
                ys += [0] * (n - m)
            ra.extend(xs)
            rb.extend(ys)

    walk(da, db)
    return ra, rb


def count(dt):
    return len(arr.units(dt, [0] * dt.itemsize))


def same_array(a, b, text_len):
    if a.shape != b.shape or not dtype_same(a.dtype, b.dtype, text_len):
        return False
    if a.dtype.hasobject:
        if a.dtype.names is not None:
            return and_(*[same(np.asarray(a[n]), np.asarray(b[n]), text_len)
                          for n in a.dtype.names])
        return and_(*[same(x, y, text_len) for x, y in zip(a.ravel().tolist() if False else
                                                         list(a.flat), list(b.flat))])
    pa, pb = arr.addrs(a), arr.addrs(b)
    out = []
    for p, q in zip(pa, pb):
        ua = raw_units(a.dtype, arr.elem(a, p))
        ub = raw_units(b.dtype, arr.elem(b, q))
        if len(ua) != len(ub) or (a.dtype.names is not None and a.dtype != b.dtype):
            # text of other item sizes
            ua, ub = pad_units(a.dtype, b.dtype, ua, ub)
            if len(ua) != len(ub):
                return False
        c = codes_equal(ua, ub)
        if c is False:
            return False
        if c is not True:
            out.append(mkbool(c))
    return and_(*out)


def same(a, b, text_len=True):
    """Condition: b has the type and the content of a."""
    ta, tb = realtype(a), realtype(b)
    if ta is not tb:
        return False
    if a is b:
        return True
    if a is None or ta in (type(Ellipsis), type(NotImplemented)):
        return a is b
    if issubclass(ta, np.ndarray):
        return same_array(np.asarray(a), np.asarray(b), text_len)
    if issubclass(ta, (str, bytes, bytearray)):
        c = codes_equal(codes_of(a), codes_of(b))
        return c if isinstance(c, bool) else mkbool(c)
    if issubclass(ta, np.generic):
        x = arr.to_array(a) if isinstance(a, Sym) else np.asarray(a)
        y = arr.to_array(b) if isinstance(b, Sym) else np.asarray(b)
        return same_array(x, y, text_len)
    if ta is bool or ta is int:
        return a == b
    if ta is float:
        return mkbool(fbits(a) == fbits(b))
    if ta is complex:
        f = lambda c: ((c.re, c.im) if isinstance(c, SymComplex)  # noqa: E731
                       else (fbits(c.real), fbits(c.imag)))
        x, y = f(a), f(b)
        return and_(mkbool(x[0] == y[0]), mkbool(x[1] == y[1]))
    if ta in FIELDS:
        return and_(*[same(getattr(a, n), getattr(b, n), text_len) for n in FIELDS[ta]])
    if ta is datetime.timezone:
        return same(tzparts(a), tzparts(b), text_len)
    if issubclass(ta, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return False
        return and_(*[same(x, y, text_len) for x, y in zip(a, b)])
    if issubclass(ta, (set, frozenset)):
        if len(a) != len(b):
            return False
        return and_(*[or_(*[same(x, y, text_len) for y in b]) for x in a])
    if ta is collections.ChainMap:
        return same(a.maps, b.maps, text_len)
    if issubclass(ta, dict):
        if len(a) != len(b):
            return False
        ordered = and_(*[and_(same(k, l, text_len), same(v, w, text_len))
                         for (k, v), (l, w) in zip(a.items(), b.items())])
        return ordered
    if isinstance(a, np.dtype):
        return a == b
    raise TypeError("same(%s)" % ta)
