"""Symbolic contents of real numpy arrays: shadow memory keyed by address.

A numpy array (or a view of one) whose memory has entries in SHADOW has
symbolic bytes there.  Geometry (shape, strides, dtype, views) is always that
of the real numpy array, so view operations are exact without any model; the
models in this file are for the operations that copy or transform contents.
"""
import collections
import ctypes

import numpy as np
import z3

from . import core
from .strs import (SymBytes, SymStr, cat, ceq, cand, cor, crange, decode, encode, mkbytes,
                   mkstr, resize, tocode, cset)
from .terms import (FSORT, Sym, SymBool, SymComplex, SymFloat, SymInt, W, and_, br, iv,
                    mkbool, mkint, not_, or_, zbool, fbits)

SHADOW = {}      # address -> (term, k): byte k (LSB first) of term
KEEP = []        # arrays that must live until the end of the path


def reset():
    SHADOW.clear()
    KEEP.clear()


# -- bytes -------------------------------------------------------------------
def bterm(x):
    """A byte as int or BV8."""
    if isinstance(x, int):
        return x
    t, k = x
    if t.size() == 8:
        return t
    return tocode(z3.Extract(8 * k + 7, 8 * k, t))


def bnorm(c):
    """A byte code (int / BV8 term) as stored."""
    if isinstance(c, int):
        return c
    if z3.is_bv_value(c):
        return c.as_long()
    return (c, 0)


def join_bytes(bs):
    """Bytes (LSB first; ints or (term,k)) to an int or a term."""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "little")
    b0 = bs[0]
    if not isinstance(b0, int) and b0[1] == 0 and b0[0].size() == 8 * len(bs):
        t = b0[0]
        if all(not isinstance(b, int) and b[1] == i and b[0].eq(t) for i, b in enumerate(bs)):
            return t
    if len(bs) == 1:
        return bterm(b0)
    parts = []
    for b in reversed(bs):
        b = bterm(b)
        parts.append(z3.BitVecVal(b, 8) if isinstance(b, int) else b)
    return tocode(z3.Concat(*parts))


def split_term(v, n):
    """int or term of 8*n bits to bytes (LSB first)."""
    if isinstance(v, int):
        return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
    if z3.is_bv_value(v):
        return list(v.as_long().to_bytes(n, "little"))
    return [(v, k) for k in range(n)]


def read_bytes(addr, n):
    raw = ctypes.string_at(addr, n)
    if not SHADOW:
        return list(raw)
    return [SHADOW.get(addr + i, raw[i]) for i in range(n)]


def write_bytes(addr, bs):
    for i, b in enumerate(bs):
        if isinstance(b, int):
            SHADOW.pop(addr + i, None)
            ctypes.memset(addr + i, b, 1)
        else:
            SHADOW[addr + i] = b
            ctypes.memset(addr + i, 0, 1)


def base_addr(a):
    return a.__array_interface__["data"][0]


def addrs(a):
    """Addresses of the elements in C order."""
    if a.size == 0:
        return []
    p = base_addr(a)
    if a.ndim == 0:
        return [p]
    off = np.zeros((), dtype=np.int64)
    for n, s in zip(a.shape, a.strides):
        off = off[..., None] + np.arange(n, dtype=np.int64) * s
    return [p + int(o) for o in off.ravel()]


def bounds(a):
    p = base_addr(a)
    lo = hi = p
    if a.size == 0:
        return lo, lo
    for n, s in zip(a.shape, a.strides):
        if s < 0:
            lo += (n - 1) * s
        else:
            hi += (n - 1) * s
    return lo, hi + a.dtype.itemsize


def shadowed(a):
    """Does the array have symbolic bytes?"""
    if not SHADOW or a.size == 0:
        return False
    lo, hi = bounds(a)
    if hi - lo <= 4 * len(SHADOW):
        hit = False
        for p in range(lo, hi):
            if p in SHADOW:
                hit = True
                break
    else:
        hit = any(lo <= p < hi for p in SHADOW)
    if not hit:
        return False
    n = a.dtype.itemsize
    if a.flags.c_contiguous or a.flags.f_contiguous:
        return True
    return any((p + i) in SHADOW for p in addrs(a) for i in range(n))


def keep(a):
    KEEP.append(a)
    return a


def detach(a):
    """Forget stale shadow entries in the memory of a fresh array."""
    if SHADOW and a.size and not a.dtype.hasobject:
        lo, hi = bounds(a)
        for p in range(lo, hi):
            SHADOW.pop(p, None)
    return a


# -- elements ------------------------------------------------------------------
def is_big(dt):
    import sys

    bo = dt.byteorder
    return bo == ">" or (bo == "=" and sys.byteorder == "big")


def units(dt, bs):
    """Element bytes (memory order) to its value units (ints/terms).

    numbers: [value]; complex: [re, im]; U: code units; S, V: bytes.
    """
    k = dt.kind
    if k in "biufmM":
        return [join_bytes(bs[::-1] if is_big(dt) else bs)]
    if k == "c":
        h = len(bs) // 2
        p = [bs[:h], bs[h:]]
        return [join_bytes(x[::-1] if is_big(dt) else x) for x in p]
    if k == "U":
        out = []
        for i in range(0, len(bs), 4):
            p = bs[i:i + 4]
            out.append(join_bytes(p[::-1] if is_big(dt) else p))
        return out
    return [bterm(b) for b in bs]


def ununits(dt, us):
    """The inverse of units."""
    k = dt.kind
    n = dt.itemsize
    if k in "biufmM":
        bs = split_term(us[0], n)
        return bs[::-1] if is_big(dt) else bs
    if k == "c":
        h = n // 2
        out = []
        for u in us:
            p = split_term(u, h)
            out += p[::-1] if is_big(dt) else p
        return out
    if k == "U":
        out = []
        for u in us:
            p = split_term(u, 4)
            out += p[::-1] if is_big(dt) else p
        return out
    return [bnorm(u) for u in us]


def elem(a, addr):
    return read_bytes(addr, a.dtype.itemsize)


def units_of(a):
    """Units of every element, in C order."""
    return [units(a.dtype, elem(a, p)) for p in addrs(a)]


FS = {2: z3.FPSort(5, 11), 4: z3.FPSort(8, 24), 8: z3.FPSort(11, 53)}


def asbv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def nz(v, kind, w):
    """element value != 0 as z3 Bool or bool"""
    if kind == "f":
        if isinstance(v, int):
            return (v & ((1 << (w - 1)) - 1)) != 0
        return z3.Extract(w - 2, 0, v) != 0
    if isinstance(v, int):
        return v != 0
    return v != 0


def boolbyte(c):
    if c is True or c is False:
        return int(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def bytebool(b):
    if isinstance(b, int):
        return b != 0
    # undo boolbyte
    if z3.is_app_of(b, z3.Z3_OP_ITE) and z3.is_bv_value(b.arg(1)) and z3.is_bv_value(b.arg(2)):
        if b.arg(1).as_long() == 1 and b.arg(2).as_long() == 0:
            return b.arg(0)
    return z3.simplify(b != 0)


def float_cast(v, ws, wd):
    """Bits of a float of ws bytes to bits of a float of wd bytes."""
    if ws == wd:
        return v
    if ws not in FS or wd not in FS:
        raise core.Unsupported("float width")
    if isinstance(v, int):
        s = {2: np.uint16, 4: np.uint32, 8: np.uint64}[ws](v)
        f = {2: np.float16, 4: np.float32, 8: np.float64}
        r = s.view(f[ws]).astype(f[wd])
        return int(r.view({2: np.uint16, 4: np.uint32, 8: np.uint64}[wd]))
    f = z3.fpBVToFP(v, FS[ws])
    isnan = z3.fpIsNaN(f)
    if br(isnan):
        raise core.Unsupported("width conversion of NaN")
    return z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), f, FS[wd]))


def cast(us, s, d):
    """Cast units of an element of dtype s to units for dtype d."""
    if s == d:
        return us
    sk, dk = s.kind, d.kind
    si, di = s.itemsize, d.itemsize
    if sk in "SUV" or dk in "SUV":
        if sk == dk == "S":
            return (us + [0] * di)[:di]
        if sk == dk == "U":
            return (us + [0] * (di // 4))[:di // 4]
        if sk == "S" and dk == "U":
            us = list(us)
            while us and us[-1] == 0 and isinstance(us[-1], int):
                us.pop()
            if not all(br(crange(c, 0, 127)) for c in us):
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "symbolic")
            us = [resize(c, 32) for c in us]
            return (us + [0] * (di // 4))[:di // 4]
        if sk == "U" and dk == "S":
            if not all(br(crange(c, 0, 127)) for c in us):
                raise UnicodeEncodeError("ascii", "\ud800", 0, 1, "symbolic")
            us = [resize(c, 8) for c in us]
            return (us + [0] * di)[:di]
        if sk == "V" and dk == "V":
            if s.names is None and d.names is None and s.subdtype is None and d.subdtype is None:
                return (us + [0] * di)[:di]
            return cast_struct(us, s, d)
        raise core.Unsupported(f"cast {s} to {d}")
    sw = 8 * si
    if sk == "c":
        if dk == "c":
            return [float_cast(u, si // 2, di // 2) for u in us]
        if dk == "f":
            return [float_cast(us[0], si // 2, di)]
        if dk == "b":
            return [boolbyte(cor(nz(us[0], "f", sw // 2), nz(us[1], "f", sw // 2)))]
        raise core.Unsupported(f"cast {s} to {d}")
    v = us[0]
    if dk == "b":
        return [boolbyte(bytebool(v) if sk == "b" else nz(v, sk, sw))]
    if sk in "biu":
        if sk == "b":
            v = boolbyte(bytebool(v))
        if dk in "iu":
            dw = 8 * di
            if isinstance(v, int):
                if sk == "i" and v >> (sw - 1):
                    v -= 1 << sw
                return [v & ((1 << dw) - 1)]
            if dw == sw:
                return [v]
            if dw < sw:
                return [tocode(z3.Extract(dw - 1, 0, v))]
            ext = z3.SignExt if sk == "i" else z3.ZeroExt
            return [tocode(ext(dw - sw, v))]
        if dk in "fc":
            fw = di if dk == "f" else di // 2
            if fw not in FS:
                raise core.Unsupported("float width")
            if isinstance(v, int):
                if sk == "i" and v >> (sw - 1):
                    v -= 1 << sw
                x = np.array(v).astype({2: "f2", 4: "f4", 8: "f8"}[fw])
                r = int(x.view({2: "u2", 4: "u4", 8: "u8"}[fw]))
            else:
                conv = z3.fpSignedToFP if sk == "i" else z3.fpUnsignedToFP
                r = z3.fpToIEEEBV(conv(z3.RNE(), v, FS[fw]))
            return [r] if dk == "f" else [r, 0]
    if sk == "f":
        if dk == "f":
            return [float_cast(v, si, di)]
        if dk == "c":
            return [float_cast(v, si, di // 2), 0]
    raise core.Unsupported(f"cast {s} to {d}")


def cast_struct(us, s, d):
    """Cast raw bytes of a structured element (field by position, or sub-array)."""
    bs = [bnorm(u) for u in us]
    out = [0] * d.itemsize
    if s.subdtype is not None and d.subdtype is not None:
        sb, ss = s.subdtype
        db, ds = d.subdtype
        if ss != ds:
            raise core.Unsupported("cast of sub-arrays of other shapes")
        for i in range(int(np.prod(ss))):
            p = bs[i * sb.itemsize:(i + 1) * sb.itemsize]
            out[i * db.itemsize:(i + 1) * db.itemsize] = ununits(db, cast(units(sb, p), sb, db))
    elif s.names is not None and d.names is not None and len(s.names) == len(d.names):
        for a, b in zip(s.names, d.names):
            st, so = s.fields[a][:2]
            dt, do = d.fields[b][:2]
            p = bs[so:so + st.itemsize]
            out[do:do + dt.itemsize] = ununits(dt, cast(units(st, p), st, dt))
    else:
        raise core.Unsupported(f"cast {s} to {d}")
    return [bterm(b) for b in out]


# -- Python values <-> elements -----------------------------------------------
def pyvalue(dt, us):
    """What item() gives for the element."""
    k = dt.kind
    if k == "b":
        return mkbool(bytebool(us[0]))
    if k in "iu":
        v = us[0]
        if isinstance(v, int):
            if k == "i" and v >> (8 * dt.itemsize - 1):
                v -= 1 << (8 * dt.itemsize)
            return v
        ext = z3.SignExt if k == "i" else z3.ZeroExt
        return mkint(ext(W - v.size(), v))
    if k == "f":
        t = float_cast(us[0], dt.itemsize, 8)
        return SymFloat(asbv(t, 64))
    if k == "c":
        r, i = (float_cast(u, dt.itemsize // 2, 8) for u in us)
        return SymComplex(asbv(r, 64), asbv(i, 64))
    if k == "S":
        us = list(us)
        while us and br(ceq(us[-1], 0)):
            us.pop()
        return mkbytes(us)
    if k == "U":
        us = list(us)
        while us and br(ceq(us[-1], 0)):
            us.pop()
        if not all(br(crange(c, 0, 0x10FFFF)) for c in us):
            raise ValueError("character is not in range [U+0000; U+10ffff]")
        return mkstr(us)
    raise core.Unsupported(f"item of dtype {dt}")


def scalar(dt, bs):
    """The scalar object for an element (real numpy scalar when concrete)."""
    k = dt.kind
    if k == "S":
        v = pyvalue(dt, units(dt, bs))
        return SymBytes(v.chars, np.bytes_) if isinstance(v, SymBytes) else np.bytes_(v)
    if k == "U":
        v = pyvalue(dt, units(dt, bs))
        return SymStr(v.chars, np.str_) if isinstance(v, SymStr) else np.str_(v)
    a = keep(np.zeros((), dtype=dt.newbyteorder("=") if k in "biufc" else dt))
    if k in "biufc":
        bs = ununits(a.dtype, units(dt, bs))
    if all(isinstance(b, int) for b in bs):
        write_bytes(base_addr(a), bs)
        return a[()]
    write_bytes(base_addr(a), bs)
    return SymScalar(a)


def value_units(v, dt):
    """Units of a (symbolic or not) Python/numpy value stored as dtype dt."""
    k = dt.kind
    if isinstance(v, SymScalar):
        return cast(units(v.a.dtype, elem(v.a, base_addr(v.a))), v.a.dtype, dt)
    if isinstance(v, SymBool):
        b = np.dtype("bool")
        return cast([boolbyte(v.t)], b, dt)
    if isinstance(v, SymInt):
        if k == "b":
            return [boolbyte(v.t != 0)]
        if k in "iu":
            n = 8 * dt.itemsize
            t = v.t
            lim = 64
            if k == "i" or True:
                # numpy converts through C long (or unsigned long long for u8)
                if dt == np.dtype("u8"):
                    ok = z3.And(t >= -(1 << 63), t < (1 << 64))
                else:
                    ok = z3.And(t >= -(1 << 63), t < (1 << 63))
                if not br(ok):
                    raise OverflowError("Python int too large to convert to C long")
            return [tocode(z3.Extract(n - 1, 0, t))]
        if k == "f" and dt.itemsize in FS:
            return [z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), v.t, FS[dt.itemsize]))]
        if k == "c":
            return [z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), v.t, FS[dt.itemsize // 2])), 0]
        raise core.Unsupported(f"int into {dt}")
    if isinstance(v, SymFloat):
        return cast([v.t], np.dtype("f8"), dt)
    if isinstance(v, SymComplex):
        return cast([v.re, v.im], np.dtype("c16"), dt)
    if isinstance(v, SymStr):
        return cast(list(v.chars), np.dtype("U%d" % len(v.chars)), dt)
    if isinstance(v, SymBytes):
        return cast(list(v.chars), np.dtype("S%d" % len(v.chars)), dt)
    if isinstance(v, np.ndarray) and shadowed(v):
        if v.size != 1:
            raise ValueError("setting an array element with a sequence.")
        return cast(units(v.dtype, elem(v, addrs(v)[0])), v.dtype, dt)
    if isinstance(v, tuple) and dt.names is not None:
        if len(v) != len(dt.names):
            raise ValueError("could not assign tuple")
        bs = [0] * dt.itemsize
        for n, x in zip(dt.names, v):
            ft, off = dt.fields[n][:2]
            if ft.hasobject:
                raise core.Unsupported("object field with symbolic siblings")
            if ft.subdtype is not None:
                t = np.zeros((), dtype=[("f", ft)])
                setitem(t["f"], Ellipsis, x)
                fb = read_bytes(base_addr(t), ft.itemsize)
                keep(t)
            else:
                fb = ununits(ft, value_units(x, ft))
            bs[off:off + ft.itemsize] = fb
        return [bterm(b) for b in bs]
    # concrete
    t = np.zeros((), dtype=dt)
    t[()] = v
    return units(dt, list(t.tobytes()))


def is_sym(v):
    """Is the value symbolic (shallow)?"""
    if isinstance(v, Sym):
        return True
    if isinstance(v, np.ndarray):
        return shadowed(v)
    return False


def idx_array(a):
    return np.arange(a.size, dtype=np.int64).reshape(a.shape)


def moves(a, op):
    """Apply an operation that only moves elements; carry the shadow along."""
    r = op(a)
    if not isinstance(r, np.ndarray):
        raise core.Unsupported("move operation with a scalar result")
    if np.may_share_memory(r, a) and r.size and a.size:
        return r
    if r.dtype != a.dtype or not shadowed(a):
        if r.dtype != a.dtype:
            raise core.Unsupported("move operation that changes the dtype")
        return r
    ia = np.asarray(op(np.asarray(idx_array(a))))
    copy_shadow(a, r, ia.ravel())
    return r


def copy_shadow(a, r, src):
    """r's element i (C order) is a's element src[i]; copy the shadow."""
    keep(r)
    ra, aa = addrs(r), addrs(a)
    n = a.dtype.itemsize
    for i, s in enumerate(src):
        p, q = ra[i], aa[int(s)]
        for j in range(n):
            b = SHADOW.get(q + j)
            if b is None:
                SHADOW.pop(p + j, None)
            else:
                SHADOW[p + j] = b


def getitem(a, idx):
    """a[idx] for a real array that may have a shadow."""
    idx = conc_index(idx)
    r = a[idx]
    if not shadowed(a):
        return r
    if isinstance(r, np.ndarray):
        if r.size == 0 or r.nbytes == 0:
            return r
        if np.may_share_memory(r, a):
            return r
        if isinstance(a, np.matrix) or type(a).__name__ == "chararray":
            b = a.view(np.ndarray)
            x = b[idx]
            if np.may_share_memory(x, a):
                raise core.Unsupported("indexing of an array subclass")
        ia = idx_array(a)[idx]
        if r.dtype != a.dtype:
            raise core.Unsupported("copying index with another dtype")
        copy_shadow(a, r, np.asarray(ia).ravel())
        return r
    if isinstance(r, np.void) and a.ndim == 0 and isinstance(idx, (str, list)):
        raise core.Unsupported("field of 0-d structured array")
    # scalar
    if isinstance(idx, str) or (isinstance(idx, tuple) and any(isinstance(x, str) for x in idx)):
        raise core.Unsupported("scalar field index")
    i = idx_array(a)[idx]
    p = addrs(a)[int(i)]
    bs = elem(a, p)
    if all(isinstance(b, int) for b in bs):
        return r
    return scalar(a.dtype, bs)


def conc_index(idx):
    if isinstance(idx, (SymInt, SymBool)):
        return idx.__index__()
    if isinstance(idx, SymScalar):
        return idx.item().__index__()
    if isinstance(idx, tuple):
        return tuple(conc_index(x) for x in idx)
    if isinstance(idx, slice):
        return slice(*[conc_index(x) for x in (idx.start, idx.stop, idx.step)])
    if isinstance(idx, np.ndarray) and shadowed(idx):
        if idx.dtype.kind == "b":
            out = np.zeros(idx.shape, bool)
            for i, u in enumerate(units_of(idx)):
                out.flat[i] = br(zb(bytebool(u[0])))
            return out
        raise core.Unsupported("symbolic index array")
    if isinstance(idx, Sym):
        raise core.Unsupported("symbolic index")
    return idx


def zb(x):
    return x


def store(addr, dt, v):
    write_bytes(addr, ununits(dt, value_units(v, dt)))


def setitem(a, idx, v):
    """a[idx] = v with symbolic parts in a or v."""
    idx = conc_index(idx)
    if a.dtype.hasobject and a.dtype.names is None:
        set_object(a, idx, v)
        return
    if a.dtype.names is not None and a.dtype.hasobject:
        if isinstance(idx, str):
            setitem(a[idx], Ellipsis, v)
            return
        if any_sym(v):
            if isinstance(v, np.ndarray) and v.dtype == a.dtype:
                ia = np.asarray(idx_array(a)[idx])
                s = np.broadcast_to(idx_array(v), ia.shape).ravel()
                for n in a.dtype.names:
                    ft, fv = a[n], v[n]
                    for i, j in zip(ia.ravel(), s):
                        at, by = np.unravel_index(int(i), a.shape), np.unravel_index(int(j), v.shape)
                        if a.dtype[n].base == object:
                            x = fv[by + (Ellipsis,)]
                            fill(ft, np.asarray(idx_array(ft)[at]).ravel(), [x[k] for k in np.ndindex(x.shape)])
                        else:
                            setitem(ft, at, fv[by + (Ellipsis,)])
                return
            raise core.Unsupported("assignment into structured object array")
        a[idx] = v
        return
    symv = any_sym(v)
    if not symv and not shadowed(a):
        a[idx] = v
        return
    keep(a)
    if isinstance(idx, str) or (isinstance(idx, list) and idx and isinstance(idx[0], str)):
        t = a[idx]
        setitem(t, Ellipsis, v)
        return
    # the addresses that are assigned
    ia = np.asarray(idx_array(a)[idx])
    sub = a.dtype.subdtype
    targets = [addrs(a)[int(i)] for i in ia.ravel()]
    if not targets:
        return
    src = v
    if isinstance(v, (SymScalar,)):
        src = v.a
    if isinstance(src, (list, tuple)) and a.dtype.names is None:
        src = make_array(src, None)
    if isinstance(src, np.ndarray):
        if src.dtype.hasobject:
            raise core.Unsupported("object array into another")
        bshape = np.broadcast_shapes(ia.shape, src.shape)
        if int(np.prod(bshape)) != len(targets):
            # numpy allows leading ones in the source
            s2 = src
            while s2.ndim > ia.ndim and s2.shape[0] == 1:
                s2 = s2[0]
            src = s2
        sidx = np.broadcast_to(idx_array(src), ia.shape).ravel()
        sa = addrs(src)
        vals = [ununits(a.dtype, cast(units(src.dtype, elem(src, sa[int(i)])), src.dtype, a.dtype))
                for i in sidx]
    else:
        u = ununits(a.dtype, value_units(src, a.dtype))
        vals = [u] * len(targets)
    for p, b in zip(targets, vals):
        write_bytes(p, b)


def any_sym(v, depth=6):
    if isinstance(v, Sym):
        return True
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            if depth <= 0:
                return False
            if v.dtype.names is not None:
                return any(any_sym(v[n], depth - 1) for n in v.dtype.names)
            return any(any_sym(x, depth - 1) for x in v.flat)
        return shadowed(v)
    if depth > 0:
        if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
            return any(any_sym(x, depth - 1) for x in v)
        if isinstance(v, dict):
            return any(any_sym(k, depth - 1) or any_sym(x, depth - 1) for k, x in v.items())
        if isinstance(v, slice):
            return any(isinstance(x, Sym) for x in (v.start, v.stop, v.step))
        if isinstance(v, collections.ChainMap):
            return any(any_sym(m, depth - 1) for m in v.maps)
    return False


class Box:
    """Hides a value from numpy's sequence discovery."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def box(v, nd):
    """Replace symbolic scalars by boxes in nested lists to depth nd."""
    if isinstance(v, Sym):
        return Box(v)
    if isinstance(v, (list, tuple)) and nd > 0:
        r = [box(x, nd - 1) for x in v]
        return r if isinstance(v, list) else tuple(r)
    return v


def unbox(a):
    for i, x in np.ndenumerate(a):
        if isinstance(x, Box):
            a[i] = x.v
        elif isinstance(x, (list, tuple)):
            a[i] = unbox_seq(x)


def unbox_seq(v):
    if isinstance(v, Box):
        return v.v
    if isinstance(v, list):
        return [unbox_seq(x) for x in v]
    if type(v) is tuple:
        return tuple(unbox_seq(x) for x in v)
    return v


def has_box(v):
    if isinstance(v, Box):
        return True
    if isinstance(v, (list, tuple)):
        return any(has_box(x) for x in v)
    return False


def set_object(a, idx, v):
    """Assignment into an object array (elements are references)."""
    if not any_sym(v):
        a[idx] = v
        return
    if isinstance(v, Sym):
        tmp = np.empty((), object)
        tmp[()] = Box(v)
        t = a[idx] if not isinstance(idx, tuple) or len(idx) else None
        if isinstance(t, np.ndarray) and not (isinstance(idx, int)):
            # broadcasting assignment to a sub-array, or replacing one element
            ia = idx_array(a)[idx]
            if isinstance(ia, np.ndarray) and ia.ndim:
                fill(a, ia.ravel(), [v] * ia.size)
                return
        a[idx] = Box(v)
        fix_boxes(a)
        return
    if isinstance(v, (list, tuple)):
        whole = idx if isinstance(idx, tuple) else (idx,)
        if a.ndim and len(whole) == a.ndim and all(type(x) is int for x in whole):
            a[idx] = v  # one element, which is stored as it is
            return
        a[idx] = box(v, a.ndim + 1)
        fix_boxes(a)
        return
    if isinstance(v, np.ndarray) and not v.dtype.hasobject:
        ia = idx_array(a)[idx]
        if np.ndim(ia) == 0:
            a[idx] = v
        else:
            s = np.broadcast_to(idx_array(v), np.shape(ia)).ravel()
            ad = addrs(v)
            fill(a, ia.ravel(), [pyvalue(v.dtype, units(v.dtype, elem(v, ad[int(i)]))) for i in s])
        return
    a[idx] = v


def pyscalar_or(x):
    if isinstance(x, SymScalar) and x.a.dtype.kind in "biufc":
        return x.item()
    return x


def fill(a, flat_idx, vals):
    for i, v in zip(flat_idx, vals):
        a[np.unravel_index(int(i), a.shape)] = Box(v)
    fix_boxes(a)


def fix_boxes(a):
    # object arrays: elements assigned through a one element wrapper so that
    # numpy does not look into them
    for i in np.ndindex(a.shape):
        x = a[i] if a.ndim else a[()]
        if isinstance(x, Box):
            put_at(a, i, x.v)
        elif isinstance(x, (list, tuple)) and has_box(x):
            put_at(a, i, unbox_seq(x))


def put_at(a, i, v):
    """a[i] = v for an object array and a full integer index."""
    if a.ndim == 0:
        a.reshape(1)[0] = v
    else:
        a[i] = v


# -- scalars ---------------------------------------------------------------------
class SymScalar(Sym):
    """A numpy scalar (np.generic) with symbolic contents, as a 0-d array."""

    __slots__ = ("a",)

    def __init__(self, a):
        object.__setattr__(self, "a", a)

    @property
    def dtype(self):
        return self.a.dtype

    shape = ()
    ndim = 0
    size = 1

    @property
    def nbytes(self):
        return self.a.nbytes

    @property
    def itemsize(self):
        return self.a.itemsize

    @property
    def T(self):
        return self

    @property
    def flat(self):
        from . import npm

        return npm.SymFlat(self.a)

    @property
    def data(self):
        return self.a.data

    @property
    def strides(self):
        return ()

    @property
    def flags(self):
        return self.a.flags

    @property
    def units(self):
        return units(self.a.dtype, elem(self.a, base_addr(self.a)))

    def item(self, *args):
        return pyvalue(self.a.dtype, self.units)

    def tolist(self):
        return self.item()

    def __bool__(self):
        k = self.a.dtype.kind
        if k == "b":
            return br(bytebool(self.units[0]))
        if k in "iuf":
            return br(nz(self.units[0], k, 8 * self.a.itemsize))
        return bool(self.item())

    def __index__(self):
        return self.item().__index__()

    def __int__(self):
        return self.item().__int__()

    def __len__(self):
        if self.a.dtype.names is None:
            raise TypeError("object of type 'numpy scalar' has no len()")
        return len(self.a.dtype.names)

    def __getitem__(self, i):
        if self.a.dtype.names is not None:
            if isinstance(i, int):
                i = self.a.dtype.names[i]
            if isinstance(i, str):
                v = self.a[i]
                if isinstance(v, np.ndarray):
                    return field_value(v)
                return v
        if i == () :
            return self
        if i is Ellipsis:
            return self.a
        raise TypeError("invalid index to scalar variable.")

    def __setitem__(self, i, v):
        if self.a.dtype.names is not None:
            setitem(self.a[i], Ellipsis, v)
            return
        raise TypeError("numpy scalar does not support item assignment")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import npm

        return npm.scalar_attr(self, name)

    def _bin(self, o, op):
        from . import npm

        return npm.binop(op, self, o)

    def __eq__(self, o):
        from . import npm

        return npm.compare("==", self, o)

    def __ne__(self, o):
        from . import npm

        return npm.compare("!=", self, o)

    def __lt__(self, o):
        from . import npm

        return npm.compare("<", self, o)

    def __le__(self, o):
        from . import npm

        return npm.compare("<=", self, o)

    def __gt__(self, o):
        from . import npm

        return npm.compare(">", self, o)

    def __ge__(self, o):
        from . import npm

        return npm.compare(">=", self, o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"<SymScalar {self.a.dtype}>"


def field_value(v):
    """Field of a void scalar: an array for sub-arrays, otherwise a scalar."""
    if v.ndim:
        return v
    bs = elem(v, base_addr(v))
    if v.dtype.hasobject:
        return v[()]
    if all(isinstance(b, int) for b in bs):
        return v[()]
    return scalar(v.dtype, bs)


def to_array(x):
    """A real array (with shadow) of a numpy or symbolic scalar or array."""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, SymScalar):
        return x.a
    if isinstance(x, SymStr):
        n = max(len(x.chars), 1)
        a = keep(np.zeros((), dtype="U%d" % n))
        store(base_addr(a), a.dtype, x)
        return a
    if isinstance(x, SymBytes):
        n = max(len(x.chars), 1)
        a = keep(np.zeros((), dtype="S%d" % n))
        store(base_addr(a), a.dtype, x)
        return a
    if isinstance(x, SymBool):
        a = keep(np.zeros((), dtype="bool"))
    elif isinstance(x, SymInt):
        if br(z3.And(x.t >= -(1 << 63), x.t < (1 << 63))):
            a = keep(np.zeros((), dtype="int64"))
        elif br(z3.And(x.t >= 0, x.t < (1 << 64))):
            a = keep(np.zeros((), dtype="uint64"))
        else:
            a = np.zeros((), dtype=object)
            a[()] = x
            return a
    elif isinstance(x, SymFloat):
        a = keep(np.zeros((), dtype="float64"))
    elif isinstance(x, SymComplex):
        a = keep(np.zeros((), dtype="complex128"))
    else:
        return np.asarray(x)
    store(base_addr(a), a.dtype, x)
    return a


def strscalar_attr(s, name):
    """Attribute of a symbolic np.str_/np.bytes_."""
    n = len(s.chars)
    w = 4 if isinstance(s, SymStr) else 1
    if name == "dtype":
        return np.dtype(("U%d" if w == 4 else "S%d") % n)
    if name == "nbytes":
        return w * n
    if name == "itemsize":
        return w * n
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name == "T":
        return s
    if name == "item":
        return lambda *a: (mkstr if w == 4 else mkbytes)(list(s.chars))
    if name == "tolist":
        return lambda *a: (mkstr if w == 4 else mkbytes)(list(s.chars))
    if name == "tobytes":
        if w == 1:
            return lambda *a: mkbytes(list(s.chars))
        return lambda *a: mkbytes([bterm(b) for b in ununits(np.dtype("U%d" % n), s.chars)])
    from . import npm

    if name == "flat":
        return npm.SymFlat(to_array(s))
    if name in ("decode", "encode"):
        return NotImplemented
    return npm.scalar_attr_array(to_array(s), name)


def make_array(v, dtype=None):
    """np.array(v, dtype) of nested lists/tuples/scalars with symbolic leaves."""
    if isinstance(v, np.ndarray) or isinstance(v, Sym):
        a = to_array(v)
        if dtype is None or np.dtype(dtype) == a.dtype:
            r = np.array(a)
            if a.dtype.hasobject:
                return r
            copy_shadow(a, r, range(a.size))
            return r
        return astype(a, np.dtype(dtype))
    dt = None if dtype is None else np.dtype(dtype)
    if dt is not None and dt.hasobject and dt.names is None:
        b = box(v, 32)
        a = np.array(b, dtype=dt)
        fix_boxes(a)
        return a
    # leaves
    def shape_of(x):
        if isinstance(x, (list, tuple)) and not (dt is not None and dt.names and isinstance(x, tuple)):
            if not x:
                return (0,)
            ss = {shape_of(y) for y in x}
            if len(ss) != 1:
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            return (len(x),) + ss.pop()
        if isinstance(x, np.ndarray):
            return x.shape
        return ()

    shape = shape_of(v)
    leaves = []

    def walk(x):
        if isinstance(x, (list, tuple)) and not (dt is not None and dt.names and isinstance(x, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, np.ndarray):
            for p in addrs(x):
                bs = elem(x, p)
                leaves.append(scalar(x.dtype, bs))
        else:
            leaves.append(x)

    walk(v)
    if dt is None or (dt.kind in "SU" and dt.itemsize == 0):
        arrs = [to_array(x) for x in leaves]
        if any(x.dtype.hasobject for x in arrs):
            raise core.Unsupported("array of mixed objects")
        rt = np.result_type(*[x.dtype for x in arrs]) if arrs else np.dtype("f8")
        if dt is not None:
            if rt.kind != dt.kind:
                n = max([x.dtype.itemsize // (4 if x.dtype.kind == "U" else 1) for x in arrs])
                rt = np.dtype("%s%d" % (dt.kind, n))
        dt = rt
    a = keep(np.zeros(shape, dtype=dt))
    for p, x in zip(addrs(a), leaves):
        store(p, dt, x)
    return a


def astype(a, dt, copy=True):
    dt = np.dtype(dt)
    if dt.kind in "SU" and dt.itemsize == 0:
        if a.dtype.kind in "SU":
            n = a.dtype.itemsize // (4 if a.dtype.kind == "U" else 1)
            dt = np.dtype("%s%d" % (dt.kind, n))
        else:
            raise core.Unsupported("numbers to text")
    if dt.hasobject:
        r = np.zeros(a.shape, dtype=dt)
        if dt.names is not None:
            raise core.Unsupported("astype to structured object")
        fill(r, range(a.size), [pyvalue(a.dtype, u) for u in units_of(a)])
        return r
    if dt == a.dtype and not copy:
        return a
    r = a.astype(dt)   # geometry (order, subclass)
    detach(keep(r))
    src = units_of(a)
    for p, u in zip(addrs(r), src):
        write_bytes(p, ununits(dt, cast(u, a.dtype, dt)))
    return r


def byteswap(a, inplace=False):
    r = a if inplace else moves(a, lambda x: x.copy())
    k = r.dtype.kind
    if r.dtype.names is not None or k not in "biufcUS":
        raise core.Unsupported("byteswap of " + str(r.dtype))
    n = r.dtype.itemsize
    g = {"c": n // 2, "U": 4, "S": 1}.get(k, n)
    keep(r)
    for p in addrs(r):
        bs = read_bytes(p, n)
        out = []
        for i in range(0, n, g):
            out += bs[i:i + g][::-1]
        write_bytes(p, out)
    return r


def tobytes(a, order="C"):
    if order not in ("C", None):
        a = a.T
    out = []
    for p in addrs(a):
        out += [bterm(b) for b in elem(a, p)]
    return mkbytes(out)


def from_codes(dt, shape, rows):
    """New array of dtype/shape whose elements have the given units."""
    a = keep(np.zeros(shape, dtype=dt))
    detach(a)
    for p, us in zip(addrs(a), rows):
        write_bytes(p, ununits(a.dtype, us))
    return a
