"""Models of the numpy functions and methods that see symbolic contents."""
import operator

import numpy as np
import z3

from . import arr, core
from .arr import (SymScalar, addrs, any_sym, astype, base_addr, bytebool, boolbyte, cast, elem,
                  from_codes, getitem, idx_array, is_sym, keep, make_array, moves, pyvalue,
                  scalar, setitem, shadowed, to_array, units, units_of, ununits, write_bytes)
from .strs import (SymBytes, SymStr, cand, ceq, cnot, cor, crange, decode, encode, mkbytes, mkstr)
from .terms import (SymBool, SymComplex, SymFloat, SymInt, and_, br, mkbool, not_, or_)


def wrap(a):
    """A 0-d result becomes a scalar, as in numpy."""
    if isinstance(a, np.ndarray) and a.ndim == 0 and not a.dtype.hasobject:
        return scalar(a.dtype, elem(a, base_addr(a)))
    return a


class SymFlat:
    """ndarray.flat of an array with symbolic contents."""

    def __init__(self, a):
        self.a = a
        self.i = 0

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= self.a.size:
            raise StopIteration
        v = self[self.i]
        self.i += 1
        return v

    def __getitem__(self, i):
        a = self.a
        i = arr.conc_index(i)
        if isinstance(i, (int, np.integer)):
            n = int(i)
            if n < 0:
                n += a.size
            if not 0 <= n < a.size:
                raise IndexError(f"index {i} is out of bounds for size {a.size}")
            p = addrs(a)[n]
            if a.dtype.hasobject and a.dtype.names is None:
                return a.flat[n]
            bs = elem(a, p)
            if a.dtype.names is not None or all(isinstance(b, int) for b in bs):
                if a.dtype.names is None or not any_struct(a, p):
                    return a.flat[n]
            if a.dtype.names is not None:
                return void_ref(a, n)
            return scalar(a.dtype, bs)
        return getitem(moves(a, lambda x: x.flatten()), i)

    def __setitem__(self, i, v):
        a = self.a
        i = arr.conc_index(i)
        ix = np.arange(a.size)[i]
        if np.ndim(ix) == 0:
            setitem(a, np.unravel_index(int(ix), a.shape), v)
        else:
            for k, j in enumerate(ix):
                vv = v
                if isinstance(v, (list, tuple, np.ndarray)):
                    vv = v[k % len(v)]
                setitem(a, np.unravel_index(int(j), a.shape), vv)

    def copy(self):
        return moves(self.a, lambda x: x.flatten())


def any_struct(a, p):
    return any(not isinstance(b, int) for b in elem(a, p))


def void_ref(a, n):
    """np.void scalar that refers to the array's memory, as numpy's do."""
    ix = np.unravel_index(n, a.shape) if a.ndim else ()
    v = a[ix + (Ellipsis,)]
    return SymScalar(np.asarray(v))


# -- attributes -----------------------------------------------------------------
ARR_ATTR_NATIVE = {"shape", "dtype", "ndim", "size", "nbytes", "itemsize", "strides", "flags",
                   "T", "base", "data", "ctypes", "__array_interface__", "__class__"}


def array_attr(a, name):
    """Attribute of an array with a shadow."""
    if name == "flat":
        return SymFlat(a)
    if name in ("real", "imag"):
        if a.dtype.kind == "c":
            return getattr(a, name)
        if name == "real":
            return a
        r = np.zeros(a.shape, dtype=a.dtype)
        return r
    if a.dtype.names and name in a.dtype.names and isinstance(a, np.recarray):
        return getattr(a, name)
    return getattr(a, name)


def scalar_attr_array(a, name):
    m = getattr(a, name)   # AttributeError when there is none
    if callable(m):
        return lambda *args, **kw: wrap_view(array_method(a, name, args, kw))
    if name in ("real", "imag"):
        return wrap(array_attr(a, name))
    return m


def wrap_view(r):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return wrap(r)
    return r


def scalar_attr(s, name):
    a = s.a
    if name == "view":
        def view(*args, **kw):
            if arr.any_sym(args) or arr.any_sym(kw):
                raise core.Unsupported("symbolic arguments of view")
            r = a.view(*args, **kw)
            return SymScalar(r) if r.ndim == 0 else r
        return view
    if name in ("tobytes",):
        return lambda *args: arr.tobytes(a)
    if name in ("copy", "astype", "byteswap", "reshape", "ravel", "flatten", "squeeze",
                "transpose", "all", "any", "newbyteorder"):
        return lambda *args, **kw: wrap_view(array_method(a, name, args, kw))
    return scalar_attr_array(a, name)


# -- methods ----------------------------------------------------------------------
MOVES = {"copy", "ravel", "flatten", "reshape", "transpose", "squeeze", "swapaxes", "repeat",
         "take", "diagonal", "compress"}
VIEWS = {"view", "newbyteorder", "getfield", "setflags"}


def array_method(a, name, args, kw):
    """a.name(*args, **kw) where a has symbolic contents."""
    if name in VIEWS:
        args = tuple(arr.conc_index(x) if not isinstance(x, (list, tuple)) else x for x in args)
        if arr.any_sym(args) or arr.any_sym(kw):
            raise core.Unsupported("symbolic arguments of " + name)
        r = getattr(a, name)(*args, **kw)
        if isinstance(r, np.ndarray) and not np.may_share_memory(r, a) and r.size:
            raise core.Unsupported("view that copies")
        return r
    if name in MOVES:
        return moves(a, lambda x: getattr(x, name)(*args, **kw) if not (
            type(x) is not type(a)) else getattr(x, name)(*args, **kw))
    if name == "astype":
        dt = args[0] if args else kw["dtype"]
        return astype(a, dt, kw.get("copy", True))
    if name == "byteswap":
        return arr.byteswap(a, *args, **kw)
    if name in ("tobytes", "tostring"):
        return arr.tobytes(a, *args, **kw)
    if name == "item":
        if args:
            i = args if len(args) > 1 else args[0]
            if isinstance(i, tuple):
                v = getitem(a, i)
            else:
                v = SymFlat(a)[i]
            return v.item()
        if a.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        v = SymFlat(a)[0]
        return v.item()
    if name == "tolist":
        if a.ndim == 0:
            return SymFlat(a)[0].item()
        return [tolist(getitem(a, i)) for i in range(len(a))]
    if name in ("all", "any"):
        if args or kw:
            raise core.Unsupported(name + " with an axis")
        return reduce_bool(a, name)
    if name == "fill":
        setitem(a, Ellipsis, args[0])
        return None
    if name in ("__getitem__",):
        return getitem(a, args[0])
    if name in ("__setitem__",):
        return setitem(a, *args)
    if name in ("decode", "encode") and isinstance(a, np.chararray):
        return char_code(a, name, *args, **kw).view(np.chararray)
    if name == "itemset":
        if len(args) == 1:
            SymFlat(a)[0] = args[0]
        else:
            setitem(a, args[0], args[1])
        return None
    if name in ("sum", "prod", "max", "min") and not args and not kw:
        return reduce_arith(a, name)
    if name in ("conj", "conjugate") and a.dtype.kind in "biuf":
        return moves(a, lambda x: x.copy())
    raise core.Unsupported("ndarray." + name)


def tolist(x):
    if isinstance(x, np.ndarray):
        return array_method(x, "tolist", (), {}) if shadowed(x) else x.tolist()
    if isinstance(x, (SymScalar,)):
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def truth(dt, us):
    k = dt.kind
    if k == "b":
        return bytebool(us[0])
    if k in "iuf":
        return arr.nz(us[0], k, 8 * dt.itemsize)
    if k == "c":
        return cor(*[arr.nz(u, "f", 4 * dt.itemsize) for u in us])
    if k in "SU":
        return cor(*[cnot(ceq(u, 0)) for u in us])
    raise core.Unsupported("truth of " + str(dt))


def reduce_bool(a, name):
    ts = [truth(a.dtype, u) for u in units_of(a)]
    t = cand(*ts) if name == "all" else cor(*ts)
    r = mkbool(t) if not isinstance(t, bool) else t
    if isinstance(r, SymBool):
        return SymBool(r.t, True)
    return np.bool_(r)


def reduce_arith(a, name):
    if a.dtype.kind in "SU" and name in ("sum", "prod"):
        return getattr(np, name)(np.zeros(a.shape, a.dtype))
    if a.dtype.kind not in "iu":
        raise core.Unsupported(name + " of " + str(a.dtype))
    vs = [pyvalue(a.dtype, u) for u in units_of(a)]
    acc = vs[0]
    for v in vs[1:]:
        if name == "sum":
            acc = acc + v
        elif name == "prod":
            acc = acc * v
        else:
            c = (v > acc) if name == "max" else (v < acc)
            acc = v if c else acc
    dt = a.dtype if name in ("max", "min") else np.dtype(a.dtype.kind + "8")
    t = keep(np.zeros((), dtype=dt))
    if isinstance(acc, int):
        return np.array(acc).astype(dt)[()]
    write_bytes(base_addr(t), ununits(dt, [arr.tocode(z3.Extract(8 * dt.itemsize - 1, 0, acc.t))]))
    return scalar(dt, elem(t, base_addr(t)))


# -- comparison and arithmetic ----------------------------------------------------
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
       ">": operator.gt, ">=": operator.ge}


def cmp_units(op, da, ua, db, ub):
    """Comparison of two elements, z3 Bool or bool."""
    ka, kb = da.kind, db.kind
    if ka in "SU" or kb in "SU":
        if ka != kb:
            if op == "==":
                return False
            if op == "!=":
                return True
            raise TypeError("comparison of text with something else")
        n = max(len(ua), len(ub))
        a = list(ua) + [0] * (n - len(ua))
        b = list(ub) + [0] * (n - len(ub))
        e = cand(*[ceq(x, y) for x, y in zip(a, b)])
        if op == "==":
            return e
        if op == "!=":
            return cnot(e)
        raise core.Unsupported("ordering of text arrays")
    if ka == "V" or kb == "V":
        raise core.Unsupported("comparison of structured arrays")
    if ka == "c" or kb == "c":
        if op not in ("==", "!="):
            raise core.Unsupported("ordering of complex")
        ct = np.dtype("c16")
        x, y = cast(ua, da, ct), cast(ub, db, ct)
        e = cand(*[fcmp("==", p, q) for p, q in zip(x, y)])
        return e if op == "==" else cnot(e)
    if ka == "f" or kb == "f":
        if ka == kb == "f" and da.itemsize == db.itemsize:
            return fcmp(op, ua[0], ub[0], da.itemsize)
        ft = np.dtype("f8")
        return fcmp(op, cast(ua, da, ft)[0], cast(ub, db, ft)[0])
    x, y = pyvalue(da, ua), pyvalue(db, ub)
    r = OPS[op](x, y)
    return r.t if isinstance(r, SymBool) else bool(r)


def fcmp(op, a, b, n=8):
    fa = z3.fpBVToFP(arr.asbv(a, 8 * n), arr.FS[n])
    fb = z3.fpBVToFP(arr.asbv(b, 8 * n), arr.FS[n])
    f = {"==": z3.fpEQ, "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}
    if op == "!=":
        return z3.Not(z3.fpEQ(fa, fb))
    return f[op](fa, fb)


def operand(x):
    if isinstance(x, (list, tuple)):
        return make_array(x)
    return to_array(x)


def weak(x, other):
    """Python scalars adapt to the array's dtype (numpy 1.x value based casting)."""
    return x


def compare(op, a, b):
    if a is None or b is None or isinstance(a, (dict, type)) or isinstance(b, (dict, type)):
        if op == "==":
            return False
        if op == "!=":
            return True
    x, y = operand(a), operand(b)
    if x.dtype.hasobject or y.dtype.hasobject:
        return compare_obj(op, x, y)
    try:
        shape = np.broadcast_shapes(x.shape, y.shape)
    except ValueError:
        if op == "==":
            return np.False_
        if op == "!=":
            return np.True_
        raise
    if x.dtype.names or y.dtype.names:
        if op not in ("==", "!=") or x.dtype.names != y.dtype.names:
            raise core.Unsupported("comparison of structured arrays")
        res = None
        for n in x.dtype.names:
            c = compare("==", x[n], y[n])
            res = c if res is None else logical("and", res, c)
        return res if op == "==" else logical_not(res)
    ux, uy = units_of(x), units_of(y)
    ix = np.broadcast_to(idx_array(x), shape).ravel()
    iy = np.broadcast_to(idx_array(y), shape).ravel()
    out = [cmp_units(op, x.dtype, ux[int(i)], y.dtype, uy[int(j)]) for i, j in zip(ix, iy)]
    if shape == ():
        r = mkbool(out[0]) if not isinstance(out[0], bool) else out[0]
        return SymBool(r.t, True) if isinstance(r, SymBool) else np.bool_(r)
    return from_codes(np.dtype("bool"), shape, [[boolbyte(c)] for c in out])


def compare_obj(op, x, y):
    shape = np.broadcast_shapes(x.shape, y.shape)
    bx, by = np.broadcast_to(x, shape), np.broadcast_to(y, shape)
    out = []
    for i in np.ndindex(shape):
        r = OPS[op](bx[i], by[i])
        if isinstance(r, SymBool):
            out.append(r.t)
        else:
            out.append(bool(r))
    if shape == ():
        return mkbool(out[0]) if not isinstance(out[0], bool) else np.bool_(out[0])
    return from_codes(np.dtype("bool"), shape, [[boolbyte(c)] for c in out])


def logical(op, a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        a = bool(a) if isinstance(a, np.bool_) else a
        b = bool(b) if isinstance(b, np.bool_) else b
        return and_(a, b) if op == "and" else or_(a, b)
    x, y = operand(a), operand(b)
    shape = np.broadcast_shapes(x.shape, y.shape)
    ux, uy = units_of(x), units_of(y)
    ix = np.broadcast_to(idx_array(x), shape).ravel()
    iy = np.broadcast_to(idx_array(y), shape).ravel()
    f = cand if op == "and" else cor
    out = [[boolbyte(f(truth(x.dtype, ux[int(i)]), truth(y.dtype, uy[int(j)])))]
           for i, j in zip(ix, iy)]
    return wrap(from_codes(np.dtype("bool"), shape, out))


def logical_not(a):
    if isinstance(a, (bool, SymBool)):
        return not_(a)
    x = operand(a)
    return wrap(from_codes(np.dtype("bool"), x.shape,
                           [[boolbyte(cnot(truth(x.dtype, u)))] for u in units_of(x)]))


BITOPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
          "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}


def binop(op, a, b):
    """Elementwise integer/bool arithmetic with symbolic contents."""
    if op not in BITOPS:
        raise core.Unsupported("array operator " + op)
    pa = isinstance(a, (int, SymInt)) and not isinstance(a, bool)
    pb = isinstance(b, (int, SymInt)) and not isinstance(b, bool)
    x, y = operand(a), operand(b)
    if x.dtype.kind == "b" and y.dtype.kind == "b":
        if op in "&|":
            return logical("and" if op == "&" else "or", x, y)
        if op == "^":
            r = compare("!=", x, y)
            return r
        raise core.Unsupported("bool array arithmetic")
    if x.dtype.kind not in "iu" or y.dtype.kind not in "iu":
        raise core.Unsupported("array operator %s on %s, %s" % (op, x.dtype, y.dtype))
    # numpy 1.x value based promotion: only decided for concrete Python ints
    if (pa and isinstance(a, SymInt)) or (pb and isinstance(b, SymInt)):
        raise core.Unsupported("array arithmetic with a symbolic Python int")
    rt = (OPN[op](np.zeros(x.shape, x.dtype) if not pa else a,
                  np.zeros(y.shape, y.dtype) if not pb else b))
    dt = np.asarray(rt).dtype
    shape = np.shape(rt)
    ux, uy = units_of(x), units_of(y)
    ix = np.broadcast_to(idx_array(x), shape).ravel()
    iy = np.broadcast_to(idx_array(y), shape).ravel()
    w = 8 * dt.itemsize
    rows = []
    for i, j in zip(ix, iy):
        p = arr.asbv(cast(ux[int(i)], x.dtype, dt)[0], w)
        q = arr.asbv(cast(uy[int(j)], y.dtype, dt)[0], w)
        rows.append([arr.tocode(BITOPS[op](p, q))])
    return wrap(from_codes(dt, shape, rows))


OPN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "&": operator.and_,
       "|": operator.or_, "^": operator.xor}


def array_bool(a):
    if a.size != 1:
        if a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")
    t = truth(a.dtype, units_of(a)[0])
    return br(t)


def iterate(a):
    if a.ndim == 0:
        raise TypeError("iteration over a 0-d array")
    for i in range(len(a)):
        yield getitem(a, i)


# -- functions -----------------------------------------------------------------
FUNCS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


def native_unless(f):
    """Decorator: run the real function when nothing is symbolic."""
    def deco(g):
        def h(*args, **kw):
            if any_sym(args) or any_sym(kw):
                return g(*args, **kw)
            return f(*args, **kw)
        FUNCS[f] = h
        return g
    return deco


def fresh(f):
    """Array makers: their memory is fresh, drop stale shadow entries."""
    def h(*args, **kw):
        args = tuple(arr.conc_index(x) if not any_sym(x, 0) else x for x in args)
        if any_sym(kw.get("dtype")):
            raise core.Unsupported("symbolic dtype")
        r = f(*args, **kw)
        if isinstance(r, np.ndarray):
            arr.detach(r)
        return r
    FUNCS[f] = h


for _f in (np.zeros, np.empty, np.ones, np.zeros_like, np.empty_like, np.ones_like, np.arange):
    fresh(_f)


@native_unless(np.array)
def _np_array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    r = make_array(obj, dtype)
    if isinstance(obj, np.matrix) and not subok:
        r = r.view(np.ndarray)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _asarray(obj, dtype=None, order=None, like=None):
    if isinstance(obj, np.ndarray):
        a = obj.view(np.ndarray)
        if dtype is None or np.dtype(dtype) == a.dtype:
            return a
        return astype(a, dtype)
    return make_array(obj, dtype)


native_unless(np.asarray)(_asarray)
native_unless(np.ascontiguousarray)(lambda a, dtype=None: np_contig(_asarray(a, dtype)))


def np_contig(a):
    if a.ndim == 0:
        a = a.reshape(1)
    return moves(a, lambda x: np.ascontiguousarray(x))


@native_unless(np.asanyarray)
def _asanyarray(obj, dtype=None, order=None, like=None):
    if isinstance(obj, np.ndarray) and (dtype is None or np.dtype(dtype) == obj.dtype):
        return obj
    return _asarray(obj, dtype)


@native_unless(np.asmatrix)
def _asmatrix(data, dtype=None):
    a = _asarray(data, dtype)
    if a.ndim > 2:
        raise core.Unsupported("matrix of more than two dimensions")
    if a.ndim < 2:
        a = a.reshape((1, -1) if a.ndim else (1, 1))
    return a.view(np.matrix)


@native_unless(np.atleast_1d)
def _atleast_1d(*xs):
    out = []
    for x in xs:
        a = operand(x) if not isinstance(x, np.ndarray) else x
        out.append(a.reshape(1) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else out


@native_unless(np.atleast_2d)
def _atleast_2d(*xs):
    out = []
    for x in xs:
        a = operand(x) if not isinstance(x, np.ndarray) else x
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[np.newaxis, :]
        out.append(a)
    return out[0] if len(out) == 1 else out


@native_unless(np.copy)
def _np_copy(a, order="K", subok=False):
    return moves(operand(a).view(np.ndarray), lambda x: np.array(x, order=order))


def mover(f):
    @native_unless(f)
    def g(a, *args, **kw):
        if any_sym(args) or any_sym(kw):
            raise core.Unsupported("symbolic argument of " + f.__name__)
        return moves(operand(a), lambda x: f(x, *args, **kw))


for _f in (np.ravel, np.reshape, np.transpose, np.squeeze, np.swapaxes, np.moveaxis,
           np.expand_dims, np.broadcast_to, np.tile, np.repeat, np.rot90, np.flip, np.fliplr,
           np.flipud, np.roll, np.take, np.asfortranarray):
    mover(_f)


@native_unless(np.concatenate)
def _concatenate(arrays, axis=0, **kw):
    xs = [operand(x) for x in arrays]
    dt = np.result_type(*[x.dtype for x in xs])
    ys = [x if x.dtype == dt else astype(x, dt) for x in xs]
    r = np.concatenate(ys, axis)
    arr.detach(keep(r))
    ids, srcs, n = [], [], 0
    for y in ys:
        ids.append(idx_array(y) + n)
        srcs += [elem(y, p) for p in addrs(y)]
        n += y.size
    ir = np.concatenate(ids, axis).ravel()
    for p, i in zip(addrs(r), ir):
        write_bytes(p, srcs[int(i)])
    return r


@native_unless(np.full)
def _full(shape, fill_value, dtype=None, order="C", like=None):
    if dtype is None:
        dtype = operand(fill_value).dtype
    r = np.zeros(shape, dtype=dtype, order=order)
    keep(arr.detach(r))
    setitem(r, Ellipsis, fill_value)
    return r


@native_unless(np.all)
def _all(a, axis=None, **kw):
    if axis is not None:
        raise core.Unsupported("np.all axis")
    if isinstance(a, SymBool):
        return a
    return reduce_bool(operand(a), "all")


@native_unless(np.any)
def _any(a, axis=None, **kw):
    if axis is not None:
        raise core.Unsupported("np.any axis")
    if isinstance(a, SymBool):
        return a
    return reduce_bool(operand(a), "any")


@native_unless(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    x, y = operand(a), operand(b)
    if x.shape != y.shape:
        return False
    c = compare("==", x, y)
    if isinstance(c, (bool, np.bool_, SymBool)):
        return c
    return reduce_bool(c, "all")


@native_unless(np.iscomplexobj)
def _iscomplexobj(x):
    if isinstance(x, (SymStr, SymBytes, SymInt, SymBool, SymFloat)):
        return False
    if isinstance(x, SymComplex):
        return True
    return x.dtype.kind == "c"


@native_unless(np.isrealobj)
def _isrealobj(x):
    return not _iscomplexobj(x)


@native_unless(np.ndenumerate)
def _ndenumerate(a):
    a = operand(a)

    def it():
        f = SymFlat(a)
        for n, i in enumerate(np.ndindex(a.shape)):
            yield i, f[n]
    return it()


@native_unless(np.ndindex)
def _ndindex(*a):
    return np.ndindex(*[arr.conc_index(x) for x in a])


@native_unless(np.prod)
def _prod(a, *args, **kw):
    if args or kw:
        raise core.Unsupported("np.prod arguments")
    return reduce_arith(operand(a), "prod")


@native_unless(np.sum)
def _sum(a, *args, **kw):
    if args or kw:
        raise core.Unsupported("np.sum arguments")
    return reduce_arith(operand(a), "sum")


@native_unless(np.size)
def _size(a, axis=None):
    a = operand(a)
    return a.size if axis is None else a.shape[axis]


@native_unless(np.shape)
def _shape(a):
    return operand(a).shape


@native_unless(np.ndim)
def _ndim(a):
    return operand(a).ndim


@native_unless(np.isscalar)
def _isscalar(x):
    return not isinstance(x, np.ndarray)


@native_unless(np.frombuffer)
def _frombuffer(buffer, dtype=float, count=-1, offset=0):
    dt = np.dtype(dtype)
    if isinstance(buffer, np.ndarray):
        return np.frombuffer(buffer, dtype=dt, count=count, offset=offset)
    if isinstance(buffer, SymBytes):
        bs = buffer.chars[offset:]
        n = len(bs) // dt.itemsize if count < 0 else count
        if count < 0 and len(bs) % dt.itemsize:
            raise ValueError("buffer size must be a multiple of element size")
        r = keep(np.zeros((n,), dtype=dt))
        for i, p in enumerate(addrs(r)):
            write_bytes(p, [arr.bnorm(b) for b in bs[i * dt.itemsize:(i + 1) * dt.itemsize]])
        return r
    raise core.Unsupported("frombuffer")


@native_unless(np.ndarray)
def _ndarray(shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
    if isinstance(buffer, np.ndarray):
        return np.ndarray(shape, dtype, buffer, offset, strides, order)
    if isinstance(buffer, (SymBytes, SymStr, SymScalar)):
        if isinstance(buffer, SymBytes) and not isinstance(buffer.cls, np.bytes_):
            b = _frombuffer(buffer, np.uint8)
        else:
            b = to_array(buffer).reshape(1)
        return np.ndarray(shape, dtype, b, offset, strides, order)
    raise core.Unsupported("ndarray(buffer)")


@native_unless(np.result_type)
def _result_type(*xs):
    return np.result_type(*[x.dtype if hasattr(x, "dtype") else x for x in xs])


@native_unless(np.dtype)
def _dtype(x, *args, **kw):
    raise core.Unsupported("symbolic dtype")


@native_unless(np.where)
def _where(*a):
    raise core.Unsupported("np.where")


for _name, _op in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="),
                   ("greater", ">"), ("greater_equal", ">=")):
    native_unless(getattr(np, _name))(
        lambda a, b, _op=_op: compare(_op, a, b))
native_unless(np.logical_and)(lambda a, b: logical("and", a, b))
native_unless(np.logical_or)(lambda a, b: logical("or", a, b))
native_unless(np.logical_not)(logical_not)
for _name, _op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("bitwise_and", "&"),
                   ("bitwise_or", "|"), ("bitwise_xor", "^")):
    native_unless(getattr(np, _name))(lambda a, b, _op=_op: binop(_op, a, b))


@native_unless(np.isnan)
def _isnan(a):
    x = operand(a)
    if x.dtype.kind != "f":
        raise core.Unsupported("isnan")
    return logical_not(compare("==", x, x))


def char_code(a, name, encoding=None, errors=None):
    a = operand(a)
    args = [x for x in (encoding, errors) if x is not None]
    out = []
    want = "U" if name == "encode" else "S"
    if a.dtype.kind != want:
        raise TypeError("string operation on non-string array")
    for u in units_of(a):
        v = pyvalue(a.dtype, u)
        out.append(getattr(v, name)(*args))
    if a.size == 0:
        raise core.Unsupported("empty char array")
    n = max(max(len(v) for v in out), 1)
    dt = np.dtype("%s%d" % ("S" if name == "encode" else "U", n))
    r = keep(np.zeros(a.shape, dtype=dt))
    for p, v in zip(addrs(r), out):
        arr.store(p, dt, v)
    return r


def _cenc(a, encoding=None, errors=None):
    return char_code(a, "encode", encoding, errors)


def _cdec(a, encoding=None, errors=None):
    return char_code(a, "decode", encoding, errors)


native_unless(np.char.encode)(_cenc)
native_unless(np.char.decode)(_cdec)


@native_unless(np.char.str_len)
def _strlen(a):
    a = operand(a)
    ns = [len(pyvalue(a.dtype, u)) for u in units_of(a)]
    return np.array(ns).reshape(a.shape)


# scalar types used as functions
def _scalar_type(tp):
    dt = np.dtype(tp)

    @native_unless(tp)
    def g(x=0):
        if isinstance(x, (list, tuple)):
            return make_array(x, dt)
        if isinstance(x, np.ndarray):
            r = astype(np.asarray(x) if not shadowed(x) else x.view(np.ndarray), dt)
            return wrap(r) if r.ndim == 0 else r
        if isinstance(x, (SymStr, SymBytes)):
            raise core.Unsupported("number from text")
        t = keep(np.zeros((), dtype=dt))
        arr.store(base_addr(t), dt, x)
        return scalar(dt, elem(t, base_addr(t)))


for _tp in (np.bool_, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32,
            np.uint64, np.float16, np.float32, np.float64, np.complex64, np.complex128):
    _scalar_type(_tp)


@native_unless(np.str_)
def _np_str(x="", *args):
    if isinstance(x, SymStr) and not args:
        return SymStr(list(x.chars), np.str_)
    if isinstance(x, SymBytes) and args:
        v = x.decode(*args)
        return SymStr(v.chars, np.str_) if isinstance(v, SymStr) else np.str_(v)
    if isinstance(x, SymBytes) and x.cls is np.bytes_:
        v = x.decode("ascii")
        return SymStr(v.chars, np.str_) if isinstance(v, SymStr) else np.str_(v)
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype.kind == "U":
        v = SymFlat(x)[0]
        return v
    raise core.Unsupported("np.str_")


@native_unless(np.bytes_)
def _np_bytes(x=b"", *args):
    if isinstance(x, SymBytes) and not args:
        return SymBytes(list(x.chars), np.bytes_)
    if isinstance(x, SymStr):
        v = x.encode(*(args or ("ascii",)))
        if not args:
            # np.bytes_(str) goes through an array: trailing NULs are lost
            u = list(codes(v))
            while u and br(ceq(u[-1], 0)):
                u.pop()
            v = mkbytes(u)
        return SymBytes(v.chars, np.bytes_) if isinstance(v, SymBytes) else np.bytes_(v)
    if isinstance(x, SymInt):
        if br(z3.And(x.t >= -(1 << 63), x.t < (1 << 63))):
            raise core.Unsupported("np.bytes_ of an int that is a size")
        from .strs import text_of_int

        v = text_of_int(x).encode("ascii")
        return SymBytes(v.chars, np.bytes_) if isinstance(v, SymBytes) else np.bytes_(v)
    if isinstance(x, np.ndarray) and x.dtype.kind == "S" and x.size == 1:
        return SymFlat(x)[0]
    raise core.Unsupported("np.bytes_")


def codes(v):
    from .strs import codes_of

    return codes_of(v)


@native_unless(np.void)
def _np_void(*a):
    raise core.Unsupported("np.void")
