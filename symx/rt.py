"""The runtime that the instrumented source calls."""
import builtins
import collections
import collections.abc
import copy as _copy
import datetime
import fractions
import functools
import itertools
import operator
import pathlib
import posixpath
import random
import re
import types

import h5py
import numpy as np
import z3

from . import arr, core, files, h5, npm, posix, records, regex
from .arr import SymScalar, any_sym, shadowed
from .core import Control, Unsupported
from .strs import (SymBytes, SymStr, _Seq, ceq, codes_of, crange, hex_of_int, int_from_text,
                   mkbytes, mkstr, resize, text_of_int, tocode)
from .terms import (Sym, SymBool, SymComplex, SymFloat, SymInt, W, and_, br, iv, mkbool, mkint,
                    not_, or_, zbool)
from .records import SymRecord

RT = "_symrt_"


# -- types -------------------------------------------------------------------
def realtype(x):
    if isinstance(x, Sym):
        if isinstance(x, SymBool):
            return np.bool_ if x.npy else bool
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymFloat):
            return float
        if isinstance(x, SymComplex):
            return complex
        if isinstance(x, _Seq):
            return x.cls
        if isinstance(x, SymScalar):
            return x.a.dtype.type
        if isinstance(x, SymRecord):
            return x.cls
    elif isinstance(x, regex.Match):
        return re.Match
    return type(x)


def isinstance_(x, t):
    if not isinstance(x, Sym):
        return isinstance(x, t)
    tp = realtype(x)
    if isinstance(t, tuple):
        return any(isinstance_(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(isinstance_(x, y) for y in t.__args__)
    return issubclass(tp, t)


def type_(*a):
    if len(a) == 1:
        return realtype(a[0])
    return type(*a)


# -- iteration ---------------------------------------------------------------
def iterable(x):
    if isinstance(x, np.ndarray):
        if shadowed(x):
            return npm.iterate(x)
        return x
    if h5.is_h5(x):
        if isinstance(x, h5py.Group):
            return h5.names_in(x)
        if isinstance(x, h5py.Dataset):
            return iterable(x[...])
        return list(x)
    if isinstance(x, Sym) and not hasattr(x, "__iter__"):
        raise TypeError(f"'{realtype(x).__name__}' object is not iterable")
    return x


def iter_(x):
    return iterable(x)


# -- containers with symbolic keys -----------------------------------------------
def deep(x):
    return any_sym(x)


def has_symkey(d):
    for k in d:
        if isinstance(k, Sym) or (type(k) in (tuple, frozenset) and any_sym(k)):
            return True
    return False


def hashable(k):
    if isinstance(k, SymBytes) and k.cls is bytearray:
        raise TypeError("unhashable type: 'bytearray'")
    if isinstance(k, SymRecord):
        k.check_hashable()
    if isinstance(k, tuple):
        for x in k:
            hashable(x)
    elif not isinstance(k, Sym):
        hash(k)


def eq(a, b):
    """a == b as a Python bool (deciding)."""
    if a is b:
        return True
    r = cmp("==", a, b)
    return truth(r)


def find_key(d, k):
    """(found, the key object that is in the collection)."""
    if not (isinstance(k, Sym) or any_sym(k)) and not has_symkey(d):
        if k in d:
            return True, k
        return False, None
    hashable(k)
    for x in list(d):
        if x is k:
            return True, x
    for x in list(d):
        if maybe_equal(x, k) and eq(x, k):
            return True, x
    return False, None


def maybe_equal(a, b):
    ta, tb = realtype(a), realtype(b)
    num = (int, float, complex, bool, np.number, np.bool_, fractions.Fraction)
    if issubclass(ta, str) or issubclass(tb, str):
        return issubclass(ta, str) and issubclass(tb, str)
    if issubclass(ta, (bytes, bytearray)) or issubclass(tb, (bytes, bytearray)):
        return issubclass(ta, (bytes, bytearray)) and issubclass(tb, (bytes, bytearray))
    if issubclass(ta, num) or issubclass(tb, num):
        return issubclass(ta, num) and issubclass(tb, num)
    return True


def mkdict(pairs, cls=dict):
    d = cls()
    for k, v in pairs:
        dict_set(d, k, v)
    return d


def dict_set(d, k, v):
    f, x = find_key(d, k)
    d[x if f else k] = v


def mkdict_display(*items):
    d = {}
    for k, v in items:
        if k is Ellipsis:
            for kk in v.keys():
                dict_set(d, kk, getitem(v, kk))
        else:
            dict_set(d, k[0], v)
    return d


def mkset(xs, cls=set):
    out = []
    xs = list(iterable(xs))
    if not any(any_sym(x) for x in xs):
        return cls(xs)
    for x in xs:
        hashable(x)
        if not find_key(out, x)[0]:
            out.append(x)
    return cls(out)


def dict_method(d, name, args, kw):
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__",
                "__delitem__"):
        if not args or not (has_symkey(d) or any_sym(args[0])):
            return getattr(d, name)(*args, **kw)
        f, k = find_key(d, args[0])
        if name == "__contains__":
            return f
        if not f:
            if name == "setdefault" or name == "__setitem__":
                k = args[0]
            elif name == "get":
                return args[1] if len(args) > 1 else kw.get("default")
            elif name == "pop" and len(args) > 1:
                return args[1]
            elif name == "__getitem__" and isinstance(d, collections.defaultdict):
                return getattr(d, name)(*args)
            else:
                raise KeyError(args[0])
        return getattr(d, name)(k, *args[1:], **kw)
    if name == "update":
        for a in args:
            if isinstance(a, collections.abc.Mapping):
                if not (has_symkey(d) or has_symkey(a)):
                    d.update(a)
                    continue
                for k in list(a):
                    dict_set(d, k, a[k])
            else:
                ps = [tuple(iterable(p)) for p in iterable(a)]
                for k, v in ps:
                    dict_set(d, k, v)
        for k, v in kw.items():
            dict_set(d, k, v)
        return None
    return getattr(d, name)(*args, **kw)


def set_method(s, name, args, kw):
    if not has_symkey(s) and not any(any_sym(a) for a in args):
        return getattr(s, name)(*[iterable(a) for a in args], **kw)
    if name == "add":
        hashable(args[0])
        if not find_key(s, args[0])[0]:
            s.add(args[0])
        return None
    if name in ("discard", "remove"):
        f, k = find_key(s, args[0])
        if f:
            s.remove(k)
        elif name == "remove":
            raise KeyError(args[0])
        return None
    if name == "__contains__":
        return find_key(s, args[0])[0]
    if name == "difference":
        out = s
        for a in args:
            out = setop("-", out, mkset(a))
        return out
    if name == "union":
        out = s
        for a in args:
            out = setop("|", out, mkset(a))
        return out
    if name == "intersection":
        out = s
        for a in args:
            out = setop("&", out, mkset(a))
        return out
    if name in ("update",):
        for a in args:
            for x in iterable(a):
                set_method(s, "add", (x,), {})
        return None
    if name in ("difference_update",):
        for a in args:
            for x in iterable(a):
                set_method(s, "discard", (x,), {})
        return None
    if name == "issubset":
        return all(find_key(args[0], x)[0] for x in s)
    if name in ("copy", "pop", "clear"):
        return getattr(s, name)(*args)
    raise Unsupported("set." + name)


def setop(op, a, b):
    if op == "-":
        r = [x for x in a if not find_key(b, x)[0]]
    elif op == "&":
        r = [x for x in a if find_key(b, x)[0]]
    elif op == "|":
        r = list(a) + [x for x in b if not find_key(a, x)[0]]
    elif op == "^":
        r = [x for x in a if not find_key(b, x)[0]] + [x for x in b if not find_key(a, x)[0]]
    else:
        raise Unsupported("set operator " + op)
    return type(a)(r)


# -- truth, comparison, operators ----------------------------------------------------
def truth(x):
    if isinstance(x, Sym):
        return bool(x)
    if isinstance(x, np.ndarray) and shadowed(x):
        return npm.array_bool(x)
    return x


def operand(x):
    """An operand of and/or, whose truth is looked at by the interpreter."""
    if isinstance(x, np.ndarray) and shadowed(x):
        raise Unsupported("truth of an array as an operand")
    return x


def not_op(x):
    if isinstance(x, SymBool):
        return not_(x)
    return not truth(x)


CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
       ">": operator.gt, ">=": operator.ge}


def npish(x):
    return isinstance(x, SymScalar) or isinstance(x, np.ndarray) or isinstance(x, SymBool) and x.npy


def contains(c, x):
    if isinstance(c, Sym):
        if isinstance(c, _Seq):
            return c.__contains__(x)
        return x in c
    if isinstance(c, (str, bytes, bytearray)):
        if isinstance(x, Sym):
            p = promote(c)
            return p.__contains__(x)
        return x in c
    if isinstance(c, (dict, set, frozenset, type({}.keys()))):
        return find_key(c, x)[0]
    if isinstance(c, (list, tuple, collections.deque)):
        if any_sym(c) or any_sym(x):
            for y in c:
                if y is x:
                    return True
            return any(eq(y, x) for y in c)
        return x in c
    if h5.is_h5(c):
        return h5.contains(c, x)
    if isinstance(c, np.ndarray) and (shadowed(c) or any_sym(x)):
        return npm.reduce_bool(npm.operand(npm.compare("==", c, x)), "any")
    if instrumented_obj(c):
        return type(c).__contains__(c, x)
    if any_sym(x):
        raise Unsupported("in " + type(c).__name__)
    return x in c


def promote(x):
    if isinstance(x, str):
        return SymStr([ord(c) for c in x], str)
    return SymBytes(list(x), type(x) if isinstance(x, bytearray) else bytes)


def cmp(op, a, b):
    if op == "is" or op == "is not":
        if isinstance(a, SymBool) and not a.npy and isinstance(b, bool):
            r = a if b else not_(a)
            return r if op == "is" else not_(r)
        if isinstance(b, SymBool) and not b.npy and isinstance(a, bool):
            return cmp(op, b, a)
        return (a is b) if op == "is" else (a is not b)
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return not_op(contains(b, a))
    sa = isinstance(a, Sym) or (isinstance(a, np.ndarray) and any_sym(a))
    sb = isinstance(b, Sym) or (isinstance(b, np.ndarray) and any_sym(b))
    if not sa and not sb:
        return CMP[op](a, b)
    if npish(a) or npish(b) or isinstance(a, np.generic) or isinstance(b, np.generic):
        if not (isinstance(a, _Seq) and isinstance(b, (str, bytes, _Seq))) and not (
                isinstance(b, _Seq) and isinstance(a, (str, bytes, _Seq))):
            if isinstance(a, SymRecord) or isinstance(b, SymRecord):
                return CMP[op](a, b)
            if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
                return CMP[op](a, b)
            return npm.compare(op, a, b)
    return CMP[op](a, b)


BINOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
          "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
          ">>": operator.rshift, "|": operator.or_, "^": operator.xor, "&": operator.and_,
          "@": operator.matmul}
AUGOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
          "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow,
          "<<": operator.ilshift, ">>": operator.irshift, "|": operator.ior,
          "^": operator.ixor, "&": operator.iand, "@": operator.imatmul}


def binop(op, a, b):
    if op == "%" and isinstance(a, (str, SymStr)):
        return percent(a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(
            a, SymScalar) or isinstance(b, SymScalar):
        if any_sym(a) or any_sym(b):
            return npm.binop(op, a, b)
        return BINOPS[op](a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if has_symkey(a) or has_symkey(b):
            return setop(op, a, b)
    if isinstance(a, (bytes, bytearray, str)) and isinstance(b, SymInt) and op == "*":
        return a * b.__index__()
    return BINOPS[op](a, b)


def augop(op, a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, bytearray):
            raise Unsupported("bytearray +=")
        return binop(op, a, b)
    if isinstance(a, (set, frozenset)) and (has_symkey(a) or has_symkey(b)):
        return setop(op, a, b)
    if isinstance(a, np.ndarray) and (any_sym(a) or any_sym(b)):
        raise Unsupported("in-place array operator")
    return AUGOPS[op](a, b)


def invert(a):
    if isinstance(a, Sym):
        if isinstance(a, SymScalar):
            if a.dtype.kind == "b":
                return npm.logical_not(a)
            raise Unsupported("~")
        return ~a
    if isinstance(a, np.ndarray) and shadowed(a):
        if a.dtype.kind == "b":
            return npm.logical_not(a)
        raise Unsupported("~array")
    return ~a


# -- subscripts -----------------------------------------------------------------
def getitem(o, i):
    if isinstance(o, np.ndarray):
        if SHADOWING() and shadowed(o) or any_sym(i):
            return arr.getitem(o, i)
        return o[i]
    if isinstance(o, Sym):
        return o[i]
    if isinstance(o, dict):
        if has_symkey(o) or any_sym(i):
            return dict_method(o, "__getitem__", (i,), {})
        return o[i]
    if h5.is_h5(o):
        return h5.getitem(o, i)
    if isinstance(i, Sym) or isinstance(i, slice):
        if isinstance(o, (list, tuple, str, bytes, bytearray, range)):
            return o[arr.conc_index(i)]
        if isinstance(o, npm.SymFlat) or instrumented_obj(o):
            return o[i]
        if isinstance(i, slice) and not any_sym(i):
            return o[i]
        raise Unsupported("subscript of " + type(o).__name__)
    return o[i]


def SHADOWING():
    return bool(arr.SHADOW)


def setitem(o, i, v):
    if isinstance(o, np.ndarray):
        if any_sym(v) or any_sym(i) or (arr.SHADOW and shadowed(o)):
            return arr.setitem(o, i, v)
        o[i] = v
        return
    if isinstance(o, dict):
        if has_symkey(o) or any_sym(i):
            dict_set(o, i, v)
            return
        o[i] = v
        return
    if h5.is_h5(o):
        return h5.setitem(o, i, v)
    if isinstance(o, np.flatiter) and any_sym(v):
        return setflat(o, i, v)
    if isinstance(o, (np.void,)) and any_sym(v):
        raise Unsupported("assignment to a field of a scalar")
    if isinstance(i, Sym) and isinstance(o, list):
        i = arr.conc_index(i)
    o[i] = v


def setflat(o, i, v):
    npm.SymFlat(o.base)[i] = v


def delitem(o, i):
    if isinstance(o, dict):
        if has_symkey(o) or any_sym(i):
            f, k = find_key(o, i)
            if not f:
                raise KeyError(i)
            del o[k]
            return
    if h5.is_h5(o):
        return h5.delitem(o, i)
    if isinstance(i, Sym) and isinstance(o, list):
        i = arr.conc_index(i)
    del o[i]


def mkslice(a, b, c):
    return slice(a, b, c)


def attr(o, name):
    if isinstance(o, np.ndarray):
        if name == "flat":
            if shadowed(o):
                return npm.SymFlat(o)
            return o.flat
        if name in ("real", "imag") and shadowed(o):
            return npm.array_attr(o, name)
    elif name == "name" and isinstance(o, (h5py.Group, h5py.Dataset)):
        return h5.path_name(o.name)
    return getattr(o, name)


def setattr_(o, name, v):
    if isinstance(o, np.ndarray) and (any_sym(v) or shadowed(o)):
        if name in ("real", "imag"):
            if name == "imag" and o.dtype.kind != "c":
                raise TypeError("array does not have imaginary part to set")
            arr.setitem(getattr(o, name), Ellipsis, v)
            return
        if name == "flat":
            npm.SymFlat(o)[:] = v
            return
    if isinstance(o, SymScalar):
        if name in ("real", "imag"):
            raise AttributeError("attribute '%s' of scalar objects is not writable" % name)
    if any_sym(v) and not instrumented_obj(o):
        raise Unsupported("attribute assignment")
    setattr(o, name, v)


# -- formatting -----------------------------------------------------------------
def fmt(v, conv, spec):
    if isinstance(spec, Sym):
        raise Unsupported("symbolic format specification")
    if isinstance(v, Sym):
        if conv == 115:
            v = str_(v)
        elif conv != -1:
            raise Unsupported("repr of a symbolic value")
        if isinstance(v, SymStr):
            if spec == "":
                return SymStr(list(v.chars), str) if v.chars else ""
            raise Unsupported("format specification for text")
        if isinstance(v, SymBool):
            v = bool(v)
        elif isinstance(v, SymInt):
            m = re.fullmatch(r"(0?)(\d*)([xXd]?)", spec)
            if m is None:
                raise Unsupported("format " + spec)
            if m.group(3) in ("", "d"):
                if m.group(2):
                    raise Unsupported("format " + spec)
                return text_of_int(v)
            return hex_of_int(v, int(m.group(2) or 0), m.group(3) == "X",
                              48 if m.group(1) else 32)
        elif isinstance(v, SymScalar) and v.dtype.kind in "iu":
            return fmt(v.item(), -1, spec)
        elif isinstance(v, SymRecord) and spec:
            return records.strftime(v, spec)
        else:
            raise Unsupported("format of %s" % type(v).__name__)
    if conv == 114:
        if any_sym(v):
            raise Unsupported("repr of a symbolic value")
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    if any_sym(v):
        raise Unsupported("format of a symbolic container")
    return format(v, spec)


def fstring(*parts):
    out = []
    for p in parts:
        s = p if isinstance(p, str) else fmt(*p)
        out += codes_of(s)
    return mkstr(out)


def percent(a, b):
    if not any_sym(a) and not any_sym(b):
        return a % b
    if isinstance(a, Sym):
        raise Unsupported("symbolic format text")
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    pos = 0
    for m in re.finditer(r"%(?:%|(0?)(\d*)([sxXd]))", a):
        out += [ord(c) for c in a[pos:m.start()]]
        pos = m.end()
        if m.group(0) == "%%":
            out.append(37)
            continue
        v = args.pop(0)
        t = m.group(3)
        if t == "s":
            out += codes_of(str_(v))
        else:
            out += codes_of(fmt(v, -1, (m.group(1) or "") + (m.group(2) or "") + t))
    rest = a[pos:]
    if "%" in rest or args:
        raise Unsupported("percent format")
    out += [ord(c) for c in rest]
    return mkstr(out)


# -- builtins ---------------------------------------------------------------------
def str_(*a, **kw):
    if not any_sym(a):
        return str(*a, **kw)
    x = a[0]
    if len(a) > 1 or kw:
        if isinstance(x, SymBytes):
            return x.decode(*a[1:], **kw)
        raise Unsupported("str()")
    if isinstance(x, SymStr):
        return mkstr(list(x.chars))
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymInt):
        return text_of_int(x)
    if isinstance(x, SymScalar) and x.dtype.kind in "iu":
        return text_of_int(x.item()) if isinstance(x.item(), SymInt) else str(x.item())
    if isinstance(x, SymRecord):
        return x.str_()
    raise Unsupported("str of %s" % type(x).__name__)


def bytes_of(x):
    if isinstance(x, SymBytes):
        return list(x.chars)
    if isinstance(x, np.ndarray):
        return codes_of(arr.tobytes(x))
    if isinstance(x, SymScalar):
        return codes_of(arr.tobytes(x.a))
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            if isinstance(v, SymInt):
                if not br(z3.And(v.t >= 0, v.t < 256)):
                    raise ValueError("bytes must be in range(0, 256)")
                out.append(tocode(z3.Extract(7, 0, v.t)))
            else:
                out += bytes([v])
        return out
    if isinstance(x, SymInt):
        return [0] * x.__index__()
    if isinstance(x, SymStr):
        raise TypeError("string argument without an encoding")
    raise Unsupported("bytes of %s" % type(x).__name__)


def bytes_(*a, **kw):
    if not any_sym(a):
        return bytes(*[iterable(x) for x in a], **kw)
    if len(a) > 1 or kw:
        return a[0].encode(*a[1:], **kw)
    return mkbytes(bytes_of(a[0]))


def bytearray_(*a, **kw):
    if not any_sym(a):
        return bytearray(*[iterable(x) for x in a], **kw)
    if len(a) > 1 or kw:
        return mkbytes(codes_of(a[0].encode(*a[1:], **kw)), bytearray)
    return mkbytes(bytes_of(a[0]), bytearray)


def int_(*a, **kw):
    if not any_sym(a):
        return int(*a, **kw)
    x = a[0]
    if isinstance(x, (SymStr, SymBytes)):
        return int_from_text(x, *a[1:], **kw)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.toint()
    if isinstance(x, SymScalar):
        if x.dtype.kind in "iub":
            v = x.item()
            return v.toint() if isinstance(v, SymBool) else v
        raise Unsupported("int of a float")
    if isinstance(x, np.ndarray):
        v = npm.array_method(x, "item", (), {})
        return int_(v)
    if isinstance(x, SymFloat):
        raise Unsupported("int of a float")
    raise TypeError("int() argument must be a string, a bytes-like object or a real number")


def float_(*a):
    if not any_sym(a):
        return float(*a)
    x = a[0]
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymScalar) and x.dtype.kind == "f":
        return x.item()
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return npm.array_method(x, "item", (), {})
    raise Unsupported("float of %s" % type(x).__name__)


def complex_(*a):
    if not any_sym(a):
        return complex(*a)
    x = a[0]
    if len(a) == 1:
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, SymScalar) and x.dtype.kind == "c":
            return x.item()
        if isinstance(x, SymFloat):
            return SymComplex(x.t, z3.BitVecVal(0, 64))
    raise Unsupported("complex()")


def bool_(*a):
    if not any_sym(a):
        return bool(*a)
    x = a[0]
    if isinstance(x, SymBool):
        return SymBool(x.t) if x.npy else x
    if isinstance(x, SymInt):
        return mkbool(x.t != 0)
    return bool(truth(x))


def len_(x):
    if isinstance(x, (SymBool, SymInt, SymFloat, SymComplex)):
        raise TypeError(f"object of type '{realtype(x).__name__}' has no len()")
    return len(x)


def ord_(x):
    if isinstance(x, (SymStr, SymBytes)):
        if len(x.chars) != 1:
            raise TypeError("ord() expected a character")
        c = x.chars[0]
        return c if isinstance(c, int) else mkint(z3.ZeroExt(W - c.size(), c))
    return ord(x)


def chr_(x):
    if isinstance(x, SymScalar):
        x = x.item()
    if isinstance(x, SymInt):
        if not br(z3.And(x.t >= -(1 << 31), x.t < (1 << 31))):
            raise OverflowError("Python int too large to convert to C int")
        if not br(z3.And(x.t >= 0, x.t <= 0x10FFFF)):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([tocode(z3.Extract(31, 0, x.t))])
    return chr(x)


def repr_(x):
    if any_sym(x):
        raise Unsupported("repr of a symbolic value")
    return repr(x)


def seq(cls):
    def f(*a, **kw):
        return cls(*[iterable(x) for x in a], **kw)
    return f


def set_(cls):
    def f(*a):
        if not a:
            return cls()
        return mkset(a[0], cls)
    return f


def dict_(cls):
    def f(*a, **kw):
        if a and not isinstance(a[0], collections.abc.Mapping):
            ps = [tuple(iterable(p)) for p in iterable(a[0])]
            if any(any_sym(p[0]) for p in ps if p):
                d = mkdict(ps, cls)
                d.update(kw)
                return d
            return cls(ps, **kw)
        if a and isinstance(a[0], h5py.Group):
            return cls([(k, h5.getitem(a[0], k)) for k in h5.names_in(a[0])])
        return cls(*a, **kw)
    return f


def counter(*a, **kw):
    if a and isinstance(a[0], collections.abc.Mapping):
        return collections.Counter(*a, **kw)
    if any_sym(a):
        raise Unsupported("Counter of symbolic elements")
    return collections.Counter(*[iterable(x) for x in a], **kw)


def getattr__(o, name, *d):
    if isinstance(name, Sym):
        raise Unsupported("symbolic attribute name")
    try:
        return attr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def hasattr_(o, name):
    try:
        attr(o, name)
    except AttributeError:
        return False
    return True


def sorted_(x, *, key=None, reverse=False):
    return sorted(iterable(x), key=None if key is None else lambda v: call(key, v),
                  reverse=reverse)


def any_(xs):
    for x in iterable(xs):
        if truth(x):
            return True
    return False


def all_(xs):
    for x in iterable(xs):
        if not truth(x):
            return False
    return True


def map_(f, *xs):
    return map(lambda *a: call(f, *a), *[iterable(x) for x in xs])


def filter_(f, x):
    if f is None:
        return (v for v in iterable(x) if truth(v))
    return (v for v in iterable(x) if truth(call(f, v)))


def hash_(x):
    if any_sym(x):
        raise Unsupported("hash of a symbolic value")
    return hash(x)


def copy_(x):
    if isinstance(x, np.ndarray) and shadowed(x):
        return arr.moves(x, lambda v: v.copy())
    if isinstance(x, Sym):
        return x
    return _copy.copy(x)


def deepcopy_(x, memo=None):
    if isinstance(x, np.ndarray) and shadowed(x):
        return arr.moves(x, lambda v: v.copy())
    if isinstance(x, Sym):
        return x
    return _copy.deepcopy(x)


def getrandbits(n):
    e = core.ENGINE
    hook = getattr(e, "random_hook", None)
    if hook is not None:
        return hook(n)
    e.random_state = (getattr(e, "random_state", 0) * 6364136223846793005 + 1442695040888963407)
    return (e.random_state >> 7) & ((1 << n) - 1)


def h5file(*a, **kw):
    fn = a[0] if a else kw.get("name")
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    if isinstance(fn, Sym):
        raise Unsupported("symbolic file name")
    f = h5py.File(*a, **kw)
    if mode in ("w", "w-", "x"):
        h5.purge_file(fn)
        files.drop(fn)
    return f


FUNCS = dict(npm.FUNCS)
FUNCS.update({
    isinstance: isinstance_, type: type_, str: str_, bytes: bytes_, bytearray: bytearray_,
    int: int_, float: float_, complex: complex_, bool: bool_, len: len_, ord: ord_, chr: chr_,
    repr: repr_, list: seq(list), tuple: seq(tuple), collections.deque: seq(collections.deque),
    enumerate: seq(enumerate), zip: seq(zip), reversed: seq(reversed), iter: seq(iter), sum: seq(sum),
    set: set_(set), frozenset: set_(frozenset), dict: dict_(dict),
    collections.OrderedDict: dict_(collections.OrderedDict), collections.Counter: counter,
    getattr: getattr__, hasattr: hasattr_, sorted: sorted_, any: any_, all: all_, map: map_,
    filter: filter_, hash: hash_, _copy.copy: copy_, _copy.deepcopy: deepcopy_,
    random.getrandbits: getrandbits, h5py.File: h5file,
    itertools.chain: seq(itertools.chain),
})
FUNCS.update(posix.FUNCS)
FUNCS.update(records.FUNCS)
FUNCS.update(files.FUNCS)


def passthrough(f):
    """A native callable that may hold symbolic values without looking into them."""
    PASS.add(f)


PASS = {slice, collections.ChainMap, functools.partial, types.SimpleNamespace, id, next, callable,
        print, min, max, isinstance, issubclass, itertools.dropwhile, itertools.takewhile,
        itertools.islice, setattr, operator.itemgetter, collections.namedtuple}


SEEN = set()


def entered(module, name):
    SEEN.add(module + "." + name)


def engine_fn(f):
    return f.__globals__.get("__name__", "").startswith("symx.")


def instrumented_fn(f):
    g = getattr(f, "__globals__", None)
    return g is not None and RT in g


def instrumented_obj(o):
    t = type(o)
    m = t.__module__
    return isinstance(m, str) and (m == "hdf5storage" or m.startswith("hdf5storage."))


def call(f, *a, **kw):
    try:
        h = FUNCS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **kw)
    if isinstance(f, types.FunctionType):
        if RT in f.__globals__:
            return f(*a, **kw)
        if engine_fn(f):
            return f(*a, **kw)
    elif isinstance(f, types.MethodType):
        if isinstance(f.__func__, types.FunctionType):
            if RT in f.__func__.__globals__:
                return f(*a, **kw)
            if engine_fn(f.__func__):
                return f(*a, **kw)
        s = f.__self__
        if isinstance(s, Sym):
            return f(*a, **kw)
        if not isinstance(s, (type, types.ModuleType)):
            return callm(s, f.__name__, *a, **kw)
    elif isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **kw)
        m = f.__module__
        if m == "hdf5storage" or m.startswith("hdf5storage."):
            return f(*a, **kw)
    elif isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)):
        s = f.__self__
        if s is not None and not isinstance(s, (type, types.ModuleType)):
            if any_sym(s) or any_sym(a) or any_sym(kw):
                return callm(s, f.__name__, *a, **kw)
    elif isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **kw})
    elif instrumented_obj(f):
        return f(*a, **kw)
    try:
        if f in PASS:
            return f(*a, **kw)
    except TypeError:
        pass
    if any_sym(a) or any_sym(kw):
        if isinstance(f, types.FunctionType) and getattr(f, "__module__", "").startswith("symx"):
            return f(*a, **kw)
        raise Unsupported("call of %s with symbolic arguments" % getattr(
            f, "__qualname__", getattr(f, "__name__", repr(f))))
    return f(*a, **kw)


def callm(o, name, *a, **kw):
    if isinstance(o, Sym):
        return getattr(o, name)(*a, **kw)
    if isinstance(o, np.ndarray):
        if not o.dtype.hasobject and shadowed(o):
            return npm.array_method(o, name, a, kw)
        if any_sym(a):
            if name in ("fill",):
                return arr.setitem(o, Ellipsis, a[0])
            return npm.array_method(o, name, a, kw)
        r = getattr(o, name)(*a, **kw)
        return r
    if isinstance(o, (types.ModuleType, type)):
        return call(getattr(o, name), *a, **kw)
    if isinstance(o, (str, bytes, bytearray)):
        if any_sym(a) or any_sym(kw):
            return getattr(promote(o), name)(*a, **kw)
        if name == "join":
            xs = list(iterable(a[0]))
            if any_sym(xs):
                return promote(o).join(xs)
            return o.join(xs)
        return getattr(o, name)(*a, **kw)
    if isinstance(o, re.Pattern):
        if any_sym(a) or any_sym(kw):
            m = regex.METHODS.get(name)
            if m is None:
                raise Unsupported("Pattern." + name)
            return m(o, *a, **kw)
        return getattr(o, name)(*a, **kw)
    if isinstance(o, dict):
        if type(o).__module__ in ("builtins", "collections") or True:
            return dict_method(o, name, a, kw)
    if isinstance(o, (set, frozenset)):
        return set_method(o, name, a, kw)
    if isinstance(o, list):
        if name == "extend":
            return o.extend(iterable(a[0]))
        if name in ("index", "count", "remove") and (any_sym(o) or any_sym(a)):
            idx = [i for i, x in enumerate(o) if eq(x, a[0])] if name == "count" else None
            if name == "count":
                return len(idx)
            for i, x in enumerate(o):
                if eq(x, a[0]):
                    if name == "index":
                        return i
                    del o[i]
                    return None
            raise ValueError("not in list")
        if name == "sort":
            r = sorted_(o, **kw)
            o[:] = r
            return None
        return getattr(o, name)(*a, **kw)
    if h5.is_h5(o):
        return h5.method(o, name, a, kw)
    if isinstance(o, tuple):
        if name in ("index", "count") and (any_sym(o) or any_sym(a)):
            return callm(list(o), name, *a, **kw)
        return getattr(o, name)(*a, **kw)
    if isinstance(o, (collections.deque, slice)):
        return getattr(o, name)(*[iterable(x) if name == "extend" else x for x in a], **kw)
    m = getattr(o, name)
    if isinstance(m, types.MethodType):
        # avoid going round in circles
        f = m.__func__
        if isinstance(f, types.FunctionType) and RT in f.__globals__:
            return m(*a, **kw)
        if isinstance(f, types.FunctionType) and engine_fn(f):
            return m(*a, **kw)
        if isinstance(o, super):
            return m(*a, **kw)
        if any_sym(a) or any_sym(kw):
            if isinstance(o, np.flatiter):
                raise Unsupported("flatiter." + name)
            if instrumented_obj(o):
                # inherited from a standard library base, which calls back
                return m(*a, **kw)
            raise Unsupported("%s.%s with symbolic arguments" % (type(o).__name__, name))
        return m(*a, **kw)
    if isinstance(m, (types.BuiltinMethodType, types.MethodWrapperType)):
        if any_sym(a) or any_sym(kw):
            if isinstance(o, (collections.abc.Iterator,)) or type(o).__module__ == "itertools":
                return m(*a, **kw)
            raise Unsupported("%s.%s with symbolic arguments" % (type(o).__name__, name))
        return m(*a, **kw)
    return call(m, *a, **kw)


class Runtime:
    """The object that instrumented modules see."""

    Control = Control
    entered = staticmethod(entered)
    call = staticmethod(call)
    callm = staticmethod(callm)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    attr = staticmethod(attr)
    setattr_ = staticmethod(setattr_)
    mkslice = staticmethod(mkslice)
    binop = staticmethod(binop)
    augop = staticmethod(augop)
    cmp = staticmethod(cmp)
    invert = staticmethod(invert)
    not_ = staticmethod(not_op)
    truth = staticmethod(truth)
    operand = staticmethod(operand)
    fstring = staticmethod(fstring)
    iter_ = staticmethod(iter_)
    mkdict = staticmethod(mkdict)
    mkdict_display = staticmethod(mkdict_display)
    mkset = staticmethod(mkset)


RUNTIME = Runtime()
