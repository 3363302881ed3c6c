"""Shared by the harnesses."""
import sys

import h5py
import numpy as np

NE = "<" if sys.byteorder == "little" else ">"
OE = ">" if NE == "<" else "<"

VALUES = {
    "complex_names": [("r", "i"), ("real", "imag"), ("x", "y"), ("imag", "real")],
    "oned_as": ["row", "column"],
    "action_for_matlab_incompatible": ["error", "ignore", "discard"],
    "group_for_references": ["/#refs#", "/a b/refs"],
    "compression": [{}, {"compress": False}, {"compress_size_threshold": 0},
                    {"compress_size_threshold": 0, "compression_algorithm": "lzf", "shuffle_filter": False},
                    {"compress_size_threshold": 0, "gzip_compression_level": 0, "compressed_fletcher32_filter": False},
                    {"compress": False, "uncompressed_fletcher32_filter": True}],
    "dict_like_keys_name": ["keys", "a/b"],
    "dict_like_values_name": ["values", "..", "v\\"],
}
IMPLIED = {"delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d",
           "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8",
           "reverse_dimension_order", "store_shape_for_empty", "complex_names", "group_for_references"}


def options(ctx, mode, *names):
    """Options with the named ones chosen in every way ("matlab": only those not implied)."""
    o = {"matlab_compatible": mode == "matlab"}
    for n in names:
        if mode == "matlab" and n in IMPLIED:
            continue
        v = ctx.choose("opt." + n, VALUES[n]) if n in VALUES else ctx.bool("opt." + n)
        if n == "compression":
            if mode == "matlab" and v.get("compression_algorithm", "gzip") != "gzip":
                v = {}
            o.update(v)
        else:
            o[n] = v
    return o


def write_read(ctx, value, opts=None, path="/x", ropts=None, pre=None):
    """What reading gives after value was written to path with opts."""
    fn = ctx.path()
    opts = dict(opts or {})
    f = ctx.call(ctx.hs.File, fn, writable=True, **opts)
    if pre is not None:
        f.write(pre, path)
    f.write(value, path)
    f.close()
    f = ctx.call(ctx.hs.File, fn, **dict(ropts if ropts is not None else opts))
    r = f.read(path)
    f.close()
    return r


def code(c):
    return c if isinstance(c, int) else ord(c)


def same_text(ctx, r, s):
    """Equal up to trailing NULs, which numpy does not keep."""
    n = max(len(r), len(s))
    eqs = [code(r[i]) == code(s[i]) for i in range(min(len(r), len(s)))]
    for x in (r, s):
        eqs += [code(x[i]) == 0 for i in range(min(len(r), len(s)), len(x))]
    ctx.check("same characters", ctx.And(*eqs) if eqs else n == 0)


def reader(ctx, mode, opts):
    """The options to read with."""
    if mode == "matlab" and ctx.choose("reader", ["same", "plain"]) == "plain":
        return {"matlab_compatible": False}
    return opts


def make_array(ctx, name, dt, shape, layout="C", cont="ndarray"):
    """An array of arbitrary contents with a memory layout and a container type."""
    import warnings

    import numpy as np

    shape = tuple(shape)
    if layout in ("C", "F"):
        a = ctx.array(name, dt, shape, layout)
    elif layout == "strided":
        a = ctx.array(name, dt, shape[:-1] + (2 * shape[-1],))[..., ::2]
    elif layout == "reversed":
        a = ctx.array(name, dt, shape)[..., ::-1]
    else:
        raise ValueError(layout)
    if cont == "ndarray":
        return a
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return a.view({"matrix": np.matrix, "chararray": np.chararray, "recarray": np.recarray}[cont])


def chars(dt):
    return range(dt.itemsize // (4 if dt.kind == "U" else 1))


def element(ctx, name, kind):
    """A value of a kind with arbitrary contents."""
    import collections
    import datetime
    import fractions

    import numpy as np

    if kind == "int":
        return ctx.int(name, -(1 << 63), (1 << 63) - 1)
    if kind == "big":
        return ctx.bigint(name, 20)
    if kind == "bool":
        return ctx.bool(name)
    if kind == "float":
        return ctx.float(name)
    if kind == "complex":
        return ctx.complex(name)
    if kind == "none":
        return None
    if kind == "ellipsis":
        return Ellipsis
    if kind == "struct":
        return ctx.array(name, [("a", "<i4"), ("b", "<f8")], (1,))
    if kind.startswith("str"):
        return ctx.str(name, int(kind[3:] or 1))
    if kind.startswith("bytes"):
        return ctx.bytes(name, int(kind[5:] or 1))
    if kind == "bytearray":
        return ctx.bytes(name, 1, cls=bytearray)
    if kind.startswith("np."):
        t = kind[3:]
        if t.startswith("U"):
            return ctx.str(name, int(t[1:]), 1, cls=np.str_)
        if t.startswith("S"):
            return ctx.bytes(name, int(t[1:]), 1, cls=np.bytes_)
        return ctx.scalar(name, t)
    if kind == "array":
        return ctx.array(name, "<i4", (2,))
    if kind == "array0":
        return ctx.array(name, "<f8", ())
    if kind == "array2":
        return ctx.array(name, "<u2", (2, 1))
    if kind == "empty":
        return np.zeros((0, 2), "f4")
    if kind == "date":
        return ctx.make(datetime.date, ctx.int(name + ".y", 1, 9999), ctx.int(name + ".m", 1, 12),
                        ctx.int(name + ".d", 1, 28))
    if kind == "dtype":
        return np.dtype("<i4")
    if kind in ("list", "tuple", "deque", "set", "frozenset"):
        return container(kind)([element(ctx, name + ".0", "int"), element(ctx, name + ".1", "str")])
    if kind in ("list0", "tuple0", "dict0", "set0"):
        return {"list0": list, "tuple0": tuple, "dict0": dict, "set0": set}[kind]()
    if kind == "lists":
        return [[element(ctx, name + ".0", "int")], (element(ctx, name + ".1", "float"), [])]
    if kind == "dict":
        return {"a": element(ctx, name + ".0", "int"), "b": element(ctx, name + ".1", "str")}
    if kind == "dict2":
        return {element(ctx, name + ".k", "int"): element(ctx, name + ".0", "str")}
    if kind == "objects":
        a = np.empty((1, 2), object)
        a[0, 0] = element(ctx, name + ".0", "int")
        a[0, 1] = element(ctx, name + ".1", "bytes")
        return a
    raise ValueError(kind)


def container(kind):
    import collections

    return {"list": list, "tuple": tuple, "deque": collections.deque, "set": set, "frozenset": frozenset}[kind]


class Ascii:
    """A ctx whose text is of one of the characters that are encoded alike everywhere."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def str(self, name, n, lo=1, hi=0x7f, cls=str):
        return self.ctx.str(name, n, max(lo, 1), min(hi, 0x7f), cls=cls)

    def bytes(self, name, n, lo=1, hi=0x7f, cls=bytes):
        return self.ctx.bytes(name, n, max(lo, 1), min(hi, 0x7f), cls=cls)

    def int(self, name, lo=None, hi=None):
        return self.ctx.int(name, max(-128, lo if lo is not None else -128), min(127, hi if hi is not None else 127))


def simple(ctx, name, kind):
    """A value of a kind whose text is ASCII and whose ints are small."""
    if kind == "big":
        return ctx.bigint(name, 20, "1844674407370955161")
    return element(Ascii(ctx), name, kind)


def tree_same(ctx, ha, hb, a, b, skip=(), depth=0):
    """Two objects of HDF5 files are the same: links, attributes, types, shapes and data; references point to the same."""
    import h5py
    import numpy as np

    ctx.check("the same kind of object", isinstance(a, h5py.Group) == isinstance(b, h5py.Group))
    na, nb = list(a.attrs), list(b.attrs)
    ctx.check("the same attributes", sorted(na) == sorted(nb))
    for n in na:
        x, y = a.attrs[n], b.attrs[n]
        if isinstance(x, np.ndarray) and x.dtype.hasobject:
            ctx.check("the same attribute", isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype)
            for i in np.ndindex(*x.shape):
                ctx.check("the same attribute element", ctx.same(x[i], y[i]))
        else:
            ctx.check("the same attribute", ctx.same(x, y))
    if isinstance(a, h5py.Group):
        la, lb = [k for k in a if k not in skip], [k for k in b if k not in skip]
        ctx.check("as many links", len(la) == len(lb))
        for k in la:
            other = [j for j in lb if j == k]
            ctx.check("the same link", len(other) == 1)
            tree_same(ctx, ha, hb, a[k], b[other[0]], (), depth)
        return
    ctx.check("the same type", a.dtype == b.dtype)
    ctx.check("the same shape", a.shape == b.shape)
    ctx.check("the same filters", (a.compression, a.shuffle, a.fletcher32) == (b.compression, b.shuffle, b.fletcher32))
    if a.shape is None:
        return
    if h5py.check_dtype(ref=a.dtype) is h5py.Reference:
        x, y = a[...], b[...]
        for i in np.ndindex(*a.shape):
            ctx.check("both refer to something", bool(x[i]) == bool(y[i]))
            if bool(x[i]) and depth < 6:
                tree_same(ctx, ha, hb, ha[x[i]], hb[y[i]], (), depth + 1)
    else:
        ctx.check("the same data", ctx.same(a[...], b[...]))


CLASSES = {"double": "f8", "single": "f4", "int8": "i1", "uint8": "u1", "int16": "i2", "uint16": "u2", "int32": "i4", "uint32": "u4",
           "int64": "i8", "uint64": "u8"}


class Maker:
    """Makes files as MATLAB does and says what is in them."""

    def __init__(self, ctx, dicts):
        self.ctx = ctx
        self.dicts = dicts
        self.fn = ctx.path()
        self.h = h5py.File(self.fn, "w", userblock_size=512)
        self.n = 0

    def refs(self):
        if "#refs#" not in self.h:
            g = self.h.create_group("#refs#")
            d = g.create_dataset("a", data=np.zeros((2,), "u8"))
            d.attrs["MATLAB_class"] = np.bytes_("canonical empty")
            d.attrs["MATLAB_empty"] = np.uint8(1)
        return self.h["#refs#"]

    def data(self, grp, name, a, cls, decode=None):
        d = grp.create_dataset(name, data=a)
        d.attrs["MATLAB_class"] = np.bytes_(cls)
        if decode:
            d.attrs["MATLAB_int_decode"] = np.int32(decode)
        if grp.name != "/":
            d.attrs["H5PATH"] = np.bytes_(grp.name)
        return d

    def number(self, grp, name, cls, shape, var="v"):
        """The stored array has the dimensions reversed."""
        a = self.ctx.array(var, CLASSES[cls], tuple(shape)[::-1])
        self.data(grp, name, a, cls)
        return a.T

    def complex(self, grp, name, cls, shape, var="v"):
        t = CLASSES[cls]
        a = self.ctx.array(var, [("real", t), ("imag", t)], tuple(shape)[::-1])
        self.data(grp, name, a, cls)
        return a.view("c8" if t == "f4" else "c16").T

    def logical(self, grp, name, shape, var="v"):
        b = self.ctx.array(var, "b1", tuple(shape)[::-1])
        self.data(grp, name, b.view("u1"), "logical", 1)
        return b.T

    def char(self, grp, name, shape, var="v", dt="u2", hi=None, some=None):
        """Texts of the characters of the rows, up to trailing NULs."""
        ctx = self.ctx
        hi = hi or {"u1": 0x7f, "u2": 0xd7ff, "u4": 0x10ffff}[dt]
        cs = {}
        u = np.zeros(tuple(shape), "u4")
        for n, i in enumerate(np.ndindex(*shape)):
            if some and n not in some:
                cs[i] = chr(97 + n % 26)
                u[i] = ord(cs[i])
                continue
            c = ctx.str("%s%d" % (var, n), 1, 1, hi)
            if dt == "u4":
                ctx.assume(ctx.Or(ord(c) < 0xd800, ord(c) >= 0xe000))
            cs[i] = c
            u[i] = ord(c)
        self.data(grp, name, u.astype(dt).T, "char", np.dtype(dt).itemsize)
        n = shape[-1]
        out = np.zeros(tuple(shape)[:-1] + (1,), "U%d" % n)
        for i in np.ndindex(*out.shape):
            s = cs[i[:-1] + (0,)]
            for k in range(1, n):
                s = s + cs[i[:-1] + (k,)]
            out[i] = s
        return out

    def empty(self, grp, name, cls, shape, fields=None):
        d = self.data(grp, name, np.array(shape, "u8"), cls, {"logical": 1, "char": 2}.get(cls))
        d.attrs["MATLAB_empty"] = np.uint8(1)
        if cls == "struct":
            if fields:
                self.fields(d, fields)
                return np.zeros(tuple(shape), [(f, "O") for f in fields])
            return np.zeros(tuple(shape), "O")
        t = CLASSES.get(cls) or {"logical": "b1", "char": "U1", "cell": "O"}[cls]
        return np.zeros(tuple(shape), t)

    def fields(self, obj, names):
        a = np.empty((len(names),), dtype=h5py.special_dtype(vlen=np.dtype("S1")))
        for i, n in enumerate(names):
            a[i] = np.array([c.encode("ascii") for c in n], "S1")
        obj.attrs.create("MATLAB_fields", a)

    def elements(self, shape, kinds, var):
        """A Dataset of references (dimensions reversed) and what is referred to."""
        g = self.refs()
        r = np.empty(tuple(shape)[::-1], dtype=h5py.special_dtype(ref=h5py.Reference))
        out = np.empty(tuple(shape), object)
        for n, i in enumerate(np.ndindex(*shape)):
            k = kinds[n % len(kinds)]
            if k == "canonical":
                r[i[::-1]] = g["a"].ref
                out[i] = np.zeros((0, 0))
                continue
            self.n += 1
            name = "r%d" % self.n
            out[i] = self.put(g, name, k, "%s.%d" % (var, n))
            r[i[::-1]] = g[name].ref
        return r, out

    def cell(self, grp, name, shape, kinds, var="v"):
        r, out = self.elements(shape, kinds, var)
        self.data(grp, name, r, "cell")
        return out

    def struct(self, grp, name, fields, var="v", attr=True):
        """A scalar structure is a Group of its fields."""
        g = grp.create_group(name)
        g.attrs["MATLAB_class"] = np.bytes_("struct")
        if grp.name != "/":
            g.attrs["H5PATH"] = np.bytes_(grp.name)
        if attr:
            self.fields(g, list(fields))
        vals = {f: self.put(g, f, k, var + "." + f) for f, k in fields.items()}
        if self.dicts:
            return vals
        return one(vals)

    def structs(self, grp, name, shape, fields, var="v"):
        """A structure array is a Group of arrays of references."""
        g = grp.create_group(name)
        g.attrs["MATLAB_class"] = np.bytes_("struct")
        self.fields(g, list(fields))
        vals = {}
        for f, k in fields.items():
            r, vals[f] = self.elements(shape, k.split(","), var + "." + f)
            g.create_dataset(f, data=r)
        return vals

    def put(self, grp, name, kind, var):
        if kind in CLASSES:
            return self.number(grp, name, kind, (1, 1), var)
        if kind == "complex":
            return self.complex(grp, name, "double", (1, 2), var)
        if kind == "logical":
            return self.logical(grp, name, (1, 1), var)
        if kind == "char":
            return self.char(grp, name, (1, 1), var, hi=0x7f)
        if kind == "chars":
            return self.char(grp, name, (2, 1), var, hi=0x7f)
        if kind == "cell":
            return self.cell(grp, name, (1, 2), ["double", "char"], var)
        if kind.startswith("1:"):
            return self.cell(grp, name, (1, 1), [kind[2:]], var)
        if kind.startswith("2:"):
            return self.cell(grp, name, (2, 1), ["double", kind[2:]], var)
        if kind.startswith("p:"):
            return self.struct(grp, name, {"p": kind[2:]}, var)
        if kind.startswith("q:"):
            return self.struct(grp, name, {"p": kind[2:], "a": "double"}, var)
        if kind == "cell0":
            return self.empty(grp, name, "cell", (0, 0))
        if kind == "empty":
            return self.empty(grp, name, "double", (0, 2))
        if kind == "char0":
            return self.empty(grp, name, "char", (0, 0))
        if kind == "struct":
            return self.struct(grp, name, {"p": "int32", "q": "char"}, var)
        if kind == "structs":
            return self.empty(grp, name, "struct", (0, 1), ["b", "a"])
        if kind == "canonical":
            d = self.data(grp, name, np.zeros((2,), "u8"), "canonical empty")
            d.attrs["MATLAB_empty"] = np.uint8(1)
            return np.zeros((0, 0))
        raise ValueError(kind)


def one(vals):
    """The marker of a structure of one element."""
    return ("one", vals)
