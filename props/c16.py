"""C16: MATLAB metadata describes the stored data truthfully."""
import collections
import datetime
import fractions

import h5py
import numpy as np

BOUNDS = ("every numeric, text, object and structured dtype with arbitrary contents as numpy scalars and arrays of up to 4 dimensions "
          "(row and column, contiguous and strided), every Python scalar, sequences, sets, dicts (with one arbitrary key of one "
          "character) and nested ones, and those of which some members or fields are discarded, written to new paths and over every kind of value that was there before with "
          "other options; arrays of up to 300 elements and 7 dimensions, text of 301 characters, structures and mappings of up to 21 "
          "fields, lists of 31 elements and 12 levels of which one or two are arbitrary; the stored Datasets, Groups and attributes are looked at with h5py, element by element")
OUTSIDE = "how MATLAB itself reads these (the documented layout of MATLAB v7.3 files is the oracle); sparse matrices (never written)"
TIME = {"quick": 60, "thorough": 400}
NUM = ["b1", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", "c8", "c16"]
SHAPES = [(), (1,), (2,), (3, 2), (1, 2), (2, 1, 2), (1, 2, 3, 1), (0,), (2, 0), (0, 3, 1), (0, 1, 2, 3), (65536, 0)]
TEXT = ["S1", "S2", "U1", "U2"]
TSHAPES = [(), (1,), (2,), (2, 2), (2, 1, 2), (1, 2, 1, 1), (0,), (0, 2)]
KINDS = ["int", "big", "bool", "float", "complex", "none", "ellipsis", "str0", "str1", "str3", "bytes0", "bytes2", "bytearray", "np.U1",
         "np.S2", "np.U0", "np.S0", "struct", "dtype", "list", "tuple", "set", "frozenset", "deque", "list0", "tuple0", "set0",
         "dict0", "dict", "dict2", "objects", "lists", "date"]
FIRST = ["int", "str1", "none", "bytes2", "list", "dict", "dict2", "struct", "empty", "objects"]
PLAIN = {
    "plain": {"matlab_compatible": False},
    "similar": {"matlab_compatible": False, "make_atleast_2d": True, "reverse_dimension_order": True, "store_shape_for_empty": True,
                "structured_numpy_ndarray_as_struct": True, "convert_bools_to_uint8": True, "delete_unused_variables": True},
    "bare": {"matlab_compatible": False, "store_python_metadata": False},
}
FIELDS = {
    "plain": [("a", "<i4"), ("b", "<f8")],
    "nested": [("a", [("x", "u1"), ("y", "<c8")]), ("b", "S2")],
    "sub": [("a", "<i2", (2,)), ("b", "b1")],
    "odd": [("a/b", "<i2"), ("\u00e9", "u1")],
    "text": [("a", "<U1"), ("b", "S1")],
    "escaped": [("a/b", "<i2"), (".", "u1")],
}


def jobs(tier):
    out = []
    for oned in ("row", "column"):
        for dt in NUM:
            for sh in SHAPES:
                for layout in ("C", "strided") if tier != "quick" and sh and sh[-1] else ("C",):
                    out.append(("h_array", {"dt": dt, "shape": list(sh), "oned": oned, "layout": layout, "meta": tier == "quick" or None}))
        for dt in TEXT:
            for sh in TSHAPES:
                out.append(("h_text", {"dt": dt, "shape": list(sh), "oned": oned}))
        for f in FIELDS:
            for sh in ((), (1,), (2,), (1, 2), (0,), (2, 0)):
                out.append(("h_struct", {"fields": f, "shape": list(sh), "oned": oned}))
    for k in KINDS:
        out.append(("h_value", {"kind": k, "into": "/x"}))
        if tier != "quick" or k in FIRST:
            out.append(("h_value", {"kind": k, "into": "/g/h/x"}))
        for b in FIRST:
            for s in list(PLAIN) + ["matlab"] if tier != "quick" else ("plain",):
                out.append(("h_over", {"before": b, "kind": k, "first": s}))
    for k in KINDS:
        for s in PLAIN:
            for b in FIRST if tier != "quick" else ("dict", "struct", "list"):
                out.append(("h_off", {"before": b, "kind": k, "opts": s}))
    out.append(("h_keys", {}))
    out.append(("h_nested", {}))
    for cls in ("dict", "od", "struct", "list"):
        for over in (None, "dict", "struct"):
            out.append(("h_discard", {"cls": cls, "over": over}))
    out.append(("h_object_shapes", {}))
    for w in LARGE:
        out.append(("h_large", {"what": w}))
    return out


LARGE = ["numbers", "row", "bools", "texts", "bytes", "dims", "list", "objects", "dict", "dictint", "fields", "structs", "longtext",
         "longbytes", "longkeys", "deep", "set", "np.str_"]


# -- what MATLAB is to see --------------------------------------------------
CLASS = {np.bool_: "logical", np.uint8: "uint8", np.uint16: "uint16", np.uint32: "uint32", np.uint64: "uint64", np.int8: "int8",
         np.int16: "int16", np.int32: "int32", np.int64: "int64", np.float32: "single", np.float64: "double", np.complex64: "single",
         np.complex128: "double", np.bytes_: "char", np.str_: "char", np.object_: "cell"}


def text(x):
    if isinstance(x, bytes):
        x = x.decode()
    return x


def attr(obj, name):
    return text(obj.attrs[name]) if name in obj.attrs else None


def two(shape, oned):
    """The shape that MATLAB sees."""
    if len(shape) == 0:
        return (1, 1)
    if len(shape) == 1:
        return (shape[0], 1) if oned == "column" else (1, shape[0])
    return tuple(shape)


def only(ctx, obj, *names):
    """No MATLAB attributes but these."""
    have = {n for n in obj.attrs if n.startswith("MATLAB")}
    ctx.check("the MATLAB attributes are those of the value", have == set(names))


def elements(v):
    """The elements of an array in C order."""
    return [v[i] for i in np.ndindex(*v.shape)]


def verify(ctx, h, obj, v, o, parent=None):
    """obj is what a value is to be stored as for MATLAB."""
    oned = o.get("oned_as", "row")
    h5path = {"H5PATH"} if parent is not None else set()
    ctx.check("H5PATH is there", set(n for n in obj.attrs if n == "H5PATH") == h5path)
    if parent is not None:
        ctx.check("H5PATH is the Group", attr(obj, "H5PATH") == parent)
    if v is None or v is Ellipsis:
        return empty(ctx, obj, "double", None)
    if isinstance(v, (dict, collections.OrderedDict)):
        return members(ctx, h, obj, v, o)
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        n = len(v)
        vals = list(v)
        if isinstance(v, (set, frozenset)):
            if n == 0:
                return empty(ctx, obj, "cell", two((0,), oned))
            only(ctx, obj, "MATLAB_class")
            ctx.check("class", attr(obj, "MATLAB_class") == "cell")
            ctx.check("shape", obj.shape == two((n,), oned)[::-1])
            return None
        return cell(ctx, h, obj, (n,), vals, o)
    if isinstance(v, np.dtype):
        return ctx.check("class", attr(obj, "MATLAB_class") == "char")
    if isinstance(v, (np.ndarray, np.generic)):
        return array(ctx, h, obj, v, o)
    if isinstance(v, bool):
        return number(ctx, obj, "logical", (), [np.bool_(v)], o)
    if isinstance(v, int):
        if -(1 << 63) <= v < 1 << 63:
            return number(ctx, obj, "int64", (), [np.int64(v)], o)
        ctx.check("class", attr(obj, "MATLAB_class") == "char")
        return char(ctx, obj, (), [str(v).encode()], o)
    if isinstance(v, float):
        return number(ctx, obj, "double", (), [np.float64(v)], o)
    if isinstance(v, complex):
        return number(ctx, obj, "double", (), [np.complex128(v)], o)
    if isinstance(v, (bytes, bytearray, str)):
        if len(v) == 0:
            return empty(ctx, obj, "char", (1, 0))
        return char(ctx, obj, (), [v], o)
    raise TypeError(type(v))


def empty(ctx, obj, cls, shape):
    """Stored as the shape."""
    only(ctx, obj, *(["MATLAB_class", "MATLAB_empty"] + (["MATLAB_int_decode"] if cls in ("char", "logical") else [])))
    ctx.check("class", attr(obj, "MATLAB_class") == cls)
    ctx.check("marked as empty", bool(obj.attrs["MATLAB_empty"] == 1))
    ctx.check("shapes are uint64", obj.dtype == np.uint64 and len(obj.shape) == 1)
    got = tuple(int(i) for i in obj[...])
    ctx.check("some dimension is 0", 0 in got and len(got) >= 2)
    if shape is not None:
        ctx.check("shape", got == tuple(shape))


def number(ctx, obj, cls, shape, vals, o):
    oned = o.get("oned_as", "row")
    sh = two(shape, oned)
    if 0 in sh:
        return empty(ctx, obj, cls, sh)
    only(ctx, obj, *(["MATLAB_class"] + (["MATLAB_int_decode"] if cls == "logical" else [])))
    ctx.check("class", attr(obj, "MATLAB_class") == cls)
    ctx.check("dimensions are reversed", obj.shape == sh[::-1])
    if cls == "logical":
        ctx.check("logical is stored as uint8", obj.dtype == np.uint8)
        ctx.check("int decode", bool(obj.attrs["MATLAB_int_decode"] == 1))
    data = obj[...]
    for i, x in zip(np.ndindex(*sh), vals):
        d = data[i[::-1]]
        if cls == "logical":
            ctx.check("same element", d == (1 if x else 0))
        elif isinstance(x, np.complexfloating):
            ctx.check("complex fields", obj.dtype.names == ("real", "imag"))
            ctx.check("same element", ctx.And(ctx.same(d["real"], x.real), ctx.same(d["imag"], x.imag)))
        else:
            ctx.check("same element", ctx.same(d, x))
    return None


def units16(ctx, s):
    """The UTF-16 code units of a text, None if there are lone surrogates."""
    out = []
    for c in s:
        c = c if isinstance(c, int) else ord(c)
        if 0xd800 <= c < 0xe000:
            return None
        if c >= 0x10000:
            out += [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)]
        else:
            out.append(c)
    while out and out[-1] == 0:
        out.pop()
    return out


def char(ctx, obj, shape, vals, o, n=None):
    """vals: the texts in C order, each of n characters."""
    if n is None:
        n = len(vals[0])
    oned = o.get("oned_as", "row")
    sh = two(shape, oned)
    sh = sh[:-1] + (sh[-1] * n,)
    only(ctx, obj, "MATLAB_class", "MATLAB_int_decode")
    ctx.check("class", attr(obj, "MATLAB_class") == "char")
    if obj.dtype.kind == "S":
        # Bytes that are not ASCII are kept as they are.
        ctx.check("int decode", bool(obj.attrs["MATLAB_int_decode"] == 1))
        ctx.check("only bytes that are not ASCII", all(isinstance(x, (bytes, bytearray)) for x in vals))
        ctx.check("only bytes that are not ASCII", ctx.Or(*[c >= 128 for x in vals for c in x]))
        return
    ctx.check("int decode is the size of a code unit", bool(obj.attrs["MATLAB_int_decode"] == obj.dtype.itemsize))
    data = obj[...]
    if isinstance(vals[0], str):
        units = [units16(ctx, x) for x in vals]
        # UTF-16 unless there are characters that it does not have or pairs that change the shape. (Text that is shorter than
        # the type has room for may be either.)
        size = -1 if any(u is None for u in units) else max(len(u) for u in units)
        ctx.check("code units of a str", obj.dtype == np.uint16 if size == n else obj.dtype == np.uint32 or 0 <= size < n and
                  obj.dtype == np.uint16)
        if obj.dtype == np.uint32:
            units = [[ord(c) for c in x] for x in vals]
    else:
        ctx.check("code units of bytes", obj.dtype == np.uint16)
        units = [list(x) for x in vals]
    ctx.check("dimensions are reversed", obj.shape == sh[::-1])
    units = [u + [0] * (n - len(u)) for u in units]
    for idx, u in zip(np.ndindex(*two(shape, oned)), units):
        for k in range(n):
            at = idx[:-1] + (idx[-1] * n + k,)
            ctx.check("same character", data[at[::-1]] == u[k])


def cell(ctx, h, obj, shape, vals, o):
    sh = two(shape, o.get("oned_as", "row"))
    if 0 in sh:
        return empty(ctx, obj, "cell", sh)
    only(ctx, obj, "MATLAB_class")
    ctx.check("class", attr(obj, "MATLAB_class") == "cell")
    refs(ctx, h, obj, sh, vals, o)


def refs(ctx, h, obj, sh, vals, o):
    ctx.check("references", h5py.check_dtype(ref=obj.dtype) is h5py.Reference)
    ctx.check("dimensions are reversed", obj.shape == sh[::-1])
    data = obj[...]
    for i, x in zip(np.ndindex(*sh), vals):
        to = h[data[i[::-1]]]
        ctx.check("elements are in group_for_references", to.name.rpartition("/")[0] == "/#refs#")
        verify(ctx, h, to, x, o, "/#refs#")


def array(ctx, h, obj, v, o):
    dt = v.dtype
    oned = o.get("oned_as", "row")
    shape = v.shape
    if dt.names is not None:
        return struct(ctx, h, obj, v, o)
    vals = [v] if isinstance(v, np.generic) else elements(v)
    cls = CLASS[dt.type]
    if cls == "cell":
        return cell(ctx, h, obj, shape, vals, o)
    if cls == "char":
        n = len(v) if isinstance(v, np.generic) else dt.itemsize // (4 if dt.kind == "U" else 1)
        if n == 0 or 0 in shape:
            sh = two(shape, o.get("oned_as", "row"))
            return empty(ctx, obj, cls, sh[:-1] + (sh[-1] * n,))
        return char(ctx, obj, shape, vals, o, n)
    return number(ctx, obj, cls, shape, vals, o)


def names_attr(ctx, obj, names):
    """MATLAB_fields has the names if all of them are ASCII."""
    if all(ord(c) < 128 for n in names for c in n):
        got = ["".join(text(c) for c in n) for n in obj.attrs["MATLAB_fields"]]
        ctx.check("MATLAB_fields", got == list(names))
        return ["MATLAB_fields"]
    return []


def esc(ctx, n):
    return ctx.hs.pathesc.escape_path(n)


def struct(ctx, h, obj, v, o):
    dt = v.dtype
    sh = two(v.shape, o.get("oned_as", "row"))
    names = [esc(ctx, n) for n in dt.names]
    if 0 in v.shape:
        ctx.check("class", attr(obj, "MATLAB_class") == "struct")
        ctx.check("marked as empty", bool(obj.attrs["MATLAB_empty"] == 1))
        ctx.check("shape", tuple(int(i) for i in obj[...]) == sh)
        return only(ctx, obj, "MATLAB_class", "MATLAB_empty", *names_attr(ctx, obj, names))
    ctx.check("structures are Groups", isinstance(obj, h5py.Group))
    only(ctx, obj, "MATLAB_class", *names_attr(ctx, obj, names))
    ctx.check("class", attr(obj, "MATLAB_class") == "struct")
    ctx.check("fields", len(obj) == len(names) and all(n in obj for n in names))
    vals = [v[()]] if v.shape == () and isinstance(v, np.ndarray) else [v] if not isinstance(v, np.ndarray) else elements(v)
    for n, e in zip(dt.names, names):
        xs = [x[n] for x in vals]
        if len(xs) == 1:
            verify(ctx, h, obj[e], xs[0], o, obj.name)
        else:
            # An array of references without any other attributes
            ctx.check("no class", set(obj[e].attrs) == {"H5PATH"})
            ctx.check("H5PATH is the Group", attr(obj[e], "H5PATH") == obj.name)
            refs(ctx, h, obj[e], sh, xs, o)


def members(ctx, h, obj, v, o):
    ctx.check("mappings are Groups", isinstance(obj, h5py.Group))
    ctx.check("class", attr(obj, "MATLAB_class") == "struct")
    if all(isinstance(k, str) for k in v) and not any("\0" in k for k in v):
        names = [esc(ctx, k) for k in v]
        only(ctx, obj, "MATLAB_class", *names_attr(ctx, obj, names))
        vals = list(v.values())
    else:
        names = ["keys", "values"]
        only(ctx, obj, "MATLAB_class")
        vals = [list(v.keys()), list(v.values())]
    ctx.check("fields", len(obj) == len(names) and all(n in obj for n in names))
    for n, x in zip(names, vals):
        if names == ["keys", "values"] and isinstance(x, list):
            x = tuple(x)
        verify(ctx, h, obj[n], x, o, obj.name)


# -- the harnesses ------------------------------------------------------------
def put(ctx, v, o, path="/x", fn=None, check=True):
    fn = fn or ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    f.write(v, path)
    f.close()
    return fn


def look(ctx, fn, v, o, path="/x"):
    h = h5py.File(fn, "r")
    try:
        verify(ctx, h, h[path], v, o)
        canonical(ctx, h)
    finally:
        h.close()


def canonical(ctx, h):
    if "#refs#" not in h:
        return
    a = h["#refs#"]["a"]
    ctx.check("canonical empty", attr(a, "MATLAB_class") == "canonical empty" and bool(a.attrs["MATLAB_empty"] == 1) and
              a.dtype == np.uint64 and tuple(int(i) for i in a[...]) == (0, 0))


def h_array(ctx, dt, shape, oned, layout, meta):
    o = {"matlab_compatible": True, "oned_as": oned}
    if meta is None:
        o["store_python_metadata"] = ctx.bool("meta")
    order = ctx.choose("order", ["<", ">"])
    if shape == [] and ctx.choose("scalar", [0, 1]):
        v = ctx.scalar("v", dt)
    else:
        v = LIB.make_array(ctx, "v", np.dtype(dt).newbyteorder(order), shape, layout)
    look(ctx, put(ctx, v, o), v, o)


def h_text(ctx, dt, shape, oned):
    o = {"matlab_compatible": True, "oned_as": oned}
    order = ctx.choose("order", ["<", ">"])
    v = LIB.make_array(ctx, "v", np.dtype(dt).newbyteorder(order), shape)
    look(ctx, put(ctx, v, o), v, o)


def h_struct(ctx, fields, shape, oned):
    o = {"matlab_compatible": True, "oned_as": oned}
    v = LIB.make_array(ctx, "v", FIELDS[fields], shape)
    look(ctx, put(ctx, v, o), v, o)


def value(ctx, kind, name="v"):
    return LIB.simple(ctx, name, kind)


def describe(ctx, fn, kind, v, o, path="/x"):
    if kind == "date":
        v = {n: getattr(v, n) for n in ("year", "month", "day")}
    look(ctx, fn, v, o, path)


def h_value(ctx, kind, into):
    o = {"matlab_compatible": True, "oned_as": ctx.choose("oned", ["row", "column"])}
    v = LIB.element(ctx, "v", kind) if kind.startswith(("str", "bytes", "np.", "int", "big")) else value(ctx, kind)
    fn = put(ctx, v, o, into)
    describe(ctx, fn, kind, v, o, into)


def h_over(ctx, before, kind, first):
    o = {"matlab_compatible": True}
    fn = put(ctx, LIB.simple(ctx, "p", before), PLAIN.get(first, o))
    v = value(ctx, kind)
    put(ctx, v, o, fn=fn)
    describe(ctx, fn, kind, v, o)


def h_off(ctx, before, kind, opts):
    o = PLAIN[opts]
    fn = put(ctx, LIB.simple(ctx, "p", before), {"matlab_compatible": True})
    v = value(ctx, kind)
    put(ctx, v, o, fn=fn)
    h = h5py.File(fn, "r")
    merged = isinstance(h["x"], h5py.Group) and not o.get("delete_unused_variables")
    clean(ctx, h, h["x"], kind if merged else None, v)
    h.close()


def clean(ctx, h, obj, merged, v):
    """No MATLAB metadata is left on what was written."""
    ctx.check("no MATLAB metadata", not [n for n in obj.attrs if n.startswith("MATLAB") or n == "H5PATH"])
    if isinstance(obj, h5py.Group):
        for n in obj:
            if merged is None or isinstance(v, dict) and n in v:
                clean(ctx, h, obj[n], None, v)
    elif h5py.check_dtype(ref=obj.dtype) is h5py.Reference:
        for i in np.ndindex(*obj.shape):
            clean(ctx, h, h[obj[i]], None, v)


def h_keys(ctx):
    o = {"matlab_compatible": True}
    k = ctx.str("k", 1, 1, 0xD7FF)
    v = ctx.make(dict, [(k, ctx.int("i", 0, 9)), ("zz", 1.0)])
    look(ctx, put(ctx, v, o), v, o)


def h_nested(ctx):
    o = {"matlab_compatible": True}
    v = {"a": {"b": [ctx.int("i", -5, 5), {"c": LIB.simple(ctx, "s", "str2")}], "d": {}},
         "e": LIB.simple(ctx, "o", "objects"), "f": LIB.simple(ctx, "t", "struct"), "g": ([], ({},), None)}
    p = ctx.choose("path", ["/x", "/g/x"])
    look(ctx, put(ctx, v, o, p), v, o, p)


def h_discard(ctx, cls, over):
    """Members that are discarded are not there, nor in the list of fields."""
    o = {"matlab_compatible": True, "action_for_matlab_incompatible": "discard", "store_python_metadata": ctx.bool("meta")}
    fn = ctx.path()
    if over is not None:
        put(ctx, {"dict": lambda: {"b": 1, "n": 2}, "struct": lambda: np.zeros((2,), [("b", "u1"), ("n", object)])}[over](), o, fn=fn)
    n = ctx.choose("n", [1, 2, 3])
    kinds = [ctx.choose("kind%d" % i, ["bad", "int", "str1", "list"][:4 if n == 1 else 2]) for i in range(n)]
    names = ["b", "n", "a"][:n]
    pairs = [(k, np.float16(1.5) if t == "bad" else LIB.element(ctx, k, t)) for k, t in zip(names, kinds)]
    good = [(k, x) for (k, x), t in zip(pairs, kinds) if t != "bad"]
    if cls == "struct":
        v = np.zeros((1,), [(k, object) for k in names])
        for k, x in pairs:
            v[k][0] = x
        want = np.zeros((1,), [(k, object) for k, x in good])
        for k, x in good:
            want[k][0] = x
    else:
        v, want = (dict(pairs), dict(good)) if cls == "dict" else (collections.OrderedDict(pairs), collections.OrderedDict(good))
        if cls == "list":
            v, want = [1, dict(pairs)], [1, dict(good)]
    put(ctx, v, o, fn=fn)
    look(ctx, fn, want, o)


def h_large(ctx, what):
    """Many elements, dimensions, fields, keys and levels, of which some are arbitrary."""
    o = {"matlab_compatible": True, "oned_as": ctx.choose("oned", ["row", "column"])}
    i, c, b = ctx.int("i", 0, 99), ctx.str("c", 1, 1, 0xd7ff), ctx.bytes("b", 1, 1, 0x7f)
    if what == "numbers":
        v = np.arange(120, dtype=">f8").reshape(8, 15)
        v[3, 14] = ctx.scalar("x", "f8")
    elif what == "row":
        v = np.arange(300, dtype="<i2")
        v[299] = ctx.scalar("x", "i2")
    elif what == "bools":
        v = np.arange(100).reshape(10, 10) % 3 == 0
        v[9, 9] = ctx.bool("x")
    elif what == "texts":
        v = np.array(["%d" % (k * 37) for k in range(24)], "<U6").reshape(2, 3, 4)
        v[1, 2, 3] = c + "abcde"
    elif what == "bytes":
        v = np.array([b"%d" % (k * 37) for k in range(24)], "S6").reshape(2, 3, 4)
        v[0, 2, 3] = b + b"abcde"
    elif what == "dims":
        v = np.arange(24, dtype="<u4").reshape(1, 2, 1, 3, 2, 1, 2)
        v[0, 1, 0, 2, 1, 0, 1] = ctx.scalar("x", "u4")
    elif what == "list":
        v = [k if k % 3 else "e%d" % k for k in range(30)] + [i]
    elif what == "objects":
        v = np.empty((4, 5), object)
        for k in range(20):
            v.flat[k] = [k, "e", None, [k]][k % 4]
        v[3, 3] = i
    elif what == "dict":
        v = {"k%d" % (k * 7 % 20): [k, float(k), "t", None, {}][k % 5] for k in range(20)}
        v["end"] = i
    elif what == "dictint":
        v = {k * 7 % 20: k for k in range(20)}
        v["end"] = i
    elif what == "fields":
        v = np.zeros((1,), [("f%d" % (k * 7 % 15), ["<i4", ">f8", "S2", "b1"][k % 4]) for k in range(15)])
        v["f3"][0] = i
    elif what == "structs":
        v = np.zeros((4, 5), [("b", "<i4"), ("a", "S2"), ("c", "b1")])
        v["b"][3, 4] = i
        v["a"][3, 4] = b + b"a"
    elif what == "longtext":
        v = "abc" * 100 + c
    elif what == "longbytes":
        v = b"abc" * 100 + b
    elif what == "np.str_":
        v = ctx.make(np.str_, c + "abc" * 100)
    elif what == "longkeys":
        v = {"k" * 40: 1, "k" * 200: i, "a" * 63: 2, "a" * 64: 3}
    elif what == "set":
        v = ctx.make(set, [i])
    else:
        v = i
        for k in range(12):
            v = [k, v] if k % 2 else {"a": v, "b": k}
    look(ctx, put(ctx, v, o), v, o)


def h_object_shapes(ctx):
    o = {"matlab_compatible": True, "oned_as": ctx.choose("oned", ["row", "column"])}
    sh = ctx.choose("shape", [(), (1,), (2,), (2, 3), (2, 1, 2), (0,), (3, 0)])
    v = np.empty(sh, object)
    for n, i in enumerate(np.ndindex(*sh)):
        v[i] = ctx.int("e%d" % n, 0, 99)
    look(ctx, put(ctx, v, o), v, o)
