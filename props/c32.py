"""C32: writing never changes the caller's data."""
import collections

import numpy as np

BOUNDS = ("arrays of 20 types (numeric of both byte orders, bool, complex, text, bytes, structured, objects) of 8 shapes (numeric ones also of 300 and 11 by 12), C and "
          "Fortran ordered, strided, reversed, read-only and of 4 containers, and 24 kinds of other values, alone and in "
          "lists, tuples, deques, sets, dicts and object arrays, also of 40 elements, of arbitrary contents, with 5 combinations of options and "
          "each of the implied options on its own; writes that succeed, that are refused and that discard elements; two "
          "writes of one value; the contents, identity of elements, order, type, dtype, shape, strides, base and flags of all parts "
          "are compared with what they were; values that were read are not changed by what is done with the others")
OUTSIDE = "arrays of more elements, subclasses with side effects of their own"
TIME = {"quick": 50, "thorough": 400}
NE, OE = LIB.NE, LIB.OE
DTYPES = ["b1", "u1", "i2", NE + "i4", OE + "i4", "f2", OE + "f8", NE + "f4", NE + "c8", OE + "c16", NE + "U2", OE + "U1", "S1", "S3",
          "struct", "packed", "nested", "O", "boolean", "text"]
SPECIAL = {"struct": [("a", NE + "i4"), ("b", OE + "f8"), ("c", "b1")], "packed": [("r", "u1"), ("i", NE + "U1")],
           "nested": [("x", [("y", "b1"), ("z", NE + "c8")]), ("w", NE + "f4", (2,))],
           "boolean": [("t", "b1")], "text": [("s", "S2"), ("u", OE + "U1")]}
SHAPES = [(), (1,), (3,), (0,), (2, 2), (1, 3), (0, 2), (2, 1, 2)]
KINDS = ["int", "big", "bool", "float", "complex", "none", "str0", "str2", "bytes1", "bytearray", "np.<f4", "np.b1", "np.U1", "np.S2",
         "array", "array0", "empty", "struct", "date", "dtype", "lists", "dict", "dict2", "objects"]
SETS = [{"matlab_compatible": True}, {"matlab_compatible": False},
        {"matlab_compatible": False, "reverse_dimension_order": True, "make_atleast_2d": True, "oned_as": "column",
         "convert_bools_to_uint8": True, "convert_numpy_str_to_utf16": True, "convert_numpy_bytes_to_utf16": True,
         "structured_numpy_ndarray_as_struct": True, "store_shape_for_empty": True},
        {"matlab_compatible": True, "action_for_matlab_incompatible": "discard", "store_python_metadata": False},
        {"matlab_compatible": False, "structured_numpy_ndarray_as_struct": True, "compress_size_threshold": 0},
        {"matlab_compatible": False, "make_atleast_2d": True}, {"matlab_compatible": False, "reverse_dimension_order": True},
        {"matlab_compatible": False, "convert_bools_to_uint8": True}, {"matlab_compatible": False, "complex_names": ("a", "b")},
        {"matlab_compatible": False, "convert_numpy_str_to_utf16": True, "convert_numpy_bytes_to_utf16": True}]


def jobs(tier):
    out = []
    for d in DTYPES:
        for s in SHAPES:
            if tier != "quick" or len(s) in (1, 2):
                out.append(("h_array", {"dtype": d, "shape": list(s)}))
    for d in DTYPES[:10]:
        for s in ((300,), (11, 12)) if d[-2:] != "c8" else ((60,),):
            out.append(("h_array", {"dtype": d, "shape": list(s)}))
    for k in ("list", "dict", "objects", "tuple", "deque", "fields"):
        out.append(("h_large", {"kind": k}))
    for k in KINDS:
        out.append(("h_value", {"kind": k}))
        out.append(("h_inside", {"kind": k}))
    for where in ("list", "dict", "objects", "nested", "struct", "set", "deque", "tuple", "ordered", "chain", "keys", "struct2"):
        out.append(("h_refused", {"where": where}))
    for k in ("array", "list", "dict", "objects", "bytearray", "struct", "deque"):
        out.append(("h_independent", {"kind": k}))
    return out


def snap(v):
    """What is to stay as it is."""
    if isinstance(v, np.ndarray):
        f = v.flags
        meta = (type(v), v.shape, v.strides, v.dtype, f.writeable, f.c_contiguous, f.f_contiguous, f.aligned)
        parts = []
        if v.dtype.hasobject and v.dtype.names is None:
            parts = [snap(v[i]) for i in np.ndindex(*v.shape)]
        return ("array", v, meta, np.array(v, copy=True, subok=False) if not v.dtype.hasobject else None, parts)
    if isinstance(v, (list, tuple, collections.deque)):
        return ("sequence", v, type(v), [snap(x) for x in v])
    if isinstance(v, dict):
        return ("dict", v, type(v), [(snap(k), snap(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return ("set", v, type(v), len(v), list(v))
    if isinstance(v, bytearray):
        return ("bytearray", v, bytes(v))
    return ("value", v)


def unchanged(ctx, s, *v):
    """Whether v (or the object that s was made of) is what it was."""
    if v:
        ctx.check("the same object", v[0] is s[1])
    v = s[1]
    if s[0] == "array":
        f = v.flags
        meta = (type(v), v.shape, v.strides, v.dtype, f.writeable, f.c_contiguous, f.f_contiguous, f.aligned)
        for a, b, what in zip(meta, s[2], ("type", "shape", "strides", "dtype", "writeable", "C", "F", "aligned")):
            ctx.check("the " + what + " of an array", a == b)
        if s[3] is not None:
            ctx.check("the contents of an array", ctx.same(np.array(v, copy=True, subok=False), s[3]))
        else:
            for i, p in zip(np.ndindex(*v.shape), s[4]):
                unchanged(ctx, p, v[i])
    elif s[0] == "sequence":
        ctx.check("the length of a sequence", type(v) is s[2] and len(v) == len(s[3]))
        for x, p in zip(v, s[3]):
            unchanged(ctx, p, x)
    elif s[0] == "dict":
        ctx.check("the length of a dict", type(v) is s[2] and len(v) == len(s[3]))
        for (k, x), (a, b) in zip(v.items(), s[3]):
            unchanged(ctx, a, k)
            unchanged(ctx, b, x)
    elif s[0] == "set":
        ctx.check("the length of a set", type(v) is s[2] and len(v) == s[3])
        for x, y in zip(v, s[4]):
            ctx.check("the elements of a set", x is y)
    elif s[0] == "bytearray":
        ctx.check("the contents of a bytearray", bytes(v) == s[2])


def put(ctx, v, o, path="/x", fn=None):
    f = ctx.call(ctx.hs.File, fn or ctx.path(), writable=True, **o)
    r, e = ctx.attempt(f.write, v, path)
    f.close()
    return e


def objects(ctx, name, shape):
    a = np.empty(shape, object)
    for n, i in enumerate(np.ndindex(*shape)):
        k = ["int", "array", "list", "np.S2", "none", "dict"][n % 6]
        a[i] = LIB.element(ctx, "%s%d" % (name, n), k)
    return a


def h_array(ctx, dtype, shape):
    shape = tuple(shape)
    o = ctx.choose("options", SETS)
    layout = ctx.choose("layout", ["C", "F", "strided", "reversed"] if len(shape) and dtype != "O" else ["C"])
    cont = "ndarray"
    if dtype == "O":
        a = objects(ctx, "v", shape)
    else:
        if len(shape) == 2 and dtype not in SPECIAL:
            cont = ctx.choose("container", ["ndarray", "matrix"] + (["chararray"] if "U" in dtype or "S" in dtype else []))
        elif dtype in SPECIAL and len(shape):
            cont = ctx.choose("container", ["ndarray", "recarray"])
        a = LIB.make_array(ctx, "v", SPECIAL.get(dtype, dtype), shape, layout, cont)
    if ctx.choose("read-only", [False, True]):
        a.flags.writeable = False
    base = a.base
    sb = snap(base) if isinstance(base, np.ndarray) else None
    s = snap(a)
    put(ctx, a, o)
    unchanged(ctx, s)
    if sb is not None:
        ctx.check("the base of an array", a.base is base)
        unchanged(ctx, sb)


def h_large(ctx, kind):
    """Of many elements and several levels."""
    o = ctx.choose("options", SETS)
    xs = [[i, "t", None, [i], np.arange(i % 5), bytearray(b"ab"), {"a": i}, 2 ** 70][i % 8] for i in range(40)]
    xs[20] = LIB.element(ctx, "x", "array")
    xs[39] = LIB.element(ctx, "y", "int")
    if kind == "dict":
        v = {"k%d" % (i * 7 % 40): x for i, x in enumerate(xs)}
    elif kind == "objects":
        v = np.empty((5, 8), object)
        for i in range(40):
            v[i // 8, i % 8] = xs[i]
    elif kind == "fields":
        v = np.empty((4,), [("f%d" % i, "O") for i in range(10)])
        for i in range(40):
            v["f%d" % (i % 10)][i // 10] = xs[i]
        s = [snap(x) for x in xs]
        put(ctx, v, o)
        for i in range(40):
            unchanged(ctx, s[i], v["f%d" % (i % 10)][i // 10])
        return
    else:
        v = LIB.container(kind)(xs)
    s = snap(v)
    put(ctx, v, o)
    unchanged(ctx, s)


def h_value(ctx, kind):
    o = ctx.choose("options", SETS)
    v = LIB.element(ctx, "v", kind)
    s = snap(v)
    fn = ctx.path()
    put(ctx, v, o, "/x", fn)
    unchanged(ctx, s)
    if ctx.choose("again", [False, True]):
        put(ctx, v, o, ctx.choose("to", ["/x", "/y", "/x/z"]), fn)
        unchanged(ctx, s)


def h_inside(ctx, kind):
    o = ctx.choose("options", SETS[:5])
    v = LIB.element(ctx, "v", kind)
    w = ctx.array("w", OE + "i2", (2,))
    where = ctx.choose("where", ["list", "tuple", "deque", "dict", "keys", "objects", "ordered", "structured"])
    if where == "objects":
        x = np.empty((2,), object)
        x[0], x[1] = v, w
    elif where == "structured":
        x = np.empty((1,), [("a", "O"), ("b", "O")])
        x["a"][0], x["b"][0] = v, w
    elif where == "dict":
        x = {"a": v, "b": w}
    elif where == "ordered":
        x = collections.OrderedDict([("b", w), ("a", v)])
    elif where == "keys":
        x = {1: v, (2, "c"): w}
    else:
        x = LIB.container(where)([v, w])
    s, sv, sw = snap(x), snap(v), snap(w)
    put(ctx, x, o)
    unchanged(ctx, s)
    unchanged(ctx, sv, v)
    unchanged(ctx, sw)
    if where == "structured":
        ctx.check("the same elements", x["a"][0] is v and x["b"][0] is w)


def h_refused(ctx, where):
    """Values of which some part is refused or discarded."""
    o = ctx.choose("options", [{"action_for_matlab_incompatible": a} for a in ("error", "discard", "ignore")]
                   + [{"matlab_compatible": False}])
    bad = ctx.choose("bad", ["half", "object", "nul"])
    b = ctx.array("h", "f2", (2,)) if bad == "half" else object() if bad == "object" else {"\0": ctx.int("z", 0, 9)}
    v, w = ctx.array("v", OE + "i4", (2,)), [ctx.int("i", 0, 9)]
    if where == "list":
        x = [v, b, w]
    elif where == "dict":
        x = {"v": v, "b": b, "w": w}
    elif where == "nested":
        x = [v, {"k": [w, b]}, w]
    elif where == "objects":
        x = np.empty((3,), object)
        x[0], x[1], x[2] = v, b, w
    elif where == "deque":
        x = collections.deque([v, b, w])
    elif where == "tuple":
        x = (v, [b, w], collections.deque([v, b]))
    elif where == "ordered":
        x = collections.OrderedDict([("v", v), ("b", b), ("w", w)])
    elif where == "chain":
        x = collections.ChainMap({"v": v}, {"b": b}, {"w": w})
    elif where == "keys":
        x = {1: v, "b": b, (2, "c"): w}
    elif where == "struct2":
        x = np.empty((2,), [("a", "O"), ("b", "O")])
        x["a"][0], x["b"][0] = v, w
        x["a"][1], x["b"][1] = w, b
    elif where == "set":
        x = {ctx.int("j", 0, 9), ctx.str("t", 1)} | ({np.float16(1.0)} if bad == "half" else set())
    else:
        x = np.empty((1,), [("a", "O"), ("b", "O")])
        x["a"][0], x["b"][0] = v, b
    s, sv, sw = snap(x), snap(v), snap(w)
    put(ctx, x, o)
    unchanged(ctx, s)
    unchanged(ctx, sv, v)
    unchanged(ctx, sw, w)
    if where == "chain":
        ctx.check("the same maps", [list(m) for m in x.maps] == [["v"], ["b"], ["w"]] and x["v"] is v and x["b"] is b and x["w"] is w)


def h_independent(ctx, kind):
    """What was read does not change when the file or another read value does."""
    o = ctx.choose("options", SETS[:3])
    v = collections.deque([ctx.int("d", 0, 9), [1]]) if kind == "deque" else LIB.element(ctx, "v", kind)
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    f.write(v, "/x")
    r, q = f.read("/x"), f.read("/x")
    s = snap(r)
    ctx.check("another object each time", r is not q)
    if isinstance(q, np.ndarray) and q.dtype.names is None and not q.dtype.hasobject:
        ctx.check("writable", bool(q.flags.writeable))
        q[...] = 0
    elif isinstance(q, np.ndarray) and q.dtype.hasobject:
        q[...] = None
    elif isinstance(q, dict):
        q.clear()
    elif isinstance(q, (list, collections.deque)):
        for x in q:
            if isinstance(x, list):
                x.append(3)
        q.clear()
    elif isinstance(q, bytearray):
        q.extend(b"more")
    unchanged(ctx, s)
    f.write(7, "/x")
    unchanged(ctx, s)
    f.close()
    unchanged(ctx, s)
    ctx.check("still the value", ctx.same(r, v, False))
