"""C14: what is read after a write does not depend on what was there before."""
import numpy as np

BOUNDS = ("every ordered pair of 30 kinds of values (numbers, text, arrays of several shapes and types, None, sequences, sets, dicts, "
          "structures, objects) with arbitrary contents, the first written with one of six combinations of options and the "
          "second with another; also two writes before, a Group of other paths before, and with dicts of two arbitrary "
          "one character keys; sequences, sets, dicts, structures and text of up to 30 (300) elements of which one is arbitrary over small "
          "ones and the other way, also twice; compared with what is read of a file that only has the second write, by a reader with the "
          "second options and by one with the defaults")
OUTSIDE = ("dicts and structures that are merged with those that were there when delete_unused_variables is off (documented), "
           "other histories (C15 has histories on several paths)")
TIME = {"quick": 60, "thorough": 600}
KINDS = ["int", "big", "bool", "float", "complex", "none", "str0", "str2", "bytes1", "np.<f4", "np.b1", "np.U1", "np.S2", "array",
         "array0", "array2", "empty", "struct", "dtype", "list", "tuple", "set", "list0", "dict0", "dict", "dict2", "objects",
         "bools", "texts", "objects0"]
GROUPS = {"struct", "dict0", "dict", "dict2"}
TYPES = [("<i4", ">i4"), ("<f8", ">f8"), ("<i4", "<u4"), ("<i4", "<f4"), ("<c8", "<f8"), (">c8", "<c8"), ("S4", "<i4"),
         ("<U1", "<i4"), ("<U1", ">U1"), ("b1", "u1"), ("S2", "<u2"), ("<i4", "<i4"), ("V4", "S4")]
FEW = ["int", "none", "str2", "bytes1", "array", "empty", "list", "dict", "dict2", "struct", "objects", "np.S2"]
SETS = {
    "matlab": {"matlab_compatible": True},
    "plain": {"matlab_compatible": False, "delete_unused_variables": True},
    "bare": {"matlab_compatible": False, "store_python_metadata": False, "delete_unused_variables": True},
    "matbare": {"matlab_compatible": True, "store_python_metadata": False},
    "column": {"matlab_compatible": False, "make_atleast_2d": True, "oned_as": "column", "reverse_dimension_order": True,
               "structured_numpy_ndarray_as_struct": True, "store_shape_for_empty": True, "delete_unused_variables": True,
               "complex_names": ("x", "y"), "convert_numpy_str_to_utf16": True, "convert_numpy_bytes_to_utf16": True,
               "dict_like_keys_name": "values", "dict_like_values_name": "b"},
    "compressed": {"matlab_compatible": False, "compress_size_threshold": 0, "delete_unused_variables": True,
                   "compression_algorithm": "lzf", "group_for_references": "/x/refs"},
    "keep": {"matlab_compatible": False, "delete_unused_variables": False},
}


def jobs(tier):
    out = []
    for a in KINDS:
        for b in KINDS:
            for s, t in (("matlab", "matlab"), ("plain", "plain"), ("matlab", "plain"), ("plain", "matlab"), ("column", "matlab"),
                         ("plain", "bare"), ("matlab", "matbare"), ("bare", "column")) if tier != "quick" else (
                             ("matlab", "matlab"), ("column", "matbare")):
                out.append(("h_over", {"before": a, "after": b, "first": s, "second": t}))
    for a in FEW:
        for b in FEW:
            for s in SETS:
                if s not in ("keep",) and (tier != "quick" or s in ("matlab", "bare")):
                    out.append(("h_over", {"before": a, "after": b, "first": s, "second": "bare" if s != "bare" else "plain"}))
            if not (a in GROUPS and b in GROUPS):
                out.append(("h_over", {"before": a, "after": b, "first": "keep", "second": "keep"}))
    for b in KINDS:
        for s in ("matlab", "plain", "column"):
            out.append(("h_group", {"after": b, "opts": s}))
            out.append(("h_twice", {"after": b, "opts": s}))
    for a, b in TYPES:
        for s in ("matlab", "plain", "bare") if "V4" not in (a, b) else ("plain", "bare"):
            out.append(("h_type", {"before": a, "after": b, "opts": s}))
            if a != b:
                out.append(("h_type", {"before": b, "after": a, "opts": s}))
    for a in ("list30", "list3", "dict20", "dict3", "objects6", "struct9", "struct2", "set20", "str300", "str2", "dictint20"):
        for b in ("list30", "list3", "dict20", "dict3", "objects6", "struct9", "struct2", "set20", "str300", "str2", "dictint20"):
            for s, t in (("matlab", "matlab"), ("plain", "plain"), ("column", "bare")):
                out.append(("h_sizes", {"before": a, "after": b, "first": s, "second": t}))
    out = out[::-1]
    for s in ("matlab", "plain", "column"):
        out.append(("h_keys", {"opts": s}))
        out.append(("h_keys_over", {"opts": s}))
    return out


def value(ctx, name, kind):
    if kind == "bools":
        return ctx.array(name, "b1", (2,))
    if kind == "texts":
        return ctx.array(name, "S2", (2,))
    if kind == "objects0":
        return np.zeros((0, 3), object)
    if kind == "big":
        return ctx.bigint(name, 20, "1844674407370955161")
    return LIB.element(ctx, name, kind)


def opts(s):
    return dict(SETS[s])


def put(ctx, fn, o, path, v):
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    f.write(v, path)
    f.close()


def get(ctx, fn, o, path="/x"):
    f = ctx.call(ctx.hs.File, fn, **o)
    r = f.read(path)
    f.close()
    return r


def compare(ctx, old, new, o, readers=None):
    for ro in (o, {}) if readers is None else readers:
        if "dict_like_keys_name" in o:
            ro = o
        (a, ea), (b, eb) = [ctx.attempt(get, ctx, fn, ro) for fn in (old, new)]
        ctx.check("same outcome", type(ea) is type(eb))
        if ea is None:
            ctx.check("same value", ctx.same(a, b))
            types(ctx, a, b)


def types(ctx, a, b):
    """Byte order included."""
    if isinstance(a, (np.ndarray, np.generic)):
        ctx.check("same numpy type", a.dtype == b.dtype)
        if isinstance(a, np.ndarray) and a.dtype.names is None and a.dtype.hasobject:
            for x, y in zip(a.flat, b.flat):
                types(ctx, x, y)
    elif isinstance(a, (list, tuple)):
        for x, y in zip(a, b):
            types(ctx, x, y)


def run(ctx, befores, v, o):
    """befores: [(options, path, value)]"""
    old, new = ctx.path(), ctx.path()
    for p, path, x in befores:
        put(ctx, old, p, path, x)
    put(ctx, old, o, "/x", v)
    put(ctx, new, o, "/x", v)
    compare(ctx, old, new, o)


def h_over(ctx, before, after, first, second):
    run(ctx, [(opts(first), "/x", value(ctx, "p", before))], value(ctx, "v", after), opts(second))


def h_group(ctx, after, opts):
    o = SETS[opts]
    run(ctx, [(o, "/x/a", ctx.int("p0", 0, 9)), (o, "/x/z", ctx.str("p1", 1)), (o, "/x/b/c", ctx.bytes("p2", 1))],
        value(ctx, "v", after), o)


def h_type(ctx, before, after, opts):
    """Arrays of one type over those of another that has items of the same size."""
    o = SETS[opts]
    sh = ctx.choose("shape", [(2,), (1, 2), ()])
    v = ctx.array("v", after, sh)
    run(ctx, [(o, "/x", ctx.array("p", before, ctx.choose("shape before", [sh, (2, 1)])))], v, o)
    if opts == "plain":
        r = LIB.write_read(ctx, v, o, pre=ctx.array("q", before, sh))
        ctx.check("the array", ctx.same(r, v))


def h_twice(ctx, after, opts):
    o = SETS[opts]
    a = ctx.choose("a", ["list", "dict", "struct", "int"])
    b = ctx.choose("b", ["list", "dict2", "str2", "empty"])
    run(ctx, [(o, "/x", value(ctx, "p", a)), (SETS["matlab"], "/x", value(ctx, "q", b))], value(ctx, "v", after), o)


def sized(ctx, name, kind):
    """A larger value, of which one part is arbitrary."""
    n = int("".join(c for c in kind if c.isdigit()))
    x = ctx.int(name, 0, 99)
    k = kind.rstrip("0123456789")
    if k == "list":
        return [x] + ["%d" % i if i % 2 else i for i in range(n - 1)]
    if k == "set":
        return set(range(100, 99 + n)) | ctx.make(set, [x])
    if k == "dict":
        return {"k%d" % (i * 3 % n if n % 3 else i): x if i == n // 2 else [i] if i % 4 == 1 else i for i in range(n)}
    if k == "dictint":
        return {i * 7 % n if n % 7 else i: x if i == n // 2 else i for i in range(n)}
    if k == "objects":
        a = np.empty((n, 2), object)
        for i in range(n):
            a[i, 0], a[i, 1] = i, None
        a[n - 1, 1] = x
        return a
    if k == "struct":
        a = np.zeros((2,), [("k%d" % (i * 2 % n if n % 2 else i), "<i4") for i in range(n)])
        a["k1"][0] = x
        return a
    return ctx.str(name + ".c", 1) + "ab" * (n // 2)


def h_sizes(ctx, before, after, first, second):
    """Small over large, large over small, three times."""
    p, v = sized(ctx, "p", before), sized(ctx, "v", after)
    befores = [(opts(first), "/x", p)]
    if ctx.choose("thrice", [False, True]):
        befores = [(opts(second), "/x", sized(ctx, "q", after)), (opts(first), "/x", p)]
    run(ctx, befores, v, opts(second))


def h_keys(ctx, opts):
    """Dicts over dicts."""
    o = SETS[opts]
    p, v = [{ctx.str("%s%d" % (n, i), 1, 0x2e, 0x7f): ctx.int("%sv%d" % (n, i), 0, 9) for i in range(1)} for n in "pv"]
    run(ctx, [(o, "/x", p)], ctx.make(dict, list(v.items()) + [("zz", 1)]), o)


def h_keys_over(ctx, opts):
    """Structures over dicts of any keys and the other way."""
    o = SETS[opts]
    k = ctx.choose("k", ["a", "c", "keys", "values", "/", "", b"a", "..", "\u00e9", 1])
    d = ctx.make(dict, [(k, 1), ("b", ctx.int("d", 0, 9))])
    if ctx.choose("order", [0, 1]):
        run(ctx, [(o, "/x", d)], value(ctx, "s", "struct"), o)
    else:
        run(ctx, [(o, "/x", value(ctx, "s", "struct"))], d, o)
