"""C13: structured arrays and record arrays read back equal."""
import numpy as np

BOUNDS = ("structured ndarrays and recarrays of 0..2 elements in 0..3 dimensions and structured scalars, of 1..3 fields of every kind "
          "(numbers of both byte orders, complex, bool, text of 0..2 characters, sub-arrays, nested structures, objects) with "
          "arbitrary contents and with 26 kinds of field names (blank, non-ASCII, escapes, slashes, dots, nulls, "
          "surrogates, names with a meaning elsewhere), objects of one kind and of different ones in one field, packed and aligned; MATLAB compatible or combinations of the options "
          "for structures, shapes, text, bools and complex numbers; with another structured array or dict stored before or not; "
          "structures of 12 and 40 fields and of up to 60 elements (of objects: 280) of which three numbers and two texts are arbitrary")
OUTSIDE = ("more elements and fields, titles of fields, the types of the fields of arrays with no elements; text of a field may come back as short as its longest element and fields "
           "of objects as typed or sub-array fields (documented)")
TIME = {"quick": 75, "thorough": 500}
NE, OE = LIB.NE, LIB.OE
NAMES = ["a", "a b", "é", "\U0001f600", "a/b", "/", ".", "..", "\\", "\\x2f", "x\\", "a\x00", "\x00", "a\x00b", "\x00a", " ",
         "\ud800", "keys", "#refs#", "Python.Type", "0", "A" * 64, ".a", "...", "shape", "dtype"]
TYPES = ["b1", "i1", NE + "u2", OE + "i4", NE + "i8", OE + "u8", NE + "f4", OE + "f8", NE + "c8", OE + "c16", "S1", "S2",
         NE + "U1", OE + "U1", NE + "U2", "f2"]
COMPOSED = [[["a", NE + "i4", [2]]], [["a", OE + "f8", [2, 1]]], [["a", "S1", [2]]], [["a", NE + "U1", [2]]], [["a", "b1", [2]]],
            [["a", NE + "c8", [2]]], [["a", [["b", NE + "i4"], ["c", "S1"]]]], [["a", [["b", NE + "f4", [2]]]], ["d", NE + "u1"]],
            [["a", [["b", [["c", OE + "i2"]]]]]], [["a", NE + "i4", [1]]], [["a", NE + "i4", [1, 1]]], [["a", NE + "i4", [0]]],
            [["a", "S0"], ["b", "u1"]], [["a", "U0"], ["b", "u1"]]]
SHAPES = [[], [1], [2], [0], [1, 1], [1, 2], [2, 1], [2, 2], [0, 2], [1, 1, 2], [2, 1, 1], [1, 2, 1, 2]]
MIXED = [["np.U1", "np.i8"], ["np.i8", "np.U1"], ["np.S1", "np.U2"], ["np.S2", "np.S1", "np.f4"], ["array", "np.i4"],
         ["np.i4", "array"], ["array", "array2"], ["np.i4", "np.f4"], ["np.U1", "none"], ["array", "array", "str"], ["np.u1", "int"],
         ["np.S1", "bytes1"], ["np.U2", "array"], ["str", "np.i4"], ["none", "array"], ["list", "np.f4", "np.f4"], ["np.i8", "str", "np.i8"], ["bytes1", "np.S1"], ["dict", "np.u1"], ["empty", "array"], ["np.U0", "np.S0"]]
OPTS = ("structured_numpy_ndarray_as_struct", "make_atleast_2d", "reverse_dimension_order")


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for n in NAMES:
            out.append(("h_struct", {"dt": [[n, NE + "i4"]], "shape": [2], "mode": mode, "opts": []}))
            out.append(("h_struct", {"dt": [["b", "u1"], [n, "S1"]], "shape": [1], "mode": mode, "opts": []}))
            out.append(("h_struct", {"dt": [["zz", "u1"], [n, "i2"], ["b", "u1"]], "shape": [2], "mode": mode, "opts": []}))
        for t in TYPES[:15] if mode == "matlab" else TYPES:
            for sh in ([2], [1, 2], []) if tier == "quick" else SHAPES:
                out.append(("h_struct", {"dt": [["a", t]], "shape": sh, "mode": mode, "opts": kindopts(t)}))
            out.append(("h_struct", {"dt": [["z", "u1"], ["a", t]], "shape": [1], "mode": mode, "opts": kindopts(t), "align": True}))
        for c in COMPOSED:
            for sh in ([2], [1, 1], []) if tier == "quick" else SHAPES:
                out.append(("h_struct", {"dt": c, "shape": sh, "mode": mode, "opts": []}))
            for sh in ([2], [1, 1], [0]):
                out.append(("h_struct", {"dt": c, "shape": sh, "mode": mode, "opts": [], "cont": "recarray"}))
        for sh in SHAPES:
            for cont in ("ndarray", "recarray"):
                out.append(("h_struct", {"dt": [["b", OE + "i4"], ["a", NE + "f8"]], "shape": sh, "mode": mode, "opts": ["oned_as",
                            "store_shape_for_empty"], "cont": cont}))
        for t in TYPES[:12]:
            out.append(("h_scalar", {"dt": [["b", t], ["a", "u1"]], "mode": mode}))
        for c in COMPOSED:
            out.append(("h_scalar", {"dt": c, "mode": mode}))
        for k in ("int", "str", "list", "none", "array", "dict"):
            out.append(("h_objects", {"kind": k, "mode": mode}))
        for k in MIXED if mode != "bare" else ():
            out.append(("h_mixed", {"kinds": k, "mode": mode}))
        for pre in ("struct", "dict", "int", "list"):
            out.append(("h_over", {"pre": pre, "mode": mode}))
        for nf, sh in ((12, [3]), (40, [2]), (2, [60]), (3, [4, 5, 2]), (12, []), (5, [1, 30])):
            for cont in ("ndarray", "recarray") if sh else ("ndarray",):
                out.append(("h_many", {"fields": nf, "shape": sh, "cont": cont, "mode": mode}))
            out.append(("h_many_objects", {"fields": min(nf, 12), "shape": sh if sh != [60] else [280], "mode": mode}))
    return out


def h_many(ctx, fields, shape, cont, mode):
    """Many fields in an order that is not sorted and many elements."""
    ts = ["<i4", ">f8", "S2", "<U2", "b1", "<c8", "u1", ">i2", [("p", "<i2"), ("q", "S1")]]
    names = ["f%d" % (i * 7 % fields) if i % 2 else "%d f" % i for i in range(fields)]
    d = np.dtype([(n, ts[i % len(ts)]) for i, n in enumerate(names)] + [("n", "<i8"), ("t", "<U3"), ("b", "S3")])
    a = np.zeros(tuple(shape), d)
    for k, i in enumerate(np.ndindex(*shape)):
        for j, n in enumerate(names):
            if j % 9 != 8:
                a[n][i] = k % 2 if j % 9 == 4 else "%d" % ((k + j) % 10) if j % 9 in (2, 3) else (k * 7 + j) % 120
        a["n"][i] = k
        a["t"][i] = "%d" % (k % 100)
        a["b"][i] = b"%d" % (k % 100)
    at = list(np.ndindex(*shape))
    for k, i in enumerate((0, len(at) // 2, len(at) - 1)):
        a["n"][at[i]] = ctx.int("n%d" % k, -(1 << 63), (1 << 63) - 1)
    a["t"][at[-1]] = ctx.str("t", 1, 1) + "ab"
    a["b"][at[0]] = ctx.bytes("b", 1) + b"ab"
    if cont == "recarray":
        a = a.view(np.recarray)
    o = LIB.options(ctx, mode, *OPTS)
    check(ctx, LIB.write_read(ctx, a, o), a)


def h_many_objects(ctx, fields, shape, mode):
    """Many elements and fields of objects."""
    a = np.empty(tuple(shape), [("f%d" % i, "O") for i in range(fields)])
    at = list(np.ndindex(*shape))
    for k, i in enumerate(at):
        for j in range(fields):
            a["f%d" % j][i] = [k, "%d" % k, None, [k, "x"], (k,), b"x" * (k % 4)][(k + j) % 6]
    a["f0"][at[-1]] = [ctx.int("n", -(1 << 63), (1 << 63) - 1)]
    a["f1"][at[0]] = ctx.str("s", 1)
    o = LIB.options(ctx, mode, *OPTS[:1])
    check(ctx, LIB.write_read(ctx, a, o), a)


def kindopts(t):
    k = np.dtype(t).kind
    return {"S": ["convert_numpy_bytes_to_utf16"], "U": ["convert_numpy_str_to_utf16"], "b": ["convert_bools_to_uint8"],
            "c": ["complex_names"]}.get(k, [])


def spec(dt):
    if isinstance(dt, str):
        return dt
    return [tuple([f[0], spec(f[1])] + [tuple(x) for x in f[2:]]) for f in dt]


def check(ctx, r, a):
    ctx.check("same type", type(r) is type(a))
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same names", r.dtype.names == a.dtype.names)
    if a.size:
        ctx.check("same contents", ctx.same(r, a, False))


def h_struct(ctx, dt, shape, mode, opts, align=False, cont="ndarray"):
    d = np.dtype(spec(dt), align=align)
    a = LIB.make_array(ctx, "a", d, shape, "C", cont)
    o = LIB.options(ctx, mode, *OPTS, *opts)
    try:
        r = LIB.write_read(ctx, a, o, ropts=LIB.reader(ctx, mode, o))
    except UnicodeEncodeError:
        ctx.check("only surrogates cannot be names", any(0xD800 <= ord(c) <= 0xDFFF for f in dt for c in f[0]))
        return
    check(ctx, r, a)


def h_scalar(ctx, dt, mode):
    v = ctx.scalar("a", np.dtype(spec(dt)))
    o = LIB.options(ctx, mode, *OPTS)
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same type", type(r) is type(v))
    ctx.check("same contents", ctx.same(r, v, False))


def h_objects(ctx, kind, mode):
    """Fields of objects come back as the objects."""
    a = np.empty((2,), [("o", "O"), ("n", "<i4")])
    es = [LIB.element(ctx, "e0", kind), LIB.element(ctx, "e1", "bytes2")]
    for i in range(2):
        a["o"][i] = es[i]
    a["n"] = ctx.array("n", "<i4", (2,))
    o = LIB.options(ctx, mode, *OPTS)
    r = LIB.write_read(ctx, a, o)
    ctx.check("same type", type(r) is np.ndarray)
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same names", r.dtype.names == a.dtype.names)
    ctx.check("same numbers", ctx.same(r["n"], a["n"]))
    for x, y in zip(r["o"], es):
        ctx.check("same object", ctx.same(x, y, False))


def h_mixed(ctx, kinds, mode):
    """Numpy objects of different types and shapes in one field."""
    a = np.empty((len(kinds),), [("n", "<i4"), ("o", "O")])
    es = [LIB.element(ctx, "e%d" % i, k) for i, k in enumerate(kinds)]
    for i, e in enumerate(es):
        a["o"][i] = e
    a["n"] = ctx.array("n", "<i4", a.shape)
    o = LIB.options(ctx, mode, *OPTS)
    r = LIB.write_read(ctx, a, o)
    ctx.check("same type", type(r) is np.ndarray)
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same names", r.dtype.names == a.dtype.names)
    ctx.check("same numbers", ctx.same(r["n"], a["n"]))
    for i, e in enumerate(es):
        x = r["o"][i]
        ctx.check("same object", ctx.same(x, e, False))


def h_over(ctx, pre, mode):
    a = ctx.array("a", [("b", "<i4"), ("c", "S2")], (2,))
    p = LIB.element(ctx, "p", pre) if pre != "dict" else {"b": ctx.int("p", 0, 9), "z": 1}
    o = LIB.options(ctx, mode, *OPTS)
    if mode == "plain" and pre in ("dict", "struct"):
        o["delete_unused_variables"] = True
    check(ctx, LIB.write_read(ctx, a, o, pre=p), a)
