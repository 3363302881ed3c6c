"""C09: empty arrays keep their shape and type."""
import numpy as np

BOUNDS = ("arrays with no elements of shapes (0,), (1,0), (0,1), (0,3), (2,0), (0,0), (1,0,2), (0,2,3), (0,1,2,3), (2,3,0,1), of one dimension at or "
          "above the limits of 8, 16, 31 and 32 bits, and text arrays of 0 or "
          "1..3 blank elements; every numeric type, bool, str, bytes (item sizes 0..2, and around 128, 256 and 65536), object types and eight structured ones, both "
          "byte orders, as ndarray, matrix, chararray and recarray; all combinations of the shape, text, bool and complex options "
          "symbolically; empty str, bytes, bytearray, list, tuple, set, frozenset, deque, dict, OrderedDict, Counter")
OUTSIDE = "more dimensions; other structured dtypes; the types of the fields of structures that are stored as Groups or as their shape (those have no place in the file; they are read as objects)"
SHAPE = ("make_atleast_2d", "reverse_dimension_order", "oned_as", "store_shape_for_empty")
TYPES = ["b1", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8", "c8", "c16", "O"]
SHAPES = [[0], [1, 0], [0, 1], [0, 3], [2, 0], [0, 0], [1, 0, 2], [0, 2, 3], [0, 1, 2, 3], [2, 3, 0, 1]]
# dimensions at the limits of the integer types
LARGE = [[0, 255], [256, 0], [0, 32768], [65535, 0], [65536, 0], [0, 1, 70000], [1 << 31, 0], [0, 1 << 32], [(1 << 33) + 5, 0]]

FIELDS = [[("a", "<i4")], [("b", ">u2"), ("a", "S2")], [("x", "<f8", (2,)), ("y", "<U1")], [("a b/c", "?"), ("\xe9", "<c8")],
          [("o", "O"), ("n", "i1")], [("s", [("t", "<i2"), ("u", "O")])], [("s", [("t", ">i2"), ("u", "?", (2, 1))]), ("v", "u1")], [("z", "u1", (0,))]]


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for t in ("<f8", "|u1", "<c16", "|b1", "S2", "<U2", "|O"):
            out.append(("h_none", {"dt": t, "mode": mode, "large": True}))
        for t in TYPES:
            if t == "f2" and mode == "matlab":
                continue
            for o in ("<", ">") if t[-1] not in "O1" else ("|",):
                out.append(("h_none", {"dt": o + t, "mode": mode}))
        for t in ("S127", "S128", "S255", "S256", "S300", "S65536", "<U31", "<U32", "<U255", ">U256", "<U16384"):
            out.append(("h_none", {"dt": t, "mode": mode}))
        for t in ("S0", "S1", "S2", "<U0", "<U1", ">U2"):
            out.append(("h_none", {"dt": t, "mode": mode}))
            out.append(("h_none", {"dt": t, "mode": mode, "cont": "chararray"}))
            out.append(("h_blank", {"dt": t, "mode": mode}))
        for t in ("<f8", "|b1", "<c16", "<U2"):
            out.append(("h_none", {"dt": t, "mode": mode, "cont": "matrix"}))
        for i in range(len(FIELDS)):
            for cont in ("ndarray", "recarray"):
                out.append(("h_fields", {"i": i, "mode": mode, "cont": cont}))
        for k in range(11):
            out.append(("h_python", {"k": k, "mode": mode}))
    return out


def check(ctx, a, mode, *names):
    o = LIB.options(ctx, mode, *SHAPE, *names)
    r = LIB.write_read(ctx, a, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same container", type(r) is type(a))
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same kind", r.dtype.kind == a.dtype.kind)
    if a.dtype.kind not in "SU" or a.dtype.itemsize:
        ctx.check("same type", r.dtype.newbyteorder("=") == a.dtype.newbyteorder("="))
    return r


def of(kind):
    return {"b": ("convert_bools_to_uint8",), "c": ("complex_names",), "S": ("convert_numpy_bytes_to_utf16",),
            "U": ("convert_numpy_str_to_utf16",)}.get(kind, ())


def h_none(ctx, dt, mode, cont="ndarray", large=False):
    d = np.dtype(dt)
    sh = ctx.choose("shape", LARGE if large else [s for s in SHAPES if cont != "matrix" or len(s) == 2])
    a = np.zeros(tuple(sh), d)
    if cont != "ndarray":
        a = a.view(np.matrix if cont == "matrix" else np.chararray)
    check(ctx, a, mode, *of(d.kind))


def h_fields(ctx, i, mode, cont):
    """The fields are there, with their types when there is a place for these in the file."""
    d = np.dtype(FIELDS[i])
    sh = ctx.choose("shape", SHAPES)
    a = np.zeros(tuple(sh), d)
    if cont == "recarray":
        a = a.view(np.recarray)
    o = LIB.options(ctx, mode, *SHAPE, "structured_numpy_ndarray_as_struct", "delete_unused_variables")
    r = LIB.write_read(ctx, a, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same container", type(r) is type(a))
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same fields", r.dtype.names == d.names)
    dataset = mode == "plain" and i in (0, 1, 3, 6)
    if dataset and not o.get("structured_numpy_ndarray_as_struct") and not o.get("store_shape_for_empty"):
        ctx.check("same types", np.dtype((np.void, r.dtype)) == d)


def h_blank(ctx, dt, mode):
    d = np.dtype(dt)
    sh = ctx.choose("shape", [(), (1,), (2,), (3,), (1, 2), (2, 1)])
    a = np.zeros(sh, d)
    r = check(ctx, a, mode, *of(d.kind))
    for x in r.flat:
        ctx.check("blank", len(x) == 0)


def h_python(ctx, k, mode):
    import collections

    v = ["", b"", bytearray(), [], (), set(), frozenset(), collections.deque(), {}, collections.OrderedDict(),
         collections.Counter()][k]
    o = LIB.options(ctx, mode, *SHAPE, "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16",
                    "structs_as_dicts", "delete_unused_variables")
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same type", type(r) is type(v))
    ctx.check("nothing in it", len(r) == 0)
