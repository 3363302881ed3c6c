"""C34: data of MATLAB that are read and written again are for MATLAB what they were."""
import h5py
import numpy as np

BOUNDS = ("files in MATLAB's layout, made with h5py, with numeric arrays of every class (complex ones of double and single), logical (of any byte) and char "
          "arrays of arbitrary contents in 1..6 dimensions and up to 300 elements (long char: three arbitrary ones), empty ones of every class, cells and structures (scalar and "
          "arrays, of 1..3 and up to 40 fields and elements, of one class and of different ones, nested); read with default options or structs_as_dicts, with "
          "the result written to a new file, over the old one or as part of a larger value, with the default and two more sets of options that are "
          "MATLAB compatible; classes, dimensions, contents and field names are compared with h5py")
OUTSIDE = ("complex integers (numpy has none: they read as structured arrays of their parts); sparse matrices, objects, function handles and tables; structure arrays read as dicts (they are dicts of arrays then) and those without fields (arrays of objects); char of "
           "lone surrogates and of nulls at the end of a row; which code units char has; 0x0 double and the canonical empty are one")
TIME = {"quick": 60, "thorough": 400}
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 1, 2), (2, 1, 2, 1)]
EMPTY = [(0, 0), (0, 3), (2, 0), (2, 0, 3), (1, 0), (0, 1, 2, 3), (65536, 0)]
KINDS = ["double", "int32", "complex", "logical", "char", "chars", "cell", "cell0", "struct", "structs", "empty", "char0", "canonical"]
WRITERS = {"default": {}, "column": {"oned_as": "column"}, "bare": {"store_python_metadata": False},
           "compressed": {"compress_size_threshold": 0, "action_for_matlab_incompatible": "ignore"}}


def jobs(tier):
    out = []
    for c in LIB.CLASSES:
        for sh in SHAPES:
            out.append(("h_number", {"cls": c, "shape": list(sh), "cx": False}))
            if c in ("double", "single"):
                out.append(("h_number", {"cls": c, "shape": list(sh), "cx": True}))
    for sh in SHAPES:
        out.append(("h_logical", {"shape": list(sh)}))
        for t in ("u1", "u2", "u4"):
            out.append(("h_char", {"dt": t, "shape": list(sh)}))
    for sh in EMPTY:
        for c in list(LIB.CLASSES) + ["logical", "char", "cell", "struct"]:
            out.append(("h_empty", {"cls": c, "shape": list(sh)}))
    for sh in SHAPES:
        for k in (["double"], ["int32", "canonical"], ["char", "logical", "cell"], ["struct", "char0", "complex"]):
            out.append(("h_cell", {"shape": list(sh), "kinds": k}))
        for k in KINDS + ["char,int32", "int32,double", "char,chars", "double,complex,char", "canonical,double", "chars,char0",
                          "struct,char"]:
            if tier != "quick" or sh in ((1, 1), (1, 3), (2, 2)):
                out.append(("h_struct", {"shape": list(sh), "kind": k}))
    for c, sh in (("double", (7, 9)), ("uint8", (1, 300)), ("int16", (300, 1)), ("single", (3, 4, 5, 2)), ("int64", (2, 1, 3, 1, 2, 2))):
        out.append(("h_number", {"cls": c, "shape": list(sh), "cx": False}))
    out.append(("h_number", {"cls": "double", "shape": [30, 3], "cx": True}))
    for sh in ((1, 300), (12, 30), (3, 2, 20), (40, 1)):
        for t in ("u2", "u1", "u4"):
            out.append(("h_char", {"dt": t, "shape": list(sh), "some": True}))
    for n in (12, 40):
        out.append(("h_cell", {"shape": [n // 2, 2], "kinds": ["double", "canonical", "logical", "cell0", "int32", "complex", "empty", "struct"]}))
        out.append(("h_fields", {"n": n}))
        out.append(("h_struct", {"shape": [2, n // 2], "kind": "double,logical,canonical,cell0"}))
    for k in KINDS:
        out.append(("h_over", {"kind": k}))
        out.append(("h_part", {"kind": k}))
    for leaf in ("double", "char", "canonical") if tier == "quick" else ("double", "char", "canonical", "cell0", "empty", "logical", "struct", "char0"):
        out.append(("h_nested", {"n": 2, "leaf": leaf}))
        if tier != "quick" or leaf == "double":
            out.append(("h_nested", {"n": 3, "leaf": leaf}))
    return out


def text(x):
    return x.decode() if isinstance(x, bytes) else x


def cls(obj):
    c = text(obj.attrs["MATLAB_class"]) if "MATLAB_class" in obj.attrs else None
    return "double" if c == "canonical empty" else c


def empty(obj):
    return "MATLAB_empty" in obj.attrs and obj.attrs["MATLAB_empty"] == 1


def fields(obj):
    return ["".join(text(c) for c in n.tolist()) for n in obj.attrs["MATLAB_fields"]] if "MATLAB_fields" in obj.attrs else None


def same(ctx, ha, a, hb, b):
    """b is for MATLAB what a is."""
    ctx.check("same class", cls(a) == cls(b))
    ctx.check("both are empty", empty(a) == empty(b))
    if fields(a) is not None:
        ctx.check("same fields in order", fields(a) == fields(b))
    if empty(a):
        ctx.check("same dimensions", [int(x) for x in a[...].flat] == [int(x) for x in b[...].flat])
        return
    if isinstance(a, h5py.Group):
        ctx.check("a Group", isinstance(b, h5py.Group))
        ctx.check("same members", sorted(a) == sorted(b))
        for n in a:
            x, y = a[n], b[n]
            if cls(x) is None:
                refs(ctx, ha, x, hb, y)
            else:
                same(ctx, ha, x, hb, y)
        return
    ctx.check("a Dataset", isinstance(b, h5py.Dataset))
    if cls(a) == "cell":
        return refs(ctx, ha, a, hb, b)
    ctx.check("same dimensions", a.shape == b.shape)
    x, y = a[...], b[...]
    if cls(a) == "logical":
        ctx.check("logical as MATLAB has it", b.dtype == np.uint8 and b.attrs["MATLAB_int_decode"] == 1)
        for i in np.ndindex(*x.shape):
            ctx.check("same element", ctx.And(y[i] <= 1, (x[i] != 0) == (y[i] == 1)))
    elif cls(a) == "char":
        ctx.check("char as MATLAB has it", b.attrs["MATLAB_int_decode"] == b.dtype.itemsize)
        for i in np.ndindex(*x.shape):
            ctx.check("same character", x[i] == y[i])
    else:
        ctx.check("same type", a.dtype == b.dtype)
        ctx.check("same data", ctx.same(x, y))


def refs(ctx, ha, a, hb, b):
    ctx.check("references", h5py.check_dtype(ref=b.dtype) is h5py.Reference)
    ctx.check("same dimensions", a.shape == b.shape)
    x, y = a[...], b[...]
    for i in np.ndindex(*a.shape):
        same(ctx, ha, ha[x[i]], hb, hb[y[i]])


def read(ctx, fn, dicts, path="/x"):
    f = ctx.call(ctx.hs.File, fn, structs_as_dicts=dicts)
    r = f.read(path)
    f.close()
    return r


def write(ctx, r, path="/x", fn=None):
    fn = fn or ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **WRITERS[ctx.choose("writer", list(WRITERS))])
    f.write(r, path)
    f.close()
    return fn


def compare(ctx, fa, fb, at=lambda h: h["x"]):
    with h5py.File(fa, "r") as ha, h5py.File(fb, "r") as hb:
        same(ctx, ha, ha["x"], hb, at(hb))


def again(ctx, m, dicts=None):
    m.h.close()
    if dicts is None:
        dicts = ctx.choose("dicts", [False, True])
    compare(ctx, m.fn, write(ctx, read(ctx, m.fn, dicts)))


def h_number(ctx, cls, shape, cx):
    m = LIB.Maker(ctx, False)
    (m.complex if cx else m.number)(m.h, "x", cls, tuple(shape))
    again(ctx, m, False)


def h_logical(ctx, shape):
    m = LIB.Maker(ctx, False)
    m.data(m.h, "x", ctx.array("v", "u1", tuple(shape)[::-1]), "logical", 1)
    again(ctx, m, False)


def h_char(ctx, dt, shape, some=False):
    """Of arbitrary characters, or long ones of which three are."""
    m = LIB.Maker(ctx, False)
    n = int(np.prod(shape))
    m.char(m.h, "x", tuple(shape), dt=dt, some=(0, n // 2, n - 1) if some else None)
    again(ctx, m, False)


def h_empty(ctx, cls, shape):
    m = LIB.Maker(ctx, False)
    m.empty(m.h, "x", cls, tuple(shape), ctx.choose("fields", [["a"], ["b", "a"]]) if cls == "struct" else None)
    again(ctx, m)


def h_cell(ctx, shape, kinds):
    m = LIB.Maker(ctx, False)
    m.cell(m.h, "x", tuple(shape), kinds)
    again(ctx, m)


def h_struct(ctx, shape, kind):
    m = LIB.Maker(ctx, False)
    if shape == [1, 1]:
        fs = ctx.choose("fields", [{"b": kind, "a": "double"}, {"a": kind}, {"z": "char", "s": "struct", "k": kind}])
        m.struct(m.h, "x", {f: k.split(",")[-1] for f, k in fs.items()})
        return again(ctx, m)
    m.structs(m.h, "x", tuple(shape), ctx.choose("fields", [{"b": kind}, {"b": kind, "a": "double"}]))
    return again(ctx, m, False)


def h_fields(ctx, n):
    """Many fields."""
    m = LIB.Maker(ctx, False)
    m.struct(m.h, "x", {"f%d" % (i * 7 % (n - 1) if i else n): ["double", "int32", "logical", "empty", "canonical", "cell0"][i % 6]
                        for i in range(n)})
    again(ctx, m)


def h_over(ctx, kind):
    """Read, and written over something else and over itself."""
    m = LIB.Maker(ctx, False)
    m.put(m.h, "x", kind, "v")
    m.h.close()
    r = read(ctx, m.fn, ctx.choose("dicts", [False, True]))
    fn = write(ctx, LIB.simple(ctx, "p", ctx.choose("before", ["list", "dict", "struct", "str", "int"])))
    write(ctx, r, fn=fn)
    compare(ctx, m.fn, fn)
    write(ctx, r, fn=fn)
    compare(ctx, m.fn, fn)


def h_nested(ctx, n, leaf):
    """Cells and structures in each other, of one element or two."""
    m = LIB.Maker(ctx, False)
    levels = [ctx.choose("level%d" % i, ["1:", "2:", "p:", "q:"]) for i in range(n)]
    m.put(m.h, "x", "".join(levels) + leaf, "v")
    m.h.close()
    r = read(ctx, m.fn, ctx.choose("dicts", [False, True]))
    compare(ctx, m.fn, write(ctx, r))


def h_part(ctx, kind):
    """As a part of another value."""
    m = LIB.Maker(ctx, False)
    m.put(m.h, "x", kind, "v")
    m.h.close()
    r = read(ctx, m.fn, ctx.choose("dicts", [False, True]))
    where = ctx.choose("where", ["dict", "list", "path"])
    if where == "dict":
        compare(ctx, m.fn, write(ctx, {"q": 1, "r": r}), lambda h: h["x"]["r"])
    elif where == "list":
        compare(ctx, m.fn, write(ctx, [1, r]), lambda h: h[h["x"][...].flat[1]])
    else:
        compare(ctx, m.fn, write(ctx, r, "/g/x"), lambda h: h["g"]["x"])
