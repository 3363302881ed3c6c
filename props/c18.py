"""C18: files without Python metadata (as MATLAB writes them) read as the stored data."""
import h5py
import numpy as np

BOUNDS = ("files in MATLAB's layout, made with h5py, of every numeric class (real and complex), logical (of any byte) and char of arbitrary contents "
          "with up to 6 dimensions and 300 elements, char arrays of up to 360 characters of which three are arbitrary, empty ones of every class (also with dimensions of 8, 16, 31 and 32 bits), cells and structures (scalar and arrays, of up to 3 fields, of one class and of different ones in a field, "
          "nested to depth 3 (and 15), cells and structures of one and two elements or fields nested 3 (4 when thorough) deep in every way, with up to 30 elements and fields, with the canonical empty among the elements), and Datasets and Groups without any attributes; read "
          "with and without matlab_compatible and structs_as_dicts")
OUTSIDE = "sparse matrices, objects, function handles, tables and user blocks; bigger arrays"
TIME = {"quick": 45, "thorough": 300}
CLASSES = LIB.CLASSES
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 1, 2), (2, 1, 2, 1)]
EMPTY = [(0, 0), (0, 3), (2, 0), (2, 0, 3), (1, 0), (0, 1, 2, 3)]
LARGE = [(0, 256), (65536, 0), (0, 70000), (1 << 31, 0), (0, 1 << 32)]


def jobs(tier):
    out = []
    for c in CLASSES:
        for sh in SHAPES:
            out.append(("h_number", {"cls": c, "shape": list(sh), "cx": False}))
            if c in ("double", "single"):
                out.append(("h_number", {"cls": c, "shape": list(sh), "cx": True}))
    for sh in SHAPES:
        out.append(("h_logical", {"shape": list(sh)}))
        out.append(("h_nonzero", {"shape": list(sh)}))
        for t in ("u2", "u1", "u4"):
            out.append(("h_char", {"dt": t, "shape": list(sh)}))
        out.append(("h_cell", {"shape": list(sh)}))
        out.append(("h_structs", {"shape": list(sh)}))
    for sh in LARGE:
        for c in ("double", "int8", "logical", "char", "cell"):
            out.append(("h_empty", {"cls": c, "shape": list(sh)}))
    for sh in EMPTY:
        for c in list(CLASSES) + ["logical", "char", "cell", "struct"]:
            out.append(("h_empty", {"cls": c, "shape": list(sh)}))
    for t in KINDS:
        out.append(("h_struct", {"kind": t}))
        out.append(("h_in_cell", {"kind": t}))
    for leaf in ("double", "char", "canonical", "cell0", "empty") + (() if tier == "quick" else ("logical", "struct", "char0", "complex")):
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            out.append(("h_nested", {"n": n, "leaf": leaf}))
    for t in ("S2", "S1", "b1", "u1", "i2", "f4", "f8", "c8", "c16", "i8"):
        for sh in ((), (2,), (2, 2), (0,), (1, 2)):
            out.append(("h_bare", {"dt": t, "shape": list(sh)}))
    out.append(("h_bare_group", {}))
    for a, b in ((2, 1), (1, 2), (3, 2), (2, 0), (0, 2), ([2, 1], 2), ([1, 2], [2, 1]), (2, [])):
        out.append(("h_bare_refs", {"p": a, "q": b}))
    for c, sh in (("double", (7, 9)), ("uint8", (1, 300)), ("int16", (300, 1)), ("single", (3, 4, 5, 2)), ("int64", (2, 1, 3, 1, 2, 2))):
        out.append(("h_number", {"cls": c, "shape": list(sh), "cx": False}))
    for c, sh in (("double", (30, 3)), ("single", (2, 3, 5))):
        out.append(("h_number", {"cls": c, "shape": list(sh), "cx": True}))
    for sh in ((6, 7), (1, 120)):
        out.append(("h_logical", {"shape": list(sh)}))
    for sh in ((1, 300), (12, 30), (3, 2, 20), (40, 1)):
        for t in ("u2", "u1", "u4"):
            out.append(("h_many_chars", {"shape": list(sh), "dt": t}))
    for w in ("cell", "struct", "structs", "deep"):
        for n in (12, 30):
            out.append(("h_many", {"what": w, "n": n}))
    out.append(("h_pairs", {}))
    out.append(("h_names", {}))
    return out


KINDS = ["double", "int32", "complex", "logical", "char", "chars", "cell", "cell0", "struct", "structs", "empty", "char0", "canonical"]


Maker = LIB.Maker


def check(ctx, r, v, dicts):
    """r is the object that is expected."""
    if isinstance(v, tuple):
        v = v[1]
        ctx.check("one structure", type(r) is np.ndarray and r.shape == (1,))
        ctx.check("the fields in order", r.dtype.names == tuple(v))
        for f in v:
            check(ctx, r[f][0], v[f], dicts)
    elif isinstance(v, dict):
        ctx.check("a mapping of the fields in order", type(r) is dict and list(r) == list(v))
        for f in v:
            check(ctx, r[f], v[f], dicts)
    elif v.dtype == object:
        ctx.check("an array of objects", type(r) is np.ndarray and r.dtype == object and r.shape == v.shape)
        for i in np.ndindex(*v.shape):
            check(ctx, r[i], v[i], dicts)
    elif v.dtype.kind == "U":
        ctx.check("an array of text", type(r) is np.ndarray and r.dtype.kind == "U" and r.shape == v.shape)
        for i in np.ndindex(*v.shape):
            ctx.check("same text", r[i] == v[i])
    else:
        ctx.check("same array", ctx.same(r, v))


def read(ctx, m, path="/x"):
    m.h.close()
    o = {"matlab_compatible": ctx.choose("reader", [True, False]), "structs_as_dicts": m.dicts}
    f = ctx.call(ctx.hs.File, m.fn, **o)
    r = f.read(path)
    f.close()
    return r


def h_number(ctx, cls, shape, cx):
    m = Maker(ctx, False)
    v = m.complex(m.h, "x", cls, shape) if cx else m.number(m.h, "x", cls, shape)
    check(ctx, read(ctx, m), v, False)


def h_logical(ctx, shape):
    m = Maker(ctx, False)
    v = m.logical(m.h, "x", shape)
    check(ctx, read(ctx, m), v, False)


def h_nonzero(ctx, shape):
    """Whatever is not zero is true."""
    m = Maker(ctx, False)
    a = ctx.array("v", "u1", tuple(shape)[::-1])
    m.data(m.h, "x", a, "logical", 1)
    r = read(ctx, m)
    ctx.check("logical", r.dtype == np.dtype("b1"))
    ctx.check("same shape", r.shape == tuple(shape))
    for i in np.ndindex(*shape):
        ctx.check("true if not zero", bool(r[i]) == (a[i[::-1]] != 0))


def h_char(ctx, dt, shape):
    m = Maker(ctx, False)
    v = m.char(m.h, "x", shape, dt=dt)
    check(ctx, read(ctx, m), v, False)


def h_pairs(ctx):
    """A character that is two code units of UTF-16."""
    m = Maker(ctx, False)
    c = ctx.str("c", 1, 0x10000, 0x10ffff)
    p = ord(c) - 0x10000
    m.data(m.h, "x", np.array([[0xd800 + (p >> 10)], [0xdc00 + (p & 0x3ff)]]).astype("u2"), "char", 2)
    r = read(ctx, m)
    ctx.check("one text", r.shape == (1, 1) and r.dtype.kind == "U")
    ctx.check("of the character", r[0, 0] == c)


def h_empty(ctx, cls, shape):
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    fields = ctx.choose("fields", [None, ["a"], ["b", "a"]]) if cls == "struct" else None
    v = m.empty(m.h, "x", cls, shape, fields)
    r = read(ctx, m)
    ctx.check("same empty array", type(r) is np.ndarray and r.shape == v.shape and r.dtype.kind == v.dtype.kind and
              r.dtype.names == v.dtype.names)
    if cls not in ("char", "struct"):
        ctx.check("same type", r.dtype == v.dtype)


def h_cell(ctx, shape):
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    v = m.cell(m.h, "x", tuple(shape), ctx.choose("kinds", [["double"], ["int32", "canonical"], ["char", "logical", "cell"]]))
    check(ctx, read(ctx, m), v, m.dicts)


def h_in_cell(ctx, kind):
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    v = m.cell(m.h, "x", (1, 2), [kind, "double"])
    check(ctx, read(ctx, m), v, m.dicts)


def h_nested(ctx, n, leaf):
    """Cells and structures in each other, of one element or two."""
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    levels = [ctx.choose("level%d" % i, ["1:", "2:", "p:", "q:"]) for i in range(n)]
    v = m.put(m.h, "x", "".join(levels) + leaf, "v")
    check(ctx, read(ctx, m), v, m.dicts)


def h_struct(ctx, kind):
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    v = m.struct(m.h, "x", ctx.choose("fields", [{"b": kind, "a": "double"}, {"a": kind}, {"z": "char", "s": "struct", "k": kind}]),
                 attr=True)
    check(ctx, read(ctx, m), v, m.dicts)


def h_structs(ctx, shape):
    """Of more than one element."""
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    kind = ctx.choose("kind", ["int32", "canonical", "char", "cell", "struct", "char,int32", "int32,double", "char,chars",
                               "double,complex,char", "canonical,double", "logical,canonical", "chars,char0", "struct,char"])
    fields = ctx.choose("fields", [{"b": kind}, {"b": kind, "a": "double"}])
    if shape == [1, 1]:
        fields = {f: k.split(",")[0] for f, k in fields.items()}
        v = m.struct(m.h, "x", fields)
        return check(ctx, read(ctx, m), v, m.dicts)
    v = m.structs(m.h, "x", tuple(shape), fields)
    r = read(ctx, m)
    if m.dicts:
        ctx.check("a mapping of the fields", type(r) is dict and set(r) == set(v))
    else:
        ctx.check("an array of the fields", type(r) is np.ndarray and r.dtype.names == tuple(fields))
        ctx.check("shape", r.shape == tuple(shape))
    for f in fields:
        for i in np.ndindex(*shape):
            x = r[f][i]
            check(ctx, x, v[f][i], m.dicts)
    return None


def h_bare(ctx, dt, shape):
    """Without any attributes, as any program may have written it."""
    m = Maker(ctx, False)
    v = ctx.array("v", dt, tuple(shape))
    m.h.create_dataset("x", data=v)
    r = read(ctx, m)
    ctx.check("same data", ctx.same(np.asarray(r), v, False))


def h_bare_group(ctx):
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    g = m.h.create_group("x")
    a, b = ctx.array("a", "<i4", (2,)), ctx.array("b", "<f8", ())
    g.create_dataset("p", data=a)
    g.create_dataset("q", data=b)
    r = read(ctx, m)
    if type(r) is dict:
        ctx.check("same members", set(r) == {"p", "q"})
        p, q = r["p"], r["q"]
    else:
        ctx.check("same members", r.dtype.names == ("p", "q") and r.shape == (1,))
        p, q = r["p"][0], r["q"][0]
    ctx.check("same data", ctx.And(ctx.same(np.asarray(p), a), ctx.same(np.asarray(q), b)))


def h_many_chars(ctx, shape, dt):
    """Long and many rows, of which three characters are arbitrary."""
    m = Maker(ctx, False)
    n = int(np.prod(shape))
    v = m.char(m.h, "x", shape, dt=dt, some=(0, n // 2, n - 1))
    check(ctx, read(ctx, m), v, False)


def h_many(ctx, what, n):
    """Many elements and fields, and deep nesting."""
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    if what == "cell":
        v = m.cell(m.h, "x", (n // 2, 2), ["double", "canonical", "logical", "cell0", "int32", "complex", "empty", "struct"])
    elif what == "struct":
        v = m.struct(m.h, "x", {"f%d" % (i * 7 % n): ["double", "int32", "logical", "empty", "canonical"][i % 5] for i in range(n)})
    elif what == "deep":
        grp = m.h
        names = ["x"] + ["d%d" % i for i in range(n // 2)]
        for i in names[:-1]:
            grp = grp.create_group(i)
            grp.attrs["MATLAB_class"] = np.bytes_("struct")
        w = m.number(grp, names[-1], "double", (1, 2))
        r = read(ctx, m)
        for i in names[1:]:
            ctx.check("one level", list(r if m.dicts else r.dtype.names) == [i])
            r = r[i] if m.dicts else r[i][0]
        check(ctx, r, w, m.dicts)
        return
    else:
        v = m.structs(m.h, "x", (2, n // 2), {"z": "int32", "b": "double,logical,canonical", "a": "cell0"})
        r = read(ctx, m)
        if m.dicts:
            ctx.check("a mapping of the fields", type(r) is dict and set(r) == set(v))
        else:
            ctx.check("an array of the fields", r.dtype.names == ("z", "b", "a") and r.shape == (2, n // 2))
        for f in v:
            for i in np.ndindex(2, n // 2):
                check(ctx, r[f][i], v[f][i], m.dicts)
        return
    check(ctx, read(ctx, m), v, m.dicts)


def h_bare_refs(ctx, p, q):
    """A Group of arrays of references of different shapes is not an array of structures."""
    m = Maker(ctx, ctx.choose("dicts", [False, True]))
    g = m.h.create_group("x")
    if ctx.choose("class", [False, True]):
        g.attrs["MATLAB_class"] = np.bytes_("struct")
    want = {}
    for n, sh in (("p", p), ("q", q)):
        sh = tuple(sh) if isinstance(sh, list) else (sh,)
        r = np.empty(sh, dtype=h5py.special_dtype(ref=h5py.Reference))
        want[n] = np.empty(sh, object)
        for k, i in enumerate(np.ndindex(*sh)):
            x = ctx.scalar("%s%d" % (n, k), "f8")
            r[i] = m.h.create_dataset("%s%d" % (n, k), data=x).ref
            want[n][i] = x
        g.create_dataset(n, data=r)
    r = read(ctx, m)
    ctx.check("same members", (set(r) if type(r) is dict else set(r.dtype.names)) == {"p", "q"})
    for n in want:
        v = r[n] if type(r) is dict else r[n][0]
        if type(r) is not dict:
            ctx.check("one structure", r.shape == (1,))
        ctx.check("same shape", v.shape == want[n].shape)
        for i in np.ndindex(*v.shape):
            ctx.check("same element", ctx.same(v[i][()], want[n][i]))


def h_names(ctx):
    """Variables with any names."""
    m = Maker(ctx, False)
    n = ctx.str("n", 2, 1, 0xd7ff)
    ctx.assume(ctx.And(ctx.Not(n[0] == "."), *[ctx.And(ctx.Not(c == "/"), ctx.Not(c == "\\")) for c in n]))
    v = m.number(m.h, n, "double", (1, 2))
    check(ctx, read(ctx, m, n), v, False)
