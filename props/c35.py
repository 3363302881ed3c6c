"""C35: what is read is fresh: it shares nothing with the file, with other reads or within itself."""
import collections

import h5py
import numpy as np

BOUNDS = ("values of 30 kinds that can be changed (sequences, sets, mappings, bytearrays, arrays, structures, nested ones and ones with equal "
          "elements or the same element twice, of up to 25 elements and 9 levels) with arbitrary contents and every pair of three combinations of options; read twice "
          "from one File, of which the first result is changed at every depth, then read again from it and from a new one, also several times in one call, "
          "from files made with h5py in which one object is at several places of cells and structures, after "
          "the File is closed or its variable is overwritten or deleted")
OUTSIDE = "immutable values, whose identity cannot be noticed; more elements; values that share elements when written (they come back as equal ones)"
TIME = {"quick": 30, "thorough": 200}
SETS = {"matlab": {"matlab_compatible": True}, "plain": {"matlab_compatible": False},
        "dicts": {"matlab_compatible": True, "store_python_metadata": False, "structs_as_dicts": True},
        "bare": {"matlab_compatible": False, "store_python_metadata": False}}
KINDS = ["bytearray", "array", "array0", "array2", "b1", "c8", ">f8", "S2", "U2", "struct", "text", "objects", "list", "deque", "set", "dict", "dict2", "od",
         "lists", "same", "equal", "dicts", "arrays", "structs", "counter", "chain", "tuple", "keyed", "pairs",
         "long", "longdict", "deep", "bigarray"]


def jobs(tier):
    out = []
    for s in SETS:
        for k in KINDS:
            out.append(("h_fresh", {"kind": k, "opts": s}))
            out.append(("h_closed", {"kind": k, "opts": s}))
        for k in KINDS:
            out.append(("h_at_once", {"kind": k, "opts": s}))
    for k in ["double", "char", "logical", "cell", "cell0", "struct", "structs", "int32"]:
        for d in (False, True):
            out.append(("h_raw", {"kind": k, "dicts": d}))
    return out


def value(ctx, kind, name="v"):
    if kind in ("b1", "c8", ">f8", "S2", "U2"):
        return ctx.array(name, kind, (2,))
    if kind == "text":
        return np.array(["ab", "c"])
    if kind == "od":
        return collections.OrderedDict([("b", [value(ctx, "int", name)]), ("a", {})])
    if kind == "same":
        x = [ctx.int(name, 0, 9)]
        return [x, x]
    if kind in ("keyed", "pairs"):
        es = [[], [], {}, {}, [[]], bytearray(b"a"), bytearray(b"a"), {(1,): []}, [ctx.int(name, 0, 9)], set(), set(), np.zeros((1, 2))]
        return {i: x for i, x in enumerate(es)} if kind == "keyed" else [(1, x) for x in es]
    if kind == "long":
        return [[[i], {"a": i}, bytearray(b"x"), (1, []), None][i % 5] for i in range(24)] + [[ctx.int(name, 0, 9)]]
    if kind == "longdict":
        return {"k%d" % (i * 5 % 12): [[i], {}, collections.deque([i])][i % 3] for i in range(12)} | {"z": [ctx.int(name, 0, 9)]}
    if kind == "deep":
        v = [ctx.int(name, 0, 9)]
        for i in range(8):
            v = [v, [i]] if i % 2 else {"a": v, "b": [i]}
        return v
    if kind == "bigarray":
        a = np.arange(3000.).reshape(60, 50)
        a[3, 3] = ctx.scalar(name, "f8")
        return a
    if kind == "equal":
        return [[], [], bytearray(b"a"), bytearray(b"a"), {}, {}]
    if kind == "dicts":
        return {"a": {"k": ctx.int(name, 0, 9)}, "b": {"k": [1]}, "c": collections.deque([[2]])}
    if kind == "arrays":
        a = ctx.array(name, "<i4", (2,))
        return [a, a, np.zeros((2, 2)), np.zeros((2, 2))]
    if kind == "structs":
        a = np.empty((2,), [("o", "O"), ("a", "<i4", (2,))])
        for i in range(2):
            a["o"][i] = [ctx.int("%s.%d" % (name, i), 0, 9)]
        a["a"] = 1
        return a
    if kind == "counter":
        return collections.Counter({"a": 2, "b": 1})
    if kind == "chain":
        return collections.ChainMap({"a": [1]}, {"a": [2], "b": [ctx.int(name, 0, 9)]})
    return LIB.element(ctx, name, kind)


def mutable(x, out):
    """All in x that can be changed."""
    if isinstance(x, np.ndarray):
        if x.size:
            out.append(x)
        if x.dtype.hasobject:
            if x.dtype.names:
                for n in x.dtype.names:
                    mutable(x[n], [])
                    if x.dtype[n].hasobject:
                        for y in x[n].flat:
                            mutable(y, out)
            else:
                for y in x.flat:
                    mutable(y, out)
    elif isinstance(x, collections.ChainMap):
        for m in x.maps:
            mutable(m, out)
    elif isinstance(x, dict):
        out.append(x)
        for y in x.values():
            mutable(y, out)
    elif isinstance(x, (list, tuple, collections.deque)):
        if not isinstance(x, tuple):
            out.append(x)
        for y in x:
            mutable(y, out)
    elif isinstance(x, (set, bytearray)):
        out.append(x)
    return out


def apart(a, b):
    """Two objects that can be changed are not the same, nor is their memory."""
    if a is b:
        return False
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        (p, n), (q, m) = span(a), span(b)
        return p + n <= q or q + m <= p
    return True


def span(a):
    base = a
    while isinstance(base.base, np.ndarray):
        base = base.base
    return base.__array_interface__["data"][0], max(base.nbytes, 1)


def change(ctx, x):
    for y in mutable(x, []):
        if isinstance(y, np.ndarray):
            ctx.check("arrays can be changed", bool(y.flags.writeable))
            if y.dtype.names:
                for n in y.dtype.names:
                    y[n] = 0
            else:
                y[...] = b"" if y.dtype.kind == "S" else "" if y.dtype.kind == "U" else 0
        elif isinstance(y, list) or isinstance(y, collections.deque):
            y.append("changed")
        elif isinstance(y, set):
            y.add("changed")
        elif isinstance(y, bytearray):
            y.extend(b"changed")
        elif isinstance(y, dict):
            y["changed"] = 7


def fresh(ctx, *rs):
    m = [y for r in rs for y in mutable(r, [])]
    for i in range(len(m)):
        for j in range(i):
            ctx.check("nothing is shared", apart(m[i], m[j]))


def h_fresh(ctx, kind, opts):
    fn = ctx.path()
    v = value(ctx, kind)
    f = ctx.call(ctx.hs.File, fn, writable=True, **SETS[opts])
    f.write(v, "/x")
    a, b = f.read("/x"), f["x"]
    fresh(ctx, a, b)
    for x in mutable(v, []):
        for y in mutable(a, []):
            ctx.check("nothing is shared with what was written", apart(x, y))
    change(ctx, a)
    c = f.read("/x")
    ctx.check("the other one is as it was", ctx.same(b, c, False))
    if SETS[opts].get("store_python_metadata", True):
        ctx.check("it is what was written", ctx.same(c, v, False))
    change(ctx, v)
    f.close()
    f = ctx.call(ctx.hs.File, fn, **SETS[opts])
    d = f.read("/x")
    f.close()
    ctx.check("the file is as it was", ctx.same(d, c, False))


def h_at_once(ctx, kind, opts):
    """The same path several times in one call."""
    fn = ctx.path()
    v = value(ctx, kind)
    ctx.call(ctx.hs.write, v, path="/x", filename=fn, **SETS[opts])
    how = ctx.choose("how", ["reads", "File.reads", "paths"])
    if how == "reads":
        rs = ctx.call(ctx.hs.reads, ["/x", "/x"], filename=fn, **SETS[opts])
    else:
        f = ctx.call(ctx.hs.File, fn, **SETS[opts])
        rs = f.reads(["/x", b"/x", "x"] if how == "paths" else ["/x", "/x"])
        f.close()
    fresh(ctx, *rs)
    before = LIB.write_read(ctx, v, SETS[opts])
    change(ctx, rs[0])
    for r in rs[1:]:
        ctx.check("the others are as they were", ctx.same(r, before, False))


def h_raw(ctx, kind, dicts):
    """The same object of the file at several places of a cell and of structures."""
    m = LIB.Maker(ctx, False)
    m.put(m.h, "d", kind, "v")
    where = ctx.choose("where", ["cell", "cells", "structs"])
    ref = m.h["d"].ref
    if where == "structs":
        g = m.h.create_group("x")
        g.attrs["MATLAB_class"] = np.bytes_("struct")
        for n in ("a", "b"):
            g.create_dataset(n, data=np.array([[ref, ref]], dtype=h5py.ref_dtype).T)
    else:
        d = m.h.create_dataset("x", data=np.array([[ref], [ref]], dtype=h5py.ref_dtype))
        d.attrs["MATLAB_class"] = np.bytes_("cell")
        if where == "cells":
            r = d.ref
            d = m.h.create_dataset("y", data=np.array([[r], [r]], dtype=h5py.ref_dtype))
            d.attrs["MATLAB_class"] = np.bytes_("cell")
    m.h.close()
    f = ctx.call(ctx.hs.File, m.fn, structs_as_dicts=dicts)
    path = "/y" if where == "cells" else "/x"
    a, b = f.reads([path, path])
    fresh(ctx, a, b)
    c = f.read(path)
    fresh(ctx, a, b, c)
    change(ctx, a)
    ctx.check("the others are as they were", ctx.same(b, c, False))
    d = f.read(path)
    ctx.check("the file is as it was", ctx.same(b, d, False))
    f.close()


def h_closed(ctx, kind, opts):
    """After the variable or the file is gone."""
    fn = ctx.path()
    v = value(ctx, kind)
    f = ctx.call(ctx.hs.File, fn, writable=True, **SETS[opts])
    f.write(v, "/x")
    a, b = f.read("/x"), f.read("/x")
    how = ctx.choose("how", ["close", "delete", "over", "same"])
    if how == "delete":
        del f["/x"]
    elif how == "over":
        f.write([1, 2], "/x")
    elif how == "same":
        w = value(ctx, kind, "w")
        f.write(w, "/x")
        ctx.check("the new one", ctx.same(f.read("/x"), LIB.write_read(ctx, w, SETS[opts]), False))
    f.close()
    ctx.check("it is as it was", ctx.same(a, b, False))
    ctx.check("it is as another File gives it", ctx.same(a, LIB.write_read(ctx, v, SETS[opts]), False))
    fresh(ctx, a, b)
