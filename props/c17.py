"""C17: values MATLAB cannot represent are handled as the chosen action says."""
import collections

import h5py
import numpy as np

BOUNDS = ("the three actions with values of arbitrary contents of the numpy types that MATLAB has not (float16, opaque bytes; dates for the "
          "actions that do not write them) as scalars and arrays, alone, in 18 kinds of nested containers of up to 32 elements and 7 levels, as one of several "
          "values written at once, to new paths and over values that were there; and every kind of value that MATLAB has, "
          "with every one of the actions")
OUTSIDE = ("the compatible members of a mapping or structure that is rejected as a whole may have been written before; containers "
           "that cannot have MATLAB's canonical empty in place of an element (sets, keys of mappings, slices) when discarding")
TIME = {"quick": 45, "thorough": 300}
DTYPES = {"f2": ["f2", ()], "f2a": ["f2", (2,)], "f2b": [">f2", (2, 1)], "V": ["V3", (2,)], "f2e": ["f2", (0, 2)],
          "M8": ["M8[D]", (2,)]}
PLACES = ["bare", "list", "list2", "tuple", "deque", "nested", "dict", "dict2", "dictdict", "listdict", "objects", "field1", "field2",
          "odict", "dictlist", "keysmix", "long", "longdict", "deep", "longobjects"]
OK = ["int", "big", "bool", "float", "complex", "none", "ellipsis", "str0", "str2", "bytes0", "bytes2", "bytearray", "np.U1", "np.S1",
      "np.?", "np.u1", "np.i8", "np.f4", "np.c8", "np.c16", "array", "array0", "array2", "empty", "struct", "dtype", "list", "tuple",
      "set", "deque", "dict", "dict2", "objects", "lists", "date"]


def jobs(tier):
    out = []
    for w in DTYPES:
        for p in PLACES:
            for pre in (None, "int", "list", "dict", "struct") if tier != "quick" or p in ("bare", "list", "dict", "field1", "dict2") else (None,):
                for act in ("error", "discard", "ignore"):
                    if w == "M8" and act == "ignore" or p.startswith("field") and w != "f2":
                        continue
                    out.append(("h_bad", {"what": w, "place": p, "action": act, "pre": pre}))
    for k in OK:
        for act in ("error", "discard", "ignore"):
            out.append(("h_good", {"kind": k, "action": act}))
    for act in ("error", "discard", "ignore"):
        out.append(("h_several", {"action": act}))
    out.append(("h_plain", {}))
    return out


CANON = np.zeros((0, 0))


def build(ctx, place, x, bad):
    """(value, value without what is bad; whether there is nothing)"""
    i, s = ctx.int("i", -100, 100), ctx.int("j", 0, 100)
    c = CANON
    if place == "bare":
        return x, None, True
    if place == "list":
        return [i, x, s], [i, c, s], False
    if place == "list2":
        return [[x], (i, x)], [[c], (i, c)], False
    if place == "tuple":
        return (x,), (c,), False
    if place == "deque":
        return collections.deque([x, i]), collections.deque([c, i]), False
    if place == "nested":
        return [i, ([x],)], [i, ([c],)], False
    if place == "dict":
        return {"a": i, "b": x, "c": s}, {"a": i, "c": s}, False
    if place == "odict":
        return collections.OrderedDict([("b", x), ("a", i)]), collections.OrderedDict([("a", i)]), False
    if place == "dict2":
        return {3: x, i + 200: s}, {3: c, i + 200: s}, False
    if place == "dictdict":
        return {"a": {"b": x, "c": i}}, {"a": {"c": i}}, False
    if place == "listdict":
        return [{"b": x, "c": i}], [{"c": i}], False
    if place == "keysmix":
        return {"a": i, b"b": x, "\u00e9": s, b"c": i}, {"a": i, "\u00e9": s, b"c": i}, False
    if place == "dictlist":
        return {"a": [x, i]}, {"a": [c, i]}, False
    if place == "long":
        v = [i] + list(range(30)) + [s]
        w = list(v)
        for k in (0, 12, 13, 30):
            v[k], w[k] = x, c
        return v, w, False
    if place == "longdict":
        v = {"k%d" % (k * 7 % 20): x if k in (0, 9, 10, 19) else k for k in range(20)}
        v["e"] = i
        return v, {n: y for n, y in v.items() if y is not x}, False
    if place == "deep":
        v, w = [i, x], [i, c]
        for k in range(6):
            v, w = ([k, v], [k, w]) if k % 2 else ({"a": v, "x": x}, {"a": w})
        return v, w, False
    if place == "longobjects":
        a, b = np.empty((4, 5), object), np.empty((4, 5), object)
        for k in range(20):
            a.flat[k], b.flat[k] = (x, c) if k % 7 == 3 else (k, k)
        a[3, 4] = b[3, 4] = i
        return a, b, False
    if place == "objects":
        a, b = np.empty((1, 2), object), np.empty((1, 2), object)
        a[0, 0], a[0, 1] = i, x
        b[0, 0], b[0, 1] = i, c
        return a, b, False
    if place in ("field1", "field2"):
        n = 1 if place == "field1" else 2
        a = ctx.array("s", [("a", "<i4"), ("b", "<f2")], (n,))
        if n == 1:
            b = np.zeros((n,), [("a", "<i4")])
        else:
            b = np.zeros((n,), [("a", "<i4"), ("b", "<f8", (0, 0))])
        b["a"] = a["a"]
        return a, b, False
    raise ValueError(place)


def write(f, v, path):
    f.write(v, path)


def bad_types(h):
    """Whether anything has a type that MATLAB has not."""
    found = []

    def look(grp):
        for n in grp:
            obj = grp[n]
            if isinstance(obj, h5py.Group):
                look(obj)
            elif obj.dtype.kind == "V" and obj.dtype.names is None or obj.dtype.kind == "f" and obj.dtype.itemsize == 2:
                found.append(n)

    look(h)
    return found


def h_bad(ctx, what, place, action, pre):
    dt, sh = DTYPES[what]
    x = ctx.scalar("x", dt) if sh == () else ctx.array("x", dt, sh)
    v, left, nothing = build(ctx, place, x, what)
    o = {"matlab_compatible": True, "action_for_matlab_incompatible": action}
    path = "/x" if pre else ctx.choose("path", ["/x", "/g/x"])
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    p = LIB.simple(ctx, "p", pre) if pre else None
    if pre:
        f.write(p, path)
    z = ctx.int("z", 0, 9)
    f.write(z, "/other")
    _, e = ctx.attempt(write, f, v, path)
    f.close()
    ctx.check("only an error is one", (e is not None) == (action == "error"))
    if action == "error":
        ctx.check("the documented error", type(e).__name__ == "TypeNotMatlabCompatibleError")
    f = ctx.call(ctx.hs.File, fn)
    ctx.check("others are as they were", ctx.same(f.read("/other"), z, False))
    if action == "ignore":
        ctx.check("written", ctx.same(f.read(path), v, False))
    elif action == "discard" and not nothing:
        ctx.check("all else is written", ctx.same(f.read(path), left, False))
    elif nothing or place in ("list", "list2", "tuple", "deque", "nested", "listdict", "objects", "long", "longobjects"):
        if pre:
            ctx.check("what was there is left", ctx.same(f.read(path), p, False))
        else:
            ctx.check("there is nothing", path not in f)
            r, e = ctx.attempt(f.read, path)
            ctx.check("there is nothing", type(e) is KeyError)
    f.close()
    if action != "ignore":
        h = h5py.File(fn, "r")
        ctx.check("nothing of such a type is in the file", not bad_types(h))
        h.close()


def h_good(ctx, kind, action):
    o = {"matlab_compatible": True, "action_for_matlab_incompatible": action}
    v = LIB.simple(ctx, "v", kind)
    r = LIB.write_read(ctx, v, o)
    ctx.check("written", ctx.same(r, v, False))


def h_several(ctx, action):
    o = {"matlab_compatible": True, "action_for_matlab_incompatible": action}
    fn = ctx.path()
    x = ctx.array("x", "f2", (2,))
    i, s = ctx.int("i", 0, 100), ctx.str("s", 1, 1, 0x7f)
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    order = ctx.choose("order", [("/a", "/b", "/c"), ("/b", "/a", "/c"), ("/a", "/c", "/b")])
    all_ = {"/a": i, "/b": x, "/c": s}
    _, e = ctx.attempt(f.writes, {k: all_[k] for k in order})
    f.close()
    ctx.check("only an error is one", (e is not None) == (action == "error"))
    f = ctx.call(ctx.hs.File, fn)
    for k in all_:
        if k == "/b" and action != "ignore":
            ctx.check("there is nothing", k not in f)
        elif action != "error" or k in f:
            ctx.check("written", ctx.same(f.read(k), all_[k], False))
    f.close()


def h_plain(ctx):
    """The action is of no account without matlab_compatible."""
    o = {"matlab_compatible": False, "action_for_matlab_incompatible": ctx.choose("action", ["error", "discard", "ignore"])}
    x = ctx.array("x", "f2", (2,))
    v = ctx.choose("v", [x, [x, 1], {"a": x}])
    r = LIB.write_read(ctx, v, o)
    ctx.check("written", ctx.same(r, v, False))
