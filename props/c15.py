"""C15: writing or deleting one path leaves the objects at other paths unchanged."""

BOUNDS = ("files of three objects (of 14 combinations of sequences, sets, dicts, structures, object arrays and plain values with arbitrary "
          "numbers and ASCII text) at the top level and in Groups, and every history of two (thorough: three) of 27 operations (write one of five "
          "kinds of values, or delete, one of four paths, or close and reopen with another combination of options), for five "
          "combinations of options; and a write to or a deletion of an old or new member of a dict; 10 (thorough: 24) objects at depths 1..4 of up to 24 elements of which one is written or deleted; and every pair of names of two arbitrary characters, one of which is written or deleted")
OUTSIDE = "longer histories, more objects, several files or processes; random names that are drawn twice (C30)"
TIME = {"quick": 60, "thorough": 600}
SETS = {
    "matlab": {"matlab_compatible": True},
    "plain": {"matlab_compatible": False},
    "refs": {"matlab_compatible": False, "group_for_references": "/g/refs", "delete_unused_variables": True},
    "deep": {"matlab_compatible": False, "group_for_references": "/b/r s", "structured_numpy_ndarray_as_struct": True},
    "column": {"matlab_compatible": False, "make_atleast_2d": True, "oned_as": "column", "reverse_dimension_order": True,
               "delete_unused_variables": True, "convert_numpy_bytes_to_utf16": True},
}
PATHS = ["/a", "/g/b", "/g/c", "/h"]
STARTS = [("list", "int", "str"), ("dict", "list", "none"), ("objects", "dict2", "list"), ("set", "struct", "bytes"),
          ("list", "list", "list"), ("int", "tuple", "dict"), ("lists", "dict", "np.U1"), ("empty", "objects", "array"),
          ("date", "big", "list"), ("none", "set", "dict2"), ("struct", "deque", "float"), ("array2", "str", "lists"),
          ("dict2", "dict2", "dict"), ("bool", "complex", "objects")]
KINDS = ["int", "list", "dict", "dict2", "struct"]


def jobs(tier):
    out = []
    for s in SETS:
        for st in STARTS[:4] if tier == "quick" else STARTS:
            if s == "refs" and "int" in st:
                continue
            for p in PATHS:
                for k in KINDS + ["delete"] if tier != "quick" else ["list", "dict2", "delete"]:
                    out.append(("h_history", {"start": list(st), "opts": s, "first": [k, p], "n": 1 if tier == "quick" else 2}))
            out.append(("h_history", {"start": list(st), "opts": s, "first": ["reopen", 0], "n": 1 if tier == "quick" else 2}))
        for k in KINDS:
            for j in KINDS:
                out.append(("h_names", {"one": k, "two": j, "opts": s}))
        for st in STARTS:
            out.append(("h_reopened", {"start": list(st), "opts": s}))
        for k in KINDS:
            out.append(("h_nested", {"kind": k, "opts": s}))
        for n in (10,) if tier == "quick" else (10, 24):
            out.append(("h_many", {"n": n, "opts": s}))
    return out


def opts(s):
    return dict(SETS[s])


def open_(ctx, fn, o):
    return ctx.call(ctx.hs.File, fn, writable=True, **o)


def related(p, q):
    return p == q or p.startswith(q + "/") or q.startswith(p + "/")


def verify(ctx, f, model, skip=()):
    for p, v in model.items():
        if p not in skip:
            ctx.check("the object is as it was", ctx.same(f.read(p), v, False))


def step(ctx, state, kind, path, i):
    f, o, model, fn = state
    if kind == "reopen":
        f.close()
        o = opts(ctx.choose("o%d" % i, ["matlab", "plain"]) if "group_for_references" not in o else "refs" if
                 o["group_for_references"] == "/g/refs" else "deep")
        f = open_(ctx, fn, o)
    elif kind == "delete":
        if path in model:
            del f[path]
            del model[path]
            ctx.check("it is gone", path not in f)
    else:
        v = LIB.simple(ctx, "n%d" % i, kind)
        merged = kind in ("dict", "dict2", "struct") and not (o.get("delete_unused_variables") or o["matlab_compatible"])
        there = path in f
        f.write(v, path)
        if merged and there:
            model.pop(path, None)
        else:
            model[path] = v
    verify(ctx, f, model)
    return f, o, model, fn


def begin(ctx, start, o):
    fn = ctx.path()
    f = open_(ctx, fn, o)
    model = {}
    for i, k in enumerate(start):
        v = LIB.simple(ctx, "s%d" % i, k)
        f.write(v, PATHS[i])
        model[PATHS[i]] = v
    return f, o, model, fn


def h_history(ctx, start, opts, first, n):
    o = globals()["opts"](opts)
    s = begin(ctx, start, o)
    s = step(ctx, s, *first, 0)
    for i in range(n):
        k = ctx.choose("op%d" % i, KINDS + ["delete", "reopen"])
        p = ctx.choose("path%d" % i, PATHS) if k != "reopen" else None
        s = step(ctx, s, k, p, i + 1)
    s[0].close()
    f = ctx.call(ctx.hs.File, s[3], **s[1])
    verify(ctx, f, s[2])
    f.close()


def h_reopened(ctx, start, opts):
    o = globals()["opts"](opts)
    s = begin(ctx, start, o)
    s[0].close()
    f = open_(ctx, s[3], o)
    verify(ctx, f, s[2])
    v = LIB.simple(ctx, "n", ctx.choose("kind", ["list", "objects", "dict2"]))
    p = ctx.choose("path", PATHS)
    f.write(v, p)
    s[2][p] = v
    verify(ctx, f, s[2], skip=(p,))
    f.close()


def h_names(ctx, one, two, opts):
    """Paths that differ are different objects."""
    o = globals()["opts"](opts)
    if ctx.choose("whole", [True, False]):
        a, b = ctx.str("a", 1, 0, 0xD7FF), ctx.str("b", 1, 0, 0xD7FF)
        ctx.assume(ctx.Not(a == b))
        for x in (a, b):
            # not above group_for_references
            ctx.assume(ctx.And(ctx.Not(x == "g"), ctx.Not(x == "b"), ctx.Not(x == "\x00")))
        a, b = (a,), (b,)
    else:
        a, b = ("q", ctx.str("a", 1, 0, 0xD7FF)), ("q", "b")
        ctx.assume(ctx.And(ctx.Not(a[1] == "b"), ctx.Not(a[1] == "\x00")))
    fn = ctx.path()
    f = open_(ctx, fn, o)
    x, y = LIB.simple(ctx, "x", one), LIB.simple(ctx, "y", two)
    f.write(x, a)
    f.write(y, b)
    ctx.check("the first is as it was", ctx.same(f.read(a), x, False))
    z = LIB.simple(ctx, "z", "list")
    f.write(z, a)
    ctx.check("the second is as it was", ctx.same(f.read(b), y, False))
    del f[b]
    ctx.check("the first is as it was", ctx.same(f.read(a), z, False))
    ctx.check("the second is gone", b not in f)
    f.close()


def h_many(ctx, n, opts):
    """Many objects with many elements, of which one is written or deleted."""
    o = globals()["opts"](opts)
    fn = ctx.path()
    f = open_(ctx, fn, o)
    kinds = ["list", "dict", "objects", "str", "dict2", "struct", "int", "array", "set", "lists"]
    model = {}
    for i in range(n):
        k = kinds[i % len(kinds)]
        p = "/%s%d" % (["", "q/", "q/r/s/", "t u/"][i % 4], i)
        if i in (0, 1, n - 1):
            v = LIB.simple(ctx, "s%d" % i, k)
        else:
            v = [i] * i if i % 3 == 0 else {"k%d" % j: [j] for j in range(i)} if i % 3 == 1 else "t%d" % i * i
        f.write(v, p)
        model[p] = v
    p = ctx.choose("path", [list(model)[i] for i in (0, 1, 4, n // 2, n - 1)])
    if ctx.choose("delete", [False, True]):
        del f[p]
        del model[p]
        ctx.check("it is gone", p not in f)
    else:
        v = LIB.simple(ctx, "v", ctx.choose("kind", ["list", "objects", "str"]))
        f.write(v, p)
        model[p] = v
    verify(ctx, f, model)
    f.close()
    f = ctx.call(ctx.hs.File, fn, **o)
    verify(ctx, f, model)
    f.close()


def h_nested(ctx, kind, opts):
    """Members of a dict that is stored as a Group are at paths below it."""
    o = globals()["opts"](opts)
    fn = ctx.path()
    f = open_(ctx, fn, o)
    d = {"l": [ctx.int("i", 0, 9), ctx.str("s", 1)], "m": LIB.simple(ctx, "m", "objects"), "n": {"p": [ctx.int("j", 0, 9)]}}
    f.write(d, "/d")
    v = LIB.simple(ctx, "v", kind)
    p = ctx.choose("path", ["l", "m", "n", "q", "a"])
    f.write(v, "/d/" + p)
    if p in ("q", "a"):
        r = f.read("/d")
        ctx.check("the dict has one more", set(r) == {"l", "m", "n", p})
        ctx.check("which is what was written", ctx.same(r[p], v, False))
        if ctx.choose("delete", [0, 1]):
            del f["/d/m"]
            del d["m"]
            ctx.check("the dict has one less", set(f.read("/d")) == {"l", "n", p})
        for q in d:
            ctx.check("the dict has the others", ctx.same(f.read("/d")[q], d[q], False))
    for q in d:
        if q != p:
            ctx.check("the members are as they were", ctx.same(f.read("/d/" + q), d[q], False))
    if o["matlab_compatible"] or o.get("delete_unused_variables") or kind not in ("dict", "struct", "dict2"):
        d[p] = v
        ctx.check("the dict has the new one", ctx.same(f.read("/d"), d, False))
    f.close()
