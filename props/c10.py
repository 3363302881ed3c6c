"""C10: sequences and sets read back equal, of the same type, in order."""
import collections

import numpy as np

BOUNDS = ("list, tuple, deque, set and frozenset of 0..3 elements, of 40 and 280 of which three are arbitrary, nested 9 deep, every way of nesting 3 deep (4 when thorough) sequences, object arrays and dicts of one element or two, deques with a maximum length, and object arrays of shapes (), (1,), (2,), (1,2), (2,1), (2,2), "
          "(0,) and (1,2,1), every kind of element (numbers, text, arrays, None, dates, nested sequences, dicts and object "
          "arrays two levels deep) with arbitrary contents; MATLAB compatible or combinations of the shape options and two "
          "groups for references otherwise; MATLAB compatible files read with either kind of options; "
          "seven kinds of objects that are changed between two writes of them")
OUTSIDE = "longer sequences, deeper nesting, sets of elements that are equal across types"
KINDS = ["int", "big", "bool", "float", "complex", "none", "ellipsis", "str0", "str", "bytes0", "bytes", "bytearray", "np.<f4",
         "np.>i2", "np.b1", "np.U1", "np.S2", "array", "array0", "array2", "empty", "struct", "date", "dtype", "list", "tuple",
         "deque", "list0", "tuple0", "dict0", "set0", "lists", "dict", "dict2", "objects"]
PAIRS = [("int", "int"), ("int", "str"), ("str", "int"), ("none", "list"), ("list", "list"), ("str", "str2"), ("bytes", "str"),
         ("bool", "int"), ("float", "complex"), ("tuple", "list"), ("dict", "list"), ("array", "array"), ("objects", "none"),
         ("array0", "np.U1"), ("np.U1", "np.U1"), ("np.<f8", "np.<f8"), ("empty", "str0"), ("list0", "list0")]
SETS = [("int", "int"), ("int", "str"), ("str", "str"), ("bytes", "str"), ("none", "float"), ("bytes", "bytes2"),
        ("big", "none"), ("tuple", "int")]
OPTS = ("make_atleast_2d", "reverse_dimension_order", "oned_as", "group_for_references")


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for c in ("list", "tuple", "deque"):
            for k in KINDS:
                out.append(("h_seq", {"c": c, "kinds": [k], "mode": mode}))
            for p in PAIRS if c == "list" or tier != "quick" else PAIRS[:5]:
                out.append(("h_seq", {"c": c, "kinds": list(p), "mode": mode}))
            out.append(("h_seq", {"c": c, "kinds": ["int", "str", "list"], "mode": mode}))
            out.append(("h_seq", {"c": c, "kinds": ["str", "str", "str"], "mode": mode}))
        for c in ("set", "frozenset"):
            for k in ("int", "str", "bytes", "none", "float", "big", "tuple"):
                out.append(("h_set", {"c": c, "kinds": [k], "mode": mode}))
            for p in SETS:
                out.append(("h_set", {"c": c, "kinds": list(p), "mode": mode}))
        for c, n in (("list", 280), ("tuple", 40), ("deque", 280), ("set", 280), ("frozenset", 40), ("objects", 280)):
            out.append(("h_many", {"c": c, "n": n, "mode": mode}))
        for n in range(4):
            out.append(("h_bounded", {"n": n, "mode": mode}))
        for n in (4, 9):
            out.append(("h_deep", {"n": n, "mode": mode}))
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            for c in ("list", "tuple", "deque", "objects"):
                out.append(("h_nested", {"c": c, "n": n, "mode": mode}))
        for k in ("list", "deque", "set", "dict", "objects", "bytearray", "array"):
            out.append(("h_changed", {"kind": k, "mode": mode}))
        for sh in ([], [1], [2], [1, 2], [2, 1], [0], [2, 2], [1, 2, 1]):
            for k in ("int", "list", "str") if tier == "quick" else KINDS:
                out.append(("h_object_array", {"shape": sh, "kind": k, "mode": mode}))
    return out


def h_seq(ctx, c, kinds, mode):
    v = LIB.container(c)([LIB.element(ctx, "e%d" % i, k) for i, k in enumerate(kinds)])
    o = LIB.options(ctx, mode, *OPTS)
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same type", type(r) is type(v))
    ctx.check("as many", len(r) == len(v))
    for x, y in zip(r, v):
        ctx.check("same element", ctx.same(x, y, False))


def h_set(ctx, c, kinds, mode):
    es = [LIB.element(ctx, "e%d" % i, k) for i, k in enumerate(kinds)]
    if kinds[0] == "float":
        ctx.assume(es[0] == es[0])
    if len(es) == 2:
        ctx.assume(ctx.Not(es[0] == es[1]))
    v = ctx.make(LIB.container(c), es)
    o = LIB.options(ctx, mode, *OPTS)
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same type", type(r) is type(v))
    ctx.check("as many", len(r) == len(es))
    for y in es:
        ctx.check("has the element", ctx.Or(*[ctx.same(x, y, False) for x in r]))


def h_object_array(ctx, shape, kind, mode):
    v = np.empty(tuple(shape), object)
    for n, i in enumerate(np.ndindex(*shape)):
        v[i] = LIB.element(ctx, "e%d" % n, kind if n % 2 == 0 else "int")
    o = LIB.options(ctx, mode, *OPTS, "store_shape_for_empty")
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same type", type(r) is np.ndarray and r.dtype == v.dtype)
    ctx.check("same shape", r.shape == v.shape)
    for x, y in zip(r.flat, v.flat):
        ctx.check("same element", ctx.same(x, y, False))


def h_many(ctx, c, n, mode):
    """Many elements, most of which are given, in order."""
    special = {3: LIB.element(ctx, "a", "int"), n - 2: LIB.element(ctx, "b", "str"), n - 1: LIB.element(ctx, "c", "float")}
    if c in ("set", "frozenset"):
        special[n - 1] = LIB.element(ctx, "c", "bytes")
        ctx.assume(ctx.Or(special[3] < 0, special[3] >= n))
    es = [special.get(i, i if i % 3 else "e%d" % i) for i in range(n)]
    if c == "objects":
        v = np.empty((2, n // 2), object)
        for i in range(n):
            v[i // (n // 2), i % (n // 2)] = es[i]
    elif c in ("set", "frozenset"):
        # not one of the others
        ctx.assume(special[n - 2] != "e")
        v = ctx.make(LIB.container(c), es)
    else:
        v = LIB.container(c)(es)
    o = LIB.options(ctx, mode, "group_for_references")
    r = LIB.write_read(ctx, v, o)
    ctx.check("same type", type(r) is type(v))
    ctx.check("as many", len(r) == len(v))
    if c in ("set", "frozenset"):
        for y in es:
            ctx.check("has the element", ctx.Or(*[ctx.same(x, y, False) for x in r]))
        return
    for x, y in zip(r.flat if c == "objects" else r, es):
        ctx.check("same element", ctx.same(x, y, False))


def h_bounded(ctx, n, mode):
    """Deques that hold no more than so many elements."""
    v = collections.deque([LIB.element(ctx, "e%d" % i, "int") for i in range(n)], ctx.choose("maxlen", [n, n + 1, 100]))
    nested = ctx.choose("nested", [False, True])
    o = LIB.options(ctx, mode, "group_for_references")
    r = LIB.write_read(ctx, [v] if nested else v, o)
    if nested:
        r = r[0]
    ctx.check("same type", type(r) is collections.deque)
    ctx.check("as many", len(r) == n)
    for x, y in zip(r, v):
        ctx.check("same element", ctx.same(x, y, False))


def h_deep(ctx, n, mode):
    """Deeply nested sequences of every kind."""
    v = LIB.element(ctx, "e", "int")
    for i in range(n):
        t = (list, tuple, collections.deque, dict)[i % 4]
        v = {"k": v, "n": i} if t is dict else t([i, v, "x"])
    o = LIB.options(ctx, mode, "group_for_references")
    ctx.check("same", ctx.same(LIB.write_read(ctx, v, o), v, False))


def h_nested(ctx, c, n, mode):
    """Sequences in each other, of one element or two, of any kinds."""
    v = LIB.element(ctx, "e", ctx.choose("leaf", ["int", "str0", "none", "list0", "tuple0", "dict0", "array0", "empty"]) if n == 2 else "int")
    kinds = ["list", "tuple", "deque", "objects", "dict"]
    for i in range(n):
        t = c if i == n - 1 else ctx.choose("t%d" % i, kinds)
        es = [v] if ctx.choose("single%d" % i, [True, False]) else ["x", v]
        if t == "objects":
            v = np.empty((len(es),), object)
            for j, x in enumerate(es):
                v[j] = x
        elif t == "dict":
            v = {"k%d" % j: x for j, x in enumerate(es)}
        else:
            v = LIB.container(t)(es)
    o = LIB.options(ctx, mode, "group_for_references")
    r = LIB.write_read(ctx, v, o)
    ctx.check("same", ctx.same(r, v, False))


def h_changed(ctx, kind, mode):
    """What is written is what the object is at that time, though it was written before and was changed since."""
    o = LIB.options(ctx, mode, "group_for_references")
    fn = ctx.path()
    i, j, k = ctx.int("i", 0, 99), ctx.int("j", 0, 99), ctx.int("k", 0, 99)
    if kind == "list":
        x, was, now = [i, j], [i, j], [k, j, i]
    elif kind == "deque":
        x, was, now = collections.deque([i]), collections.deque([i]), collections.deque([k, i])
    elif kind == "set":
        ctx.assume(i + 100 != j)
        x, was, now = {i}, {i}, {i, j + 100}
    elif kind == "dict":
        x, was, now = {"a": i}, {"a": i}, {"a": k, "b": j}
    elif kind == "objects":
        x, was, now = [np.empty((2,), object) for _ in range(3)]
        x[0], x[1] = i, None
        was[0], was[1] = i, None
        now[0], now[1] = i, k
    elif kind == "bytearray":
        x, was, now = bytearray(b"ab"), bytearray(b"ab"), bytearray(b"cb")
    else:
        x, was = ctx.array("x", "<i4", (2,)), ctx.array("y", "<i4", (2,))
        was[0], was[1] = x[0], x[1]
        now = ctx.array("z", "<i4", (2,))
        now[1] = x[1]
    alone = ctx.choose("alone", [True, False])
    outer = (lambda v: v) if alone else (lambda v: [v, "e", v])
    p, q = ctx.choose("paths", [("/a", "/b"), ("/a", "/a"), ("/g/a", "/g/b")])
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    f.write(outer(x), p)
    if kind == "list":
        x[0] = k
        x.append(i)
    elif kind == "deque":
        x.appendleft(k)
    elif kind == "set":
        x.add(j + 100)
    elif kind == "dict":
        x["a"] = k
        x["b"] = j
    elif kind == "objects":
        x[1] = k
    elif kind == "bytearray":
        x[0] = 99
    else:
        x[0] = now[0]
    f.write(outer(x), q)
    for again in (False, True):
        if p != q:
            same(ctx, f.read(p), was, alone)
        same(ctx, f.read(q), now, alone)
        f.close()
        if not again:
            f = ctx.call(ctx.hs.File, fn, **o)


def same(ctx, r, v, alone):
    if alone:
        ctx.check("as it was when it was written", ctx.same(r, v, False))
        return
    ctx.check("same type", type(r) is list and len(r) == 3)
    ctx.check("as it was when it was written", ctx.same(r[0], v, False))
    ctx.check("as it was when it was written", ctx.same(r[2], v, False))
    ctx.check("between them", r[1] == "e")
