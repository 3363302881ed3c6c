"""C36: a write that fails leaves the File usable and everything else as it was."""
import collections

import numpy as np

BOUNDS = ("files with objects at three paths with arbitrary contents, and one or two failing writes: a value that no marshaller handles, that a "
          "marshaller fails for, or that MATLAB cannot represent, by itself or as an element at every position of sequences (and of long sequences and dicts at three), dicts, their "
          "keys, object arrays, structures and nested ones, to a new path, over six kinds of values, with write, writes, update and savemat's "
          "options, and paths that are refused or below a Dataset; followed by a write of the same object with that element replaced, or by a write of one of eight kinds of values with arbitrary "
          "contents, or by deleting, in the same File or in a new one, for four combinations of options")
OUTSIDE = ("what is at the path of the write that failed (it may be what was there, nothing, or a part of the value); errors of the file "
           "system and of HDF5 itself (a full disk); BaseExceptions; more elements")
TIME = {"quick": 40, "thorough": 400}
SETS = {
    "matlab": {"matlab_compatible": True, "action_for_matlab_incompatible": "error"},
    "plain": {"matlab_compatible": False, "delete_unused_variables": True},
    "refs": {"matlab_compatible": False, "group_for_references": "/g/refs", "delete_unused_variables": True},
    "bare": {"matlab_compatible": True, "store_python_metadata": False},
}
PLACES = ["direct", "list", "tuple", "set", "deque", "dict", "od", "key", "chain", "objects", "struct", "nested", "deep", "long", "longdict"]
BADS = ["unknown", "faulty", "half"]
BEFORE = [None, "list", "dict", "dict2", "struct", "objects", "str"]
AFTER = ["int", "str", "list", "dict", "dict2", "struct", "objects", "none"]
PATHS = ["/a/b", "/a/b/c", "/#refs#/q", "/g/refs/q", "/", "", "/x\x00", "/h/c", "/h/c/d", 5, "/g/../..", None, b"/\xff"]


def jobs(tier):
    out = []
    k = 0
    for s in SETS:
        for p in PLACES:
            for b in BADS + (["f2"] if s in ("matlab", "bare") else []):
                if p in ("key", "set") and b != "unknown":
                    continue
                k += 1
                for i, before in enumerate(BEFORE):
                    if tier != "quick" or s != "bare" and i == k % len(BEFORE):
                        out.append(("h_failed", {"place": p, "bad": b, "opts": s, "n": 1 if tier == "quick" else 2, "before": before,
                                                 "path": ["/x", "/g/x"][k % 2], "how": ["write", "item"][k // 2 % 2],
                                                 "after": [AFTER[k % 8], AFTER[k * 3 % 7]] if tier == "quick" else AFTER}))
        for b in BADS:
            out.append(("h_several", {"bad": b, "opts": s}))
        out.append(("h_paths", {"opts": s}))
        out.append(("h_mended", {"opts": s}))
    return out


class Unknown:
    """No marshaller handles this."""


class Faulty:
    """The marshaller of this raises."""


class Half:
    """The marshaller of this raises after it has written something."""


def marshallers(ctx):
    M = ctx.hs.Marshallers

    class Bad(M.TypeMarshaller):
        def __init__(self):
            M.TypeMarshaller.__init__(self)
            self.types = (Faulty,)
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            raise RuntimeError("faulty")

    class Worse(M.TypeMarshaller):
        def __init__(self):
            M.TypeMarshaller.__init__(self)
            self.types = (Half,)
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            f.write_data(grp, name, [1, [2]], None)
            raise RuntimeError("half")

    return ctx.call(ctx.hs.MarshallerCollection, marshallers=[Bad(), Worse()])


def bad(ctx, kind):
    return {"unknown": Unknown, "faulty": Faulty, "half": Half, "f2": lambda: np.float16(1)}[kind]()


def broken(ctx, place, kind):
    """A value with something in it that cannot be written."""
    x = bad(ctx, kind)
    if place == "direct":
        return x
    if place in ("list", "tuple", "set", "deque"):
        es = [1, "b", (3,)]
        es.insert(ctx.choose("i", [0, 1, 3]), x)
        return LIB.container(place)(es)
    if place in ("dict", "od"):
        ks = [("a", 1), ("b", [2]), ("c", {})]
        ks.insert(ctx.choose("i", [0, 1, 3]), ("bad", x))
        return dict(ks) if place == "dict" else collections.OrderedDict(ks)
    if place == "key":
        return {1: 2, (x,): 3}
    if place == "chain":
        return collections.ChainMap({"a": 1}, {"b": x})
    if place in ("objects", "struct"):
        a = np.empty((2,), object) if place == "objects" else np.empty((2,), [("n", "i4"), ("o", object), ("z", object)])
        i = ctx.choose("i", [0, 1])
        if place == "objects":
            a[i] = x
        else:
            a["n"] = 1
            a["o"][i] = x
        return a
    if place in ("long", "longdict"):
        es = [[i, "t", [i], None, {"a": [i]}][i % 5] for i in range(24)]
        es.insert(ctx.choose("i", [0, 12, 24]), x)
        return es if place == "long" else {"k%d" % (i * 7 % 25): e for i, e in enumerate(es)}
    if place == "nested":
        return [[1], [{"a": [2, x]}]]
    return {"p": {"q": [0, {"r": x}]}, "z": 1}


def start(ctx, o):
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    model = {"/a": [ctx.int("a", -(1 << 63), (1 << 63) - 1), "x"], "/g/b": {"k": [ctx.int("b", 0, 9)], "l": None},
             "/h": ctx.array("h", "<i4", (2,))}
    for p, v in model.items():
        f.write(v, p)
    return fn, f, model


def verify(ctx, f, model, o):
    for p, v in model.items():
        if o.get("store_python_metadata", True):
            ctx.check("the object is as it was", ctx.same(f.read(p), v, False))
        else:
            r, e = ctx.attempt(f.read, p)
            ctx.check("the object is there", e is None)


def equal(ctx, f, path, v, o):
    if o.get("store_python_metadata", True):
        ctx.check("what was written afterwards", ctx.same(f.read(path), v, False))
    else:
        ctx.check("what was written afterwards", ctx.same(f.read(path), LIB.write_read(ctx, v, {k: x for k, x in o.items() if
                                                                                                 k != "marshaller_collection"}), False))


def h_failed(ctx, place, bad, opts, n, before, path, how, after):
    o = dict(SETS[opts], marshaller_collection=marshallers(ctx))
    fn, f, model = start(ctx, o)
    if before is not None:
        f.write(LIB.simple(ctx, "p", before), path)
    for i in range(n):
        x = broken(ctx, place, bad)
        if how == "write" or i:
            r, e = ctx.attempt(f.write, x, path)
        else:
            r, e = ctx.attempt(f.__setitem__, path, x)
        ctx.check("it fails", e is not None)
        want = {"unknown": NotImplementedError, "faulty": RuntimeError, "half": RuntimeError}.get(bad) or \
            ctx.hs.exceptions.TypeNotMatlabCompatibleError
        ctx.check("with the error of what is wrong", isinstance(e, want))
        verify(ctx, f, model, o)
    later(ctx, fn, f, model, o, path, after)


def later(ctx, fn, f, model, o, path, kinds=("list", "dict2")):
    then = ctx.choose("then", ["write", "reopen", "delete"])
    if then == "reopen":
        f.close()
        f = ctx.call(ctx.hs.File, fn, writable=True, **o)
        verify(ctx, f, model, o)
    if then == "delete" and path in f:
        del f[path]
        ctx.check("it is gone", path not in f)
        verify(ctx, f, model, o)
    v = LIB.simple(ctx, "v", ctx.choose("after", list(kinds)))
    f.write(v, path)
    equal(ctx, f, path, v, o)
    verify(ctx, f, model, o)
    f.close()
    f = ctx.call(ctx.hs.File, fn, **o)
    equal(ctx, f, path, v, o)
    verify(ctx, f, model, o)
    f.close()


def h_several(ctx, bad, opts):
    """Several values at once: each path has what it had or what it was to have."""
    o = dict(SETS[opts], marshaller_collection=marshallers(ctx))
    fn, f, model = start(ctx, o)
    where = ctx.choose("where", ["/x", "/g/x", "/a"])
    new = {"/m": LIB.simple(ctx, "m", "list"), "/h": LIB.simple(ctx, "n", "dict2")}
    names = ["/m", "/h"]
    names.insert(ctx.choose("i", [0, 1, 2]), where)
    d = {p: broken(ctx, "nested", bad) if p == where else new[p] for p in names}
    r, e = ctx.attempt(f.update if ctx.choose("how", [0, 1]) else f.writes, d)
    ctx.check("it fails", e is not None)
    model.pop(where, None)
    old = model.pop("/h")
    verify(ctx, f, model, o)
    if o.get("store_python_metadata", True):
        r = f.read("/h")
        ctx.check("what it had or was to have", ctx.same(r, old, False) if isinstance(r, np.ndarray) else ctx.same(r, new["/h"], False))
        if "/m" in f:
            ctx.check("what it was to have", ctx.same(f.read("/m"), new["/m"], False))
    later(ctx, fn, f, model, o, where)


def h_mended(ctx, opts):
    """The same object once what could not be written is no longer in it."""
    o = dict(SETS[opts], marshaller_collection=marshallers(ctx))
    fn, f, model = start(ctx, o)
    x, good = bad(ctx, ctx.choose("bad", BADS)), ctx.int("g", -9, 9)
    kind = ctx.choose("kind", ["list", "dict", "deque", "objects", "struct", "od", "nested"])
    v = {"list": lambda: [1, x], "dict": lambda: {"a": 1, "b": x}, "deque": lambda: collections.deque([1, x]), "od": lambda: collections.OrderedDict(a=[x]),
         "nested": lambda: [{"a": [1, x]}]}.get(kind, lambda: np.zeros((2,), object if kind == "objects" else [("a", "i4"), ("b", object)]))()
    if kind == "struct":
        v["b"] = [None, x]
    if kind == "objects":
        v[1] = x
    where = ctx.choose("where", ["/x", "/g/x"])
    r, e = ctx.attempt(f.write, v, where)
    ctx.check("it fails", e is not None)
    verify(ctx, f, model, o)
    if kind in ("list", "deque", "objects"):
        v[1] = good
    elif kind == "dict":
        v["b"] = good
    elif kind == "od":
        v["a"][0] = good
    elif kind == "nested":
        v[0]["a"][1] = good
    else:
        v["b"][1] = good
    then = ctx.choose("then", ["same", "other", "in"])
    if then == "other":
        where = "/y"
    if then == "in":
        v = [v, 1]
    r, e = ctx.attempt(f.write, v, where)
    ctx.check("it can be written", e is None)
    equal(ctx, f, where, v, o)
    verify(ctx, f, model, o)
    f.close()


def h_paths(ctx, opts):
    """Paths that cannot be written to."""
    o = SETS[opts]
    fn, f, model = start(ctx, o)
    p = ctx.choose("p", PATHS)
    if o.get("group_for_references") != "/g/refs" and p == "/g/refs/q" or o.get("group_for_references") == "/g/refs" and p == "/#refs#/q":
        p = "/a/b"
    before = set(f)
    # The items of a dict can be written to the root.
    kinds = ["int", "list"] if p in ("/", "", "/g/../..") else ["int", "list", "dict"]
    r, e = ctx.attempt(f.write, LIB.simple(ctx, "w", ctx.choose("kind", kinds)), p)
    ctx.check("it fails", e is not None)
    ctx.check("no variable came or went", set(f) == before)
    verify(ctx, f, model, o)
    later(ctx, fn, f, model, o, "/x", ["list"])
