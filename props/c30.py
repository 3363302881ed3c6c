"""C30: new names in the references group never collide."""
import h5py
import numpy as np

BOUNDS = ("1..2 writes of lists, nested lists, dicts with lists, object arrays and sets of together 1..4 (quick) / 1..6 (thorough) elements in a "
          "file that had none, or 1..2 sessions before that did the same, with every sequence of random numbers of 64 bits (with every pattern of repetitions of at most 2 (quick) / 5 "
          "(thorough) draws more than needed), and names of existing objects that are what is drawn, and other things in place of the group and of the canonical empty; every element and earlier value is read back, "
          "20 and 300 elements in two writes; 3000 (70000) names one after the other, and any two of the first 2**40 of a new group; and as many objects as were stored are in the group")
OUTSIDE = "more elements and draws; other processes that write to the group at the same time"
TIME = {"quick": 40, "thorough": 400}
KINDS = {"list": 2, "nested": 3, "deep": 5, "dict": 2, "objects": 2, "mixed": 5, "one": 1, "set": 1}


def jobs(tier):
    out = []
    for mode in ("matlab", "plain", "other"):
        for k in KINDS:
            for j in ("none", "list", "nested", "one") if tier != "quick" else ("none", "one"):
                out.append(("h_names", {"mode": mode, "before": j, "kind": k}))
            out.append(("h_existing", {"mode": mode, "kind": k}))
        for k in ("one", "list", "nested"):
            out.append(("h_hexadecimal", {"mode": mode, "kind": k}))
        for k in ("list", "nested", "objects"):
            out.append(("h_replace", {"mode": mode, "kind": k}))
            out.append(("h_instead", {"mode": mode, "kind": k}))
        out.append(("h_all", {"mode": mode, "n": 3000 if tier == "quick" else 70000}, 5 if tier == "quick" else 200))
        if mode != "other":
            out.append(("h_all", {"mode": mode, "n": 0}))
        for n in (20, 300):
            out.append(("h_many", {"mode": mode, "n": n}))
        for k in ("one", "list"):
            out.append(("h_sessions", {"mode": mode, "kind": k, "n": 2 if tier == "quick" else 3}))
    return out


OPTS = {"matlab": {"matlab_compatible": True}, "plain": {"matlab_compatible": False},
        "other": {"matlab_compatible": False, "group_for_references": "/a b/refs", "delete_unused_variables": True}}


def refs(mode):
    return OPTS[mode].get("group_for_references", "/#refs#")


def value(ctx, kind, name):
    i = [ctx.int("%s%d" % (name, j), 0, 99) for j in range(3)]
    if kind == "list":
        return [i[0], i[1]]
    if kind == "nested":
        return [[i[0]], i[1]]
    if kind == "deep":
        return [[[i[0]]], (i[1],)]
    if kind == "dict":
        return {"k": [i[0]], "l": [i[1]]}
    if kind == "mixed":
        return [{"a": [i[0]]}, i[1], [i[2]]]
    if kind == "one":
        return [i[0]]
    if kind == "set":
        return {i[0]}
    a = np.empty((1, 2), object)
    a[0, 0], a[0, 1] = i[0], i[1]
    return a


def draws(ctx, needed):
    """Random numbers: arbitrary ones from some draw on, the others are all different."""
    n = [0]
    count = 3 if ctx.tier == "quick" else 5
    start = ctx.choose("start", list(range(needed)))

    def hook(width):
        n[0] += 1
        if start < n[0] <= start + count:
            return ctx.random_bits("r%d" % n[0], width)
        return (0xc0ffee << (width - 24)) + n[0]

    ctx.set_random(hook)


def session(ctx, mode, fn, kind, path, name):
    v = value(ctx, kind, name)
    f = ctx.call(ctx.hs.File, fn, writable=True, **OPTS[mode])
    f.write(v, path)
    f.close()
    return v


def count(mode, fn):
    h = h5py.File(fn, "r")
    n = len(h[refs(mode)]) if refs(mode) in h else 0
    h.close()
    return n


def verify(ctx, mode, fn, vals):
    f = ctx.call(ctx.hs.File, fn, **OPTS[mode])
    for p, v in vals.items():
        ctx.check("the value is as it was", ctx.same(f.read(p), v, False))
    f.close()


def h_names(ctx, mode, before, kind):
    fn = ctx.path()
    vals = {}
    if before != "none":
        vals["/x"] = session(ctx, mode, fn, before, "/x", "u")
    n = count(mode, fn) if before != "none" else 1
    draws(ctx, KINDS[kind])
    vals["/y"] = session(ctx, mode, fn, kind, "/y", "v")
    ctx.check("as many objects as elements", count(mode, fn) == n + KINDS[kind])
    verify(ctx, mode, fn, vals)


def h_sessions(ctx, mode, kind, n):
    """Random names in several sessions."""
    fn = ctx.path()
    vals = {"/x": session(ctx, mode, fn, "one", "/x", "u")}
    draws(ctx, KINDS[kind] * n)
    total = count(mode, fn)
    for i in range(n):
        vals["/y%d" % i] = session(ctx, mode, fn, kind, "/y%d" % i, "v%d" % i)
        total += KINDS[kind]
        ctx.check("as many objects as elements", count(mode, fn) == total)
    verify(ctx, mode, fn, vals)


def h_all(ctx, mode, n):
    """As many names as there may be."""
    if not hasattr(ctx.utilities.LowLevelFile, "next_unused_ref_group_name"):
        return
    fn = ctx.path()
    if mode == "other":
        # the names are random ones when the Group is there already
        f = ctx.call(ctx.hs.File, fn, writable=True, **OPTS[mode])
        f.write([1, 2], "/x")
        f.close()
    h = h5py.File(fn, "a")
    f = ctx.call(ctx.utilities.LowLevelFile, h, ctx.call(ctx.hs.Options, **OPTS[mode]))
    give = f.next_unused_ref_group_name
    there = set()
    for i in range(n):
        there.add(give())
    if n == 0 and type(getattr(f, "_refs_group_counter", None)) is int:
        # any name and one that is given later
        f._refs_group_counter = ctx.int("number", 0xb, (1 << 40) - 1)
        a = give()
        for i in range(ctx.choose("later", [0, 1, 30])):
            give()
        ctx.check("is another", give() != a)
        ctx.check("is not the canonical empty", a != "a")
        k = ctx.int("again", 0xb, (1 << 40) - 1)
        ctx.assume(ctx.Not(k == f._refs_group_counter))
        b = give()
        f._refs_group_counter = k
        ctx.check("any two are different", give() != b)
    g = h[refs(mode)]
    ctx.check("all are different", len(there) == n)
    ctx.check("none is there already", there.isdisjoint(set(g)))
    h.close()


def h_many(ctx, mode, n):
    """Many elements, in several writes and sessions, of which three are arbitrary."""
    fn = ctx.path()
    a, b, c = [ctx.int("i%d" % i, 0, 99) for i in range(3)]
    first = ctx.choose("first", [n - 3, n // 2, 3])
    v = [i if i % 4 else "e%d" % i for i in range(first)] + [a]
    w = [[b]] + ["f%d" % i if i % 3 else i for i in range(n - first)] + [c]
    apart = ctx.choose("sessions", [False, True])
    f = ctx.call(ctx.hs.File, fn, writable=True, **OPTS[mode])
    f.write(v, "/x")
    if apart:
        f.close()
        f = ctx.call(ctx.hs.File, fn, writable=True, **OPTS[mode])
    f.write(w, "/y")
    f.close()
    ctx.check("as many objects as elements", count(mode, fn) == len(v) + len(w) + 2)
    verify(ctx, mode, fn, {"/x": v, "/y": w})


def h_existing(ctx, mode, kind):
    """Objects of other programs in the group."""
    fn = ctx.path()
    h = h5py.File(fn, "w")
    g = h.create_group(refs(mode))
    names = ["b", "c", "0" * 15 + "b", "f" * 16, "0" * 16]
    for i, n in enumerate(names):
        g.create_dataset(n, data=i)
    if ctx.choose("a", [False, True]):
        g.create_dataset("a", data=7)
    h.close()
    draws(ctx, KINDS[kind])
    v = session(ctx, mode, fn, kind, "/y", "v")
    h = h5py.File(fn, "r")
    for i, n in enumerate(names):
        ctx.check("other objects stay", bool(h[refs(mode)][n][()] == i))
    ctx.check("as many objects as elements", len(h[refs(mode)]) == len(names) + 1 + KINDS[kind])
    h.close()
    verify(ctx, mode, fn, {"/y": v})


def h_instead(ctx, mode, kind):
    """Something else than a Group, or a Group with something else than the canonical empty, is where the group is to be."""
    fn = ctx.path()
    h = h5py.File(fn, "w")
    what = ctx.choose("what", ["dataset", "scalar", "empty", "text", "group a", "shape a", "value a", "class a", "flag a", "good a"])
    r = refs(mode)
    if not what.endswith(" a"):
        h.create_dataset(r, data={"dataset": [1, 2], "scalar": 1, "empty": np.zeros((0,)), "text": np.bytes_("a")}[what])
    elif what == "group a":
        h.create_group(r + "/a")["x"] = 1
    else:
        d = h.create_dataset(r + "/a", data=np.array([0, 0, 0] if what == "shape a" else [0, 1] if what == "value a" else [0, 0], np.uint64))
        d.attrs["MATLAB_class"] = np.bytes_("double" if what == "class a" else "canonical empty")
        d.attrs["MATLAB_empty"] = np.uint8(0 if what == "flag a" else 1)
    h["other"] = 3
    h.close()
    vals = {"/y": session(ctx, mode, fn, kind, "/y", "v")}
    h = h5py.File(fn, "r")
    ctx.check("is a Group", isinstance(h[r], h5py.Group))
    a = h[r]["a"]
    ctx.check("the canonical empty", isinstance(a, h5py.Dataset) and a.shape == (2,) and a.attrs["MATLAB_class"] == b"canonical empty"
              and a.attrs["MATLAB_empty"] == 1 and bool((a[...] == 0).all()))
    ctx.check("as many objects as elements", len(h[r]) == 1 + KINDS[kind])
    ctx.check("others stay", h["other"][()] == 3)
    h.close()
    verify(ctx, mode, fn, vals)


def h_hexadecimal(ctx, mode, kind):
    """Any of the names that are given in order are there already."""
    fn = ctx.path()
    h = h5py.File(fn, "w")
    g = h.create_group(refs(mode))
    names = [n for n in ("a", "b", "c", "d", "e", "f", "10") if ctx.bool("has " + n)]
    for i, n in enumerate(names):
        g.create_dataset(n, data=i + 50)
    h.close()
    vals = {}
    if ctx.bool("two"):
        f = ctx.call(ctx.hs.File, fn, writable=True, **OPTS[mode])
        vals["/w"], vals["/y"] = value(ctx, "one", "u"), value(ctx, kind, "v")
        f.write(vals["/w"], "/w")
        f.write(vals["/y"], "/y")
        f.close()
    else:
        vals["/y"] = session(ctx, mode, fn, kind, "/y", "v")
    h = h5py.File(fn, "r")
    for i, n in enumerate(names):
        if n != "a":
            ctx.check("other objects stay", bool(h[refs(mode)][n][()] == i + 50))
    ctx.check("as many objects as elements", len(h[refs(mode)]) == len(names) + ("a" not in names) + KINDS[kind]
              + ("/w" in vals))
    h.close()
    verify(ctx, mode, fn, vals)


def h_replace(ctx, mode, kind):
    """Several writes while open, the second in place of the first."""
    fn = ctx.path()
    start = ctx.choose("start", ["new", "old"])
    vals = {}
    if start == "old":
        vals["/o"] = session(ctx, mode, fn, "one", "/o", "o")
    draws(ctx, 2 * KINDS[kind])
    v, w = value(ctx, kind, "v"), value(ctx, "list", "w")
    f = ctx.call(ctx.hs.File, fn, writable=True, **OPTS[mode])
    f.write(v, "/x")
    f.write(w, ctx.choose("to", ["/x", "/y"]))
    f.write(v, "/z")
    for p, u in list(vals.items()) + [("/z", v)]:
        ctx.check("the value is as it was", ctx.same(f.read(p), u, False))
    f.close()
    vals["/z"] = v
    verify(ctx, mode, fn, vals)
