"""C27: savemat, loadmat, write(s) and read(s) agree with the File interface."""
import collections
import os

import h5py
import numpy as np

BOUNDS = ("one to three variables of 18 kinds with arbitrary contents under paths of one arbitrary character, below Groups, and under escaped "
          "names, in a new file, or one with two other variables, or one that is not MATLAB's, with every combination of truncate_existing, truncate_invalid_matlab, ten endings of the file name, appendmat, "
          "oned_as, store_python_metadata, action_for_matlab_incompatible and the options of File; of one to three variables whose paths are the same or above or below each other in eight ways; the trees in the two files "
          "are compared object by object (links, attributes, types, filters, data, what references point to); every sequence "
          "of 0..3 variable names of which some are missing or arbitrary, and every use of loadmat's mdict")
OUTSIDE = "format < 7.3 and files that are not HDF5 (scipy), file-like objects, user's marshaller collections (C22, C23)"
TIME = {"quick": 110, "thorough": 600}
KINDS = ["int", "bool", "float", "complex", "none", "str2", "bytes1", "np.<f4", "np.U1", "np.S2", "array", "array0", "empty", "struct",
         "list", "dict", "dict2", "objects"]
FEW = ["int", "str2", "array", "list", "dict", "struct"]
SETS = [{}, {"matlab_compatible": False}, {"matlab_compatible": False, "store_python_metadata": False},
        {"matlab_compatible": False, "oned_as": "column", "make_atleast_2d": True, "group_for_references": "/refs"},
        {"store_python_metadata": False, "oned_as": "column"}, {"compress_size_threshold": 0},
        {"structs_as_dicts": True, "dict_like_keys_name": "k"}]
NAMES = ["x", "sym", "g/y", ("a/b",), b"z"]


def jobs(tier):
    out = [("h_only_reads", {"how": how}) for how in ("read", "reads", "loadmat")]
    for k in KINDS:
        for s in range(len(SETS)):
            if tier != "quick" or s < 2 or k in FEW:
                out.append(("h_write", {"kind": k, "opts": s}))
        out.append(("h_savemat", {"kind": k}))
        out.append(("h_loadmat", {"kind": k}))
    for k in FEW:
        for s in range(len(SETS)):
            out.append(("h_several", {"kind": k, "opts": s}))
            if tier != "quick" or s < 2 and k in ("int", "list", "dict"):
                out.append(("h_order", {"kind": k, "opts": s}))
        out.append(("h_names", {"kind": k, "n": 2 if tier == "quick" else 3}))
        out.append(("h_update", {"kind": k}))
    for how in ("savemat", "loadmat"):
        out.append(("h_ending", {"how": how}))
    for how in ("savemat", "write", "writes"):
        out.append(("h_invalid", {"how": how}))
    for n in ((20,) if tier == "quick" else (12, 20, 64)):
        out.append(("h_many", {"n": n}))
    out.append(("h_bad", {}))
    return out


def name(ctx, n="n"):
    p = ctx.choose(n, NAMES)
    if p == "sym":
        p = ctx.str(n, 1, 1, 0xd7ff)
        ctx.assume(ctx.Not(ctx.Or(p == "/", p == ".", p == "\\", p == "p", p == "q")))
    return p


def old_file(ctx, o, there):
    """A file that may have variables already."""
    fn = ctx.path()
    if there:
        f = ctx.call(ctx.hs.File, fn, writable=True, **o)
        f.write(1, "p")
        f.write([2, "b"], "q")
        f.close()
    return fn


def equal(ctx, fa, fb, skip=("#refs#", "refs")):
    a, b = h5py.File(fa, "r"), h5py.File(fb, "r")
    LIB.tree_same(ctx, a, b, a, b, skip)
    a.close()
    b.close()


def header(ctx, fa, fb):
    x, y = [open(f, "rb").read(128) for f in (fa, fb)]
    ctx.check("the same sort of header", x[:50] == y[:50] and x[116:] == y[116:])


def h_many(ctx, n):
    """Many variables, of which one is of any of these kinds and one has an arbitrary name."""
    fa, fb = ctx.path(), ctx.path()
    kind, at = ctx.choose("kind", ["list", "struct"] if ctx.tier == "quick" else FEW), ctx.choose("at", [n - 1] if ctx.tier == "quick" else [0, n - 1])
    p = ctx.str("p", 1, 97, 122)
    vs = {}
    for i in range(n):
        vs["v%02d" % (n - i)] = LIB.element(ctx, "v", kind) if i == at else i
    vs[(p,)] = "last"
    f = ctx.call(ctx.hs.File, fb, writable=True)
    for k in vs:
        f.write(vs[k], k)
    ctx.check("as many variables", len(f) == n + 1)
    f.close()
    if ctx.choose("how", ["savemat", "writes"]) == "savemat":
        ctx.call(ctx.hs.savemat, fa, vs, appendmat=False)
    else:
        ctx.call(ctx.hs.writes, vs, filename=fa, matlab_compatible=True)
    equal(ctx, fa, fb)
    f = ctx.call(ctx.hs.File, fb)
    want = {k: f[k] for k in vs}
    f.close()
    names = list(vs)
    sub = ctx.choose("names", [None, "most", "few"])
    if sub is None:
        m = ctx.call(ctx.hs.loadmat, fa, appendmat=False)
        ctx.check("all variables", len(m) == n + 1)
        got = names[:-1]
    else:
        got = names[:-1][::-1][1:] if sub == "most" else names[at:at + 1]
        m = ctx.call(ctx.hs.loadmat, fa, appendmat=False, variable_names=got)
        ctx.check("those that are asked for", len(m) == len(got))
    for k in got:
        ctx.check("the value", k in m and ctx.same(m[k], want[k]))
    order = names[::-1] + names[:2]
    rs = ctx.call(ctx.hs.reads, order, filename=fa, matlab_compatible=True)
    ctx.check("as many values", len(rs) == len(order))
    for k, r in zip(order, rs):
        ctx.check("the value of each", ctx.same(r, want[k]))


def as_key(p):
    return tuple(p) if isinstance(p, list) else p


def h_write(ctx, kind, opts):
    """write and read against File, with Options or keywords."""
    o = SETS[opts]
    there = ctx.choose("there", [False, True])
    trunc = ctx.choose("truncate", [False, True]) if there else False
    v = LIB.element(ctx, "v", kind)
    p = name(ctx)
    fa, fb = old_file(ctx, o, there), old_file(ctx, o, there)
    kw = o if ctx.choose("form", ["keywords", "options"]) == "keywords" else {"options": ctx.call(ctx.hs.Options, **o)}
    if ctx.choose("one", [False, True]):
        ctx.call(ctx.hs.write, v, p, filename=fa, truncate_existing=trunc, **kw)
    else:
        ctx.call(ctx.hs.writes, {as_key(p): v}, filename=fa, truncate_existing=trunc, **kw)
    f = ctx.call(ctx.hs.File, fb, writable=True, truncate_existing=trunc, **kw)
    f.write(v, p)
    ctx.check("as many variables", len(f) == (3 if there and not trunc else 1))
    f.close()
    equal(ctx, fa, fb)
    header(ctx, fa, fb)
    rkw = dict(kw) if kw is not o or "matlab_compatible" in o else dict(o, matlab_compatible=False)
    f = ctx.call(ctx.hs.File, fb, **rkw)
    want = f.read(p)
    f.close()
    got = ctx.call(ctx.hs.read, p, filename=fa, **kw)
    ctx.check("read gives the same", ctx.same(got, want))
    got = ctx.call(ctx.hs.reads, [p, p], filename=fa, **kw)
    ctx.check("reads gives the same", len(got) == 2 and ctx.same(got[0], want) and ctx.same(got[1], want))


def h_several(ctx, kind, opts):
    """Several variables in one call are the same as one after another."""
    o = SETS[opts]
    vs = [LIB.element(ctx, "v0", kind), LIB.element(ctx, "v1", ctx.choose("other", FEW)), ctx.int("v2", 0, 9)]
    ps = ["s", "g/t", ("a/b", "c")]
    fa, fb = old_file(ctx, o, True), old_file(ctx, o, True)
    ctx.call(ctx.hs.writes, dict(zip(ps, vs)), filename=fa, **o)
    f = ctx.call(ctx.hs.File, fb, writable=True, **o)
    for p, v in zip(ps, vs):
        f[p] = v
    f.close()
    equal(ctx, fa, fb)
    order = ctx.choose("order", [(0, 1, 2), (2, 0), (1,), (), (1, 1)])
    got = ctx.call(ctx.hs.reads, [ps[i] for i in order], filename=fa, options=ctx.call(ctx.hs.Options, **o))
    f = ctx.call(ctx.hs.File, fa, options=ctx.call(ctx.hs.Options, **o))
    ctx.check("as many values", len(got) == len(order))
    for i, r in zip(order, got):
        ctx.check("the value", ctx.same(r, f[ps[i]]))
    for w, p in ((1, "p"), ([2, "b"], "q")):
        ctx.check("others are as they were", ctx.same(f[p], w, False) or not o.get("store_python_metadata", True))
    f.close()


ORDERS = [("g", "g/t"), ("g/t", "g"), ("g/t/u", "g/t", "s"), ("z", "a", "z/k"), ("z/k", "z"), ("b", ("b",), "./b"), (("b",), "b"), ("g/t", "z", "g")]


def h_order(ctx, kind, opts):
    """Several variables of which one is at, above or below another are written in the order that they are given in."""
    o = SETS[opts]
    ps = ctx.choose("paths", ORDERS)
    at = ctx.choose("at", [0, len(ps) - 1])
    vs = [LIB.element(ctx, "v", kind) if i == at else {"t": i, "k": [i]} for i in range(len(ps))]
    fa, fb = old_file(ctx, o, False), old_file(ctx, o, False)
    f = ctx.call(ctx.hs.File, fb, writable=True, **o)
    err = None
    for p, v in zip(ps, vs):
        if err is None:
            r, err = ctx.attempt(f.write, v, p)
    f.close()
    how = ctx.choose("how", ["writes", "File", "ordered"])
    d = collections.OrderedDict(zip(ps, vs)) if how == "ordered" else dict(zip(ps, vs))
    if how == "File":
        f = ctx.call(ctx.hs.File, fa, writable=True, **o)
        r, e = ctx.attempt(f.writes, d)
        f.close()
    else:
        r, e = ctx.attempt(ctx.hs.writes, d, filename=fa, **o)
    ctx.check("the same error", type(e) is type(err))
    equal(ctx, fa, fb)


def mat(ctx, appendmat):
    """A file name and the one that is to be used."""
    appendmat = appendmat.get("appendmat", True)
    fn = ctx.path()
    if not appendmat:
        return fn, fn
    full = fn + ".mat"
    if os.path.exists(full):
        os.unlink(full)
    ctx.paths.append(full)
    return (fn, full) if ctx.choose("ending", [False, True]) else (full, full)


def h_savemat(ctx, kind):
    """savemat is File with MATLAB compatible options."""
    append = ctx.choose("appendmat", [{"appendmat": True}, {"appendmat": False}, {}])
    fn, full = mat(ctx, append)
    o = {"oned_as": ctx.choose("oned_as", ["row", "column"]), "store_python_metadata": ctx.bool("meta"),
         "action_for_matlab_incompatible": ctx.choose("action", ["error", "ignore", "discard"])}
    there = ctx.choose("there", [False, True])
    trunc = ctx.choose("truncate", [False, True]) if there else False
    fb = old_file(ctx, {}, there)
    if there:
        f = ctx.call(ctx.hs.File, full, writable=True)
        f.write(1, "p")
        f.write([2, "b"], "q")
        f.close()
    v = LIB.element(ctx, "v", kind)
    p = name(ctx)
    w = np.float16(1.5)
    f = ctx.call(ctx.hs.File, fb, writable=True, truncate_existing=trunc, **o)
    r1, e1 = ctx.attempt(f.writes, {as_key(p): v, "w": w})
    f.close()
    r2, e2 = ctx.attempt(ctx.hs.savemat, fn, {as_key(p): v, "w": w}, **append, truncate_existing=trunc, **o)
    ctx.check("the same error", type(e1) is type(e2))
    equal(ctx, full, fb)
    header(ctx, full, fb)


ENDINGS = ["mat", "x.mat", ".MAT", ".mat.h5", "mat.mat", ".mat.", ".ma", "\u00e9", ".mat ", "format"]


def h_ending(ctx, how):
    """Whatever a file name ends with, unless it is with .mat that is added (if it is to be)."""
    base = ctx.path() + ctx.choose("ending", ENDINGS)
    append = ctx.choose("appendmat", [True, False])
    full = base if base.endswith(".mat") or not append else base + ".mat"
    for x in (base, base + ".mat"):
        if os.path.exists(x):
            os.unlink(x)
        ctx.paths.append(x)
    v = ctx.int("v", -9, 9)
    if how == "savemat":
        ctx.call(ctx.hs.savemat, base, {"x": v}, appendmat=append)
        ctx.check("the file of that name", os.path.exists(full))
        ctx.check("and no other", all(not os.path.exists(x) for x in (base, base + ".mat") if x != full))
        f = ctx.call(ctx.hs.File, full)
        ctx.check("what was saved", ctx.same(f.read("x"), v, False))
        f.close()
    else:
        f = ctx.call(ctx.hs.File, full, writable=True)
        f.write(v, "x")
        f.close()
        m = ctx.call(ctx.hs.loadmat, base, appendmat=append)
        ctx.check("what is in it", ctx.same(m["x"], v, False))


def h_invalid(ctx, how):
    """A file that MATLAB cannot have written is made anew if that is asked for."""
    trunc = ctx.choose("truncate_invalid_matlab", [False, True])
    files = []
    block = ctx.choose("userblock", [0, 512, 1024])
    for i in range(2):
        fn = ctx.path()
        h = h5py.File(fn, "w", userblock_size=block)
        h["z"] = 1
        h.close()
        files.append(fn)
    fa, fb = files
    v = ctx.int("v", -9, 9)
    f = ctx.call(ctx.hs.File, fb, writable=True, truncate_invalid_matlab=trunc, matlab_compatible=True)
    f.write(v, "x")
    f.close()
    if how == "savemat":
        ctx.call(ctx.hs.savemat, fa, {"x": v}, appendmat=False, truncate_invalid_matlab=trunc)
    elif how == "write":
        ctx.call(ctx.hs.write, v, "x", filename=fa, truncate_invalid_matlab=trunc, matlab_compatible=True)
    else:
        ctx.call(ctx.hs.writes, {"x": v}, filename=fa, truncate_invalid_matlab=trunc, options=ctx.call(ctx.hs.Options))
    a, b = h5py.File(fa, "r"), h5py.File(fb, "r")
    ctx.check("the same size before it", a.userblock_size == b.userblock_size)
    ctx.check("what was there", ("z" in a) == ("z" in b))
    ctx.check("is gone if it could not be", ("z" in a) == (block > 0 or not trunc))
    a.close()
    b.close()
    equal(ctx, fa, fb)
    header(ctx, fa, fb)


def h_loadmat(ctx, kind):
    """loadmat reads all variables, like File with the defaults."""
    append = ctx.choose("appendmat", [{"appendmat": True}, {"appendmat": False}, {}])
    fn, full = mat(ctx, append)
    v = LIB.element(ctx, "v", kind)
    p = ctx.choose("n", ["x", "sym", "a/b", ".", "#"])
    if p == "sym":
        p = ctx.str("n", 1, 0, 0xd7ff)
    f = ctx.call(ctx.hs.File, full, writable=True)
    f.writes({(p,): v, "second": 1})
    ctx.assume(len(f) == 2)
    want = f[(p,)]
    f.close()
    o = ctx.choose("options", [None, {}, {"structs_as_dicts": True}, {"matlab_compatible": False}])
    if o is not None:
        f = ctx.call(ctx.hs.File, full, **o)
        want = f[(p,)]
        f.close()
        o = ctx.call(ctx.hs.Options, **o)
    m = ctx.call(ctx.hs.loadmat, fn, options=o, **append)
    ctx.check("all variables", len(m) == 2 and "second" in m)
    ctx.check("the value of the other", m["second"] == 1)
    for k in m:
        if k == p:
            ctx.check("the value", ctx.same(m[k], want))
        else:
            ctx.check("the other", k == "second")


def h_names(ctx, kind, n):
    """loadmat with variable_names."""
    fn = ctx.path()
    vals = {"x": LIB.element(ctx, "v", kind), "g/y": ctx.int("w", 0, 9), "c\\x2fd": ctx.int("u", 0, 9)}
    f = ctx.call(ctx.hs.File, fn, writable=True)
    f.writes(vals)
    want = {k: f[k] for k in vals}
    f.close()
    names = []
    for i in range(n):
        k = ctx.choose("n%d" % i, ["x", "g/y", "missing", "sym", "c\\x2fd", "#refs#", "#refs#/a"])
        if k == "sym":
            k = ctx.str("s%d" % i, 1)
            ctx.assume(ctx.Not(ctx.Or(k == "/", k == ".", k == "g")))
        names.append(k)
    cls = ctx.choose("cls", [list, tuple])
    m = ctx.call(ctx.hs.loadmat, fn, appendmat=False, variable_names=cls(names))
    for k in want:
        ctx.check("those that are asked for", (k in m) == any(q == k for q in names))
        if k in m:
            ctx.check("the value", ctx.same(m[k], want[k]))
    ctx.check("no others", all(any(q == k for k in want) for q in m))


def h_only_reads(ctx, how):
    """What reads leaves the file as it is, and makes none."""
    fn = ctx.path()
    o = ctx.choose("options", [{}, {"matlab_compatible": False}, {"matlab_compatible": True}, {"options": None}, {"truncate_existing": True},
                               {"truncate_invalid_matlab": True, "matlab_compatible": True}])
    if how == "loadmat":
        o = {k: v for k, v in o.items() if k == "options"}
    if "options" in o and ctx.choose("given", [False, True]):
        o = {"options": ctx.call(ctx.hs.Options)}
    v = ctx.int("v", -9, 9)
    kind = ctx.choose("file", ["matlab", "plain", "h5py", "none"])
    if kind == "h5py":
        h = h5py.File(fn, "w")
        h["x"] = np.arange(2)
        h.close()
    elif kind != "none":
        f = ctx.call(ctx.hs.File, fn, writable=True, matlab_compatible=kind == "matlab")
        f.write(v, "x")
        f.close()
    elif os.path.exists(fn):
        os.unlink(fn)
    if kind == "none":
        if how == "loadmat":
            # It would be given to scipy.
            return
        r, e = ctx.attempt(ctx.hs.read if how == "read" else ctx.hs.reads, "x" if how == "read" else ["x"], filename=fn, **o)
        ctx.check("it fails", isinstance(e, OSError))
        ctx.check("no file is made", not os.path.exists(fn))
        return
    before = open(fn, "rb").read()
    other = h5py.File(fn, "r") if ctx.choose("other", [False, True]) else None
    if how == "read":
        r, e = ctx.attempt(ctx.hs.read, "x", filename=fn, **o)
    elif how == "reads":
        r, e = ctx.attempt(ctx.hs.reads, ["x"], filename=fn, **o)
        r = None if e is not None else r[0]
    else:
        r, e = ctx.attempt(ctx.hs.loadmat, fn, appendmat=False, **o)
        r = None if e is not None else r["x"]
    if other is not None:
        other.close()
    ctx.check("others may have it open", e is None)
    if kind == "h5py":
        ctx.check("the value", r.tolist() == [0, 1])
    else:
        ctx.check("the value", ctx.same(r, v, False))
    ctx.check("the file is as it was", open(fn, "rb").read() == before)


def h_update(ctx, kind):
    """loadmat into a given dict."""
    fn = ctx.path()
    v = LIB.element(ctx, "v", kind)
    f = ctx.call(ctx.hs.File, fn, writable=True)
    f.writes({"x": v, "y": 2})
    want = f["x"]
    f.close()
    m = ctx.choose("cls", [dict, collections.OrderedDict])()
    fresh = ctx.choose("fresh", [False, True])
    if not fresh:
        m["x"] = "old"
        m["other"] = ctx.int("o", 0, 9)
        other = m["other"]
    names = ctx.choose("names", [None, ["x"], ["y"], [], ["missing"], ("y", "x")])
    r = ctx.call(ctx.hs.loadmat, fn, m, False, names)
    ctx.check("is returned", r is m)
    if not fresh:
        ctx.check("others stay", ctx.same(m["other"], other))
    got = ["x", "y"] if names is None else names
    if "x" in got:
        ctx.check("the value", ctx.same(m["x"], want))
    elif fresh:
        ctx.check("was not read", "x" not in m)
    else:
        ctx.check("was not read", m["x"] == "old")
    ctx.check("y", (m["y"] == 2) if "y" in got else "y" not in m)
    ctx.check("no others", set(m) <= {"x", "y", "other"})


def h_bad(ctx):
    """Nothing is written when an argument is wrong."""
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True)
    f.write(ctx.int("v", 0, 9), "x")
    f.close()
    before = open(fn, "rb").read()
    what = ctx.choose("what", ["mdict", "both", "filename", "truncate", "invalid", "missing", "nofile"])
    h = ctx.hs
    opts = ctx.call(h.Options)
    if what == "mdict":
        r, e = ctx.attempt(h.writes, [("x", 1)], filename=fn, matlab_compatible=False)
        ctx.check("TypeError", isinstance(e, TypeError))
    elif what == "both":
        for g, a in ((h.writes, {"x": 1}), (h.reads, ["x"])):
            r, e = ctx.attempt(g, a, filename=fn, options=opts, matlab_compatible=False)
            ctx.check("ValueError", isinstance(e, ValueError))
    elif what == "filename":
        for g, a in ((h.writes, {"x": 1}), (h.reads, ["x"])):
            for bad in (1, None, fn.encode()):
                r, e = ctx.attempt(g, a, filename=bad)
                ctx.check("TypeError", isinstance(e, TypeError))
    elif what == "truncate":
        for bad in (1, None, "no"):
            r, e = ctx.attempt(h.writes, {"x": 1}, filename=fn, truncate_existing=bad)
            ctx.check("TypeError", isinstance(e, TypeError))
            r, e = ctx.attempt(h.writes, {"x": 1}, filename=fn, truncate_invalid_matlab=bad)
            ctx.check("TypeError", isinstance(e, TypeError))
    elif what == "invalid":
        for bad in ("#refs#/x", "\0", 1, None):
            r, e = ctx.attempt(h.writes, {bad: 1}, filename=fn, matlab_compatible=False)
            ctx.check("refused", isinstance(e, (TypeError, ValueError)))
            r, e = ctx.attempt(h.read, bad, filename=fn)
            ctx.check("refused", isinstance(e, (TypeError, ValueError)))
    elif what == "missing":
        for bad in ("no", "no/x", "x/y"):
            r, e = ctx.attempt(h.read, bad, filename=fn)
            ctx.check("KeyError", isinstance(e, KeyError))
            r, e = ctx.attempt(h.reads, ["x", bad], filename=fn)
            ctx.check("KeyError", isinstance(e, KeyError))
    else:
        r, e = ctx.attempt(h.read, "x", filename=fn + ".none")
        ctx.check("OSError", isinstance(e, OSError))
        ctx.check("no file is made by reading", not os.path.exists(fn + ".none"))
    ctx.check("the file's bytes are as they were", open(fn, "rb").read() == before)
