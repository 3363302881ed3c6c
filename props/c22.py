"""C22: The marshaller used is the first that handles the type in priority order."""
import warnings

import h5py
import numpy as np

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import pkg_resources

BOUNDS = ("all 6 priority orders, with and without plugins; 0..3 user and 0..3 plugin marshallers (of 1..2 plugins, some of which fail, are not callable or give other things), "
          "each listing 1..2 types, type strings and MATLAB classes that are arbitrary str of 1..2 characters, or builtin's or each other's own as str or class; classes that are nested, local, made and of the same name; "
          "12 (quick) / 40 (thorough) marshallers of which two list arbitrary names and some list the same; histories of 0..2 (quick) / 0..3 (thorough) additions (one, lists, repeated, partly wrong), removals and clearings; queries of every builtin type, "
          "type string and MATLAB class and of arbitrary str of 1..2 characters; what writing and reading use; every str of length 4..7 as elements of priority")
OUTSIDE = "longer names, marshallers whose lists change after they were added, real entry points of installed distributions (a stand-in gives the plugins)"
TIME = {"quick": 40, "thorough": 300}
ORDERS = [("builtin", "plugin", "user"), ("builtin", "user", "plugin"), ("plugin", "builtin", "user"), ("plugin", "user", "builtin"),
          ("user", "builtin", "plugin"), ("user", "plugin", "builtin")]
KINDS = ["type", "type_string", "matlab_class"]


def jobs(tier):
    out = [("h_priority", {"n": n}) for n in range(5)] + [("h_arguments", {})]
    for i in range(6):
        for what in KINDS if tier != "quick" else [KINDS[(i + 1) % 3]]:
            out.append(("h_many", {"order": i, "what": what, "n": 12 if tier == "quick" else 40}))
            out.append(("h_select", {"order": i, "what": what, "user": 2, "plugin": 1, "two": False}))
            out.append(("h_select", {"order": i, "what": what, "user": 1, "plugin": 2, "two": False}))
            if tier != "quick":
                out.append(("h_select", {"order": i, "what": what, "user": 1, "plugin": 1, "two": True}))
                out.append(("h_select", {"order": i, "what": what, "user": 2, "plugin": 2, "two": True}))
                out.append(("h_select", {"order": i, "what": what, "user": 3, "plugin": 3, "two": False}))
        for what in KINDS if tier != "quick" else [KINDS[i % 3]]:
            for start in range(4) if tier != "quick" else [i % 4, (i + 1) % 4]:
                out.append(("h_history", {"order": i, "what": what, "start": start, "steps": 2 if tier == "quick" else 3}))
            for kind in range(7):
                out.append(("h_plugins", {"order": i, "what": what, "kind": kind}))
        out.append(("h_builtin", {"order": i}))
        out.append(("h_class", {"order": i}))
        out.append(("h_file", {"order": i}))
        out.append(("h_default", {"order": i}))
        for how in ("type", "class", "group", "string"):
            out.append(("h_raw", {"order": i, "how": how}))
    return out


def h_default(ctx, order):
    """The default collection is the one that was made last; what has one already keeps it."""
    h = ctx.hs
    first = ctx.call(h.get_default_marshaller_collection)
    try:
        old = ctx.call(h.Options)
        names = [ctx.str("n%d" % i, 1) for i in range(2)]
        q = ctx.str("q", 1)
        made = []
        for n in names:
            M = ctx.Marshallers
            m = M.PythonNoneEllipsisNotImplementedMarshaller()
            give(m, "type_string", [n])
            m.types, m.matlab_classes = (), ()
            m.update_type_lookups()
            ctx.call(h.make_new_default_marshaller_collection, priority=ORDERS[order], marshallers=[m])
            mc = ctx.call(h.get_default_marshaller_collection)
            ctx.check("a new one", mc is not first and all(mc is not x for x, _, _ in made))
            ctx.check("the same until another is made", ctx.call(h.get_default_marshaller_collection) is mc)
            ctx.check("what it was made with", mc.priority == ORDERS[order])
            o = ctx.call(h.Options)
            ctx.check("is that of new Options", o.marshaller_collection is mc)
            made.append((mc, o, m))
        ctx.check("that of older Options is as it was", old.marshaller_collection is first)
        ctx.check("that of older Options is as it was", made[0][1].marshaller_collection is made[0][0])
        for (mc, o, m), n in zip(made, names):
            if not any(q == t for t in BUILTINS(ctx, "type_string")):
                got, has = get(ctx, mc, "type_string", q)
                ctx.check("its marshaller", (got is m) == (q == n))
    finally:
        # The state of the module is put back.
        ctx.call(h.make_new_default_marshaller_collection, lazy_loading=True)


def name_of(t):
    return t if isinstance(t, str) else t.__module__ + "." + t.__name__


def lists(what, m):
    """The names that a marshaller lists."""
    if what == "type":
        return [name_of(t) for t in m.types]
    return list(m.python_type_strings if what == "type_string" else m.matlab_classes)


def get(ctx, mc, what, q):
    f = {"type": mc.get_marshaller_for_type, "type_string": mc.get_marshaller_for_type_string, "matlab_class": mc.get_marshaller_for_matlab_class}[what]
    return ctx.call(f, q)


def give(m, what, names):
    """Set what a marshaller lists."""
    if what == "type":
        m.types = tuple(names)
        m.python_type_strings = tuple("-%d" % i for i in range(len(names)))
        m.update_type_lookups()
    elif what == "type_string":
        m.types = tuple("-%d" % i for i in range(len(names)))
        m.python_type_strings = tuple(names)
        m.update_type_lookups()
    else:
        m.matlab_classes = tuple(names)


BUILTIN = {"type": [int, "builtins.int", "numpy.uint8", np.uint8, "fractions.Fraction", dict],
           "type_string": ["int", "numpy.ndarray", "fractions.Fraction"], "matlab_class": ["struct", "int8", "cell"]}


def query(ctx, what):
    v = ctx.choose("q.kind", [1, 2, "builtin"])
    return ctx.choose("q.b", BUILTIN[what]) if v == "builtin" else ctx.str("q", v)


class Outer:
    class Inner:
        class Innermost(dict):
            pass


def sorts():
    class Local(int):
        pass

    made = type("made here", (list,), {"__module__": "not.there"})
    return [Outer, Outer.Inner, Outer.Inner.Innermost, Local, made, type("Inner", (), {"__module__": "else"}), ValueError, type(None)]


def h_class(ctx, order):
    """Classes wherever they are defined, listed and asked for as class or by name."""
    cs = sorts()
    i, j = ctx.choose("listed", range(len(cs))), ctx.choose("asked", range(len(cs)))
    m = ctx.call(ctx.hs.Marshallers.TypeMarshaller)
    give(m, "type", [ctx.choose("as", [cs[i], name_of(cs[i])])])
    mc = collection(ctx, order, [m], [])
    r, has = get(ctx, mc, "type", ctx.choose("by", [cs[j], name_of(cs[j])]))
    if i == j and (cs[i] is not type(None) or ORDERS[order].index("user") < ORDERS[order].index("builtin")):
        ctx.check("the marshaller that lists it", r is m and has is True)
    elif cs[j] is type(None):
        ctx.check("the builtin one", r is not None and r is not m)
    else:
        ctx.check("none", r is None and has is False)


def collection(ctx, order, user, plugin, **kw):
    """A collection with these plugin marshallers (given by one entry point)."""
    with_plugins(ctx, [lambda version: plugin])
    try:
        return ctx.call(ctx.hs.MarshallerCollection, load_plugins=len(plugin) > 0, priority=ORDERS[order], marshallers=user, **kw)
    finally:
        without_plugins(ctx)


class Entry:
    """What pkg_resources gives for an entry point."""

    def __init__(self, name, module_name, f):
        self.name, self.module_name, self.f = name, module_name, f

    def load(self):
        if self.f is None:
            raise ImportError("no such plugin")
        return self.f


REAL = pkg_resources.iter_entry_points


def with_plugins(ctx, functions):
    """Plugins of this API version, and one of an unknown one."""
    eps = [Entry("1.0", "module%d" % i, f) for i, f in enumerate(functions)]
    eps.insert(1, Entry("0.5", "module0", unknown_version))

    def entry_points(group, name=None):
        if group != "hdf5storage.marshallers.plugins":
            return iter([])
        return iter([e for e in eps if name is None or e.name == name])

    replace(ctx, REAL, entry_points)
    ENTRY[:] = [entry_points]


ENTRY = []


def replace(ctx, old, by):
    for m in [pkg_resources] + list(ctx.mods.values()):
        for k, v in list(vars(m).items()):
            if v is old:
                setattr(m, k, by)


def without_plugins(ctx):
    replace(ctx, ENTRY[0], REAL)


def unknown_version(version):
    raise AssertionError("called with another version's interface")


def expected(ctx, mc, order, what, user, plugin, q):
    """The first that lists it: a marshaller, "builtin" or None."""
    for part in ORDERS[order]:
        if part == "builtin":
            for b in BUILTINS(ctx, what):
                if b == q:
                    return "builtin"
        else:
            for m in user if part == "user" else plugin:
                for t in lists(what, m):
                    if t == q:
                        return m
    return None


def classes(ctx):
    M = ctx.Marshallers
    return [c for c in [getattr(M, n) for n in dir(M)] if isinstance(c, type) and issubclass(c, M.TypeMarshaller)]


def BUILTINS(ctx, what):
    out = []
    for c in classes(ctx):
        out += lists(what, c())
    return out


def verify(ctx, mc, order, what, user, plugin, q):
    want = expected(ctx, mc, order, what, user, plugin, name_of(q))
    got, has = get(ctx, mc, what, q)
    if want is None:
        ctx.check("none lists it", got is None and has is False)
    elif want == "builtin":
        ctx.check("a builtin one", got is not None and type(got) in classes(ctx) and has is True)
        ctx.check("one that lists it", any(t == name_of(q) for t in lists(what, got)))
    else:
        ctx.check("the first in priority order", got is want and has is True)


def new(ctx, n, what, name, two=False, special=True):
    """Marshallers that list arbitrary names, of which at most one is longer or a builtin's."""
    k = n * (2 if two else 1)
    at = ctx.choose(name + ".at", [-1] + list(range(k))) if special else -1
    names = []
    for i in range(k):
        v = ctx.choose(name + ".kind", ["long"] + BUILTIN[what]) if i == at else None
        names.append(ctx.str("%s%d" % (name, i), 2 if v == "long" else 1) if v is None or v == "long" else v)
    out = []
    for i in range(n):
        m = ctx.Marshallers.TypeMarshaller()
        give(m, what, names[2 * i:2 * i + 2] if two else [names[i]])
        out.append(m)
    return out


def h_select(ctx, order, what, user, plugin, two):
    """Whatever the marshallers list."""
    user, plugin = new(ctx, user, what, "u", two), new(ctx, plugin, what, "p", two, ctx.tier != "quick")
    mc = collection(ctx, order, user, plugin)
    ctx.check("priority", mc.priority == ORDERS[order])
    verify(ctx, mc, order, what, user, plugin, query(ctx, what))


def h_many(ctx, order, what, n):
    """Many marshallers, of which two list arbitrary names, or the names of others."""
    ms = []
    at, other = ctx.choose("at", [0, n // 2, n - 1]), ctx.choose("other", [1, n - 2])
    for i in range(n):
        m = ctx.Marshallers.TypeMarshaller()
        names = ["name%02d" % ((i * 7) % n)]
        if i == at or i == other:
            names = [ctx.str("m%d" % i, 1) if i == at else "name05", ctx.choose("n%d" % i, ["name%02d" % (n - 1), BUILTIN[what][0]])]
        give(m, what, names)
        ms.append(m)
    user, plugin = (ms[::2], ms[1::2]) if ctx.choose("both", [True, False]) else (ms, [])
    mc = collection(ctx, order, user, plugin)
    q = ctx.choose("q.kind", ["sym", "name%02d" % (n - 1), "name05"])
    verify(ctx, mc, order, what, user, plugin, ctx.str("q", 1) if q == "sym" else q)
    if ctx.choose("remove", [False, True]):
        gone = user.pop(ctx.choose("gone", [0, len(user) - 1]))
        ctx.call(mc.remove_marshaller, gone)
        verify(ctx, mc, order, what, user, plugin, "name05" if q == "sym" else q)


def h_history(ctx, order, what, start, steps):
    """Whatever was added and removed."""
    ms = new(ctx, 3, what, "m", False, False)
    plugin = new(ctx, 1, what, "p", False, False)
    user = [[], [0], [0, 1], [1, 0]][start]
    mc = collection(ctx, order, [ms[i] for i in user], plugin)
    user = list(user)
    for s in range(steps):
        op = ctx.choose("op%d" % s, ["add", "add list", "add wrong", "remove", "remove list", "clear"])
        which = ctx.choose("which%d" % s, [[0], [1]] if op in ("add", "remove") else [[0, 1], [2, 0], [1, 1]] if op in ("add list", "remove list") else [[]])
        given = [ms[i] for i in which]
        if op == "add":
            ctx.call(mc.add_marshaller, given[0])
        elif op == "add list":
            ctx.call(mc.add_marshaller, ctx.choose("as%d" % s, [list, tuple, iter])(given))
        elif op == "add wrong":
            bad = ctx.choose("bad%d" % s, [None, 1, "x", [object()], ctx.Marshallers.TypeMarshaller, [ctx.Marshallers.TypeMarshaller]])
            r, e = ctx.attempt(mc.add_marshaller, bad)
            ctx.check("refused", isinstance(e, TypeError))
        elif op == "remove":
            ctx.call(mc.remove_marshaller, given[0])
        elif op == "remove list":
            ctx.call(mc.remove_marshaller, given)
        else:
            ctx.call(mc.clear_marshallers)
            user = []
        for i in which:
            if op.startswith("add") and i not in user:
                user.append(i)
            if op.startswith("remove") and i in user:
                user.remove(i)
    verify(ctx, mc, order, what, [ms[i] for i in user], plugin, query(ctx, what))


def h_builtin(ctx, order):
    """Every builtin type, type string and MATLAB class, with another marshaller that lists it."""
    what = ctx.choose("what", KINDS)
    names = BUILTINS(ctx, what)
    user, plugin = new(ctx, 1, what, "u", False, False), new(ctx, 1, what, "p", False, False)
    q = ctx.choose("q", names)
    for who in (user, plugin):
        if ctx.choose("lists.%d" % (who is user), [False, True]):
            give(who[0], what, [q])
    mc = collection(ctx, order, user, plugin)
    verify(ctx, mc, order, what, user, plugin, q)


def h_plugins(ctx, order, what, kind):
    """Several plugins, of which some are broken."""
    a, b = new(ctx, 2, what, "a", False, False), new(ctx, 1, what, "b", False, False)
    user = new(ctx, 1, what, "u", False, False)
    kind = ["good", "broken", "raises", "not callable", "mixed", "none", "generator"][kind]
    first = {"good": lambda v: a, "broken": None, "raises": fails, "not callable": 5, "mixed": lambda v: [a[0], 1, None, a[1], "x"],
             "none": lambda v: None, "generator": lambda v: iter(a)}[kind]
    load = ctx.choose("load", [True, False])
    seen = []
    with_plugins(ctx, [first, lambda v: seen.append(v) or tuple(b)])
    try:
        mc = ctx.call(ctx.hs.MarshallerCollection, load_plugins=load, priority=list(ORDERS[order]), marshallers=user[0])
    finally:
        without_plugins(ctx)
    ctx.check("given the version", seen == ([ctx.hs.__version__] if load else []))
    plugin = []
    if load:
        plugin = (a if kind in ("good", "mixed", "generator") else []) + b
    verify(ctx, mc, order, what, user, plugin, query(ctx, what))


def fails(version):
    raise RuntimeError("broken plugin")


def h_file(ctx, order):
    """Writing and reading use the one that is selected."""
    M = ctx.Marshallers
    log = []

    class Mine(M.PythonScalarMarshaller):
        def __init__(self, who):
            M.PythonScalarMarshaller.__init__(self)
            self.who = who

        def write(self, f, grp, name, data, type_string):
            log.append("write " + self.who)
            return M.PythonScalarMarshaller.write(self, f, grp, name, data, type_string)

        def read(self, f, dsetgrp, attributes):
            log.append("read " + self.who)
            return M.PythonScalarMarshaller.read(self, f, dsetgrp, attributes)

    user = [Mine("user")] if ctx.choose("user", [True, False]) else []
    plugin = [Mine("plugin")] if ctx.choose("plugin", [True, False]) else []
    mc = collection(ctx, order, user, plugin)
    v = ctx.int("v", -(1 << 63), (1 << 63) - 1)
    fn = ctx.path()
    nested = ctx.choose("nested", [False, True])
    f = ctx.call(ctx.hs.File, fn, writable=True, marshaller_collection=mc)
    f.write({"k": [v]} if nested else v, "/x")
    f.close()
    f = ctx.call(ctx.hs.File, fn, marshaller_collection=mc)
    r = f.read("/x")
    f.close()
    ctx.check("the value", ctx.same(r["k"][0] if nested else r, v, False))
    first = [p for p in ORDERS[order] if p == "builtin" or p == "user" and user or p == "plugin" and plugin][0]
    ctx.check("the selected one was used", log == ([] if first == "builtin" else ["write " + first, "read " + first]))


def h_raw(ctx, order, how):
    """What reads the objects of other programs: the marshaller of their type, MATLAB class or type string."""
    M = ctx.Marshallers
    log = []

    class Mine(M.NumpyScalarArrayMarshaller):
        def __init__(self, who, i):
            M.NumpyScalarArrayMarshaller.__init__(self)
            self.who = who
            self.types = ((np.int32,), (np.uint16, "numpy.int32"))[i] if how == "type" else ()
            self.python_type_strings = ("mine",) if how == "string" else ()
            self.matlab_classes = {"class": (("int32",), ("table", "int32")), "group": (("struct",), ("cell", "struct"))}[how][i] \
                if how in ("class", "group") else ()
            self.update_type_lookups()

        def read(self, f, dsetgrp, attributes):
            log.append(self.who)
            return "read by " + self.who

    i = ctx.choose("i", [0, 1])
    user = [Mine("user", i)] if ctx.choose("user", [True, False]) else []
    plugin = [Mine("plugin", i)] if ctx.choose("plugin", [True, False]) else []
    mc = collection(ctx, order, user, plugin)
    fn = ctx.path()
    h = h5py.File(fn, "w")
    if how == "group":
        h.create_group("x")["a"] = 1
    else:
        h["x"] = np.arange(2, dtype=np.int32)
    if how == "class":
        h["x"].attrs["MATLAB_class"] = np.bytes_("int32")
    if how == "string":
        h["x"].attrs["Python.Type"] = np.bytes_("mine")
        if ctx.choose("also", [False, True]):
            # The type string is what counts.
            h["x"].attrs["MATLAB_class"] = np.bytes_("int32")
    h.close()
    f = ctx.call(ctx.hs.File, fn, marshaller_collection=mc)
    r = f.read("/x")
    f.close()
    have = [p for p in ORDERS[order] if p == "builtin" and how != "string" and (how != "group" or "struct" in BUILTINS(ctx, "matlab_class")) or p == "user" and user or p == "plugin" and plugin]
    if have and have[0] != "builtin":
        ctx.check("the one that lists it first", log == [have[0]] and r == "read by " + have[0])
    else:
        ctx.check("none of these", log == [] and not isinstance(r, str))


def h_priority(ctx, n):
    """Every priority but the six orders is refused."""
    words = ["builtin", "plugin", "user"]
    p = []
    at = ctx.choose("at", ["all"] + list(range(n)))
    for i in range(n):
        c = ctx.choose("c%d" % i, [4, 6, 7] if at == "all" or at == i else words)
        p.append(c if isinstance(c, str) else ctx.str("p%d" % i, c))
    p = ctx.choose("as", [list, tuple])(p)
    r, e = ctx.attempt(ctx.hs.MarshallerCollection, priority=p)
    good = n == 3
    for w in words:
        good = good and any(x == w for x in p)
    if good:
        ctx.check("accepted", e is None and tuple(r.priority) == tuple(p))
    else:
        ctx.check("refused", isinstance(e, ValueError))


def h_arguments(ctx):
    """Arguments of wrong types are refused."""
    kw = ctx.choose("kw", ["load_plugins", "lazy_loading", "priority", "marshallers"])
    bad = ctx.choose("bad", [None, 1, 0.5, object, np.bool_(True), {"user", "plugin", "builtin"}, iter(ORDERS[0])])
    if kw == "marshallers":
        bad = ctx.choose("m", [None, 1, [1], ["x"], object(), ctx.Marshallers.TypeMarshaller])
    r, e = ctx.attempt(ctx.hs.MarshallerCollection, **{kw: bad})
    ctx.check("refused", isinstance(e, TypeError))
