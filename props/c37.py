"""C37: all ways to address a variable, at any depth, agree on what is there."""
import numpy as np

BOUNDS = ("files of Groups nested up to three deep with a number, an array, a list, a dict and a structure in them, of arbitrary contents; "
          "paths of 1..3 (quick) / 1..4 (thorough) names, each of one arbitrary character (so each name that is there and any that is not), below "
          "Groups, dicts, Datasets and what is missing, spelled as str, bytes, tuple, PurePosixPath, without and with a leading "
          "slash, '.', '..', doubled and trailing slashes; membership, read, reads, item access, get, pop with and without default, deletion, setdefault, item "
          "assignment and write by it, and all that is elsewhere afterwards; histories of 3 (quick) / 4 (thorough) writes of lists and dicts and deletions at three paths, each below another; for four combinations of options")
OUTSIDE = ("names that are escaped (C01, C03) or in the references Group (C04), a Group that has it being deleted or overwritten; links that lead nowhere; deeper files; what reading a "
           "Group gives (C18)")
TIME = {"quick": 45, "thorough": 400}
SETS = {"matlab": {"matlab_compatible": True}, "plain": {"matlab_compatible": False},
        "refs": {"matlab_compatible": False, "group_for_references": "/g/r"},
        "delete": {"matlab_compatible": True, "delete_unused_variables": True, "structured_numpy_ndarray_as_struct": True}}
OPS = ["look", "get", "pop", "popdefault", "del", "setdefault", "set", "write"]
SPELL = ["rel", "abs", "bytes", "tuple", "pure", "dots", "slashes", "up", "mixed"]


def jobs(tier):
    out = [("h_root", {"opts": s}) for s in SETS]
    for s in SETS:
        out.append(("h_history", {"opts": s, "steps": 3 if tier == "quick" else 4}))
    for i, s in enumerate(SETS):
        for op in OPS:
            for n in range(1, 4 if tier == "quick" else 5):
                for j, sp in enumerate(SPELL):
                    if tier != "quick" or (i + j + 2 * n + OPS.index(op)) % 8 == 0 or op == "look" and i == j % 4:
                        out.append(("h_path", {"opts": s, "op": op, "n": n, "spell": sp}))
    return out


class Tree:
    """A Group or a dict: its names and what they have."""

    def __init__(self, is_dict=False):
        self.is_dict = is_dict
        self.names = []
        self.values = []

    def at(self, name):
        for i, k in enumerate(self.names):
            if name == k:
                return i
        return None

    def put(self, name, value):
        i = self.at(name)
        if i is None:
            self.names.append(name)
            self.values.append(value)
        else:
            self.values[i] = value

    def value(self):
        return dict([(k, x.value() if isinstance(x, Tree) else x) for k, x in zip(self.names, self.values)])


def tree_of(items, is_dict=False):
    t = Tree(is_dict)
    for k, x in items:
        t.put(k, x)
    return t


def made(ctx, o):
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    st = np.zeros((2,), [("s", "<i4"), ("t", "<u2", (2,))])
    st["s"] = 3
    h = tree_of([("b", tree_of([("k", [ctx.int("b", 0, 9)]), ("m", 1)], True))])
    g = tree_of([("a", [ctx.int("a", 0, 9), "x"]), ("h", h), ("v", st)])
    e = tree_of([("v", tree_of([("a", None)], True))], True)
    tree = tree_of([("v", ctx.int("v", -9, 9)), ("d", ctx.array("d", "<u2", (2,))), ("g", g), ("e", e)])

    def write(t, at):
        for k, x in zip(t.names, t.values):
            if isinstance(x, Tree) and not x.is_dict:
                write(x, at + k + "/")
            else:
                f.write(x.value() if isinstance(x, Tree) else x, at + k)
    write(tree, "/")
    return fn, f, tree


def find(tree, names):
    """What is at a path: (whether it is there, what)."""
    t = tree
    for n in names:
        i = t.at(n) if isinstance(t, Tree) else None
        if i is None:
            return False, None
        t = t.values[i]
    return True, t


def spelled(ctx, names, spell):
    if spell == "rel":
        return "/".join(names)
    if spell == "abs":
        return "/" + "/".join(names)
    if spell == "bytes":
        return ("/" + "/".join(names)).encode("utf-8")
    if spell == "tuple":
        return tuple(names)
    if spell == "pure":
        import pathlib
        return pathlib.PurePosixPath("/" + "/".join(names))
    if spell == "dots":
        return "./" + "/./".join(names) + "/."
    if spell == "slashes":
        return "/" + "//".join(names) + "/"
    if spell == "up":
        return "/no/../" + "/d/../".join(names)
    return (names[0].encode("utf-8"),) + tuple(names[1:])


def fields(x):
    """The structure in the file is a Group of its fields when it is one for MATLAB."""
    return isinstance(x, np.ndarray) and x.dtype.names is not None


def verify(ctx, f, tree, at=()):
    """All that is in the tree is in the file."""
    for k, x in zip(tree.names, tree.values):
        p = at + (k,)
        if isinstance(x, Tree):
            ctx.check("a Group is there", "/".join(p) in f)
            verify(ctx, f, x, p)
        if not group(x) and not mixed(x):
            ctx.check("what is elsewhere", ctx.same(f.read("/" + "/".join(p)), of(x), False))


def group(x):
    return isinstance(x, Tree) and not x.is_dict


def mixed(x):
    """A dict with Groups in it."""
    return isinstance(x, Tree) and any(group(y) or mixed(y) for y in x.values)


def of(x):
    return x.value() if isinstance(x, Tree) else x


def h_path(ctx, opts, op, n, spell):
    o = SETS[opts]
    fn, f, tree = made(ctx, o)
    names = []
    for i in range(n):
        c = ctx.str("c%d" % i, 1, 1, 0xd7ff) if i < 3 else ctx.choose("c%d" % i, ["b", "k", "z"])
        if i < 3:
            ctx.assume(ctx.And(*[ctx.Not(c == x) for x in "./\\\x00"]))
            if spell == "pure":
                c = ctx.choose("p%d" % i, list(["vdgeahbkmz", "gvehbk", "bkaz"][i]))
            if o.get("group_for_references") == "/g/r" and i == 1:
                ctx.assume(ctx.Not(c == "r"))
        names.append(c)
    p = spelled(ctx, names, spell)
    # The members of a structure that is a Group are its own.
    for i in range(1, n):
        if find(tree, names[:i])[0] and fields(find(tree, names[:i])[1]):
            ctx.assume(False)
    there, x = find(tree, names)
    value = there and not group(x)
    was = of(x) if value else None
    r, e = ctx.attempt(f.__contains__, p)
    ctx.check("membership", e is None and r is there)
    new = [ctx.int("w", 0, 9), "n"]
    if opts == "refs" and n == 1 and op not in ("look", "get", "setdefault"):
        # The references are in it.
        ctx.assume(ctx.Not(names[0] == "g"))
    if op == "look":
        for g in (f.read, f.__getitem__, lambda q: f.reads(["v", q])[1], lambda q: f.get(q)):
            r, e = ctx.attempt(g, p)
            if there:
                ctx.check("it is read", e is None)
                if value:
                    ctx.check("the value", ctx.same(r, was, False))
            elif g is f.read or g is f.__getitem__ or e is not None:
                ctx.check("KeyError", isinstance(e, KeyError))
            else:
                ctx.check("nothing", r is None)
    elif op == "get":
        r, e = ctx.attempt(f.get, p, 77)
        ctx.check("no error", e is None)
        ctx.check("the value or the default", ctx.same(r, was, False) if value else there or r == 77)
    elif op in ("pop", "popdefault", "del"):
        r, e = ctx.attempt(*{"pop": (f.pop, p), "popdefault": (f.pop, p, 77), "del": (f.__delitem__, p)}[op])
        if there:
            ctx.check("no error", e is None)
            if value and op != "del":
                ctx.check("the value", ctx.same(r, was, False))
            remove(tree, names)
            ctx.check("it is gone", p not in f)
        elif op == "popdefault":
            ctx.check("the default", e is None and r == 77)
        else:
            ctx.check("KeyError", isinstance(e, KeyError))
    else:
        # What is above has to be a Group, and may be made.
        able = True
        for i in range(1, n):
            ok, y = find(tree, names[:i])
            able = able and (not ok or isinstance(y, Tree))
        if op == "setdefault":
            r, e = ctx.attempt(f.setdefault, p, new)
        elif op == "set":
            r, e = ctx.attempt(f.__setitem__, p, new)
        else:
            r, e = ctx.attempt(f.write, new, p)
        ctx.check("it is written or it cannot be", (e is None) == able)
        if able and op == "setdefault" and there:
            if value:
                ctx.check("what was there", ctx.same(r, was, False))
        elif able:
            ctx.check("what is there now", ctx.same(f.read("/" + "/".join(names)), new, False))
            ctx.check("it is there", p in f and "/".join(names) in f)
            put(tree, names, new)
    if op in ("look", "get"):
        return f.close()
    verify(ctx, f, tree)
    f.close()
    f = ctx.call(ctx.hs.File, fn, **o)
    ctx.check("membership in a new File", (p in f) is find(tree, names)[0])
    verify(ctx, f, tree)
    f.close()


def h_history(ctx, opts, steps):
    """What is above comes and goes."""
    o = SETS[opts]
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    tree = tree_of([("z", [ctx.int("z", 0, 9)])])
    f.write(of(tree.values[0]), "/z")
    paths = [["k"], ["k", "a"], ["k", "a", "b"]]
    for s in range(steps):
        names = ctx.choose("path%d" % s, paths)
        op = ctx.choose("op%d" % s, ["del", "list", "dict"] if s else ["list"])
        p = "/" + "/".join(names)
        there, x = find(tree, names)
        if op == "del":
            r, e = ctx.attempt(f.__delitem__, p)
            ctx.check("no error, or KeyError", e is None if there else isinstance(e, KeyError))
            if there:
                remove(tree, names)
        else:
            new = [ctx.int("v%d" % s, 0, 9)] if op == "list" else tree_of([("a", ctx.int("v%d" % s, 0, 9))], True)
            able = True
            for i in range(1, len(names)):
                ok, y = find(tree, names[:i])
                able = able and (not ok or isinstance(y, Tree))
            # What the members of a Group become when a dict is written over it depends on the options.
            ctx.assume(not (op == "dict" and isinstance(x, Tree)))
            r, e = ctx.attempt(f.__setitem__, p, of(new))
            ctx.check("it is written or it cannot be", (e is None) == able)
            if able:
                put(tree, names, new)
        for q in paths:
            there, x = find(tree, q)
            ctx.check("membership", ("/" + "/".join(q) in f) is there)
            if there and not group(x) and not mixed(x):
                ctx.check("the value", ctx.same(f["/" + "/".join(q)], of(x), False))
    verify(ctx, f, tree)
    f.close()
    f = ctx.call(ctx.hs.File, fn, **o)
    verify(ctx, f, tree)
    ctx.check("as many variables", len(f) == len(tree.names) + (opts == "refs" and tree.at("g") is None))
    f.close()


def h_root(ctx, opts):
    """The root itself can be read but not be deleted."""
    o = SETS[opts]
    fn, f, tree = made(ctx, o)
    p = ctx.choose("p", ["/", "", ".", b"/", "//", "/g/..", (), "no/..", "/."])
    op = ctx.choose("op", ["look", "pop", "popdefault", "del", "setdefault"])
    r, e = ctx.attempt(f.__contains__, p)
    ctx.check("membership", e is None and r is True)
    if op in ("look", "setdefault", "pop"):
        g = {"look": lambda q: f[q] if p else f.read(q), "setdefault": lambda q: f.setdefault(q, 1), "pop": lambda q: f.get(q, 7)}[op]
        r, e = ctx.attempt(g, p)
        ctx.check("it is read", e is None and isinstance(r, np.ndarray))
        ctx.check("all that is in it", sorted(r.dtype.names) == sorted(tree.names))
        ctx.check("the value", ctx.same(r["v"].flat[0], tree.values[0], False))
    if op in ("pop", "del"):
        r, e = ctx.attempt(f.pop if op == "pop" else f.__delitem__, p)
        ctx.check("it cannot be deleted", isinstance(e, KeyError))
    verify(ctx, f, tree)
    f.close()


def remove(tree, names):
    t = tree
    for n in names[:-1]:
        t = t.values[t.at(n)]
    i = t.at(names[-1])
    del t.names[i], t.values[i]


def put(tree, names, v):
    t = tree
    for n in names[:-1]:
        i = t.at(n)
        if i is None:
            # What is made in a dict is a Group all the same, but what it is read as is what the dict has.
            t.put(n, Tree())
            i = t.at(n)
        t = t.values[i]
    t.put(names[-1], v)
