"""C24: a File behaves as the mapping of its top level variables."""
BOUNDS = ("every history of 2 (quick) / 3 (thorough) operations (item assignment, deletion, pop with and without default, popitem, setdefault, update, "
          "clear, write below, close and reopen), after two initial variables, on four names (one of one arbitrary character, one "
          "that is escaped, one in place of another's Group), with numbers, lists (kept in the references group) and dicts of "
          "arbitrary contents (a name of an arbitrary character: one operation), for four values of group_for_references (quick: two of them with one operation); one operation on 12 and 40 variables; a new file that 3 (4) operations (a number, a list, a dict, deletion, reopening) are done on; after every operation the length, iteration, membership, "
          "item access, get, keys, items, values and equality are compared with a dict")
OUTSIDE = "longer histories, names of more arbitrary characters (C01, C03), files changed by others while open; names in the references group (C04)"
TIME = {"quick": 60, "thorough": 600}
SETS = {
    "matlab": {"matlab_compatible": True},
    "plain": {"matlab_compatible": False},
    "refs": {"matlab_compatible": False, "group_for_references": "/g/refs"},
    "odd": {"matlab_compatible": False, "group_for_references": "/r s"},
}
OPS = ["set", "delete", "pop", "popdefault", "popitem", "setdefault", "update", "clear", "below", "reopen", "writes", "missing"]
VALUED = {"set", "setdefault", "update", "below", "writes"}
NAMED = {"set", "delete", "pop", "popdefault", "setdefault", "update", "writes"}
NAMES = ["a", "sym", "odd", "g"]


def jobs(tier):
    out = []
    for s in SETS:
        for a in OPS:
            for n in range(0 if tier == "quick" and s in ("plain", "odd") else len(NAMES) if a in NAMED else 1):
                out.append(("h_history", {"opts": s, "first": a, "name": n, "n": 1 if tier == "quick" else 2, "sym": False}))
            out.append(("h_history", {"opts": s, "first": a, "name": 1, "n": 0, "sym": True}))
        out.append(("h_equal", {"opts": s}))
        out.append(("h_fresh", {"opts": s}))
        out.append(("h_grow", {"opts": s, "n": 3 if tier == "quick" else 4}))
        for n in (12, 40):
            out.append(("h_many", {"opts": s, "n": n}))
    return out


def h_many(ctx, opts, n):
    """Many variables, of which one is given to each of the methods."""
    f = ctx.call(ctx.hs.File, ctx.path(), writable=True, **SETS[opts])
    refs = SETS[opts].get("group_for_references", "/#refs#")
    names = ["v%d" % (i * 7 % n) if i % 3 else "w %d" % i for i in range(n)]
    items = {k: value(ctx, "i%d" % i, ["int", "list", "dict"][i % 3]) if i in (0, n // 2, n - 1) else i for i, k in enumerate(names)}
    if ctx.choose("at once", [True, False]):
        f.update(items)
    else:
        for k, v in items.items():
            f[k] = v
    at = names[ctx.choose("at", [0, n // 2, n - 1])]
    op = ctx.choose("op", ["delete", "pop", "set", "popitem", "clear"])
    if op == "delete":
        del f[at]
        del items[at]
    elif op == "pop":
        ctx.check("popped", ctx.same(f.pop(at), items.pop(at), False))
    elif op == "set":
        f[at] = items[at] = ctx.int("new", 0, 9)
    elif op == "popitem":
        k, v = f.popitem()
        ctx.check("popped", ctx.same(v, items.pop(k), False))
    else:
        f.clear()
        items = {}
    ctx.check("length", len(f) == len(items))
    ctx.check("the names", sorted(f) == sorted(items) and sorted(f.keys()) == sorted(items))
    ctx.check("the values", len(f.values()) == len(items))
    for k, v in f.items():
        ctx.check("the value", ctx.same(v, items[k], False))
    for k in names:
        ctx.check("member", (k in f) == (k in items))
        ctx.check("get", ctx.same(f.get(k, "no"), items.get(k, "no"), False))
    f.close()


def the_names(ctx, arbitrary):
    if not arbitrary:
        return ["a", "n\u00e9", ("x/.",), "g"]
    sym = ctx.str("n", 1, 1, 0xd7ff)
    ctx.assume(ctx.And(*[ctx.Not(sym == c) for c in "ag./\\"]))
    return ["a", sym, ("x/.",), "g"]


def escaped(ctx, name):
    return name if not isinstance(name, tuple) else ctx.call(ctx.hs.pathesc.escape_path, name[0])


def value(ctx, name, kind):
    if kind == "int":
        return ctx.int(name, -9, 99)
    if kind == "list":
        return [ctx.int(name, 0, 9), None]
    return {"k": ctx.int(name, 0, 9)}


def verify(ctx, f, items, refs, more=False):
    ctx.check("length", len(f) == len(items))
    names = list(f)
    ctx.check("as many names", len(names) == len(items))
    ctx.check("keys", list(f.keys()) == names)
    for k, v in items:
        ctx.check("is iterated over", any(n == k for n in names))
        ctx.check("is a member", k in f)
        if v is not Ellipsis:
            ctx.check("has the value", ctx.same(f[k], v, False))
            ctx.check("get has the value", ctx.same(f.get(k), v, False))
    ctx.check("the references group is not a member", refs not in f and refs.lstrip("/") not in names)
    ctx.check("what is not there", "nothing" not in f and f.get("nothing") is None)
    if not more:
        return
    ctx.check("what is below what is not there", "nothing/a" not in f and ("nothing", "a") not in f)
    ctx.check("the root is a Group", "/" in f and "." in f)
    at = find(items, "a")
    if at is not None and not isinstance(items[at][1], dict):
        ctx.check("nothing is below a Dataset", "a/0" not in f and "a/k" not in f)
    at = find(items, "g")
    if at is not None and isinstance(items[at][1], dict):
        ctx.check("what is below a Group", "g/k" in f and "g/z" not in f and "/g//k/" in f)


def step(ctx, st, op, name, i):
    f, fn, o, items = st
    k = escaped(ctx, name)
    at = find(items, k)
    v = None
    if op in VALUED:
        v = value(ctx, "v%d" % i, ctx.choose("kind%d" % i, ["int", "list", "dict"] if i == 0 or ctx.tier != "quick" else ["list", "dict"]))
    if blocked(o, k) and op in ("set", "delete", "pop", "setdefault", "update", "popitem", "clear", "writes"):
        # the references group is inside of it
        return st
    if op == "set":
        f[name] = v
        put(items, k, v)
    elif op == "writes":
        f.writes({name: v, "a": 5})
        put(items, k, v)
        put(items, "a", 5)
    elif op == "delete":
        r, e = ctx.attempt(f.__delitem__, name)
        ctx.check("only what is there can be deleted", (e is None) == (at is not None))
        if e is not None:
            ctx.check("KeyError", isinstance(e, KeyError))
        else:
            del items[at]
    elif op == "pop":
        if at is not None and items[at][1] is not Ellipsis:
            ctx.check("the value", ctx.same(f.pop(name), items[at][1], False))
            del items[at]
        elif at is None:
            r, e = ctx.attempt(f.pop, name)
            ctx.check("KeyError", isinstance(e, KeyError))
    elif op == "popdefault":
        if at is None:
            ctx.check("the default", f.pop(name, 77) == 77)
    elif op == "popitem":
        if any(x is Ellipsis for _, x in items) or o.get("group_for_references", "/#").count("/") > 1:
            return st
        if items:
            n, x = f.popitem()
            j = find(items, n)
            ctx.check("one that was there", j is not None)
            ctx.check("its value", ctx.same(x, items[j][1], False))
            del items[j]
        else:
            r, e = ctx.attempt(f.popitem)
            ctx.check("KeyError", isinstance(e, KeyError))
    elif op == "setdefault":
        r = f.setdefault(name, v)
        if at is None:
            ctx.check("the default", ctx.same(r, v, False))
            put(items, k, v)
        elif items[at][1] is not Ellipsis:
            ctx.check("the value", ctx.same(r, items[at][1], False))
    elif op == "update":
        f.update({name: v, "b": 3})
        put(items, k, v)
        put(items, "b", 3)
    elif op == "clear":
        if o.get("group_for_references", "/#").count("/") > 1:
            return st
        if not any(x is Ellipsis for _, x in items):
            f.clear()
            items = []
    elif op == "below":
        j = find(items, "g")
        if j is not None and not isinstance(items[j][1], dict) and items[j][1] is not Ellipsis:
            return st
        f.write(v, "g/below")
        if j is None:
            items.append(("g", Ellipsis))
        else:
            items[j] = ("g", Ellipsis)
    elif op == "missing":
        for g in (f.read, f.__getitem__, f.__delitem__):
            r, e = ctx.attempt(g, "nothing")
            ctx.check("KeyError", isinstance(e, KeyError))
    else:
        f.close()
        f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    verify(ctx, f, items, refs(o))
    return f, fn, o, items


def refs(o):
    return o.get("group_for_references", "/#refs#")


def blocked(o, k):
    return bool(k == "g") and refs(o).startswith("/g/")


def find(items, k):
    for i, (n, _) in enumerate(items):
        if n == k:
            return i
    return None


def put(items, k, v):
    i = find(items, k)
    if i is None:
        items.append((k, v))
    elif isinstance(v, dict) and (isinstance(items[i][1], dict) or items[i][1] is Ellipsis):
        # may be merged when delete_unused_variables is off
        items[i] = (k, v if isinstance(items[i][1], dict) else Ellipsis)
    else:
        items[i] = (k, v)


def h_history(ctx, opts, first, name, n, sym):
    o = SETS[opts]
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    names = the_names(ctx, sym)
    items = []
    f["a"] = value(ctx, "s0", "list")
    items.append(("a", f["a"]))
    if refs(o).startswith("/g/"):
        items.append(("g", Ellipsis))
    f[names[1]] = value(ctx, "s1", "int")
    items.append((names[1], f[names[1]]))
    verify(ctx, f, items, refs(o))
    if n == 0:
        verify(ctx, f, items, refs(o), True)
    st = step(ctx, (f, fn, o, items), first, names[name], 0)
    for i in range(n):
        op = ctx.choose("op%d" % i, OPS)
        st = step(ctx, st, op, names[ctx.choose("name%d" % i, [0, 1, 2, 3]) if op in NAMED else 0], i + 1)
    st[0].close()
    f = ctx.call(ctx.hs.File, fn, **o)
    verify(ctx, f, st[3], refs(o), True)
    f.close()


def h_equal(ctx, opts):
    """Equality with mappings and other Files."""
    o = SETS[opts]
    f = ctx.call(ctx.hs.File, ctx.path(), writable=True, **o)
    g = ctx.call(ctx.hs.File, ctx.path(), writable=True, **o)
    i, j = ctx.int("i", 0, 9), ctx.int("j", 0, 9)
    f["a"], f["b"] = i, {"l": 2}
    g["b"], g["a"] = {"l": 2}, j
    ctx.check("as the dict", f == {"a": i, "b": {"l": 2}})
    ctx.check("not as another", not (f == {"a": i}) and not (f == {"a": i, "b": 1}) and not (f == {"a": i, "b": {"l": 2}, "c": 1}))
    ctx.check("as the File of the same", (f == g) == (i == j))
    items = list(f.items())
    ctx.check("items", len(items) == 2 and {n for n, _ in items} == {"a", "b"})
    for n, v in items:
        ctx.check("items have the values", ctx.same(v, i if n == "a" else {"l": 2}, False))
    vals = list(f.values())
    ctx.check("values", len(vals) == 2)
    f.close()
    g.close()


def h_grow(ctx, opts, n):
    """A new file to which one thing after the other is added, or from which one is taken away, and that is looked at in between."""
    o = SETS[opts]
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    items = []
    for i in range(n):
        op = ctx.choose("op%d" % i, ["int", "list", "dict", "delete", "reopen"][: 3 if i == 0 else 5])
        if op == "delete":
            if items:
                k, _ = items.pop(-1)
                del f[k]
        elif op == "reopen":
            f.close()
            f = ctx.call(ctx.hs.File, fn, writable=True, **o)
        else:
            v = f[NAMES[i]] = value(ctx, "v%d" % i, op)
            if refs(o).startswith("/g/") and NAMES[i] == "g":
                v = Ellipsis
            items.append((NAMES[i], v))
            if op == "list" and refs(o).startswith("/g/") and find(items, "g") is None:
                items.insert(0, ("g", Ellipsis))
        if refs(o).startswith("/g/"):
            # whether the Group that has the references is there is left to the other histories
            got = [k for k in f if k != "g"]
            ctx.check("the names", sorted(got) == sorted(k for k, _ in items if k != "g"))
            ctx.check("length", len(f) == len(list(f)))
            items = [x for x in items if x[0] != "g"]
        else:
            verify(ctx, f, items, refs(o))
    f.close()


def h_fresh(ctx, opts):
    """A new file is empty; one that only has the references group is too."""
    o = SETS[opts]
    f = ctx.call(ctx.hs.File, ctx.path(), writable=True, **o)
    ctx.check("empty", len(f) == 0 and list(f) == [] and f == {})
    if opts != "refs":
        f["l"] = [ctx.int("i", 0, 9)]
        ctx.check("one", len(f) == 1 and list(f) == ["l"])
        if ctx.choose("how", [0, 1]):
            del f["l"]
        else:
            f.clear()
        ctx.check("empty", len(f) == 0 and list(f) == [] and f == {} and not f.keys())
        r, e = ctx.attempt(f.popitem)
        ctx.check("KeyError", isinstance(e, KeyError))
    f.close()
