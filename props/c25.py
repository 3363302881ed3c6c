"""C25: closed and read-only files refuse operations and are never changed."""
BOUNDS = ("every history of 2 (quick) / 3 (thorough) operations out of 27 (all methods of File and of the mapping interface, and "
          "close), on a File that is read-only, closed, or read-only and closed, or left by a with statement with or without an exception; "
          "paths of 0..2 (quick) / 0..4 (thorough) arbitrary characters as str, and bytes, lists and names that are there; values of "
          "arbitrary contents; matlab_compatible on and off; others reading the file at the same time")
OUTSIDE = "the file being changed by others, files that cannot be opened"
TIME = {"quick": 50, "thorough": 400}

CHANGING = ["write", "writes", "set", "del", "pop", "popitem", "clear", "update", "setdefault"]
READING = ["read", "reads", "get", "getitem", "len", "in", "iter", "popdefault", "eq", "items", "values", "keys", "bool",
           "flush"]
NOOPS = ["closed", "close", "writes0", "reads0", "updated0"]
PATHS = ["a", "g/b", b"a", ["g", "b"], "nothing", "sym"]


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for op in CHANGING + READING + NOOPS:
            for n in range(3 if tier == "quick" else 5):
                out.append(("h_readonly", {"mode": mode, "op": op, "n": n}))
                out.append(("h_closed", {"mode": mode, "op": op, "n": n}))
        for op in ("close", "pop", "read", "clear", "flush", "set"):
            out.append(("h_history", {"mode": mode, "op": op, "n": 1 if tier == "quick" else 2}))
        out.append(("h_with", {"mode": mode}))
        out.append(("h_shared", {"mode": mode}))
        out.append(("h_arguments", {"mode": mode}))
    return out


def contents(h5py, o):
    """What is in a file."""
    out = [sorted((k, repr(v)) for k, v in o.attrs.items())]
    if isinstance(o, h5py.Group):
        for k in sorted(o):
            out.append((k, contents(h5py, o[k])))
    else:
        out.append((o.dtype.str, o.shape))
    return out


def bytes_of(fn):
    with open(fn, "rb") as f:
        return f.read()


def made(ctx, o):
    """A file with two variables, and their values."""
    fn = ctx.path()
    v = ctx.int("v", -9, 9)
    w = ctx.array("w", "<u2", (1, 2))
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    f.write(v, "a")
    f.write(w, "g/b")
    f.close()
    return fn, v, w


def h_arguments(ctx, mode):
    """A File that is not writable changes nothing whatever else it is opened with."""
    o = {"matlab_compatible": mode == "matlab"}
    fn, v, w = made(ctx, dict(o, matlab_compatible=ctx.choose("header", [False, True])))
    before = bytes_of(fn)
    kw = {"truncate_existing": ctx.bool("truncate"), "truncate_invalid_matlab": ctx.bool("invalid")}
    if ctx.choose("given", [False, True]):
        kw["writable"] = False
    if ctx.choose("options", [False, True]):
        kw["options"] = ctx.call(ctx.hs.Options, **o)
    else:
        kw.update(o)
    f = ctx.call(ctx.hs.File, fn, **kw)
    ctx.check("is open", f.closed is False)
    for g in (lambda: f.write(1, "b"), lambda: f.writes({"a": 1}), lambda: f.__setitem__("b", 1), lambda: f.__delitem__("a"), f.clear):
        r, e = ctx.attempt(g)
        ctx.check("is refused", isinstance(e, OSError))
    f.close()
    ctx.check("the file's bytes are as they were", bytes_of(fn) == before)
    for how in ("read", "reads", "loadmat"):
        # which may be given the same
        if how == "loadmat":
            r, e = ctx.attempt(ctx.hs.loadmat, fn, appendmat=False)
        else:
            r, e = ctx.attempt(getattr(ctx.hs, how), "a" if how == "read" else ["a"], filename=fn, **kw)
        ctx.check("the file's bytes are as they were", bytes_of(fn) == before)
    check_contents(ctx, fn, o, v, w)


def h_shared(ctx, mode):
    """Any number may read a file at once."""
    import h5py

    o = {"matlab_compatible": mode == "matlab"}
    fn, v, w = made(ctx, o)
    before = bytes_of(fn)
    how = ctx.choose("others", ["h5py", "File", "both"])
    others = []
    if how != "File":
        others.append(h5py.File(fn, "r"))
    if how != "h5py":
        others.append(ctx.call(ctx.hs.File, fn, **o))
    f, e = ctx.attempt(ctx.hs.File, fn, **(dict(o, writable=False) if ctx.choose("given", [False, True]) else o))
    ctx.check("can be opened", e is None)
    ctx.check("the value", ctx.same(f.read("a"), v, False))
    for x in others:
        x.close()
    ctx.check("the other value", ctx.same(f.read("g/b"), w, False))
    f.close()
    ctx.check("the file is as it was", bytes_of(fn) == before)


def check_contents(ctx, fn, o, v, w):
    f = ctx.call(ctx.hs.File, fn, **o)
    ctx.check("as many variables", len(f) == 2)
    ctx.check("the variables", sorted(f) == ["a", "g"])
    ctx.check("the value", ctx.same(f.read("a"), v, False))
    ctx.check("the other value", ctx.same(f.read("g/b"), w, False))
    f.close()


def operate(ctx, f, op, p, v):
    if op == "write":
        return ctx.attempt(f.write, v, p)
    if isinstance(p, list):
        p = tuple(p)
    if op == "writes":
        return ctx.attempt(f.writes, {p: v})
    if op == "writes0":
        return ctx.attempt(f.writes, {})
    if op == "reads0":
        return ctx.attempt(f.reads, [])
    if op == "updated0":
        return ctx.attempt(f.update, {})
    if op == "set":
        return ctx.attempt(f.__setitem__, p, v)
    if op == "del":
        return ctx.attempt(f.__delitem__, p)
    if op == "pop":
        return ctx.attempt(f.pop, p)
    if op == "popdefault":
        return ctx.attempt(f.pop, "missing", 5)
    if op == "popitem":
        return ctx.attempt(f.popitem)
    if op == "clear":
        return ctx.attempt(f.clear)
    if op == "update":
        return ctx.attempt(f.update, {p: v})
    if op == "setdefault":
        return ctx.attempt(f.setdefault, p, v)
    if op == "read":
        return ctx.attempt(f.read, p)
    if op == "reads":
        return ctx.attempt(f.reads, [p, "a"])
    if op == "get":
        return ctx.attempt(f.get, p)
    if op == "getitem":
        return ctx.attempt(f.__getitem__, p)
    if op == "len":
        return ctx.attempt(f.__len__)
    if op == "in":
        return ctx.attempt(f.__contains__, p)
    if op == "iter":
        return ctx.attempt(lambda: list(f))
    if op == "eq":
        return ctx.attempt(lambda: f == {"a": 1})
    if op == "items":
        return ctx.attempt(lambda: list(f.items()))
    if op == "values":
        return ctx.attempt(lambda: list(f.values()))
    if op == "keys":
        return ctx.attempt(lambda: list(f.keys()))
    if op == "bool":
        return ctx.attempt(lambda: bool(f))
    if op == "flush":
        return ctx.attempt(f.flush)
    if op == "close":
        return ctx.attempt(f.close)
    return ctx.attempt(lambda: f.closed)


def the_path(ctx, op, n, name="p"):
    if op in ("len", "iter", "eq", "items", "values", "keys", "bool", "flush", "close", "closed", "popitem", "clear",
              "popdefault", "writes0", "reads0", "updated0"):
        return "a"
    p = ctx.choose(name + ".form", PATHS)
    return ctx.str(name, n) if p == "sym" else p


def valid(ctx, p):
    """Whether the path is one that could be written and read."""
    r, e = ctx.attempt(ctx.pathesc.process_path, p)
    return e is None


def judge_closed(ctx, op, p, r, e):
    if op == "closed":
        ctx.check("is closed", e is None and r is True)
    elif op in ("close", "updated0"):
        ctx.check("nothing to do", e is None)
    elif op == "in" and e is None:
        ctx.check("only an invalid path is answered", r is False)
        ctx.check("only an invalid path is answered", not valid(ctx, p))
    else:
        ctx.check("refused", e is not None)
        if not isinstance(e, OSError):
            ctx.check("the path is invalid", isinstance(e, (TypeError, ValueError)) and not valid(ctx, p))


def names_of(ctx, p):
    """The names in a path; none of them is the root."""
    g, t = ctx.pathesc.process_path(p)
    return [x for x in (g + "/" + t).split("/") if len(x) != 0 and x != "."]


def judge_readonly(ctx, op, p, r, e, v, w):
    there = isinstance(p, bytes) or isinstance(p, list) or (p == "a") or (p == "g/b")
    if op in ("write", "writes", "writes0", "set", "del", "popitem", "clear", "update"):
        ctx.check("refused with OSError", isinstance(e, OSError))
    elif op == "pop" or op == "setdefault":
        if there:
            ctx.check("refused with OSError, or the value", isinstance(e, OSError) if op == "pop" else e is None)
        else:
            ctx.check("refused", e is not None or len(names_of(ctx, p)) == 0 or names_of(ctx, p)[-1] == "g" or ".." in names_of(ctx, p)
                      or any(x == y for x in names_of(ctx, p) for y in ("a", "b")))
            if isinstance(p, str) and p == "nothing":
                ctx.check("the documented error", isinstance(e, KeyError if op == "pop" else OSError))
    elif op == "popdefault":
        ctx.check("default", e is None and r == 5)
    elif op in ("len", "iter", "eq", "items", "values", "keys", "bool", "flush", "reads0", "updated0", "close", "closed"):
        ctx.check("no error", e is None)
        if op == "closed":
            ctx.check("is open", r is False)
        elif op == "len":
            ctx.check("is the number of variables", r == 2)
    elif there:
        ctx.check("no error", e is None)
        val = w if isinstance(p, list) or (isinstance(p, str) and p != "a") else v
        if op == "in":
            ctx.check("is there", r is True)
        else:
            ctx.check("is the value", ctx.same(r[0] if op == "reads" else r, val, False))
    if e is not None:
        ctx.check("a documented error", isinstance(e, (OSError, KeyError, ValueError, TypeError)))


def opened(ctx, fn, o, state):
    """A File in a state."""
    if state == "readonly":
        return ctx.call(ctx.hs.File, fn, **o)
    f = ctx.call(ctx.hs.File, fn, writable=state.startswith("writable"), **o)
    if state.endswith("with"):
        with f:
            pass
    else:
        f.close()
    return f


def h_readonly(ctx, mode, op, n):
    o = {"matlab_compatible": mode == "matlab"}
    fn, v, w = made(ctx, o)
    p = the_path(ctx, op, n)
    before = bytes_of(fn)
    f = opened(ctx, fn, o, "readonly")
    r, e = operate(ctx, f, op, p, ctx.int("new", -9, 9))
    judge_readonly(ctx, op, p, r, e, v, w)
    if op != "close":
        ctx.check("still open", f.closed is False)
    f.close()
    ctx.check("the file's bytes are as they were", bytes_of(fn) == before)
    check_contents(ctx, fn, o, v, w)


def h_closed(ctx, mode, op, n):
    o = {"matlab_compatible": mode == "matlab"}
    fn, v, w = made(ctx, o)
    p = the_path(ctx, op, n)
    f = opened(ctx, fn, o, ctx.choose("state", ["writable", "readonly closed", "writable with"]))
    before = bytes_of(fn)
    r, e = operate(ctx, f, op, p, ctx.int("new", -9, 9))
    judge_closed(ctx, op, p, r, e)
    ctx.check("still closed", f.closed is True)
    f.close()
    f.close()
    ctx.check("still closed", f.closed is True)
    ctx.check("the file's bytes are as they were", bytes_of(fn) == before)
    check_contents(ctx, fn, o, v, w)


def h_history(ctx, mode, op, n):
    """Histories of operations and closes."""
    o = {"matlab_compatible": mode == "matlab"}
    fn, v, w = made(ctx, o)
    before = bytes_of(fn)
    f = opened(ctx, fn, o, "readonly")
    closed = False
    for i in range(n + 1):
        if i:
            op = ctx.choose("op%d" % i, CHANGING + READING + NOOPS)
        p = "a" if ctx.choose("p%d" % i, [0, 1]) else "nothing"
        r, e = operate(ctx, f, op, p, ctx.int("new%d" % i, -9, 9))
        if closed:
            judge_closed(ctx, op, p, r, e)
        else:
            judge_readonly(ctx, op, p, r, e, v, w)
        closed = closed or op == "close"
        ctx.check("closed after close", f.closed is closed)
    f.close()
    ctx.check("the file's bytes are as they were", bytes_of(fn) == before)
    check_contents(ctx, fn, o, v, w)


def h_with(ctx, mode):
    """Everything written in a with statement is there afterwards, with an exception too."""
    o = {"matlab_compatible": mode == "matlab"}
    fn = ctx.path()
    v = ctx.int("v", -9, 9)
    w = ctx.array("w", "<u2", (1, 2))
    how = ctx.choose("how", ["end", "exception", "bad write", "return"])

    class Stop(Exception):
        pass

    try:
        with ctx.call(ctx.hs.File, fn, writable=True, **o) as f:
            ctx.check("is open", f.closed is False)
            f.write(v, "a")
            f.write(w, "g/b")
            if how == "exception":
                raise Stop
            if how == "bad write":
                f.write(1, "\0")
        ctx.check("no error", how in ("end", "return"))
    except Stop:
        ctx.check("the exception passes", how == "exception")
    except ValueError:
        ctx.check("the error passes", how == "bad write")
    ctx.check("is closed", f.closed is True)
    r, e = ctx.attempt(f.write, v, "a")
    ctx.check("refused with OSError", isinstance(e, OSError))
    r, e = ctx.attempt(f.read, "a")
    ctx.check("refused with OSError", isinstance(e, OSError))
    check_contents(ctx, fn, o, v, w)
