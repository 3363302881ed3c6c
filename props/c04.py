"""C04: the reserved references group is never reachable through paths, nor is more."""
import pathlib

BOUNDS = ("eight values of group_for_references (at the top, nested, with characters that have escapes and that need normalising) and, for every "
          "operation that takes a path: unseparated paths of up to 4 (quick) / 6 (thorough) arbitrary code points; every "
          "spelling of the group with any one or two characters replaced by, or inserted with, arbitrary ones; separated paths "
          "of up to 3 parts of arbitrary characters; as str, bytes and PurePosixPath; and mappings and structures with a member "
          "of an arbitrary name written to the Group above it")
OUTSIDE = "longer paths; deleting or replacing a Group that has the references group in it (refused or done, but other paths are not the subject)"
TIME = {"quick": 50, "thorough": 600}
REFS = ["/#refs#", "/r", "/a/b", "/a/b/c", "//r/", "/a/./b", "/.../x", "/\\x2e/q"]
OPS = ["read", "write", "contains", "delete", "getitem", "setitem", "reads", "writes"]


def jobs(tier):
    out = []
    for r in REFS:
        for n in range(1, 5 if tier == "quick" else 7):
            out.append(("h_path", {"refs": r, "n": n, "op": "contains"}))
            if n < 4 or tier != "quick":
                for op in ("read", "write", "delete"):
                    out.append(("h_path", {"refs": r, "n": n, "op": op}))
        m = len(normal(r))
        for op in OPS if tier != "quick" else ("read", "write", "contains", "delete"):
            for at in range(0, m + 1):
                for k in (1, 2):
                    for cut in (0, k) if tier != "quick" or k == 1 else (0,):
                        out.append(("h_near", {"refs": r, "op": op, "at": at, "k": k, "cut": cut}))
        for lens in ([1], [2], [1, 1], [1, 2], [1, 1, 1], [2, 1], [0, 1, 1]):
            for op in ("contains", "read", "write", "delete"):
                out.append(("h_parts", {"refs": r, "lens": lens, "op": op}))
        for form in ("bytes", "pure"):
            for op in OPS:
                out.append(("h_form", {"refs": r, "form": form, "op": op}))
        out.append(("h_member", {"refs": r}))
        out.append(("h_listed", {"refs": r}))
    return out


def normal(refs):
    return "/" + "/".join(c for c in refs.split("/") if c not in ("", "."))


def components(p):
    """What a POSIX path leads through from the root."""
    out = []
    for c in p.split("/"):
        if len(c) == 0 or c == ".":
            continue
        if c == "..":
            if len(out) and not out[-1] == "..":
                out.pop()
            elif len(p) == 0 or not p[0] == "/":
                out.append(c)
            continue
        out.append(c)
    return out


def inside(comps, refs):
    want = [c for c in refs.split("/") if c]
    if len(comps) < len(want):
        return False
    for a, b in zip(comps, want):
        if not a == b:
            return False
    return True


def open_(ctx, refs, fn=None):
    fn = fn or ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, matlab_compatible=False, group_for_references=refs)
    return f


def operate(f, op, path):
    if op == "read":
        return f.read(path)
    if op == "getitem":
        return f[path]
    if op == "reads":
        return f.reads([path])
    if op == "write":
        return f.write(1, path)
    if op == "setitem":
        f[path] = 1
        return None
    if op == "writes":
        return f.writes({path: 1})
    if op == "contains":
        return path in f
    del f[path]
    return None


def decide(ctx, f, op, path, comps, refs):
    refs = normal(refs)
    within = inside(comps, refs)
    r, e = ctx.attempt(operate, f, op, path)
    if op == "contains":
        ctx.check("membership is not an error", e is None)
        if within:
            ctx.check("nothing inside is a member", not r)
        return
    if within:
        ctx.check("refused", type(e) is ValueError)
    else:
        ctx.check("not refused for that reason", e is None or "group_for_references" not in str(e))
        if op not in ("write", "setitem", "writes"):
            ctx.check("not refused", type(e) is not ValueError)
        if op in ("write", "setitem", "writes"):
            if len(comps) and ".." not in comps and not above(comps, refs):
                ctx.check("written", e is None)
                ctx.check("a member", path in f)


def above(comps, refs):
    want = [c for c in refs.split("/") if c]
    if len(comps) >= len(want):
        return False
    for a, b in zip(comps, want):
        if not a == b:
            return False
    return True


def h_path(ctx, refs, n, op):
    p = ctx.str("p", n, 1, 0xd7ff)
    f = open_(ctx, refs)
    f.write([1], "listed")
    decide(ctx, f, op, p, components(p), refs)
    f.close()


def h_near(ctx, refs, op, at, k, cut):
    """Spellings that are one or two characters from the group's."""
    base = normal(refs)
    p = base[:at] + ctx.str("p", k, 1, 0xd7ff) + base[at + cut:] + ctx.choose("tail", ["", "/a", "/"])
    f = open_(ctx, refs)
    f.write([1], "listed")
    decide(ctx, f, op, p, components(p), refs)
    f.close()


def h_parts(ctx, refs, lens, op):
    want = [c for c in normal(refs).split("/") if c]
    whole = ctx.choose("whole", [False, True])
    # all arbitrary, or one of the group's own parts and what follows it
    parts = [ctx.str("p%d" % i, n, 0, 0xd7ff) for i, n in enumerate(lens)]
    if whole:
        parts = want + parts if ctx.choose("after", [False, True]) else want[:-1] + parts
    comps = []
    for x in parts:
        e = ctx.call(ctx.hs.pathesc.escape_path, x)
        if len(e):
            comps.append(e)
    f = open_(ctx, refs)
    f.write([1], "listed")
    decide(ctx, f, op, tuple(parts), comps, refs)
    f.close()


def h_form(ctx, refs, form, op):
    base = normal(refs) + ctx.choose("tail", ["", "/a", "/a/b", "x", "/../x", "/..", "/", "//"])
    base = ctx.choose("head", ["", "/", "/q/..", "/.", "//"]) + base
    f = open_(ctx, refs)
    f.write([1], "listed")
    if form == "bytes":
        p = base.encode()
    else:
        p = pathlib.PurePosixPath(base)
    decide(ctx, f, op, p, components(base), refs)
    f.close()


def h_member(ctx, refs):
    """Members that would be in its place are kept elsewhere."""
    base = normal(refs)
    up, _, last = base.rpartition("/")
    fn = ctx.path()
    f = open_(ctx, refs, fn)
    f.write([ctx.int("i", 0, 9), "s"], "/listed")
    n = ctx.choose("name", [0, 1, 2])
    k = last if n == 0 else ctx.str("k", 1, 1, 0xd7ff) + last[1:] if n == 1 else ctx.str("k", len(last) if len(last) < 3 else 1, 0, 0xd7ff)
    v = {k: ctx.int("v", 0, 99)}
    if not up:
        ctx.assume(False)
    f.write(ctx.make(dict, list(v.items())), up)
    f.close()
    f = open_(ctx, refs, fn)
    ctx.check("the mapping is as it was", ctx.same(f.read(up), v, False))
    ctx.check("the list is as it was", ctx.same(f.read("/listed")[1], "s", False))
    f.close()


def h_listed(ctx, refs):
    """It is not among what is there."""
    f = open_(ctx, refs)
    f.write([1, 2], "/listed")
    base = normal(refs)
    n = ctx.str("n", 1, 1, 0xd7ff)
    ctx.assume(ctx.And(*[ctx.Not(n == c) for c in "/.ra"]))
    f.write(1, n)
    top = base.split("/")[1]
    names = list(f)
    if base == "/" + top:
        ctx.check("not listed", top not in names)
        ctx.check("not counted", len(f) == 2 and len(names) == 2)
    else:
        ctx.check("as many", len(f) == len(names) == 3)
    ctx.check("not a member", base not in f and base + "/a" not in f)
    f.close()
