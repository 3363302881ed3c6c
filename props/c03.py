"""C03: equivalent forms of a path name the same object, parts never traverse."""
import collections
import pathlib

BOUNDS = ("separated paths of 1..3 parts of 0..3 arbitrary code points each (quick: total at most 4, thorough: at "
          "most 6), parts given as str, bytes or PurePosixPath, and the same as a joined str and bytes; PurePosixPaths of up to 3 (4) "
          "arbitrary code points as a path and as a part; lists, tuples, deques and UserLists of parts; "
          "unseparated paths of at most 5 (quick) / 7 (thorough) arbitrary code points; paths of 12 and 40 parts, and of parts of 300 "
          "characters, of which two are arbitrary; 17 PureWindowsPaths; each after another")
OUTSIDE = "paths of more arbitrary code points; Windows PurePaths of other texts"


def jobs(tier):
    cap = 3 if tier == "quick" else 5
    out = []
    for a in range(4):
        out.append(("h_parts", {"lens": [a]}))
        for b in range(4):
            if a + b <= cap - (not a or not b):
                out.append(("h_parts", {"lens": [a, b]}))
            for c in range(3):
                if a + b + c <= cap - (not a or not b or not c):
                    out.append(("h_parts", {"lens": [a, b, c]}))
    for n in range(4 if tier == "quick" else 5):
        out.append(("h_pure", {"n": n}))
        out.append(("h_pure_part", {"n": n}))
        if n and n < (3 if tier == "quick" else 4):
            out.append(("h_mixed", {"n": n}))
    for n in range(5 if tier == "quick" else 7):
        out.append(("h_slashes", {"n": n}))
    for n in range(4 if tier == "quick" else 5):
        out.append(("h_bytes_path", {"n": n}))
    out.append(("h_windows", {}))
    for n in (1,) if tier == "quick" else (1, 2):
        out.append(("h_again", {"n": n}))
    for parts, size in ((12, 1), (40, 2), (3, 300), (2, 70), (9, 120)):
        out.append(("h_long", {"parts": parts, "size": size}))
    return out


def names(group, target):
    """The links that HDF5 follows from the root for a group and a target."""
    out = []
    for p in group.split("/") + [target]:
        if len(p) != 0 and p != ".":
            out.append(p)
    return out


def agree(ctx, label, got, want):
    ctx.check(label + ": as many levels", len(got) == len(want))
    for a, b in zip(got, want):
        ctx.check(label + ": same level", a == b)


def h_parts(ctx, lens):
    pp = ctx.pathesc.process_path
    parts = [ctx.str("p%d" % i, n) for i, n in enumerate(lens)]
    esc = [ctx.pathesc.escape_path(p) for p in parts]
    want = [e for e in esc if len(e) != 0]
    g, t = pp(parts)
    ctx.observe("group", g)
    ctx.observe("target", t)
    ctx.check("target has no slash", "/" not in t)
    agree(ctx, "one level per part", names(g, t), want)
    for i, e in enumerate(want):
        ctx.check("the part comes back", ctx.pathesc.unescape_path(names(g, t)[i])
                  == [p for p in parts if len(p) != 0][i])
    agree(ctx, "tuple", names(*pp(tuple(parts))), want)
    joined = "/".join(esc)
    agree(ctx, "joined str", names(*pp(joined)), want)
    agree(ctx, "joined absolute str", names(*pp("/" + joined)), want)
    if ctx.choose("more", [False, True]):
        enc, bad = ctx.attempt(joined.encode, "utf-8")
        if bad is None:
            agree(ctx, "joined bytes", names(*pp(enc)), want)
            encs = [p.encode("utf-8") for p in parts]
            agree(ctx, "bytes parts", names(*pp(encs)), want)


def h_long(ctx, parts, size):
    """Many and long parts, of which two have an arbitrary character at an end."""
    pp = ctx.pathesc.process_path
    fill = "ab c.d/e\\fé\x01" * (size // 10 + 1)
    ps = [("%d" % i + fill)[:size] for i in range(parts)]
    i = ctx.choose("at", sorted({0, parts // 2, parts - 1}))
    ps[i] = ctx.str("c", 1) + ps[i][1:]
    j = ctx.choose("second", sorted({0, parts - 1}))
    ps[j] = ps[j][:-1] + ctx.str("d", 1)
    for s in ps:
        ctx.assume(len(s) != 0)
    want = [ctx.pathesc.escape_path(s) for s in ps]
    g, t = pp(ps)
    agree(ctx, "one level per part", names(g, t), want)
    for e, s in zip(names(g, t), ps):
        ctx.check("the part comes back", ctx.pathesc.unescape_path(e) == s)
    agree(ctx, "joined str", names(*pp("/".join(want))), want)
    agree(ctx, "joined str", names(*pp("//" + "/./".join(want) + "//")), want)


def h_pure(ctx, n):
    """A PurePath is the path that it spells."""
    pp = ctx.pathesc.process_path
    s = ctx.str("s", n)
    for c in s:
        ctx.assume(ord(c) != 0)
    q = ctx.make(pathlib.PurePosixPath, s)
    want = [x for x in s.split("/") if len(x) != 0 and x != "."]
    for x in want:
        ctx.assume(x != "..")
    g, t = pp(q)
    ctx.observe("group", g)
    ctx.observe("target", t)
    ctx.check("target has no slash", "/" not in t)
    agree(ctx, "PurePath", names(g, t), want)


def h_pure_part(ctx, n):
    """A PurePath that is a part is one level, like the text that it spells."""
    pp = ctx.pathesc.process_path
    s = ctx.str("s", n)
    q = ctx.make(pathlib.PurePosixPath, s)
    e = ctx.pathesc.escape_path(str(q))
    k = ctx.choose("place", [0, 1, 2])
    if k == 0:
        g, t = pp([q])
        want = [e]
    elif k == 1:
        g, t = pp(("a", q))
        want = ["a", e]
    else:
        g, t = pp([q, b"b"])
        want = [e, "b"]
    ctx.observe("target", t)
    agree(ctx, "one level", names(g, t), want)


WINDOWS = ["a", "A", "a\\b", "A\\b", "a/b", "a\\B", "a\\\\b\\", ".\\a", "C:\\a\\b", "c:/A/b", "\\a\\b", "//host/share/a/b", "é\\ß", "É\\SS", "..a", "a.", "x y\\.z"]


def h_windows(ctx):
    """Whatever Windows paths there were before; they are equal when they differ only in case."""
    pp = ctx.pathesc.process_path
    for i in range(2):
        s = ctx.choose("s%d" % i, WINDOWS)
        q = pathlib.PureWindowsPath(s)
        parts = [x for x in q.parts if x != q.anchor]
        agree(ctx, "PureWindowsPath", names(*pp(q)), [x for x in parts if x != "."])
        agree(ctx, "as a part", names(*pp(["a", q])), ["a", ctx.pathesc.escape_path(str(q))])
    agree(ctx, "PurePosixPath", names(*pp(pathlib.PurePosixPath(s))), [x for x in s.split("/") if len(x) != 0 and x != "."])


def h_again(ctx, n):
    """Whatever paths there were before, of the same kind or of another."""
    pp = ctx.pathesc.process_path
    for i in range(2):
        s = ctx.str("s%d" % i, n if i == 0 or n == 1 else ctx.choose("n", [1, 2]), 1, 0xd7ff)
        ctx.assume(ctx.And(*[ctx.Not(ctx.Or(c == ".", c == "/")) for c in s]))
        kind = ctx.choose("kind%d" % i, ["str", "bytes", "list", "part"])
        e = ctx.pathesc.escape_path(s)
        p = {"str": lambda: s, "bytes": lambda: s.encode("utf-8"), "list": lambda: [s], "part": lambda: [s.encode("utf-8"), "x"]}[kind]()
        agree(ctx, "the same names", names(*pp(p)), {"str": [s], "bytes": [s], "list": [e], "part": [e, "x"]}[kind])


def h_mixed(ctx, n):
    """Parts of different types in Sequences of different types."""
    pp = ctx.pathesc.process_path
    s = ctx.str("s", n)
    t = ctx.str("t", 1)
    es, et = ctx.pathesc.escape_path(s), ctx.pathesc.escape_path(t)
    want = [es, et]
    seq = ctx.choose("sequence", [list, tuple, collections.deque, collections.UserList])
    b, bad = ctx.attempt(s.encode, "utf-8")
    first = s if bad is not None or ctx.choose("text", [True, False]) else b
    for parts, levels in (([first, t], want), ([t, first], [et, es])):
        if seq is tuple:
            parts = tuple(parts)
        else:
            c = seq()
            for x in parts:
                (c.data if seq is collections.UserList else c).append(x)
            parts = c
        agree(ctx, "one level per part, in order", names(*pp(parts)), levels)


def h_slashes(ctx, n):
    """Repeated and trailing slashes make no difference; escapes stay."""
    pp = ctx.pathesc.process_path
    s = ctx.str("s", n)
    nul = ctx.Or(*[ord(c) == 0 for c in s])
    r, bad = ctx.attempt(pp, s)
    ctx.check("only NULs are refused", nul if bad is not None else ctx.Not(nul))
    if bad is not None:
        ctx.check("documented error", type(bad) is ValueError)
        return
    want = names(*pp(s))
    g, t = pp(s)
    ctx.check("target has no slash", "/" not in t)
    agree(ctx, "trailing slash", names(*pp(s + "/" if n else "/")), want)
    for k in range(n):
        if s[k] == "/":
            agree(ctx, "repeated slash", names(*pp(s[:k] + "/" + s[k:])), want)
            if k > 0:
                agree(ctx, "dot", names(*pp(s[:k] + "/." + s[k:])), want)
    up = False
    for part in s.split("/"):
        if part == "..":
            up = True
    if not up:
        agree(ctx, "nothing but slashes and dots goes away", want,
              [p for p in s.split("/") if len(p) != 0 and p != "."])


def h_bytes_path(ctx, n):
    pp = ctx.pathesc.process_path
    b = ctx.bytes("b", n)
    text, bad = ctx.attempt(b.decode, "utf-8")
    if bad is not None:
        return
    ctx.assume(ctx.Not(ctx.Or(*[ord(c) == 0 for c in text])))
    g1, t1 = pp(b)
    g2, t2 = pp(text)
    ctx.check("bytes path is the text's path", ctx.And(g1 == g2, t1 == t2))
