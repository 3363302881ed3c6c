"""C01: escaping a path part is lossless and gives one safe link name."""
BOUNDS = "names of 0..4 (quick) / 0..8 (thorough) arbitrary code points, as str and as UTF-8 bytes; names of 62, 257 and 1002 characters of which two are arbitrary"
OUTSIDE = "longer names of other characters"


def jobs(tier):
    n = 4 if tier == "quick" else 7
    out = []
    for k in range(n + 1):
        out.append(("h_escape", {"n": k, "kind": "str"}))
    for k in range(min(n, 5) + 1):
        out.append(("h_escape", {"n": k, "kind": "bytes"}))
    for m in (60, 255, 1000):
        for at in (0, 1, m):
            out.append(("h_long", {"m": m, "at": at}))
    return out


def h_long(ctx, m, at):
    """Long names with two arbitrary characters at either end or apart."""
    a, b = ctx.str("a", 1), ctx.str("b", 1)
    name = "x" * at + a + "y" * (m - at) + b
    e = ctx.pathesc.escape_path(name)
    ctx.check("no slash", "/" not in e)
    ctx.check("no NUL", "\x00" not in e)
    ctx.check("no leading dot", not e.startswith("."))
    ctx.check("lossless", ctx.pathesc.unescape_path(e) == name)


def h_escape(ctx, n, kind):
    if kind == "str":
        name = ctx.str("name", n)
        text = name
    else:
        name = ctx.bytes("name", n)
        text, bad = ctx.attempt(name.decode, "utf-8")
        if bad is not None:
            return
    e = ctx.pathesc.escape_path(name)
    ctx.observe("escaped", e)
    ctx.check("is a str", isinstance(e, str))
    ctx.check("no slash", "/" not in e)
    ctx.check("no NUL", "\x00" not in e)
    ctx.check("no leading dot", not e.startswith("."))
    ctx.check("empty only for empty", (len(e) == 0) == (n == 0))
    back = ctx.pathesc.unescape_path(e)
    ctx.check("lossless", back == text)
    if kind == "bytes":
        eb = e.encode("utf-8")
        ctx.check("lossless from bytes", ctx.pathesc.unescape_path(eb) == text)
