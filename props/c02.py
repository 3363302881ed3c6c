"""C02: unescaping decodes exactly the documented escapes and rejects the rest."""
BOUNDS = ("every text of 0..5 (quick) / 0..6 (thorough) code points; texts of up to 14 characters made of "
          "an escape introducer with arbitrary hex digit places, with arbitrary characters around it; the same "
          "as UTF-8 bytes up to 4 bytes")
OUTSIDE = "texts with more than two escapes that are longer than 5 (6) characters"
HEX = "0123456789abcdefABCDEF"


def jobs(tier):
    n = 4 if tier == "quick" else 6
    out = [("h_any", {"n": k}) for k in range(n + 1)]
    t = ["x??", "x???", "u????", "u?????", "U????????", "U????????" + "?", "x??\\x??", "\\\\x??", "?\\x??",
         "x5c\\x5c", "x??\\", "x??\\\\", "\\x?", "u????\\u", "U0010????", "U001?????"]
    if tier != "quick":
        t += ["u????\\u????", "x??x??", "??\\x??", "\\\\\\x??", "U????????\\", "x??\\u????"]
    out += [("h_template", {"t": x}) for x in t]
    out += [("h_bytes", {"n": k}) for k in range(1, 4 if tier == "quick" else 6)]
    return out


def reference(ctx, s):
    """The text decoded left to right as documented, or None if it is invalid."""
    out = ""
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        i += 1
        if c != "\\":
            out = out + c
            continue
        if i >= n:
            return None
        d = s[i]
        i += 1
        if d == "\\":
            out = out + "\\"
            continue
        if d == "x":
            k = 2
        elif d == "u":
            k = 4
        elif d == "U":
            k = 8
        else:
            return None
        if i + k > n:
            return None
        v = 0
        good = True
        for j in range(k):
            o = ord(s[i + j])
            dec = ctx.And(48 <= o, o <= 57)
            low = ctx.And(97 <= o, o <= 102)
            up = ctx.And(65 <= o, o <= 70)
            v = v * 16 + ctx.If(dec, o - 48, ctx.If(low, o - 87, o - 55))
            good = ctx.And(good, ctx.Or(dec, low, up))
        i += k
        if not good:
            return None
        if v > 0x10FFFF:
            return None
        out = out + chr(v)
    return out


def compare(ctx, s, text):
    got, bad = ctx.attempt(ctx.pathesc.unescape_path, s)
    want = reference(ctx, text)
    if want is None:
        ctx.check("an invalid escape raises", bad is not None)
        ctx.check("it raises a ValueError", isinstance(bad, ValueError))
    else:
        ctx.check("a valid text is accepted", bad is None)
        ctx.check("is a str", isinstance(got, str))
        ctx.check("decoded as documented", got == want)
        ctx.observe("decoded", got)


def h_any(ctx, n):
    s = ctx.str("s", n)
    compare(ctx, s, s)


def h_template(ctx, t):
    s = "\\"
    for i, c in enumerate(t):
        s = s + (ctx.str("c%d" % i, 1) if c == "?" else c)
    compare(ctx, s, s)


def h_bytes(ctx, n):
    b = ctx.bytes("b", n)
    text, bad = ctx.attempt(b.decode, "utf-8")
    if bad is not None:
        return
    compare(ctx, b, text)
