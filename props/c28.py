"""C28: text conversions between str, bytes and code units are exact inverses."""
import sys

import numpy as np

BOUNDS = ("texts of up to 3 (quick) / 4 (thorough) arbitrary code points (surrogates, NULs and BOM characters "
          "included) as str, bytes, numpy.str_, numpy.bytes_; arrays of shapes (), (1,), (2,), (1,2), (2,1), (0,) and "
          "item sizes 1..2 (3), both byte orders, with arbitrary contents; texts of 20, 130 and 300 characters of which three are arbitrary and arrays of up to 15 of up to 30 "
          "of which two elements are; arbitrary code units for the reading side")
OUTSIDE = "larger arrays and item sizes of arbitrary contents"
NE = "<" if sys.byteorder == "little" else ">"
OE = ">" if NE == "<" else "<"


def jobs(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for k in range(n + 1):
        out.append(("h_np_str", {"n": k}))
        out.append(("h_text", {"n": k}, 25 if k > 2 else 1))
        out.append(("h_np_bytes", {"n": k}))
    shapes = [[], [1], [2], [1, 2], [2, 1], [0], [2, 0]]
    for sh in shapes:
        for size in ((1, 2) if tier == "quick" else (1, 2, 3)):
            for o in (NE, OE):
                out.append(("h_u16", {"shape": sh, "size": size, "order": o}))
                out.append(("h_u32", {"shape": sh, "size": size, "order": o}))
            out.append(("h_bytes_array", {"shape": sh, "size": size}))
    for k in range(1, n + 1):
        for dt in ("uint8", "uint16", "uint32"):
            out.append(("h_units", {"n": k, "dt": dt}))
    for sh in ([1], [2], [1, 2], [2, 1]):
        for size in ((1,) if tier == "quick" and sh != [1] else (1, 2)):
            for o in (NE, OE):
                out.append(("h_cross", {"shape": sh, "size": size, "order": o}))
    for dt in ("uint8", "uint16", "uint32"):
        out.append(("h_scalar", {"dt": dt}))
        for o in (NE, OE):
            out.append(("h_bytes_rows", {"shape": [2, 2], "size": 2, "dt": dt, "order": o}))
            out.append(("h_bytes_rows", {"shape": [4], "size": 2, "dt": dt, "order": o}))
            out.append(("h_unit_arrays", {"shape": [2, 2], "size": 2, "dt": dt, "order": o}))
            out.append(("h_unit_arrays", {"shape": [1, 4], "size": 2, "dt": dt, "order": o}))
            out.append(("h_unit_arrays", {"shape": [4], "size": 2, "dt": dt, "order": o}))
    for k in (20, 130, 300):
        out.append(("h_long", {"n": k}))
        for sh in ([3, 5], [12], [2, 2, 3]):
            for o in (NE, OE):
                out.append(("h_large", {"n": k if k < 100 else k // 10, "shape": sh, "order": o}))
    return out


def h_long(ctx, n):
    """Long text of which three characters are arbitrary."""
    u = ctx.utilities
    fill = "ab\u00e9\u20ac\U0001f600 " * (n // 10 + 1)
    x = [ctx.str("s0", 1), ctx.str("s1", 1, 0x7e, 0x80), ctx.str("s2", 1)]
    s = x[0] + fill[:n // 2] + x[1] + fill[1:n // 2] + x[2]
    for c in x:
        ctx.assume(ctx.Not(surr(ctx, c)))
    ctx.assume(ctx.Not(x[2] == "\x00"))
    b = s.encode("utf-8")
    v = ctx.call(np.str_, s)
    ctx.check("str of bytes", u.convert_to_str(b) == s)
    ctx.check("numpy.str_ of bytes", ctx.same(u.convert_to_numpy_str(b), v))
    ctx.check("numpy.bytes_ of str", ctx.same(u.convert_to_numpy_bytes(s), ctx.call(np.bytes_, b)))
    for f in (u.convert_numpy_str_to_uint32, u.convert_numpy_str_to_uint16):
        a = f(v)
        ctx.check("back to str", u.convert_to_str(a) == s)
        r = u.convert_to_numpy_str(a)
        ctx.check("back to numpy.str_", r.shape == (1,) and ctx.same(r[0], v))
        r = u.convert_to_numpy_bytes(a)
        ctx.check("to numpy.bytes_", r.shape == (1,) and stripped_bytes(r[0]) == b)
        ctx.check("as many units", a.shape == (len(s) if a.dtype.itemsize == 4 else a.size,))


def h_large(ctx, n, shape, order):
    """Larger arrays of longer text of which two elements are arbitrary."""
    u = ctx.utilities
    a = np.zeros(tuple(shape), "%sU%d" % (order, n))
    at = list(np.ndindex(*shape))
    for k, i in enumerate(at):
        a[i] = ("%d\u00e9\u20ac" % (k * 37) * n)[:1 + k * 5 % n]
    for k, i in ((0, at[1]), (1, at[-1])):
        c = ctx.str("c%d" % k, 1, 1)
        ctx.assume(ctx.Not(surr(ctx, c)))
        a[i] = (c + "b" * (n - 2)) if k else ("b" * (n - 2) + c)
    texts = [x for x in a.flat]
    for f in (u.convert_numpy_str_to_uint32, u.convert_numpy_str_to_uint16):
        r = f(a)
        ctx.check("shape", r.shape[:-1] == a.shape[:-1] and r.shape[-1] % a.shape[-1] == 0)
        back = u.convert_to_numpy_str(r, length=r.shape[-1] // a.shape[-1])
        ctx.check("shape back", back.shape == a.shape)
        for x, y in zip(back.flat, texts):
            ctx.check("element back", x == y)
    b = u.convert_to_numpy_bytes(a)
    ctx.check("shape", b.shape == a.shape and b.dtype.kind == "S")
    for x, y in zip(b.flat, texts):
        ctx.check("encoded", x == y.encode("utf-8"))
    back = u.convert_to_numpy_str(b)
    for x, y in zip(back.flat, texts):
        ctx.check("element back", x == y)


def stripped(ctx, s):
    """Without the trailing NULs that numpy text does not keep."""
    while len(s) and s[-1] == "\x00":
        s = s[:-1]
    return s


def stripped_bytes(b):
    while len(b) and b[-1] == 0:
        b = b[:-1]
    return b


def surr(ctx, s):
    for c in s:
        if "\ud800" <= c and c <= "\udfff":
            return True
    return False


def wide(ctx, s):
    for c in s:
        if c > "\uffff":
            return True
    return False


def h_np_str(ctx, n):
    """numpy.str_ to code units and back."""
    u = ctx.utilities
    s = ctx.str("s", n)
    x = ctx.call(np.str_, s)
    want = stripped(ctx, s)
    a = u.convert_numpy_str_to_uint32(x)
    ctx.check("uint32", a.dtype == np.dtype("uint32"))
    ctx.check("as many units", a.shape == (n,))
    for i in range(n):
        ctx.check("uint32 unit", int(a[i]) == ord(s[i]))
    if n:
        ctx.check("uint32 back to numpy.str_", ctx.same(u.convert_to_numpy_str(a)[0], ctx.call(np.str_, want)))
        ctx.check("uint32 back to str", u.convert_to_str(a) == s)
    ctx.check("numpy.str_ to str", u.convert_to_str(x) == s)
    if surr(ctx, want):
        b, bad = ctx.attempt(u.convert_numpy_str_to_uint16, x)
        ctx.check("surrogates refused by UTF-16", isinstance(bad, UnicodeError))
        return
    b = u.convert_numpy_str_to_uint16(x)
    ctx.check("uint16", b.dtype == np.dtype("uint16"))
    if len(want):
        ctx.check("uint16 back to str", stripped(ctx, u.convert_to_str(b)) == want)
        ctx.check("uint16 back to numpy.str_", ctx.same(u.convert_to_numpy_str(b)[0], ctx.call(np.str_, want)))


def h_text(ctx, n):
    u = ctx.utilities
    s = ctx.str("s", n)
    ctx.check("str is itself", u.convert_to_str(s) == s)
    ctx.check("numpy.str_ of str", ctx.same(u.convert_to_numpy_str(s), ctx.call(np.str_, s)))
    if not surr(ctx, s):
        b = s.encode("utf-8")
        ctx.check("str of bytes", u.convert_to_str(b) == s)
        ctx.check("str of bytearray", u.convert_to_str(ctx.call(bytearray, b)) == s)
        nb = u.convert_to_numpy_bytes(s)
        ctx.check("numpy.bytes_ of str", ctx.same(nb, ctx.call(np.bytes_, b)))
        ctx.check("numpy.str_ of bytes", ctx.same(u.convert_to_numpy_str(b), ctx.call(np.str_, s)))
        ctx.check("str of numpy.bytes_", stripped(ctx, u.convert_to_str(nb)) == stripped(ctx, s))
        ctx.check("numpy.str_ of numpy.bytes_", stripped(ctx, u.convert_to_numpy_str(nb)) == stripped(ctx, s))
        ctx.check("numpy.bytes_ of bytearray", ctx.same(u.convert_to_numpy_bytes(ctx.call(bytearray, b)), nb))
        ctx.check("numpy.str_ of bytearray", ctx.same(u.convert_to_numpy_str(ctx.call(bytearray, b)),
                                                      ctx.call(np.str_, s)))
        if n:
            x = u.convert_to_numpy_bytes(ctx.call(np.str_, s))
            ctx.check("numpy.bytes_ of numpy.str_", stripped_bytes(x) == stripped_bytes(b))


def h_np_bytes(ctx, n):
    u = ctx.utilities
    b = ctx.bytes("b", n)
    x = u.convert_to_numpy_bytes(b)
    ctx.check("is numpy.bytes_", ctx.same(x, ctx.call(np.bytes_, b)))
    ctx.check("itself", ctx.same(u.convert_to_numpy_bytes(x), x))


def h_u16(ctx, shape, size, order):
    u = ctx.utilities
    shape = tuple(shape)
    a = ctx.array("a", "%sU%d" % (order, size), shape)
    texts = [x for x in a.flat]
    bad_text = False
    for t in texts:
        if surr(ctx, t):
            bad_text = True
    r, bad = ctx.attempt(u.convert_numpy_str_to_uint16, a)
    if bad_text:
        ctx.check("surrogates refused by UTF-16", isinstance(bad, UnicodeError))
        return
    ctx.check("converted", bad is None)
    ctx.check("uint16", r.dtype == np.dtype("uint16"))
    if a.size == 0:
        ctx.check("nothing", r.size == 0)
        return
    sh = shape if len(shape) else (1,)
    if r.size == 0:
        for t in texts:
            ctx.check("only empty text has no units", len(t) == 0)
        return
    k = r.shape[-1] // sh[-1]
    ctx.check("shape", ctx.And(len(r.shape) == len(sh), r.shape[:-1] == sh[:-1], k * sh[-1] == r.shape[-1]))
    back = u.convert_to_numpy_str(r, length=k)
    ctx.check("shape back", back.shape == sh)
    for i, t in enumerate(back.flat):
        ctx.check("element back", t == texts[i])


def h_u32(ctx, shape, size, order):
    u = ctx.utilities
    shape = tuple(shape)
    a = ctx.array("a", "%sU%d" % (order, size), shape)
    texts = [x for x in a.flat]
    r = u.convert_numpy_str_to_uint32(a)
    ctx.check("uint32", r.dtype == np.dtype("uint32"))
    if a.size == 0:
        ctx.check("nothing", r.size == 0)
        return
    sh = shape if len(shape) else (1,)
    ctx.check("shape", ctx.And(r.shape[:-1] == sh[:-1], r.shape[-1] == sh[-1] * size))
    back = u.convert_to_numpy_str(r, length=size)
    ctx.check("shape back", back.shape == sh)
    for i, t in enumerate(back.flat):
        ctx.check("element back", t == texts[i])


def h_bytes_array(ctx, shape, size):
    u = ctx.utilities
    shape = tuple(shape)
    a = ctx.array("a", "S%d" % size, shape)
    ctx.check("itself", ctx.same(u.convert_to_numpy_bytes(a), a))
    if a.size == 0 or len(shape) == 0:
        return
    v = ctx.call(np.ndarray, shape=shape[:-1] + (shape[-1] * size,), dtype="uint8", buffer=a)
    ctx.check("back from uint8", ctx.same(u.convert_to_numpy_bytes(v, length=size), a))


def h_units(ctx, n, dt):
    """Code units that a file may hold read as the text that they stand for."""
    u = ctx.utilities
    a = ctx.array("a", dt, (n,))
    vals = [int(x) for x in a]
    if dt == "uint32":
        text = ""
        for v in vals:
            if v > 0x10FFFF or (0xD800 <= v and v <= 0xDFFF):
                got, bad = ctx.attempt(u.convert_to_str, a)
                ctx.check("not a text", bad is not None or v <= 0x10FFFF)
                return
            text = text + chr(v)
    elif dt == "uint16":
        text = ""
        i = 0
        while i < n:
            v = vals[i]
            i += 1
            if 0xD800 <= v and v <= 0xDFFF:
                if v >= 0xDC00 or i >= n or vals[i] < 0xDC00 or vals[i] > 0xDFFF:
                    got, bad = ctx.attempt(u.convert_to_str, a)
                    ctx.check("not a text", bad is not None)
                    return
                v = 0x10000 + (v - 0xD800) * 1024 + (vals[i] - 0xDC00)
                i += 1
            text = text + chr(v)
    else:
        text, bad = ctx.attempt(ctx.call(bytes, vals).decode, "utf-8")
        if bad is not None:
            got, bad = ctx.attempt(u.convert_to_str, a)
            ctx.check("not a text", bad is not None)
            return
    ctx.check("the text", u.convert_to_str(a) == text)
    x = u.convert_to_numpy_str(a)
    ctx.check("one text", x.shape == (1,))
    ctx.check("the numpy text", x[0] == stripped(ctx, text))
    nb = u.convert_to_numpy_bytes(a)
    ctx.check("one bytes", nb.shape == (1,))
    enc = text.encode("utf-8")
    while len(enc) and enc[-1] == 0:
        enc = enc[:-1]
    ctx.check("numpy bytes", nb[0] == enc)


def h_unit_arrays(ctx, shape, size, dt, order):
    """Arrays of code units are cut into items along the last axis."""
    u = ctx.utilities
    d = np.dtype(dt).newbyteorder(order)
    a = ctx.array("a", d, tuple(shape))
    hi = 0x7F if dt == "uint8" else 0xD7FF
    for x in a.flat:
        ctx.assume(int(x) <= hi)
    r = u.convert_to_numpy_str(a, length=size)
    sh = tuple(shape[:-1]) + (shape[-1] // size,)
    ctx.check("shape", r.shape == sh)
    vals = [int(x) for x in a.flat]
    for i, t in enumerate(r.flat):
        w = ""
        for v in vals[i * size:(i + 1) * size]:
            w = w + chr(v)
        ctx.check("element", t == stripped(ctx, w))


def h_cross(ctx, shape, size, order):
    """Arrays of numpy.str_ and of numpy.bytes_ turned into one another."""
    u = ctx.utilities
    a = ctx.array("a", "%sU%d" % (order, size), tuple(shape))
    texts = [x for x in a.flat]
    for t in texts:
        ctx.assume(not surr(ctx, t))
    b = u.convert_to_numpy_bytes(a)
    ctx.check("is numpy.bytes_", b.dtype.kind == "S")
    ctx.check("shape", b.shape == tuple(shape))
    for i, x in enumerate(b.flat):
        ctx.check("encoded", stripped_bytes(x) == stripped_bytes(texts[i].encode("utf-8")))
    c = u.convert_to_numpy_str(b)
    ctx.check("is numpy.str_", c.dtype.kind == "U")
    ctx.check("shape back", c.shape == tuple(shape))
    for i, x in enumerate(c.flat):
        ctx.check("back", stripped(ctx, x) == stripped(ctx, texts[i]))


def h_scalar(ctx, dt):
    """A single code unit."""
    u = ctx.utilities
    v = ctx.scalar("v", dt)
    k = int(v)
    if dt == "uint8":
        ctx.assume(k <= 127)
    ctx.assume(ctx.And(k <= 0x10FFFF, ctx.Not(ctx.And(k >= 0xD800, k <= 0xDFFF))))
    ctx.assume(k > 0)
    t = chr(k)
    ctx.check("str", u.convert_to_str(v) == t)
    ctx.check("numpy.str_", u.convert_to_numpy_str(v) == t)
    ctx.check("numpy.bytes_", u.convert_to_numpy_bytes(v) == t.encode("utf-8"))


def h_bytes_rows(ctx, shape, size, dt, order):
    """Arrays of code units cut into numpy.bytes_ along the last axis."""
    u = ctx.utilities
    a = ctx.array("a", np.dtype(dt).newbyteorder(order), tuple(shape))
    hi = 0x7F if dt == "uint8" else 0xD7FF
    for x in a.flat:
        ctx.assume(int(x) <= hi)
    r = u.convert_to_numpy_bytes(a, length=size)
    ctx.check("shape", r.shape == tuple(shape[:-1]) + (shape[-1] // size,))
    vals = [int(x) for x in a.flat]
    for i, t in enumerate(r.flat):
        w = ""
        for v in vals[i * size:(i + 1) * size]:
            w = w + chr(v)
        ctx.check("element", stripped_bytes(t) == stripped_bytes(w.encode("utf-8")))
