"""C19: the header of MATLAB compatible files; opening keeps what is there."""
import os

import h5py

BOUNDS = ("a file that does not exist, one of this package (with either matlab_compatible), and ones of others with userblocks of 0, 512 and "
          "1024 bytes of which the first 8 and the 8 after the header are arbitrary, opened 1..2 (quick) / 1..3 (thorough) times with every "
          "combination of writable, truncate_existing, truncate_invalid_matlab and matlab_compatible, by File, write and savemat, with and "
          "without a write; at every second of the years 1000..9999; all 128 bytes of the header, the rest of the userblock, and the "
          "data before and after (arbitrary contents) are compared")
OUTSIDE = "years before 1000, files that are not HDF5, other users of the file"
TIME = {"quick": 40, "thorough": 300}
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
STARTS = ["none", "matlab", "plain", "raw0", "raw512", "raw1024"]


def jobs(tier):
    out = []
    for s in STARTS:
        for w in (True, False):
            out.append(("h_open", {"start": s, "writable": w}))
        out.append(("h_history", {"start": s, "n": 2 if tier == "quick" else 3}))
        out.append(("h_savemat", {"start": s}))
    for m in range(12):
        out.append(("h_time", {"month": m + 1}))
    out.append(("h_missing", {}))
    return out


def begin(ctx, start):
    """(name, userblock, is there a header, values)"""
    fn = ctx.path()
    if start == "none":
        return fn, None, False, {}
    vals = {"a": ctx.int("a", -9, 9), "l": [ctx.int("l", 0, 9), "text"]}
    if start in ("matlab", "plain"):
        f = ctx.call(ctx.hs.File, fn, writable=True, matlab_compatible=start == "matlab")
        f.writes(vals)
        f.close()
        return fn, 512, start == "matlab", vals
    n = int(start[3:])
    h = h5py.File(fn, "w", userblock_size=n)
    h.create_dataset("a", data=5)
    h.close()
    if n:
        f = ctx.call(open, fn, "r+b")
        f.write(ctx.bytes("u", 8))
        f.seek(128)
        f.write(ctx.bytes("w", 8))
        f.close()
    return fn, n, False, {"a": None}


def header(ctx, fn, when=None):
    """The first bytes are the documented header."""
    b = ctx.file_bytes(fn, 128)
    ctx.check("128 bytes", len(b) == 128)
    start = b"MATLAB 7.3 MAT-file, Platform: hdf5storage "
    ctx.check("starts as documented", b[:len(start)] == start)
    ctx.check("subsystem bytes", b[116:124] == bytes(8))
    ctx.check("version and endianness", b[124:128] == b"\x00\x02IM")
    text = b[:116]
    if not isinstance(text, bytes):
        text = text.decode("latin-1")
    else:
        text = text.decode("latin-1")
    ctx.check("printable ASCII", ctx.And(*[ctx.And(ord(c) >= 32, ord(c) < 127) for c in text]))
    end = " HDF5 schema 1.00 ."
    at = None
    for i in range(len(start), 116 - len(end)):
        if text[i:i + len(", Created on: ")] == ", Created on: ":
            at = i + len(", Created on: ")
    ctx.check("has a date", at is not None)
    stamp = text[at:at + 24]
    ctx.check("ends as documented", text[at + 24:at + 24 + len(end)] == end)
    ctx.check("padded with spaces", text[at + 24 + len(end):] == " " * (116 - at - 24 - len(end)))
    if when is not None:
        y, mo, d, h, mi, s = when
        ctx.check("month", stamp[4:8] == MONTHS[mo - 1] + " ")
        for j, (x, n) in ((8, (d, 2)), (11, (h, 2)), (14, (mi, 2)), (17, (s, 2)), (20, (y, 4))):
            cs = [ord(stamp[j + i]) - 48 for i in range(n)]
            for c in cs:
                ctx.check("digits of the date", ctx.And(c >= 0, c <= 9))
            ctx.check("number of the date", sum(c * 10 ** (n - 1 - i) for i, c in enumerate(cs)) == x)
        ctx.check("separators", stamp[10] == " " and stamp[13] == ":" and stamp[16] == ":" and stamp[19] == " " and stamp[3] == " ")
        for i in range(7):
            ctx.check("day of the week", ctx.Or(ctx.Not(ctx.weekday(y, mo, d) == i), stamp[:3] == DAYS[i]))


def block(ctx, fn, n):
    return ctx.file_bytes(fn, n)


def userblock(fn):
    h = h5py.File(fn, "r")
    n = h.userblock_size
    h.close()
    return n


def values(ctx, fn, vals):
    f = ctx.call(ctx.hs.File, fn)
    ctx.check("as many variables", len(f) == len(vals))
    for k, v in vals.items():
        if v is None:
            ctx.check("the value", bool(f[k] == 5))
        else:
            ctx.check("the value", ctx.same(f[k], v, False))
    f.close()


def bytes_of(fn):
    with open(fn, "rb") as f:
        return f.read()


def opening(ctx, fn, n, head, vals, i, writable=None, act=True):
    """Open the file once and judge it: the new (userblock, header, values)."""
    w = ctx.choose("writable%d" % i, [True, False]) if writable is None else writable
    trunc = ctx.choose("truncate%d" % i, [True, False])
    invalid = ctx.choose("invalid%d" % i, [True, False])
    m = ctx.choose("matlab%d" % i, [True, False])
    exists = n is not None
    before = bytes_of(fn) if exists else None
    old = block(ctx, fn, n) if exists else None
    f, e = ctx.attempt(ctx.hs.File, fn, writable=w, truncate_existing=trunc, truncate_invalid_matlab=invalid, matlab_compatible=m)
    if not w:
        if not exists:
            ctx.check("OSError", isinstance(e, OSError))
            ctx.check("is not made", not os.path.exists(fn))
            return n, head, vals
        ctx.check("opens", e is None)
        ctx.check("not changed", bytes_of(fn) == before)
        f.close()
        ctx.check("not changed", bytes_of(fn) == before and block(ctx, fn, n) == old)
        return n, head, vals
    ctx.check("opens", e is None)
    fresh = not exists or trunc or (invalid and m and n < 128)
    vals = {} if fresh else dict(vals)
    if act and ctx.choose("write%d" % i, [True, False]):
        v = ctx.int("v%d" % i, -9, 9)
        f.write(v, "a")
        vals["a"] = v
    if act and ctx.choose("flush%d" % i, [True, False]):
        f.flush()
        if m and (fresh or n >= 128):
            header(ctx, fn)
    f.close()
    if fresh:
        ctx.check("big enough for a header", userblock(fn) >= 128)
        n = userblock(fn)
        head = False
        old = bytes(n)
    else:
        ctx.check("the userblock stays", userblock(fn) == n)
    if m and n >= 128:
        header(ctx, fn)
        head = True
        ctx.check("the rest of the userblock stays", block(ctx, fn, n)[128:] == old[128:])
    else:
        ctx.check("the userblock is not changed", block(ctx, fn, n) == old)
    values(ctx, fn, vals)
    return n, head, vals


def h_open(ctx, start, writable):
    fn, n, head, vals = begin(ctx, start)
    opening(ctx, fn, n, head, vals, 0, writable)


def h_history(ctx, start, n):
    fn, ub, head, vals = begin(ctx, start)
    for i in range(n):
        ub, head, vals = opening(ctx, fn, ub, head, vals, i, None, i == n - 1)
    if head:
        header(ctx, fn)


def h_savemat(ctx, start):
    """savemat and the module functions do the same."""
    fn, n, head, vals = begin(ctx, start)
    trunc = ctx.choose("truncate", [True, False])
    invalid = ctx.choose("invalid", [True, False])
    old = block(ctx, fn, n) if n else None
    if ctx.choose("how", ["savemat", "write"]) == "savemat":
        ctx.call(ctx.hs.savemat, fn, {"b": 1}, appendmat=False, truncate_existing=trunc, truncate_invalid_matlab=invalid)
    else:
        ctx.call(ctx.hs.write, 1, "b", filename=fn, truncate_existing=trunc, truncate_invalid_matlab=invalid)
    fresh = n is None or trunc or (invalid and n < 128)
    vals = {} if fresh else dict(vals)
    vals["b"] = 1
    values(ctx, fn, vals)
    if fresh or n >= 128:
        header(ctx, fn)
    if not fresh:
        ctx.check("the userblock stays", userblock(fn) == n)
        if n:
            ctx.check("the rest of the userblock stays", block(ctx, fn, n)[128:] == old[128:])


def h_time(ctx, month):
    """The header has the time, whatever it is."""
    y, m, d = ctx.ymd("date")
    ctx.assume(ctx.And(m == month, y >= 1000))
    h, mi, s = ctx.int("hour", 0, 23), ctx.int("minute", 0, 59), ctx.int("second", 0, 59)
    ctx.set_now(y, month, d, h, mi, s, ctx.int("us", 0, 999999))
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True)
    f.close()
    header(ctx, fn, (y, month, d, h, mi, s))


def h_missing(ctx):
    """Directories, and reading what is not there."""
    fn = ctx.path()
    w = ctx.choose("writable", [True, False])
    r, e = ctx.attempt(ctx.hs.File, fn + "/x.h5" if w else fn, writable=w)
    ctx.check("OSError", isinstance(e, OSError))
    ctx.check("is not made", not os.path.exists(fn))
    with open(fn, "wb") as f:
        f.write(b"not HDF5" * 20)
    before = bytes_of(fn)
    r, e = ctx.attempt(ctx.hs.File, fn, writable=w, truncate_invalid_matlab=ctx.choose("invalid", [True, False]))
    ctx.check("OSError", isinstance(e, OSError))
    ctx.check("stays as it was", bytes_of(fn) == before)
