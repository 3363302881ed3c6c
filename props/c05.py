"""C05: text scalars read back exactly as they were written."""
import numpy as np

BOUNDS = ("str, bytes, bytearray, numpy.str_ and numpy.bytes_ of 0..3 (quick) / 0..4 (thorough) arbitrary code points or "
          "bytes (surrogates, NULs and BOM characters included), and of up to 5 / 8 without the option combinations; MATLAB "
          "compatible, or each combination of the options on text and shape otherwise; of 23 and 303 (thorough: also 20003) of which three are arbitrary; read with the "
          "options it was written with, MATLAB compatible files also with those of read()")
OUTSIDE = "longer text"
OPTS = ("convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "make_atleast_2d", "reverse_dimension_order",
        "store_shape_for_empty", "oned_as")


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for k in ("str", "bytes", "bytearray", "np.str_", "np.bytes_"):
            for n in range(4 if tier == "quick" else 5):
                out.append(("h_text", {"kind": k, "n": n, "mode": mode}))
            for n in ((4, 5) if tier == "quick" else (5, 6, 7, 8)):
                out.append(("h_text", {"kind": k, "n": n, "mode": mode, "all": False}))
            for n in (20, 300) if tier == "quick" else (20, 300, 20000):
                out.append(("h_long", {"kind": k, "n": n, "mode": mode}))
    return out


def h_long(ctx, kind, n, mode):
    """Long text with arbitrary characters at both ends and in the middle."""
    t = {"str": "str", "np.str_": "str"}.get(kind, "bytes")
    fill = "abcdefg" * (n // 7 + 1) if t == "str" else b"abcdefg" * (n // 7 + 1)
    x = [getattr(ctx, t)("s%d" % i, 1) for i in range(3)]
    s = x[0] + fill[:n // 2] + x[1] + fill[:n // 2] + x[2]
    cls = {"str": str, "bytes": bytes, "bytearray": bytearray, "np.str_": np.str_, "np.bytes_": np.bytes_}[kind]
    if cls not in (str, bytes):
        s = ctx.make(cls, s)
    opts = LIB.options(ctx, mode, "convert_numpy_str_to_utf16" if t == "str" else "convert_numpy_bytes_to_utf16")
    r = LIB.write_read(ctx, s, opts)
    ctx.check("same type", type(r) is cls)
    if kind in ("np.str_", "np.bytes_"):
        LIB.same_text(ctx, r, s)
        return
    ctx.check("as long", len(r) == len(s))
    ctx.check("same", ctx.same(r, s))


def text(ctx, kind, n):
    if kind == "str":
        return ctx.str("s", n)
    if kind == "bytes":
        return ctx.bytes("s", n)
    if kind == "bytearray":
        return ctx.bytes("s", n, cls=bytearray)
    if kind == "np.str_":
        return ctx.str("s", n, cls=np.str_)
    return ctx.bytes("s", n, cls=np.bytes_)


def h_text(ctx, kind, n, mode, all=True):
    s = text(ctx, kind, n)
    names = [o for o in OPTS if o != ("convert_numpy_bytes_to_utf16" if "str" in kind else "convert_numpy_str_to_utf16")]
    opts = LIB.options(ctx, mode, *(names if all else ()))
    r = LIB.write_read(ctx, s, opts, ropts=LIB.reader(ctx, mode, opts))
    ctx.check("same type", type(r) is type(s))
    if kind in ("np.str_", "np.bytes_"):
        LIB.same_text(ctx, r, s)
        return
    ctx.check("as long", len(r) == len(s))
    ctx.check("same", ctx.same(r, s))
