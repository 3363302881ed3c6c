"""C08: numeric numpy data read back bit for bit under every option setting."""
import numpy as np

BOUNDS = ("scalars and arrays of bool, all integer and float and complex types up to complex128, arbitrary bits, shapes (), "
          "(1,), (2,), (1,2), (2,1), (2,2), (1,2,1), (2,1,2) and (1,2,3,1), both byte orders, up to 70000 elements and 10 dimensions of which three elements are arbitrary, C and Fortran order, strided and "
          "reversed, ndarray and matrix; MATLAB compatible or combinations of the options on shape, bool, complex, "
          "compression and references otherwise; MATLAB compatible files read with either kind of options")
OUTSIDE = "larger arrays; extended precision (not handled by the package)"
SHAPE = ("make_atleast_2d", "reverse_dimension_order", "oned_as", "store_shape_for_empty")
TYPES = ["b1", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8", "c8", "c16"]


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for t in TYPES:
            if t == "f2" and mode == "matlab":
                continue
            out.append(("h_scalar", {"dt": t, "mode": mode}))
            orders = "<" if t in ("b1", "u1", "i1") else "<>"
            for o in orders:
                for sh in ([], [1], [2], [1, 2], [2, 1]):
                    out.append(("h_array", {"dt": o + t, "shape": sh, "mode": mode}))
            for lay in ("C", "F", "strided", "reversed"):
                for sh in ([2, 2], [1, 2, 1], [2, 1, 2], [1, 2, 3, 1]):
                    if lay == "C" or t in ("b1", "u2", "f8", "c16") or tier != "quick":
                        out.append(("h_array", {"dt": orders[-1] + t, "shape": sh, "mode": mode, "layout": lay}))
            for sh in ([1, 1], [1, 2], [2, 2]):
                out.append(("h_array", {"dt": "<" + t, "shape": sh, "mode": mode, "cont": "matrix"}))
    for mode in ("matlab", "plain"):
        for dt, sh in (("u1", [70000]), (">f8", [300, 7]), ("<c16", [2, 600]), ("b1", [20000]), ("<i2", [3, 5, 7, 2]), ("<u8", [1, 2, 1, 3, 2, 2]),
                       ("<f4", [2] * 10)):
            out.append(("h_large", {"dt": dt, "shape": sh, "mode": mode}))
    for t in ("u1", ">f8", "<c16", "b1"):
        for n in (1, 3, 20) if tier == "quick" else (1, 3, 20, 64, 200):
            out.append(("h_compressed", {"dt": t, "n": n}))
    return out


def h_large(ctx, dt, shape, mode):
    """Large arrays of which three elements are arbitrary; with and without compression."""
    d = np.dtype(dt)
    n = int(np.prod(shape))
    a = (np.arange(n) % 251).astype(d).reshape(shape)
    for k, i in enumerate((0, n // 2 + 1, n - 1)):
        a[np.unravel_index(i, tuple(shape))] = ctx.scalar("x%d" % k, d.newbyteorder("="))
    o = LIB.options(ctx, mode, "reverse_dimension_order", "oned_as", "compress", "convert_bools_to_uint8")
    r = LIB.write_read(ctx, a, o)
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same type", r.dtype.newbyteorder("=") == a.dtype.newbyteorder("="))
    ctx.check("same bits", ctx.same(r, a))


def names(kind):
    return SHAPE + {"b": ("convert_bools_to_uint8",), "c": ("complex_names",)}.get(kind, ())


def h_scalar(ctx, dt, mode):
    x = ctx.scalar("x", dt)
    o = LIB.options(ctx, mode, *names(np.dtype(dt).kind))
    r = LIB.write_read(ctx, x, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same type", type(r) is type(x))
    ctx.check("same bits", ctx.same(r, x))


def h_array(ctx, dt, shape, mode, layout="C", cont="ndarray"):
    a = LIB.make_array(ctx, "a", dt, shape, layout, cont)
    o = LIB.options(ctx, mode, *names(a.dtype.kind))
    r = LIB.write_read(ctx, a, o, ropts=LIB.reader(ctx, mode, o))
    ctx.check("same container", type(r) is type(a))
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same type", r.dtype.newbyteorder("=") == a.dtype.newbyteorder("="))
    ctx.check("same bits", ctx.same(np.asarray(r), np.asarray(a)))


def h_compressed(ctx, dt, n):
    mode = ctx.choose("mode", ["matlab", "plain"])
    a = ctx.array("a", dt, (n,))
    r = LIB.write_read(ctx, a, LIB.options(ctx, mode, "compression", "oned_as"))
    ctx.check("same type", r.dtype.newbyteorder("=") == a.dtype.newbyteorder("="))
    ctx.check("same bits", ctx.same(r, a))
