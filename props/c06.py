"""C06: arrays of text read back exactly."""
import numpy as np

BOUNDS = ("arrays of str and bytes of arbitrary contents, shapes (), (1,), (2,), (3,), (1,2), (2,1), (2,2), (0,), (2,0) and "
          "(1,2,1), (1,2,1,1) and (2,1,1,1), item sizes 1 and 2 (thorough: 3), and up to 24 elements of up to 20 characters of which three elements begin with arbitrary ones, both byte orders, C and Fortran order and every second element of "
          "one twice as long, as ndarray, matrix and chararray; MATLAB compatible or combinations of the text and shape "
          "options otherwise; MATLAB compatible files read with either kind of options")
OUTSIDE = "larger arrays and item sizes"
OPTS = ("make_atleast_2d", "reverse_dimension_order", "store_shape_for_empty", "oned_as")
TIME = {"quick": 60, "thorough": 600}


def jobs(tier):
    out = []
    sizes = (1, 2) if tier == "quick" else (1, 2, 3)
    for mode in ("matlab", "plain"):
        for dt, sh in (("S5", [3, 4]), ("<U5", [3, 4]), (">U3", [2, 3, 4]), ("S20", [10]), ("<U9", [2, 1, 2, 3])):
            out.append(("h_large", {"dt": dt, "shape": sh, "mode": mode}))
        for size in sizes:
            for dt in ("S%d" % size, "<U%d" % size, ">U%d" % size):
                for sh in ([], [1], [2], [1, 2], [2, 1], [0], [2, 0]):
                    out.append(("h_array", {"dt": dt, "shape": sh, "mode": mode}))
        for dt in ("S2", "S1", "<U1", ">U1") + (() if tier == "quick" else ("<U2", ">U2")):
            for lay in ("F", "strided", "reversed"):
                for sh in ([2], [2, 2], [3, 1]):
                    out.append(("h_array", {"dt": dt, "shape": sh, "mode": mode, "layout": lay}))
            for cont in ("matrix", "chararray"):
                for sh in ([1, 2], [2, 1], [2, 2]) if cont == "matrix" else ([], [2], [1, 2], [2, 1], [0]):
                    out.append(("h_array", {"dt": dt, "shape": sh, "mode": mode, "cont": cont}))
            out.append(("h_array", {"dt": dt, "shape": [3], "mode": mode}))
            out.append(("h_array", {"dt": dt, "shape": [1, 2, 1], "mode": mode}))
            out.append(("h_array", {"dt": dt, "shape": [1, 2, 1, 1], "mode": mode}))
            out.append(("h_array", {"dt": dt, "shape": [2, 1, 1, 1], "mode": mode}))
    return out


def h_large(ctx, dt, shape, mode):
    """Larger arrays and item sizes, of which three elements have arbitrary characters."""
    d = np.dtype(dt)
    n = int(np.prod(shape))
    m = d.itemsize // (4 if d.kind == "U" else 1)
    a = np.zeros(tuple(shape), d)
    for i in range(n):
        t = ("%d" % i * m)[:1 + i % m]
        a[np.unravel_index(i, tuple(shape))] = t
    for k, i in enumerate((0, n // 2 + 1, n - 1)):
        t = ctx.str("t%d" % k, 1) if d.kind == "U" else ctx.bytes("t%d" % k, 1)
        a[np.unravel_index(i, tuple(shape))] = t + ("q" if d.kind == "U" else b"q") * (m - 1)
    o = LIB.options(ctx, mode, "reverse_dimension_order", "convert_numpy_bytes_to_utf16" if d.kind == "S" else "convert_numpy_str_to_utf16")
    r = LIB.write_read(ctx, a, o)
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same kind", r.dtype.kind == a.dtype.kind)
    ctx.check("same elements", ctx.same(r, a, False))


def h_array(ctx, dt, shape, mode, layout="C", cont="ndarray"):
    a = LIB.make_array(ctx, "a", dt, shape, layout, cont)
    text = "convert_numpy_bytes_to_utf16" if a.dtype.kind == "S" else "convert_numpy_str_to_utf16"
    few = a.size * len(LIB.chars(a.dtype)) > 2 and ctx.tier == "quick"
    o = LIB.options(ctx, mode, text, *(("reverse_dimension_order",) if few else OPTS))
    r = LIB.write_read(ctx, a, o, ropts=o if few else LIB.reader(ctx, mode, o))
    ctx.check("same container", type(r) is type(a))
    ctx.check("same shape", r.shape == a.shape)
    ctx.check("same kind", r.dtype.kind == a.dtype.kind)
    ctx.check("same elements", ctx.same(np.asarray(r), np.asarray(a), False))
