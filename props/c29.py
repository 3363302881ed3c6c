"""C29: complex encoding and decoding are inverse for any field names."""
import sys

import numpy as np

BOUNDS = ("complex64 and complex128, both byte orders, scalars and arrays of shapes (), (1,), (2,), (2,1), (1,2), (0,), (11,12), (300,), (2,1,3,2) and (3,0,2), "
          "C and Fortran order, arbitrary bits; nine pairs of field names; either order of the fields; "
          "compounds of every two of ten numeric types (floats, their other byte order, integers of 1, 2 and 4 bytes), without NaN of single precision")
PARTS = ["<f4", "<f8", ">f8", ">f4", "i1", "u1", "<i2", "<u2", "<i4", "<u4"]
OUTSIDE = "other field names, larger arrays"
NAMES = [["r", "i"], ["real", "imag"], ["re", "im"], ["imag", "real"], ["Real", "IMAG"], ["r", "imaginary"], ["im", "re"],
         ["x", "y"], ["i", "q"]]


def jobs(tier):
    out = []
    for dt in ("<c8", ">c8", "<c16", ">c16"):
        for sh, o in (([], "C"), ([1], "C"), ([2], "C"), ([2, 1], "C"), ([1, 2], "C"), ([0], "C"), ([2, 2], "F"),
                      ([2, 2], "C")):
            out.append(("h_array", {"dt": dt, "shape": sh, "order": o}))
        for sh, o in (([11, 12], "C"), ([11, 12], "F"), ([300], "C"), ([2, 1, 3, 2], "C"), ([2, 1, 3, 2], "F"), ([3, 0, 2], "C")):
            out.append(("h_array", {"dt": dt, "shape": sh, "order": o}))
    for dt in ("<c8", "<c16"):
        out.append(("h_scalar", {"dt": dt}))
        for sh in ([], [2]):
            out.append(("h_order", {"dt": dt, "shape": sh}))
    for a in PARTS:
        for b in PARTS:
            if a != b:
                out.append(("h_mixed", {"re": a, "im": b}))
    out.append(("h_other", {}))
    return out


def h_array(ctx, dt, shape, order):
    u = ctx.utilities
    names = tuple(ctx.choose("names", NAMES))
    a = ctx.array("a", dt, tuple(shape), order)
    e = u.encode_complex(a, names)
    ctx.check("two fields", e.dtype.names == names)
    ctx.check("shape", e.shape == tuple(shape))
    for x, y in zip(a.flat, e.flat):
        ctx.check("real", ctx.same(x.real, y[names[0]]))
        ctx.check("imag", ctx.same(x.imag, y[names[1]]))
    r = u.decode_complex(e, names)
    ctx.check("same dtype", r.dtype.newbyteorder("=") == a.dtype.newbyteorder("="))
    ctx.check("same", ctx.same(r, a))
    if names[0].lower() in ("r", "re", "real") and names[1].lower() in ("i", "im", "imag", "imaginary"):
        ctx.check("found by name", ctx.same(u.decode_complex(e), a))


def h_order(ctx, dt, shape):
    """The names say which field is the real part, not the order of the fields."""
    u = ctx.utilities
    names = tuple(ctx.choose("names", NAMES))
    f = np.dtype("<f4" if dt == "<c8" else "<f8")
    e = ctx.array("e", [(names[1], f), (names[0], f)], tuple(shape))
    r = u.decode_complex(e, names)
    ctx.check("same dtype", r.dtype == np.dtype(dt))
    ctx.check("same shape", r.shape == tuple(shape))
    for x, y in zip(r.flat, e.flat):
        ctx.check("real", ctx.same(x.real, y[names[0]]))
        ctx.check("imag", ctx.same(x.imag, y[names[1]]))


def h_mixed(ctx, re, im):
    """The parts of one number can have different types, and both are kept."""
    names = ("r", "i")
    shape = (ctx.choose("n", [0, 1, 2]),)
    e = ctx.array("e", [("r", re), ("i", im)] if ctx.choose("first", [True, False]) else [("i", im), ("r", re)], shape)
    for y in e.flat:
        # Which NaN a widened one becomes is up to the processor.
        for n, t in (("r", re), ("i", im)):
            if t[1:] == "f4":
                ctx.assume(y[n] == y[n])
    r = ctx.call(ctx.utilities.decode_complex, e, names)
    wide = any(np.dtype(t).itemsize == 8 or t in ("<i4", "<u4") for t in (re, im))
    ctx.check("the type holds both", r.dtype == np.dtype("c16" if wide else "c8"))
    ctx.check("same shape", r.shape == shape)
    part = np.dtype("f8" if wide else "f4")
    for x, y in zip(r.flat, e.flat):
        ctx.check("real", ctx.same(x.real, y["r"].astype(part)))
        ctx.check("imag", ctx.same(x.imag, y["i"].astype(part)))


def h_scalar(ctx, dt):
    u = ctx.utilities
    names = tuple(ctx.choose("names", NAMES))
    x = ctx.scalar("x", dt)
    e = u.encode_complex(x, names)
    r = u.decode_complex(e, names)
    ctx.check("same", ctx.same(np.asarray(r)[()], x))


def h_other(ctx):
    """What is not a complex compound is left alone."""
    u = ctx.utilities
    k = ctx.choose("k", [[("a", "f8"), ("b", "f8")], [("r", "f8"), ("b", "f8")], [("r", "f8"), ("i", "f8"), ("k", "f8")],
                         [("r", "f8")], None])
    a = ctx.array("a", "f8" if k is None else k, (2,))
    ctx.check("itself", u.decode_complex(a) is a)
