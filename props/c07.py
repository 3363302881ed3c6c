"""C07: Python numbers read back exactly whatever their size."""
BOUNDS = ("every bool, float and complex bit pattern, None, Ellipsis, NotImplemented; every int in [-2^63, 2^63), and "
          "every int of 19 to 23, 30 and 45 (thorough: 19 to 55) decimal digits; MATLAB compatible or each combination "
          "of the storage options that touch scalars otherwise; writing with and reading with the same options")
OUTSIDE = "ints of more digits"
OPTS = ("make_atleast_2d", "reverse_dimension_order", "convert_bools_to_uint8", "store_shape_for_empty", "complex_names",
        "oned_as", "structs_as_dicts", "convert_numpy_bytes_to_utf16")


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for k in ("bool", "int", "float", "complex", "none", "ellipsis", "notimpl"):
            out.append(("h_value", {"kind": k, "mode": mode}))
        for n in ((20, 21, 22, 23, 30, 45) if tier == "quick" else range(20, 56)):
            out.append(("h_big", {"n": n, "mode": mode}))
        # every int of 19 digits that is not in the range of int64
        edge = str(1 << 63)
        for k, d in enumerate(edge[:16]):
            if d != "9":
                out.append(("h_big", {"n": 19, "mode": mode, "prefix": edge[:k], "first": int(d) + 1}))
        out.append(("h_big", {"n": 19, "mode": mode, "prefix": edge[:16]}))
    return out


def value(ctx, kind):
    if kind == "bool":
        return ctx.bool("x")
    if kind == "int":
        return ctx.int("x", -(1 << 63), (1 << 63) - 1)
    if kind == "float":
        return ctx.float("x")
    if kind == "complex":
        return ctx.complex("x")
    return {"none": None, "ellipsis": Ellipsis, "notimpl": NotImplemented}[kind]


def names(kind):
    skip = {"bool": {"complex_names", "convert_numpy_bytes_to_utf16"}, "int": {"complex_names", "convert_bools_to_uint8"},
            "float": {"complex_names", "convert_bools_to_uint8", "convert_numpy_bytes_to_utf16"},
            "complex": {"convert_bools_to_uint8", "convert_numpy_bytes_to_utf16"}}
    return [o for o in OPTS if o not in skip.get(kind, {"complex_names", "convert_bools_to_uint8",
                                                       "convert_numpy_bytes_to_utf16"})]


def h_value(ctx, kind, mode):
    v = value(ctx, kind)
    r = LIB.write_read(ctx, v, LIB.options(ctx, mode, *names(kind)))
    ctx.check("same type", type(r) is type(v))
    ctx.check("same", ctx.same(r, v))


def h_big(ctx, n, mode, prefix="", first=None):
    v = ctx.bigint("x", n, prefix, first)
    r = LIB.write_read(ctx, v, LIB.options(ctx, mode, *(names("int") if n < 24 else ())))
    ctx.check("same type", type(r) is int)
    ctx.check("same", ctx.same(r, v))
