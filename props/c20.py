"""C20: Options keep their invariants whatever is set in whatever order."""
import posixpath

import numpy as np

BOUNDS = ("one assignment of any value (every bool, int of 64 bits, str of 0..4 arbitrary characters, '/' and 0..3 arbitrary ones for "
          "group_for_references, pairs of str, and 20 values of other types) to any of the 25 options, starting from any state that the "
          "constructor makes of arbitrary values of all of them (quick: those that matlab_compatible implies and are not the assigned one "
          "are all on or all off) (as all states are such states, this covers histories of any length); "
          "also histories of 2 (quick) / 3 (thorough) assignments; constructor arguments of any values; that a File keeps the options it "
          "was opened with")
OUTSIDE = "longer strings, subclasses of Options, marshaller collections' own contents (C22)"
TIME = {"quick": 40, "thorough": 300}

BOOLS = ["store_python_metadata", "matlab_compatible", "delete_unused_variables", "structured_numpy_ndarray_as_struct",
         "make_atleast_2d", "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8",
         "reverse_dimension_order", "structs_as_dicts", "store_shape_for_empty", "compress", "shuffle_filter",
         "compressed_fletcher32_filter", "uncompressed_fletcher32_filter"]
SETS = {"action_for_matlab_incompatible": ["ignore", "discard", "error"], "oned_as": ["row", "column"],
        "compression_algorithm": ["gzip", "lzf", "szip"]}
TEXTS = ["dict_like_keys_name", "dict_like_values_name"]
INTS = {"compress_size_threshold": (0, None), "gzip_compression_level": (0, 9)}
OTHER = ["complex_names", "group_for_references"]
ALL = BOOLS + list(SETS) + TEXTS + list(INTS) + OTHER
MATLAB = {"delete_unused_variables": True, "structured_numpy_ndarray_as_struct": True, "make_atleast_2d": True,
          "convert_numpy_bytes_to_utf16": True, "convert_numpy_str_to_utf16": True, "convert_bools_to_uint8": True,
          "reverse_dimension_order": True, "store_shape_for_empty": True, "complex_names": ("real", "imag"),
          "group_for_references": "/#refs#", "compression_algorithm": "gzip"}
DEFAULTS = dict(store_python_metadata=True, matlab_compatible=True, action_for_matlab_incompatible="error",
                delete_unused_variables=False, structured_numpy_ndarray_as_struct=False, make_atleast_2d=False,
                convert_numpy_bytes_to_utf16=False, convert_numpy_str_to_utf16=False, convert_bools_to_uint8=False,
                reverse_dimension_order=False, structs_as_dicts=False, store_shape_for_empty=False, complex_names=("r", "i"),
                group_for_references="/#refs#", oned_as="row", dict_like_keys_name="keys", dict_like_values_name="values",
                compress=True, compress_size_threshold=16 * 1024, compression_algorithm="gzip", gzip_compression_level=7,
                shuffle_filter=True, compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=False)
WRONG = [None, 1, 0, -1, 2.0, "", "True", b"gzip", b"/x", ("real", b"imag"), (b"real", "imag"), (None, "i"), ("r", 1), (("r",), "i"), ("a",), ("a", "b", "c"), ["r", "i"], {}, (), np.bool_(True),
         np.int64(3), Ellipsis, {"row"}, "relative/path"]


def jobs(tier):
    out = [("h_defaults", {})]
    for o in ALL:
        out.append(("h_step", {"option": o, "matlab": True}))
        out.append(("h_step", {"option": o, "matlab": False}))
        out.append(("h_wrong", {"option": o}))
        out.append(("h_argument", {"option": o}))
        out.append(("h_history", {"option": o, "n": 1 if tier == "quick" else 2}))
    for n in range(4 if tier == "quick" else 6):
        out.append(("h_group", {"n": n}))
    out.append(("h_file", {}))
    out.append(("h_collection", {}))
    return out


def some(ctx, option, name, short=False):
    """An arbitrary value of the documented type (which may not be a documented value)."""
    if option in BOOLS:
        return ctx.bool(name)
    if option in SETS:
        v = ctx.choose(name, SETS[option] + ["sym"])
        return ctx.str(name, ctx.choose(name + ".n", [3, 4])) if v == "sym" else v
    if option in TEXTS:
        return ctx.str(name, 1 if short else ctx.choose(name + ".n", [0, 1, 2]))
    if option in INTS:
        return ctx.int(name, -(1 << 63), (1 << 63) - 1)
    if option == "complex_names":
        k = ctx.choose(name + ".kind", ["matlab", "sym", "parts"])
        if k == "matlab":
            return ("real", "imag")
        if k == "parts":
            return (ctx.choose(name + ".first", ["real", "imag", "r"]), ctx.choose(name + ".second", ["imag", "real", "Imag"]))
        return (ctx.str(name + ".re", 1 if short else 4), ctx.str(name + ".im", 1 if short else 4))
    if ctx.choose(name + ".kind", ["matlab", "sym"]) == "matlab":
        return ctx.choose(name + ".matlab", ["/#refs#", "//#refs#", "/./#refs#/", "/a/../#refs#", "///#refs#//."])
    return "/" + ctx.str(name, 1)


def normal(path):
    """A path without its dots and repeated slashes (None: it is not one of a Group below the root)."""
    if not isinstance(path, str) or len(path) == 0 or path[0] != "/":
        return None
    out = []
    for p in path.split("/"):
        if len(p) == 0 or p == ".":
            continue
        if p == "..":
            out = out[:-1]
        else:
            out.append(p)
    if len(out) == 0:
        return None
    return "/" + "/".join(out)


def accepted(ctx, option, v):
    """What an assignment gives the option (None: it is ignored)."""
    if option in BOOLS:
        return v if isinstance(v, bool) else None
    if option in SETS:
        if isinstance(v, str):
            for s in SETS[option]:
                if v == s:
                    return s
        return None
    if option in TEXTS:
        return v if isinstance(v, str) else None
    if option in INTS:
        lo, hi = INTS[option]
        ok = isinstance(v, int) and v >= lo
        if ok and hi is not None:
            ok = v <= hi
        return v if ok else None
    if option == "complex_names":
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], str)
        return v if ok else None
    return normal(v)


def assign(ctx, state, option, v):
    """The state after an assignment."""
    new = dict(state)
    a = accepted(ctx, option, v)
    if a is not None:
        new[option] = a
    if option == "matlab_compatible":
        if new[option]:
            new.update(MATLAB)
    elif option in MATLAB:
        if not new[option] == MATLAB[option]:
            new["matlab_compatible"] = False
    return new


def look(ctx, o, state, what):
    for k in ALL:
        v = getattr(o, k)
        ctx.check(what + k, type(v) is tuple if k == "complex_names" else True)
        ctx.check(what + k, ctx.same(v, state[k]))
    if o.matlab_compatible:
        for k, v in MATLAB.items():
            ctx.check("implied by matlab_compatible: " + k, getattr(o, k) == v)


def arbitrary(ctx, matlab, but=()):
    """Options of arbitrary values, and these."""
    state = {}
    full = ctx.tier != "quick"
    shared = ctx.bool("s.shared")
    last = ctx.choose("s.last", [0, -1])
    for k in ALL:
        if k == "matlab_compatible":
            state[k] = matlab
        elif k in BOOLS:
            state[k] = ctx.bool("s." + k) if full or k in but or k not in MATLAB else shared
        elif k in SETS:
            state[k] = ctx.choose("s." + k, SETS[k][:1] + SETS[k][-1:]) if full else SETS[k][last]
        elif k in INTS:
            state[k] = ctx.int("s." + k, INTS[k][0], INTS[k][1] if INTS[k][1] is not None else (1 << 62))
        elif k in TEXTS:
            state[k] = ctx.str("s." + k, 1)
        elif k == "complex_names":
            state[k] = (ctx.str("s.re", 4), ctx.str("s.im", 4))
        else:
            c = ctx.str("s.group", 1)
            ctx.assume(ctx.Not(ctx.Or(c == "/", c == ".")))
            state[k] = "/" + c
    o = ctx.call(ctx.hs.Options, **state)
    if matlab:
        state.update(MATLAB)
    return o, state


def put(ctx, o, k, v):
    """Assign; the only exception is the documented one."""
    r, e = ctx.attempt(setattr, o, k, v)
    ctx.check("ignored or a TypeError", e is None or isinstance(e, TypeError))
    return e


def h_defaults(ctx):
    o = ctx.call(ctx.hs.Options)
    look(ctx, o, dict(DEFAULTS, **MATLAB), "default of ")
    o = ctx.call(ctx.hs.Options, matlab_compatible=False)
    look(ctx, o, dict(DEFAULTS, matlab_compatible=False), "default of ")
    o = ctx.call(ctx.hs.Options, matlab_compatible=False, not_an_option=1)
    look(ctx, o, dict(DEFAULTS, matlab_compatible=False), "default of ")


def h_step(ctx, option, matlab):
    """Any state and any value."""
    o, state = arbitrary(ctx, matlab, (option,))
    look(ctx, o, state, "constructed ")
    v = some(ctx, option, "v")
    e = put(ctx, o, option, v)
    ctx.check("no exception for a value of the type", e is None)
    look(ctx, o, assign(ctx, state, option, v), "after the assignment ")


def h_wrong(ctx, option):
    """Values of other types change nothing."""
    o, state = arbitrary(ctx, ctx.choose("matlab", [True, False]), (option,))
    v = ctx.choose("v", WRONG)
    e = put(ctx, o, option, v)
    new = assign(ctx, state, option, v)
    look(ctx, o, new, "after the assignment ")
    if accepted(ctx, option, v) is None:
        for k in ALL:
            if k != "matlab_compatible":
                ctx.check("unchanged", ctx.same(getattr(o, k), state[k]))


def h_argument(ctx, option):
    """One argument of the constructor."""
    m = ctx.choose("matlab", [True, False])
    v = ctx.choose("v", WRONG + ["sym", "sym2"])
    if isinstance(v, str) and v.startswith("sym"):
        v = some(ctx, option, "v")
    kw = {option: v}
    if option != "matlab_compatible":
        kw["matlab_compatible"] = m
    o, e = ctx.attempt(ctx.hs.Options, **kw)
    ctx.check("ignored or a TypeError", e is None or isinstance(e, TypeError))
    if e is not None:
        return
    state = dict(DEFAULTS, matlab_compatible=False)
    state = assign(ctx, state, option, v)
    if option != "matlab_compatible":
        state = assign(ctx, state, "matlab_compatible", m)
        look(ctx, o, state, "constructed ")
    elif isinstance(v, bool):
        look(ctx, o, state, "constructed ")
    else:
        if o.matlab_compatible:
            state.update(MATLAB, matlab_compatible=True)
        look(ctx, o, state, "constructed ")


def h_history(ctx, option, n):
    """Assignments one after another."""
    m = ctx.choose("matlab", [True, False])
    o = ctx.call(ctx.hs.Options, matlab_compatible=m)
    state = dict(DEFAULTS, matlab_compatible=m, **({}))
    if m:
        state.update(MATLAB)
    for i in range(n + 1):
        v = some(ctx, option, "v%d" % i, True)
        put(ctx, o, option, v)
        state = assign(ctx, state, option, v)
        look(ctx, o, state, "after the assignment ")
        option = ctx.choose("option%d" % i, ["matlab_compatible", "group_for_references", "complex_names", "compression_algorithm",
                                            "make_atleast_2d", "delete_unused_variables", "oned_as", "structs_as_dicts"])


def h_group(ctx, n):
    """group_for_references is a normalised absolute path of a Group that is not the root."""
    o = ctx.call(ctx.hs.Options, matlab_compatible=ctx.choose("matlab", [True, False]))
    was = o.matlab_compatible
    s = ctx.str("s", n)
    if ctx.choose("absolute", [True, False]):
        s = "/" + s
    o.group_for_references = s
    want = normal(s)
    got = o.group_for_references
    ctx.check("normalised", got == (want if want is not None else "/#refs#"))
    ctx.check("absolute", got.startswith("/") and len(got) > 1 and not got.endswith("/") and "//" not in got)
    ctx.check("matlab_compatible", o.matlab_compatible == (was and got == "/#refs#"))


def h_file(ctx):
    """A File keeps the options it was opened with."""
    meta = ctx.bool("meta")
    o = ctx.call(ctx.hs.Options, matlab_compatible=False, store_python_metadata=meta)
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, options=o)
    o.store_python_metadata = ctx.bool("other")
    o.make_atleast_2d = True
    o.matlab_compatible = ctx.bool("m")
    f.write(ctx.int("v", 0, 9), "x")
    f.close()
    h = h5py_file(ctx, fn)
    ctx.check("metadata as with the first options", any(a.startswith("Python") for a in h["x"].attrs) == meta)
    ctx.check("no MATLAB metadata", not any(a.startswith("MATLAB") for a in h["x"].attrs))
    ctx.check("shape as with the first options", h["x"].shape == ())
    h.close()
    ctx.check("the File did not change them", o.make_atleast_2d is True)


def h5py_file(ctx, fn):
    import h5py

    return h5py.File(fn, "r")


def h_collection(ctx):
    """marshaller_collection is the default one, or the one that was given."""
    h = ctx.hs
    mc = ctx.call(h.MarshallerCollection, load_plugins=False)
    o = ctx.call(h.Options)
    ctx.check("the default", o.marshaller_collection is ctx.call(h.get_default_marshaller_collection))
    o = ctx.call(h.Options, marshaller_collection=mc)
    ctx.check("the given one", o.marshaller_collection is mc)
    bad = ctx.choose("bad", [None, 1, "x", [], {}])
    r, e = ctx.attempt(setattr, o, "marshaller_collection", bad)
    ctx.check("ignored or a TypeError", e is None or isinstance(e, TypeError))
    ctx.check("still the given one", o.marshaller_collection is mc)
    ctx.check("does not change the others", o.matlab_compatible is True)
