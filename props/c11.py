"""C11: mappings read back equal, of the same type, in order, whatever their keys."""
import collections

BOUNDS = ("dict and OrderedDict of 0..3 keys, and of 30 (thorough: 200) of which one is arbitrary, and with long keys that differ in one arbitrary character, and of more (4200; thorough: 4000, 4001, 4500) than HDF5 attributes can list; each key a str or bytes of 0..3 (numpy: 1..2) arbitrary characters, a number, bool, "
          "None, tuple, frozenset, or the text of a name that has a meaning elsewhere, with arbitrary values of every kind; "
          "at the top level, below a Group with any one character as name, and nested in a dict or a list; MATLAB compatible "
          "or not, with delete_unused_variables, four pairs of names for keys and values and two groups for references")
OUTSIDE = "more keys than three, longer keys, keys that are not hashable in the same way after being read"
ASSUMPTIONS = ["the options dict_like_keys_name and dict_like_values_name differ", "keys are unequal"]
TIME = {"quick": 60, "thorough": 500}
OPTS = ("delete_unused_variables", "dict_like_keys_name", "dict_like_values_name")
KEYS = ["str0", "str1", "str2", "str3", "bytes0", "bytes1", "bytes2", "np.U1", "np.U2", "np.S1", "np.S2", "int", "big", "bool",
        "float", "complex", "none", "ellipsis", "tuple", "frozenset", "np.<i4", "np.>f8", "date", "=keys", "=values", "=#refs#",
        "=/#refs#", "=refs", "=.", "=..", "=a/b", "=\\", "=\\x41", "b=\\x2f", "b=é", "=0", "=a\x00"]
PAIRS = [("str1", "str1"), ("str1", "bytes1"), ("bytes1", "bytes1"), ("str1", "np.U1"), ("np.S1", "bytes1"), ("np.U1", "np.S1"),
         ("str0", "bytes0"), ("str2", "str1"), ("str1", "int"), ("int", "int"), ("none", "str1"), ("=keys", "=values"),
         ("=values", "=keys"), ("=#refs#", "str1"), ("tuple", "str1"), ("bool", "float"), ("str2", "bytes2"), ("str2", "np.U2"),
         ("=/", "=\\x2f"), ("=a\x00", "=a"), ("=.", "=\\x2e"), ("str1", "=keys"), ("b=é", "=é")]
VALUES = ["float", "big", "bool", "str2", "bytes1", "none", "array", "array0", "empty", "list", "set", "dict", "dict2", "dict0",
          "objects", "struct", "date", "np.U1", "np.<c8"]


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for k in KEYS:
            out.append(("h_keys", {"kinds": [k], "mode": mode, "cls": "dict"}))
            out.append(("h_nested", {"kind": k, "where": "dict", "mode": mode}))
            out.append(("h_nested", {"kind": k, "where": "list", "mode": mode}))
        for p in PAIRS:
            out.append(("h_keys", {"kinds": list(p), "mode": mode, "cls": "OrderedDict"}))
        if tier != "quick":
            for p in PAIRS:
                out.append(("h_keys", {"kinds": list(p[::-1]), "mode": mode, "cls": "dict"}))
            for a in KEYS:
                for b in ("str1", "bytes2", "np.U2", "int"):
                    out.append(("h_keys", {"kinds": [a, b], "mode": mode, "cls": "dict"}))
        out.append(("h_keys", {"kinds": ["str1", "str1", "str1"], "mode": mode, "cls": "dict"}))
        out.append(("h_keys", {"kinds": ["str1", "bytes1", "np.U1"], "mode": mode, "cls": "dict"}))
        for v in VALUES:
            out.append(("h_values", {"key": "str1", "value": v, "mode": mode}))
            out.append(("h_values", {"key": "int", "value": v, "mode": mode}))
        out.append(("h_keys", {"kinds": [], "mode": mode, "cls": "dict"}))
        out.append(("h_keys", {"kinds": [], "mode": mode, "cls": "OrderedDict"}))
        out.append(("h_below", {"mode": mode}))
        for k in ("str1", "bytes1", "int", "np.U1") + (() if tier == "quick" else ("str2", "bytes2")):
            out.append(("h_many", {"kind": k, "n": 30 if tier == "quick" else 200, "mode": mode}))
        for n in (4000, 4001, 4500) if tier != "quick" else (4200,):
            out.append(("h_header", {"n": n, "mode": mode}, 40))
        for n in (64, 300, 1024) if tier == "quick" else (64, 255, 256, 300, 1024):
            out.append(("h_long", {"n": n, "mode": mode}))
    return out


def key(ctx, name, kind):
    if kind.startswith("="):
        return kind[1:]
    if kind.startswith("b="):
        return kind[2:].encode("utf-8")
    return LIB.element(ctx, name, kind)


def compare(ctx, r, d):
    ctx.check("same type", type(r) is type(d))
    ctx.check("as many", len(r) == len(d))
    for (k, v), (k1, v1) in zip(r.items(), d.items()):
        ctx.check("same key", ctx.same(k, k1, False))
        ctx.check("same value", ctx.same(v, v1, False))


def make(ctx, cls, kinds):
    ks = [key(ctx, "k%d" % i, k) for i, k in enumerate(kinds)]
    for i in range(len(ks)):
        for j in range(i):
            ctx.assume(ctx.Not(ks[i] == ks[j]))
        if kinds[i] in ("float", "complex", "np.>f8"):
            ctx.assume(ks[i] == ks[i])
    vs = [ctx.int("v%d" % i, -(1 << 63), (1 << 63) - 1) for i in range(len(ks))]
    return ctx.make(cls, list(zip(ks, vs)))


def opts(ctx, mode, *names):
    o = LIB.options(ctx, mode, *names)
    if "dict_like_keys_name" in o:
        ctx.assume(o["dict_like_keys_name"] != o["dict_like_values_name"])
    return o


def h_keys(ctx, kinds, mode, cls):
    d = make(ctx, {"dict": dict, "OrderedDict": collections.OrderedDict}[cls], kinds)
    plain = len(kinds) == 1 and kinds[0] not in ("str2", "str3", "big")
    o = opts(ctx, mode, *(OPTS if plain else ("delete_unused_variables",)))
    r = LIB.write_read(ctx, d, o, ropts=LIB.reader(ctx, mode, o))
    compare(ctx, r, d)


def h_nested(ctx, kind, where, mode):
    d = make(ctx, dict, [kind])
    o = opts(ctx, mode, "group_for_references")
    if where == "dict":
        r = LIB.write_read(ctx, {"a": 1, "d": d}, o)
        ctx.check("outer", type(r) is dict and list(r) == ["a", "d"])
        r = r["d"]
    else:
        r = LIB.write_read(ctx, [d], o)
        ctx.check("outer", type(r) is list and len(r) == 1)
        r = r[0]
    compare(ctx, r, d)


def h_values(ctx, key, value, mode):
    k = LIB.element(ctx, "k", key)
    d = ctx.make(dict, [(k, LIB.element(ctx, "v", value))])
    o = opts(ctx, mode, "delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d")
    r = LIB.write_read(ctx, d, o, ropts=LIB.reader(ctx, mode, o))
    compare(ctx, r, d)


def h_many(ctx, kind, n, mode):
    """Many keys, one of which is arbitrary, in an order that is not sorted."""
    k = LIB.element(ctx, "k", kind)
    ks = ["%d." % (i * 7 % n) if i % 2 else ("x%d" % i).encode() for i in range(n)]
    ks.insert(n // 2, k)
    d = ctx.make(dict, [(x, i) for i, x in enumerate(ks)])
    o = opts(ctx, mode)
    compare(ctx, LIB.write_read(ctx, d, o), d)


def h_header(ctx, n, mode):
    """More keys than the attributes that list them have room for."""
    d = ctx.make(dict, [("k%d" % (i * 11 % n), i) for i in range(n)] + [("last", ctx.int("v", 0, 255))])
    compare(ctx, LIB.write_read(ctx, d, opts(ctx, mode)), d)


def h_long(ctx, n, mode):
    """Long keys that differ in one arbitrary character at one end."""
    a, b = ctx.str("a", 1), ctx.str("b", 1)
    ctx.assume(ctx.Not(a == b))
    d = ctx.make(dict, [("k" * n + a, 1), ("k" * n + b, 2), (a + "k" * n, 3), ("k" * n, 4)])
    compare(ctx, LIB.write_read(ctx, d, opts(ctx, mode)), d)


def h_below(ctx, mode):
    g = ctx.str("g", 1)
    ctx.assume(ctx.Not(g[0:1] == "\x00"))
    p = ctx.hs.pathesc
    d = make(ctx, dict, ["str1"])
    o = opts(ctx, mode, "group_for_references")
    try:
        r = LIB.write_read(ctx, d, o, path=[g, "x"])
    except UnicodeEncodeError:
        # surrogates are not in HDF5 names
        c = LIB.code(g[0])
        ctx.check("a surrogate", ctx.And(c >= 0xD800, c <= 0xDFFF))
        return
    compare(ctx, r, d)
