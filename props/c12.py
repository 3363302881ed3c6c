"""C12: slices, ranges, dates, times, fractions and counters read back equal."""
import collections
import datetime

BOUNDS = ("slices of None, ints (64 bit, or of 20 digits), text, floats and lists; ranges of three arbitrary 64 bit or 20 digit "
          "ints; every date, time and datetime with no, UTC, and arbitrary (named by up to 2 arbitrary characters) timezones and "
          "both folds; every timedelta and timezone; Fractions of arbitrary coprime 64 bit terms; Counters of 0..2 arbitrary "
          "keys and counts, and of 40 keys; ChainMaps of up to 2 mappings with arbitrary keys, and of 9; slices, ranges and Fractions of up to 45 digits; at the top level, in a list, in a dict; slices, Counters, dicts and ChainMaps of one or two parts nested in every way 2 deep (3 with dicts at the bottom, always when thorough); with what "
          "was stored before being nothing or another object of these types; MATLAB compatible or not")
OUTSIDE = "tzinfo of other classes than datetime.timezone (their writing is refused), more keys, nesting beyond that"
TIME = {"quick": 60, "thorough": 400}
OPTS = ("delete_unused_variables", "group_for_references")
I64 = (-(1 << 63), (1 << 63) - 1)
ZONES = ["none", "utc", "fixed", "named0", "named1", "named2"]
SLICES = [("none", "int", "none"), ("int", "int", "int"), ("none", "none", "none"), ("big", "none", "int"), ("str1", "bytes1", "float"),
          ("np.<i4", "bool", "none"), ("list", "tuple", "none"), ("dict", "none", "array"), ("int", "big", "none")]
BEFORE = ["slice", "range", "date", "datetime", "timedelta", "fraction", "counter", "chainmap"]


def jobs(tier):
    out = []
    for mode in ("matlab", "plain"):
        for s in SLICES:
            out.append(("h_slice", {"kinds": list(s), "mode": mode}))
        out.append(("h_range", {"mode": mode, "kinds": ["int", "int", "int"]}))
        out.append(("h_range", {"mode": mode, "kinds": ["big", "int", "big"]}))
        out.append(("h_date", {"mode": mode}))
        for z in ZONES:
            out.append(("h_time", {"mode": mode, "zone": z}))
            out.append(("h_datetime", {"mode": mode, "zone": z}))
            if z != "none":
                out.append(("h_timezone", {"mode": mode, "zone": z}))
        out.append(("h_timedelta", {"mode": mode}))
        out.append(("h_fraction", {"mode": mode}))
        for ks in ([], ["str1"], ["int"], ["bytes1"], ["str1", "bytes1"], ["int", "str1"], ["none", "tuple"]):
            for cnt in ("int", "big", "float") if len(ks) < 2 else ("int", "float"):
                out.append(("h_counter", {"mode": mode, "kinds": ks, "count": cnt}))
        for ks in ([], ["str1"], ["int"], ["str1", "str1"], ["int", "bytes1"], ["str1", "int"]):
            out.append(("h_chainmap", {"mode": mode, "kinds": ks}))
        for ks in (["empty"], ["empty", "str1"], ["str1", "empty"], ["empty", "empty"], ["str1", "empty", "int"]):
            out.append(("h_chainmap", {"mode": mode, "kinds": ks}))
        for a in BEFORE:
            for b in BEFORE:
                out.append(("h_over", {"mode": mode, "before": a, "after": b}))
            out.append(("h_inside", {"mode": mode, "kind": a}))
        for k in ("int", "dict") + (("range", "timedelta") if tier == "quick" else tuple(BEFORE)):
            for n in (2, 3) if tier != "quick" or k == "dict" else (2,):
                out.append(("h_nested", {"mode": mode, "leaf": k, "n": n}))
        for n in (12, 40):
            out.append(("h_many", {"n": n, "mode": mode, "what": "counter"}))
        for n in (3, 5, 9, 12):
            out.append(("h_many", {"n": n, "mode": mode, "what": "chainmap"}))
        for n in (25, 45):
            for w in ("fraction", "range", "slice"):
                out.append(("h_many", {"n": n, "mode": mode, "what": w}))
    return out


def check(ctx, v, mode, pre=None, names=OPTS):
    o = LIB.options(ctx, mode, *names)
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o), pre=pre)
    same(ctx, r, v)


def same(ctx, r, v):
    ctx.check("same type", type(r) is type(v))
    ctx.check("equal", ctx.same(r, v, False))


def zone(ctx, name, z):
    if z == "none":
        return None
    if z == "utc":
        return datetime.timezone.utc
    d = delta(ctx, name, -1, 0)
    ctx.assume(ctx.Or(d.days == 0, d.seconds > 0, d.microseconds > 0))
    if z == "fixed":
        return ctx.make(datetime.timezone, d)
    return ctx.make(datetime.timezone, d, LIB.element(ctx, name + ".name", "str" + z[5:]))


def delta(ctx, name, lo=-999999999, hi=999999999):
    return ctx.make(datetime.timedelta, ctx.int(name + ".d", lo, hi), ctx.int(name + ".s", 0, 86399),
                    ctx.int(name + ".us", 0, 999999))


def date(ctx, name):
    return ctx.ymd(name)


def clock(ctx, name):
    return (ctx.int(name + ".h", 0, 23), ctx.int(name + ".min", 0, 59), ctx.int(name + ".sec", 0, 59),
            ctx.int(name + ".us", 0, 999999))


def value(ctx, name, kind):
    if kind == "slice":
        return slice(ctx.int(name + ".0", *I64), None, ctx.int(name + ".2", *I64))
    if kind == "range":
        s = ctx.int(name + ".2", *I64)
        ctx.assume(ctx.Not(s == 0))
        return ctx.make(range, ctx.int(name + ".0", *I64), ctx.int(name + ".1", *I64), s)
    if kind == "date":
        return ctx.make(datetime.date, *date(ctx, name))
    if kind == "datetime":
        return ctx.make(datetime.datetime, *date(ctx, name), *clock(ctx, name), zone(ctx, name + ".z", "fixed"),
                        fold=ctx.int(name + ".fold", 0, 1))
    if kind == "timedelta":
        return delta(ctx, name)
    if kind == "fraction":
        return ctx.fraction(ctx.int(name + ".n", *I64), ctx.int(name + ".d", 1, I64[1]))
    if kind == "counter":
        return ctx.make(collections.Counter, {ctx.int(name + ".k", *I64): ctx.int(name + ".v", *I64)})
    return collections.ChainMap({"a": ctx.int(name + ".0", *I64)}, {"b": ctx.int(name + ".1", *I64)})


def h_slice(ctx, kinds, mode):
    check(ctx, slice(*[LIB.element(ctx, "e%d" % i, k) for i, k in enumerate(kinds)]), mode)


def h_range(ctx, kinds, mode):
    a, b, c = [LIB.element(ctx, "e%d" % i, k) for i, k in enumerate(kinds)]
    ctx.assume(ctx.Not(c == 0))
    check(ctx, ctx.make(range, a, b, c), mode)


def h_date(ctx, mode):
    check(ctx, ctx.make(datetime.date, *date(ctx, "d")), mode)


def h_time(ctx, mode, zone):
    check(ctx, ctx.make(datetime.time, *clock(ctx, "t"), globals()["zone"](ctx, "z", zone), fold=ctx.int("fold", 0, 1)), mode,
          names=OPTS[:1])


def h_datetime(ctx, mode, zone):
    check(ctx, ctx.make(datetime.datetime, *date(ctx, "d"), *clock(ctx, "t"), globals()["zone"](ctx, "z", zone),
                        fold=ctx.int("fold", 0, 1)), mode, names=OPTS[:1])


def h_timezone(ctx, mode, zone):
    check(ctx, globals()["zone"](ctx, "z", zone), mode)


def h_timedelta(ctx, mode):
    check(ctx, delta(ctx, "d"), mode)


def h_fraction(ctx, mode):
    check(ctx, value(ctx, "q", "fraction"), mode)


def h_counter(ctx, kinds, count, mode):
    ks = [LIB.element(ctx, "k%d" % i, k) for i, k in enumerate(kinds)]
    if len(ks) == 2:
        ctx.assume(ctx.Not(ks[0] == ks[1]))
    v = ctx.make(collections.Counter, ctx.make(dict, [(k, LIB.element(ctx, "v%d" % i, count)) for i, k in enumerate(ks)]))
    check(ctx, v, mode)


def h_chainmap(ctx, kinds, mode):
    ms = [{} if k == "empty" else ctx.make(dict, [(LIB.element(ctx, "k%d" % i, k), ctx.int("v%d" % i, *I64))])
          for i, k in enumerate(kinds)]
    if len(ms) == 2 and ms[1]:
        ms[1] = ctx.make(collections.OrderedDict, ms[1])
    v = ctx.make(collections.ChainMap, *ms)
    o = LIB.options(ctx, mode, *OPTS)
    r = LIB.write_read(ctx, v, o, ropts=LIB.reader(ctx, mode, o))
    same(ctx, r, v)
    ctx.check("as many mappings", len(r.maps) == len(v.maps))
    for x, y in zip(r.maps, v.maps):
        same(ctx, x, y)


def h_nested(ctx, mode, leaf, n):
    """Objects of these types that are parts of each other, in every way."""
    v = ctx.int("e", *I64) if leaf == "int" else {"k": ctx.int("e", *I64)} if leaf == "dict" else value(ctx, "e", leaf)
    for i in range(n):
        ways = ["slice", "slice0", "counter", "dict", "value", "ordered"]
        if isinstance(v, dict) or isinstance(v, collections.ChainMap):
            ways += ["map", "map0", "map1"]
        w = ctx.choose("way%d" % i, ways)
        if w == "slice":
            v = slice(None, v, None)
        elif w == "slice0":
            v = slice(v, 2, "c")
        elif w == "counter":
            v = collections.Counter({"k": v})
        elif w == "dict":
            v = {"k": v}
        elif w == "ordered":
            v = collections.OrderedDict(k=v)
        elif w == "value":
            v = collections.ChainMap({"k": v})
        elif w == "map":
            v = collections.ChainMap(v)
        elif w == "map0":
            v = collections.ChainMap({}, v)
        else:
            v = collections.ChainMap(v, {"k": 0})
    o = LIB.options(ctx, mode, "group_for_references")
    deep(ctx, LIB.write_read(ctx, v, o), v)


def deep(ctx, r, v):
    """The same objects all the way down."""
    ctx.check("same type", type(r) is type(v))
    if isinstance(v, slice):
        for x, y in ((r.start, v.start), (r.stop, v.stop), (r.step, v.step)):
            deep(ctx, x, y)
    elif isinstance(v, collections.ChainMap):
        ctx.check("as many mappings", len(r.maps) == len(v.maps))
        for x, y in zip(r.maps, v.maps):
            deep(ctx, x, y)
    elif isinstance(v, dict):
        ctx.check("same keys", list(r) == list(v))
        for k in v:
            deep(ctx, r[k], v[k])
    else:
        same(ctx, r, v)


def h_many(ctx, what, n, mode):
    """Many keys and mappings, and long numbers."""
    if what == "counter":
        ks = [[i, "k%d" % i, b"b%d" % i, (i,), float(i) + .5][i % 5] for i in range(n)]
        ks[n // 2] = ctx.str("k", 1)
        v = ctx.make(collections.Counter, ctx.make(dict, [(k, i * i) for i, k in enumerate(ks[:-1])]
                                                   + [(ks[-1], ctx.int("v", *I64))]))
    elif what == "chainmap":
        ms = [{"m": i, i: "%d" % i} if i % 3 else collections.OrderedDict([("z", i), ("a", [i])]) for i in range(n)]
        ms[n // 2] = ctx.make(dict, [(ctx.str("k", 1), 0), ("end", 1)])
        ms[-1] = {"last": ctx.int("v", *I64)}
        v = collections.ChainMap(*ms)
    else:
        a, b, c = [ctx.bigint("n%d" % i, n, "31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253"[:n - 2])
                   for i in range(3)]
        v = slice(a, b, None) if what == "slice" else ctx.make(range, a, b, c) if what == "range" else ctx.fraction(a, b)
    r = LIB.write_read(ctx, v, LIB.options(ctx, mode, *OPTS))
    same(ctx, r, v)
    if what == "chainmap":
        ctx.check("as many mappings", len(r.maps) == n)
        for x, y in zip(r.maps, v.maps):
            same(ctx, x, y)
    if what == "counter":
        for x, y in zip(r.items(), v.items()):
            ctx.check("the same item, in order", ctx.same(x, y, False))


def h_over(ctx, before, after, mode):
    """Fields of what was there before do not leak into what is read."""
    check(ctx, value(ctx, "v", after), mode, pre=value(ctx, "p", before), names=OPTS[:1])


def h_inside(ctx, kind, mode):
    v = value(ctx, "v", kind)
    o = LIB.options(ctx, mode, *OPTS)
    outer = ctx.choose("outer", ["list", "dict", "tuple"])
    x = {"list": lambda: [v, 1], "dict": lambda: {"a": v, "b": 1}, "tuple": lambda: (v,)}[outer]()
    r = LIB.write_read(ctx, x, o)
    ctx.check("outer", type(r) is type(x) and len(r) == len(x))
    same(ctx, r["a"] if outer == "dict" else r[0], v)
