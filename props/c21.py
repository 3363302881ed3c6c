"""C21: compression settings are applied to exactly the data the options name."""
import h5py
import numpy as np

BOUNDS = ("all of compress, shuffle and both checksum options, any threshold of up to 2**62, each algorithm and every gzip level, "
          "for Datasets of 0 to 40 bytes of 16 kinds of values (arrays, text, structures, sequences, dicts) of arbitrary contents, new or written "
          "over one that was written with any of four other settings or shapes; the same data again with one other setting (of any level); and the same threshold on both sides of the size of bigger arrays")
OUTSIDE = "szip's own settings; Datasets of a bigger size than 64 KiB; what the filters do (HDF5's)"
TIME = {"quick": 45, "thorough": 300}
KINDS = ["array", "array2", "array0", "empty", "int", "str2", "bytes2", "float", "np.S2", "np.U1", "none", "bool", "struct", "list",
         "dict", "objects"]
FIRST = {
    "off": {"compress": False},
    "gzip": {"compress_size_threshold": 0},
    "lzf": {"compress_size_threshold": 0, "compression_algorithm": "lzf", "shuffle_filter": False},
    "sum": {"compress": False, "uncompressed_fletcher32_filter": True},
}


def jobs(tier):
    out = []
    for k in KINDS:
        for alg in ("gzip", "lzf"):
            for mode in ("plain", "matlab", "shape"):
                if mode == "matlab" and alg != "gzip":
                    continue
                out.append(("h_new", {"kind": k, "alg": alg, "mode": mode}))
                if tier != "quick" or k in ("array", "str2", "empty", "list", "np.U1"):
                    for first in FIRST:
                        out.append(("h_over", {"kind": k, "alg": alg, "mode": mode, "first": first}))
    for n in (2, 16384, 16385, 2048, 65536):
        out.append(("h_size", {"nbytes": n}))
    for k in ("array", "array2", "str2", "struct", "list"):
        for what in ("level", "alg", "shuffle_filter", "compressed_fletcher32_filter", "uncompressed_fletcher32_filter",
                     "compress_size_threshold", "compress"):
            out.append(("h_again", {"kind": k, "what": what}))
    out.append(("h_levels", {}))
    out.append(("h_default", {}))
    return out


MODES = {"plain": {"matlab_compatible": False}, "matlab": {"matlab_compatible": True},
         "shape": {"matlab_compatible": False, "make_atleast_2d": True, "store_shape_for_empty": True, "convert_numpy_bytes_to_utf16": True}}


def settings(ctx, alg):
    o = {"compression_algorithm": alg}
    for n in ("compress", "shuffle_filter", "compressed_fletcher32_filter", "uncompressed_fletcher32_filter"):
        o[n] = ctx.bool(n)
    o["compress_size_threshold"] = ctx.int("threshold", 0, 1 << 62)
    return o


def check(ctx, d, o):
    """A Dataset has the filters of the options."""
    scalar = d.shape == ()
    size = int(np.prod(d.shape)) * d.dtype.itemsize
    if not scalar and o.get("compress", True) and size >= o.get("compress_size_threshold", 16 * 1024):
        alg = o.get("compression_algorithm", "gzip")
        ctx.check("compressed with the algorithm", d.compression == alg)
        if alg == "gzip":
            ctx.check("the level", d.compression_opts == o.get("gzip_compression_level", 7))
        ctx.check("shuffled", d.shuffle == bool(o.get("shuffle_filter", True)))
        ctx.check("checksum", d.fletcher32 == bool(o.get("compressed_fletcher32_filter", True)))
    else:
        ctx.check("not compressed", d.compression is None and not d.shuffle)
        ctx.check("checksum", d.fletcher32 == (not scalar and bool(o.get("uncompressed_fletcher32_filter", False))))


def everything(ctx, g, o):
    for n in g:
        if isinstance(g[n], h5py.Group):
            everything(ctx, g[n], o)
        elif not (n == "a" and g.name == "/#refs#"):
            check(ctx, g[n], o)


def put(ctx, fn, v, o):
    f = ctx.call(ctx.hs.File, fn, writable=True, **o)
    f.write(v, "/x")
    f.close()


def verify(ctx, fn, v, o):
    h = h5py.File(fn, "r")
    if isinstance(h["x"], h5py.Group):
        everything(ctx, h["x"], o)
    else:
        check(ctx, h["x"], o)
        if h5py.check_dtype(ref=h["x"].dtype) is not None:
            everything(ctx, h["#refs#"], o)
    h.close()
    f = ctx.call(ctx.hs.File, fn, **{k: o[k] for k in o if k in MODES["shape"]})
    ctx.check("reads back the same", ctx.same(f.read("/x"), v, False))
    f.close()


def h_new(ctx, kind, alg, mode):
    o = dict(MODES[mode], **settings(ctx, alg))
    v = LIB.simple(ctx, "v", kind)
    fn = ctx.path()
    put(ctx, fn, v, o)
    verify(ctx, fn, v, o)


def h_over(ctx, kind, alg, mode, first):
    o = dict(MODES[mode], **settings(ctx, alg))
    fn = ctx.path()
    # of the same shape and type or another
    put(ctx, fn, LIB.simple(ctx, "p", ctx.choose("before", [kind, "array2"])), dict(MODES[mode if first != "lzf" else "plain"], **FIRST[first]))
    v = LIB.simple(ctx, "v", kind)
    put(ctx, fn, v, o)
    verify_over(ctx, fn, v, o)


def verify_over(ctx, fn, v, o):
    """What is referred to by now (what was before may be left)."""
    h = h5py.File(fn, "r")
    if isinstance(h["x"], h5py.Group):
        everything(ctx, h["x"], o)
        h.close()
        return
    lists = h5py.check_dtype(ref=h["x"].dtype) is not None
    if not lists:
        check(ctx, h["x"], o)
    else:
        for i in np.ndindex(*h["x"].shape):
            check(ctx, h[h["x"][i]], o)
        check(ctx, h["x"], o)
    h.close()
    f = ctx.call(ctx.hs.File, fn, **{k: o[k] for k in o if k in MODES["shape"]})
    ctx.check("reads back the same", ctx.same(f.read("/x"), v, False))
    f.close()


def h_again(ctx, kind, what):
    """The same is written again with one other setting."""
    o = {"matlab_compatible": what != "alg" and ctx.choose("matlab", [False, True]), "compress_size_threshold": 0}
    if what == "level":
        was, now = ctx.int("was", 0, 9), ctx.int("now", 0, 9)
        what = "gzip_compression_level"
    elif what == "alg":
        was, now = ctx.choose("was", ["gzip", "lzf"]), ctx.choose("now", ["gzip", "lzf"])
        what = "compression_algorithm"
    elif what == "compress_size_threshold":
        was, now = [ctx.int(n, 0, 1000) for n in ("was", "now")]
    else:
        was, now = ctx.bool("was"), ctx.bool("now")
        if what == "uncompressed_fletcher32_filter":
            o["compress"] = False
    v = LIB.simple(ctx, "v", kind)
    fn = ctx.path()
    put(ctx, fn, v, dict(o, **{what: was}))
    put(ctx, fn, v, dict(o, **{what: now}))
    verify_over(ctx, fn, v, dict(o, **{what: now}))


def h_size(ctx, nbytes):
    """Around the threshold for other sizes, also of what is stored and not of what is given."""
    o = {"matlab_compatible": False, "compress_size_threshold": ctx.int("threshold", 0, 1 << 20)}
    if nbytes > 1000:
        o["compression_algorithm"] = ctx.choose("alg", ["gzip", "lzf", "szip"])
    v = ctx.choose("v", [np.zeros((nbytes,), "u1"), np.zeros((nbytes // 2, 2), "b1"), np.zeros((nbytes // 2,), "<i2")])
    fn = ctx.path()
    put(ctx, fn, v, o)
    verify(ctx, fn, v, o)


def h_levels(ctx):
    """Any level that is one, and what is not one is not taken."""
    lv = ctx.int("level", -3, 12)
    o = {"matlab_compatible": ctx.choose("matlab", [True, False]), "compress_size_threshold": 0, "gzip_compression_level": lv}
    v = ctx.array("v", "<i4", (2, 2))
    fn = ctx.path()
    put(ctx, fn, v, o)
    if not (0 <= lv <= 9):
        del o["gzip_compression_level"]
    verify(ctx, fn, v, o)


def put_at(ctx, fn, v, path, options):
    f = ctx.call(ctx.hs.File, fn, writable=True, options=options)
    f.write(v, path)
    f.close()


def h_default(ctx):
    """Setting options applies to what is written then."""
    fn = ctx.path()
    o = ctx.call(ctx.hs.Options, matlab_compatible=False, compress=False)
    a, b, c = [ctx.array(n, "<i4", (2,)) for n in "abc"]
    s = ctx.bool("shuffle")
    put_at(ctx, fn, a, "/a", o)
    o.compress = True
    o.compress_size_threshold = 0
    o.shuffle_filter = s
    put_at(ctx, fn, b, "/b", o)
    o.compression_algorithm = "lzf"
    put_at(ctx, fn, c, "/c", o)
    h = h5py.File(fn, "r")
    check(ctx, h["a"], {"compress": False})
    check(ctx, h["b"], {"compress_size_threshold": 0, "shuffle_filter": s})
    check(ctx, h["c"], {"compress_size_threshold": 0, "shuffle_filter": s, "compression_algorithm": "lzf"})
    h.close()
