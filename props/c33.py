"""C33: Reading a file never runs or imports what the file names."""
import collections
import datetime
import fractions
import importlib
import pydoc
import sys

import h5py
import numpy as np

BOUNDS = ("objects of 18 kinds as this package writes them, and plain Groups and Datasets, of which any one attribute (of the 13 that are read) is any text of 1..3 (quick) / 1..6 "
          "(thorough) bytes, any of the known type strings, MATLAB classes, containers, underlying types or ways to store dicts, an arbitrary int in -2..3, 0..2 of them, an array of 0..2 arbitrary texts, a float or "
          "empty; with type strings that need no module of another; texts of numpy.dtype objects of 1..3 (quick) / 1..8 arbitrary characters; two of them at once that name types, or one and another that is any text of 2 bytes or gone; plain and MATLAB options")
OUTSIDE = "sizes that do not fit in memory; more than two hostile attributes on one object; hostile code in installed plugins; files that are not valid HDF5"
TIME = {"quick": 45, "thorough": 400}

ATTRS = ["Python.Type", "MATLAB_class", "MATLAB_empty", "MATLAB_fields", "MATLAB_int_decode", "Python.Empty", "Python.Fields", "Python.Shape",
         "Python.dict.StoredAs", "Python.dict.key_str_types", "Python.dict.keys_values_names", "Python.numpy.Container", "Python.numpy.UnderlyingType"]
KINDS = {
    "int": lambda: 5, "str": lambda: "ab", "bytes": lambda: b"ab", "array": lambda: np.array([[1, 2], [3, 4]], "int16"), "text": lambda: np.array(["a", "bc"]),
    "bytes_": lambda: np.bytes_(b"xy"), "complex": lambda: 1 + 2j, "none": lambda: None, "empty": lambda: np.zeros((0, 2)), "list": lambda: [1, "a"], "tuple": lambda: (1,),
    "dict": lambda: {"a": 1, "b": "c"}, "mixed": lambda: {"a": 1, 2: 3}, "counter": lambda: collections.Counter({"a": 2}), "slice": lambda: slice(1, 2),
    "date": lambda: datetime.date(2001, 2, 3), "fraction": lambda: fractions.Fraction(1, 2), "struct": lambda: np.array([(1, 2.0)], [("a", "i4"), ("b", "f8")]),
    "dtype": lambda: np.dtype("int8"), "bool": lambda: np.array([True, False]), "char": lambda: np.str_("hi"),
}
# Groups and Datasets without metadata
RAW = ["group", "dataset", "floats", "strings"]
PAIRED = ["text", "dict", "struct", "date", "floats"]


def jobs(tier):
    out = []
    for mode in ("plain", "matlab"):
        for k in list(KINDS) + RAW:
            out.append(("h_attribute", {"mode": mode, "kind": k, "form": "text"}))
            out.append(("h_attribute", {"mode": mode, "kind": k, "form": "known"}))
            out.append(("h_attribute", {"mode": mode, "kind": k, "form": "other"}))
        for k in PAIRED if tier == "quick" else list(KINDS) + RAW:
            out.append(("h_pair", {"mode": mode, "kind": k}))
    out.append(("h_dtype", {"n": 0}))
    for n in range(1, 4 if tier == "quick" else 9):
        out.append(("h_dtype", {"n": n}))
    for form in ("text", "known"):
        out.append(("h_members", {"form": form}))
    return out


DEBUG = False
MODES = {"plain": {"matlab_compatible": False}, "matlab": {"matlab_compatible": True}}
CLASSES = ["logical", "char", "double", "int8", "cell", "struct", "canonical empty", "FileWrapper__", "function_handle"]
CONTAINERS = ["scalar", "ndarray", "matrix", "chararray", "recarray"]
UNDERLYING = ["int8", "uint16", "float64", "complex64", "bool", "bytes", "bytes16", "str", "str64", "object", "void64", "bytes7", "strx", "datetime64", "S3", "O"]
STORED = ["individually", "keys_values"]
HOSTILE = ["os.system", "builtins.eval", "subprocess.Popen", "posix.system", "os", "__import__", "antigravity", "symxhostile.thing", "numpy.load", "pickle.loads", "type", "open"]


def known(ctx, attr):
    if attr == "Python.Type":
        out = []
        for c in [getattr(ctx.Marshallers, n) for n in dir(ctx.Marshallers)]:
            if isinstance(c, type) and issubclass(c, ctx.Marshallers.TypeMarshaller):
                out += list(c().python_type_strings)
        return out + HOSTILE
    if attr == "MATLAB_class":
        return CLASSES + HOSTILE
    if attr == "Python.numpy.Container":
        return CONTAINERS + HOSTILE[:4]
    if attr == "Python.numpy.UnderlyingType":
        return UNDERLYING + HOSTILE[:4]
    if attr == "Python.dict.StoredAs":
        return STORED + HOSTILE[:4]
    return None


def hostile(ctx, attr, form):
    """What the attribute is, and what text it has."""
    if form == "known":
        v = ctx.choose("value", known(ctx, attr))
        return np.bytes_(v.encode()), [v]
    if form == "text":
        n = ctx.choose("n", [1, 2, 3] if ctx.tier == "quick" else [1, 2, 3, 4, 6])
        s = ctx.bytes("s", n, 1)
        return np.bytes_(s), [s.decode("latin-1")]
    k = ctx.choose("form", ["int", "ints", "texts", "float", "empty", "unicode"])
    if k == "int":
        return np.int64(ctx.int("i", -2, 3)), []
    if k == "ints":
        return np.array([ctx.int("i%d" % j, -2, 3) for j in range(ctx.choose("n", [0, 1, 2]))], "int64"), []
    if k == "texts":
        return ctx.array("t", "S2", (ctx.choose("n", [0, 1, 2]),)), []
    if k == "float":
        return np.float64(ctx.choose("f", [float("nan"), 1.0, -0.5])), []
    if k == "empty":
        return h5py.Empty("S1"), []
    s = ctx.choose("u", ["\u20ac", "int", "", "os.system"])
    return s, [s]


CODE = ["__import__('os')", "open", "[('a', 'i4')]", "'int8'", "().__class__", "{'names': ['a'], 'formats': ['i4']}", "'O'", "print(1)", "1 + 1", "[('a', '>i2', (2,))]", "'os.system'",
        "lambda: 0", "[x for x in ()]", "f'{open}'", "None", "((", "'\\x00'", "numpy.memmap('y')", "numpy.int8(1)", "numpy.record", "(numpy.record, [('a', 'i4')])",
        "numpy.lib", "numpy.random.seed", "(numpy.load, 'y')", "[numpy.int8, numpy.f2py]", "os.system", "numpy.void.mro()"]
MODULES = {"builtins", "numpy", "collections", "datetime", "fractions"}


class Watch:
    """Notices when the package runs, imports or looks up what the file names."""

    def __init__(self, ctx):
        self.ctx, self.texts = ctx, []

    def named(self, name):
        """Whether it is in the file."""
        if not isinstance(name, str):
            return False
        for t in self.texts:
            if len(t) and (t == name or len(name) and t.startswith(name + ".") or t.endswith("." + name)):
                return not any(name == m for m in MODULES)
        return False

    def no(self, what, name):
        self.ctx.check("does not %s what the file names" % what, not self.named(name))

    def run(self, f):
        """Call f while watching the package."""
        real_import, real_module, real_getattr, real_locate = __import__, importlib.import_module, getattr, pydoc.locate

        def evaluate(code, *a):
            self.ctx.check("does not evaluate text", False)

        def imports(name, *a, **k):
            self.no("import", name)
            return real_import(name, *a, **k)

        def module(name, *a, **k):
            self.no("import", name)
            return real_module(name, *a, **k)

        def get(o, name, *default):
            if isinstance(o, (type, type(h5py))):
                self.no("look up", name)
            return real_getattr(o, name, *default)

        def locate(name, *a, **k):
            self.no("look up", name)
            return real_locate(name, *a, **k)

        mods = [m for n, m in self.ctx.mods.items()]
        for m in mods:
            for k, v in (("eval", evaluate), ("exec", evaluate), ("__import__", imports), ("getattr", get)):
                m.__dict__[k] = v
        importlib.import_module, pydoc.locate = module, locate
        calls = [0]

        def count(frame, event, arg):
            if event == "call":
                calls[0] += 1
                if calls[0] > 400000:
                    sys.setprofile(None)
                    self.ctx.check("ends", False)

        if not self.ctx.symbolic:
            sys.setprofile(count)
        try:
            return f()
        finally:
            sys.setprofile(None)
            importlib.import_module, pydoc.locate = real_module, real_locate
            for m in mods:
                for k in ("eval", "exec", "__import__", "getattr"):
                    m.__dict__.pop(k, None)


TYPES = (int, float, complex, str, bytes, bytearray, bool, type(None), type(...), type(NotImplemented), list, tuple, set, frozenset, dict, collections.deque,
         collections.OrderedDict, collections.Counter, collections.ChainMap, slice, range, datetime.date, datetime.time, datetime.datetime, datetime.timedelta,
         datetime.tzinfo, fractions.Fraction, np.generic, np.ndarray, np.dtype, h5py.Reference)


def verify(ctx, fn, mode, texts):
    f = ctx.call(ctx.hs.File, fn, **MODES[mode])
    w = Watch(ctx)
    w.texts += texts
    r, e = w.run(lambda: ctx.attempt(f.read, "/x"))
    f.close()
    if DEBUG:
        print("symbolic" if ctx.symbolic else "real", repr(e), type(r))
    ctx.check("an object or an exception", e is None or isinstance(e, Exception))
    if e is None:
        ctx.check("an object of a marshaller's type", isinstance(r, TYPES))


def start(ctx, mode, kind):
    fn = ctx.path()
    if kind in RAW:
        h = h5py.File(fn, "w")
        if kind == "group":
            g = h.create_group("x")
            g.create_dataset("a", data=np.int8(1))
        else:
            h.create_dataset("x", data={"dataset": np.arange(4, dtype="uint8").reshape(2, 2), "floats": np.ones((1, 2)), "strings": np.array([b"a", b"b"])}[kind])
        h.close()
        return fn
    f = ctx.call(ctx.hs.File, fn, writable=True, **MODES[mode])
    f.write(KINDS[kind](), "/x")
    f.close()
    return fn


def h_attribute(ctx, mode, kind, form):
    """One attribute has arbitrary contents."""
    fn = start(ctx, mode, kind)
    attr = ctx.choose("attr", ATTRS if form != "known" else [a for a in ATTRS if known(ctx, a) is not None])
    v, texts = hostile(ctx, attr, form)
    h = h5py.File(fn, "r+")
    h["x"].attrs[attr] = v
    h.close()
    verify(ctx, fn, mode, texts)


def h_pair(ctx, mode, kind):
    """Two attributes name something else, or one does and the other is gone or another object's."""
    fn = start(ctx, mode, kind)
    pairs = [("Python.Type", "Python.numpy.UnderlyingType"), ("Python.Type", "MATLAB_class"), ("Python.Type", "Python.numpy.Container"),
             ("Python.numpy.Container", "Python.numpy.UnderlyingType"), ("MATLAB_class", "Python.numpy.UnderlyingType"), ("Python.Type", "Python.dict.StoredAs")]
    a, b = ctx.choose("pair", pairs)
    x = ctx.choose("x", known(ctx, a)[::2 if ctx.tier == "quick" else 1])
    n = ctx.choose("y", ["gone"] + (["text" if a != "Python.Type" else HOSTILE[0]] if ctx.tier == "quick" else ["text"] + HOSTILE[:3] + [v for v in known(ctx, b)[:8] if v not in HOSTILE]))
    texts = [x]
    h = h5py.File(fn, "r+")
    h["x"].attrs[a] = np.bytes_(x.encode())
    if n == "gone":
        if b in h["x"].attrs:
            del h["x"].attrs[b]
    else:
        y = ctx.bytes("s", 2, 1) if n == "text" else n.encode()
        texts.append(y.decode("latin-1"))
        h["x"].attrs[b] = np.bytes_(y)
    h.close()
    verify(ctx, fn, mode, texts)


def h_dtype(ctx, n):
    """The text of a dtype."""
    fn = ctx.path()
    s = ctx.str("s", n, 32, 126) if n else ctx.choose("s", CODE)
    f = ctx.call(ctx.hs.File, fn, writable=True, matlab_compatible=False)
    f.write(np.bytes_(s.encode()), "/x")
    f.close()
    h = h5py.File(fn, "r+")
    h["x"].attrs["Python.Type"] = np.bytes_(b"numpy.dtype")
    h.close()
    verify(ctx, fn, "plain", [s])


def h_members(ctx, form):
    """A member of a Group that is read as something else."""
    mode = ctx.choose("mode", list(MODES))
    fn = start(ctx, mode, ctx.choose("kind", ["dict", "mixed", "counter", "slice", "date", "fraction", "group"]))
    v, texts = hostile(ctx, "Python.Type", form)
    h = h5py.File(fn, "r+")
    m = ctx.choose("member", [0, 1, 2])
    names = sorted(h["x"])
    h["x"][names[m if m < len(names) else 0]].attrs["Python.Type"] = v
    h.close()
    verify(ctx, fn, mode, texts)
