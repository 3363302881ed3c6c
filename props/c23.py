"""C23: Missing modules never make reading fail, or modules load early."""
import importlib
import importlib.abc
import importlib.machinery
import sys
import types

import h5py

BOUNDS = ("two user marshallers that need any of the subsets below of three modules (one in another), each of which is missing, there, fails to import or is already imported, "
          "lazily or not, with any sequence of 2 (quick) / 3 (thorough) queries by type, type string or MATLAB class of both and of a builtin; "
          "writing and reading of values of arbitrary 64 bit ints of a user's type and of Fractions (arbitrary ones) whose module is missing, there or failing, inside "
          "other data too; MATLAB's and plain options")
OUTSIDE = "imports that fail with something other than an ImportError; modules that disappear while in use; more modules"
TIME = {"quick": 40, "thorough": 300}

NAMES = ["symxmod_a", "symxmod_b", "symxmod_a.sub"]
STATES = ["missing", "there", "fails", "imported"]
# (required_parent_modules, required_modules)
NEEDS = {"none": ([], []), "a": ([0], [0]), "b": ([1], [1]), "ab": ([0, 1], [0, 1]), "sub": ([0], [0, 2]), "late": ([], [0]), "early": ([0], []), "ba": ([0], [1, 0])}


def jobs(tier):
    out = []
    pairs = [("a", "none"), ("a", "b"), ("a", "ab"), ("sub", "b"), ("late", "a"), ("early", "a"), ("ba", "a"), ("sub", "a")]
    for lazy in (True, False):
        for x, y in pairs:
            for what in ("type", "type_string", "matlab_class"):
                out.append(("h_query", {"lazy": lazy, "first": x, "second": y, "what": what, "n": 2 if tier == "quick" else 3}))
        for mode in ("plain", "matlab"):
            for inside in ("alone", "list", "dict", "object"):
                out.append(("h_fraction", {"lazy": lazy, "mode": mode, "inside": inside}))
                out.append(("h_user", {"lazy": lazy, "mode": mode, "inside": inside}))
    return out


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds the modules that are there, and records what is imported."""

    def __init__(self, states, made):
        self.states = states
        self.log = []
        self.made = made

    def find_spec(self, name, path=None, target=None):
        if name not in self.states:
            return None
        if self.states[name] == "missing":
            if name in self.made:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        self.log.append(spec.name)
        if self.states[spec.name] == "fails":
            raise ImportError("cannot import " + spec.name)
        return self.made.get(spec.name)

    def exec_module(self, module):
        pass


def install(states, made=None):
    made = made or {}
    f = Finder(states, made)
    sys.meta_path.insert(0, f)
    for n, s in states.items():
        sys.modules.pop(n, None)
        if s == "imported":
            sys.modules[n] = made.get(n) or types.ModuleType(n)
            if n not in made:
                sys.modules[n].__path__ = []
    return f


def uninstall(f):
    sys.meta_path.remove(f)
    for n in f.states:
        sys.modules.pop(n, None)
        if n in f.made:
            sys.modules[n] = f.made[n]


def states_of(ctx, used):
    """A state for every module (a package that is imported or fails fixes what its module can be)."""
    st = {}
    for i in sorted(used):
        opts = list(STATES)
        if i == 2:
            top = st[NAMES[0]]
            opts = ["missing"] if top == "missing" else opts[:3] if top != "imported" else opts
        st[NAMES[i]] = ctx.choose("state%d" % i, opts)
    return st


def importable(states, i):
    """What importing it gives."""
    ok = states[NAMES[i]] in ("there", "imported")
    return ok and (i != 2 or states[NAMES[2]] == "imported" or importable(states, 0))


def h_query(ctx, lazy, first, second, what, n):
    """What the queries give, and which modules they import."""
    used = {i for k in (first, second) for part in NEEDS[k] for i in part}
    states = states_of(ctx, used)
    ms = []
    for who, k in (("x", first), ("y", second)):
        m = ctx.Marshallers.TypeMarshaller()
        m.required_parent_modules = tuple(NAMES[i] for i in NEEDS[k][0])
        m.required_modules = tuple(NAMES[i] for i in NEEDS[k][1])
        m.types = (who + ".T",)
        m.python_type_strings = (who + ".S",)
        m.matlab_classes = (who + "C",)
        m.update_type_lookups()
        ms.append(m)
    f = install(states)
    try:
        mc = ctx.call(ctx.hs.MarshallerCollection, lazy_loading=lazy, marshallers=ms)
        names = set(f.log)
        wanted = set()
        if not lazy:
            for k in (first, second):
                if all(states[NAMES[i]] != "missing" for i in NEEDS[k][0]):
                    wanted |= {NAMES[i] for i in NEEDS[k][1]}
        ctx.check("imported only what is needed", all(x in wanted for x in names))
        for s in range(n):
            q = ctx.choose("q%d" % s, [0, 1, "int", "unknown"])
            if q == "int":
                g = {"type": mc.get_marshaller_for_type, "type_string": mc.get_marshaller_for_type_string, "matlab_class": mc.get_marshaller_for_matlab_class}[what]
                m, has = ctx.call(g, {"type": int, "type_string": "int", "matlab_class": "int64"}[what])
                ctx.check("a builtin type", m is not None and has is True and m not in ms)
            elif q == "unknown":
                g = {"type": mc.get_marshaller_for_type, "type_string": mc.get_marshaller_for_type_string, "matlab_class": mc.get_marshaller_for_matlab_class}[what]
                ctx.check("none", ctx.call(g, "z.T") == (None, False))
            else:
                k = (first, second)[q]
                pre = "xy"[q]
                if what == "type":
                    m, has = ctx.call(mc.get_marshaller_for_type, pre + ".T")
                elif what == "type_string":
                    m, has = ctx.call(mc.get_marshaller_for_type_string, pre + ".S")
                else:
                    m, has = ctx.call(mc.get_marshaller_for_matlab_class, pre + "C")
                ctx.check("the marshaller", m is ms[q])
                here = all(states[NAMES[i]] != "missing" for i in NEEDS[k][0])
                ctx.check("whether its modules are there", has is (here and all(importable(states, i) for i in NEEDS[k][1])))
                if here:
                    wanted |= {NAMES[i] for i in NEEDS[k][1]}
                if has:
                    ctx.check("they are imported", all(NAMES[i] in sys.modules for i in NEEDS[k][1]))
            ctx.check("imported only what is needed", all(x in wanted for x in f.log))
    finally:
        uninstall(f)


MODES = {"plain": {"matlab_compatible": False}, "matlab": {"matlab_compatible": True}}


def put(inside, v, other):
    if inside == "alone":
        return v
    if inside == "dict":
        return {"a": v, "b": other}
    if inside == "list":
        return [v, other]
    import numpy as np

    a = np.empty((1, 2), object)
    a[0, 0], a[0, 1] = v, other
    return a


def parts(inside, r):
    if inside == "alone":
        return r, None
    if inside == "dict":
        return r["a"], r["b"]
    if inside == "list":
        return r[0], r[1]
    return r[0, 0], r[0, 1]


def exists(fn, path):
    h = h5py.File(fn, "r")
    r = path in h
    h.close()
    return r


def h_fraction(ctx, lazy, mode, inside):
    """Fractions when their module is missing."""
    import fractions

    n = ctx.int("n", -(1 << 63), (1 << 63) - 1)
    d = ctx.int("d", 1, (1 << 63) - 1)
    v = ctx.fraction(n, d)
    other = ctx.int("o", -99, 99)
    fn = ctx.path()
    mc = ctx.call(ctx.hs.MarshallerCollection, lazy_loading=lazy)
    f = ctx.call(ctx.hs.File, fn, writable=True, marshaller_collection=mc, **MODES[mode])
    f.write(put(inside, v, other), "/x")
    f.close()
    state = ctx.choose("state", STATES)
    hook = install({"fractions": state}, {"fractions": fractions})
    try:
        mc = ctx.call(ctx.hs.MarshallerCollection, lazy_loading=lazy)
        if lazy:
            ctx.check("nothing imported yet", hook.log == [])
        f = ctx.call(ctx.hs.File, fn, marshaller_collection=mc, **MODES[mode])
        r, o = parts(inside, f.read("/x"))
        f.close()
        w = ctx.call(ctx.hs.File, fn, writable=True, marshaller_collection=mc, **MODES[mode])
        w.write(other, "/z")
        q, e = ctx.attempt(w.write, v, "/y")
        z = w.read("/z")
        w.close()
    finally:
        uninstall(hook)
    if inside != "alone":
        ctx.check("the other value", ctx.same(o, other, False))
    ctx.check("other types are written and read", ctx.same(z, other, False))
    if state in ("there", "imported"):
        ctx.check("a Fraction", isinstance(r, fractions.Fraction) and r.numerator == n and r.denominator == d)
        ctx.check("is written", e is None and exists(fn, "/y"))
    else:
        ctx.check("a dict of its parts", isinstance(r, dict) and set(r) == {"numerator", "denominator"})
        ctx.check("its parts", ctx.same(r["numerator"], n, False) and ctx.same(r["denominator"], d, False))
        ctx.check("refused", isinstance(e, NotImplementedError))
        ctx.check("nothing is written", not exists(fn, "/y"))


def h_user(ctx, lazy, mode, inside):
    """A user's type with required modules."""
    M = ctx.Marshallers
    thing = type("Thing", (object,), {"__module__": "symxmod_a"})

    class Mine(M.PythonScalarMarshaller):
        def __init__(self):
            M.PythonScalarMarshaller.__init__(self)
            self.required_parent_modules = ("symxmod_a",)
            self.required_modules = ("symxmod_a", "symxmod_a.sub")
            self.types = ("symxmod_a.Thing",)
            self.python_type_strings = ("symxmod_a.Thing",)
            self.matlab_classes = ()
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            return M.PythonScalarMarshaller.write(self, f, grp, name, data.value, self.get_type_string(data, type_string))

        def read(self, f, dsetgrp, attributes):
            t = thing()
            t.value = M.NumpyScalarArrayMarshaller.read(self, f, dsetgrp, attributes)
            return t

        def read_approximate(self, f, dsetgrp, attributes):
            return ("approximately", M.NumpyScalarArrayMarshaller.read(self, f, dsetgrp, attributes))

    v = thing()
    v.value = ctx.int("v", -(1 << 63), (1 << 63) - 1)
    other = ctx.int("o", -99, 99)
    fn = ctx.path()
    hook = install({"symxmod_a": "there", "symxmod_a.sub": "there"})
    try:
        mc = ctx.call(ctx.hs.MarshallerCollection, lazy_loading=lazy, marshallers=Mine())
        ctx.check("imported only when needed", (hook.log == []) == lazy)
        f = ctx.call(ctx.hs.File, fn, writable=True, marshaller_collection=mc, **MODES[mode])
        f.write(other, "/o")
        ctx.check("imported only when needed", (hook.log == []) == lazy)
        f.write(put(inside, v, other), "/x")
        ctx.check("imported", hook.log == ["symxmod_a", "symxmod_a.sub"])
        f.close()
    finally:
        uninstall(hook)
    a = ctx.choose("a", STATES)
    b = ctx.choose("b", ["missing"] if a == "missing" else STATES[:3])
    hook = install({"symxmod_a": a, "symxmod_a.sub": b})
    try:
        mc = ctx.call(ctx.hs.MarshallerCollection, lazy_loading=lazy, marshallers=[Mine()])
        f = ctx.call(ctx.hs.File, fn, writable=True, marshaller_collection=mc, **MODES[mode])
        o = f.read("/o")
        ctx.check("nothing imported yet", not lazy or hook.log == [])
        r, p = parts(inside, f.read("/x"))
        q, e = ctx.attempt(f.write, v, "/y")
        f.write(other, "/z")
        z = f.read("/z")
        f.close()
    finally:
        uninstall(hook)
    ctx.check("other types are read", ctx.same(o, other, False) and ctx.same(z, other, False))
    if inside != "alone":
        ctx.check("the other value", ctx.same(p, other, False))
    if a in ("there", "imported") and b == "there":
        ctx.check("exactly", type(r) is thing and bool(r.value == v.value))
        ctx.check("is written", e is None and exists(fn, "/y"))
    else:
        ctx.check("approximately", type(r) is tuple and r[0] == "approximately" and bool(r[1] == v.value))
        ctx.check("refused", isinstance(e, NotImplementedError))
        ctx.check("nothing is written", not exists(fn, "/y"))
