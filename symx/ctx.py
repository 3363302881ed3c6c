"""What a harness sees: symbolic (SymCtx) or concrete values (ConcCtx)."""
import itertools
import os
import shutil
import tempfile

import numpy as np

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        SCRATCH = tempfile.mkdtemp(prefix="symx-", dir=base)
    return SCRATCH


def drop_scratch():
    global SCRATCH
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """An assumption does not hold for the concrete values."""


SPECIALS = {
    8: [0, 0x80, 0xFF, 0xEF, 0xBB, 0xBF, 0x2F, 0x5C, 0x2E, 0x20, 0x41, 1, 0x7F, 0xC3, 0xA9, 0xED,
        0xA0, 9, 10, 0x2D, 0x5F, 0x30, 0x61],
    16: [0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x7E00, 0x3C00, 0xFC00, 0x100, 0xD800, 0xFEFF],
    32: [0, 0xFEFF, 0xD800, 0xDFFF, 0x10FFFF, 0x10000, 0xE9, 0x2F, 0x5C, 0x2E, 0xA0, 0x130, 0x41,
         0x30, 0x20, 0xFFFE, 0xFFFF, 0x1F600, 0xDC80, 0x7F, 0x80, 0xFF, 0x100, 0x2028, 0x31, 0x61,
         0x2D, 0x3F800000, 0x7FC00001, 0x80000000, 0xFFFFFFFF, 0x7F800000],
    64: [0, 1, 0x7FF8000000000001, 0x7FF0000000000000, 0xFFF0000000000000, 0x8000000000000000,
         0x3FF0000000000000, 0x3FF8000000000000, 0xFFFFFFFFFFFFFFFF, 0x7FEFFFFFFFFFFFFF,
         0x43F0000000000000, 0x4340000000000001, 0x7FFFFFFFFFFFFFFF, 2, 255, 256, 1 << 32],
}


def specials(width):
    """Values at which code tends to differ."""
    if width in SPECIALS:
        return SPECIALS[width]
    top = (1 << width) - 1
    return [v for v in [0, 1, 2, 3, 7, 12, 28, 59, 60, 127, 128, 255, 256, 65535, 1 << 31,
                        (1 << 31) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, 1 << 64] if v <= top] \
        + [top, top - 1]


WIDTH = {"b": 8, "i": None, "u": None, "f": None, "c": None}


class Base:
    symbolic = False

    def __init__(self, modules, tier="quick"):
        self.mods = modules
        self.hs = modules["hdf5storage"]
        self.pathesc = modules["hdf5storage.pathesc"]
        self.utilities = modules["hdf5storage.utilities"]
        self.Marshallers = modules["hdf5storage.Marshallers"]
        self.exceptions = modules["hdf5storage.exceptions"]
        self.plugins = modules["hdf5storage.plugins"]
        self.tier = tier
        self.nfiles = 0
        self.nchecks = 0
        self.paths = []

    def path(self, name=None):
        self.nfiles += 1
        d = os.path.join(scratch(), "c" if not self.symbolic else "s")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name or "f%d.h5" % self.nfiles)
        if os.path.exists(p):
            os.unlink(p)
        self.paths.append(p)
        return p

    def scheduler(self, *fine):
        """Runs threads with chosen switches (a context manager, in which the File is made)."""
        from . import runner, sched

        return sched.Scheduler(self, runner.SRC, list(self.mods.values()), tuple(fine))

    def cleanup(self):
        for p in self.paths:
            if os.path.exists(p):
                os.unlink(p)
        self.paths = []

    # -- shared generators built on the primitive ones
    def units(self, name, dt):
        """Symbolic/concrete units of one element of a simple dtype."""
        k = dt.kind
        if k == "b":
            return [self.bits(name, 8, 0, 1)]
        if k in "iuf":
            return [self.bits(name, 8 * dt.itemsize)]
        if k == "c":
            return [self.bits(name + ".re", 4 * dt.itemsize), self.bits(name + ".im", 4 * dt.itemsize)]
        if k == "U":
            return [self.bits("%s.%d" % (name, i), 32, 0, 0x10FFFF) for i in range(dt.itemsize // 4)]
        return [self.bits("%s.%d" % (name, i), 8) for i in range(dt.itemsize)]

    def elem(self, name, dt):
        """Bytes of one element (structured dtypes included)."""
        from . import arr

        if dt.subdtype is not None:
            b, sh = dt.subdtype
            out = []
            for i in range(int(np.prod(sh))):
                out += self.elem("%s[%d]" % (name, i), b)
            return out
        if dt.names is not None:
            out = [0] * dt.itemsize
            for n, f in enumerate(dt.names):
                ft, off = dt.fields[f][:2]
                out[off:off + ft.itemsize] = self.elem("%s.f%d" % (name, n), ft)
            return out
        return arr.ununits(dt, self.units(name, dt))

    def array(self, name, dtype, shape, order="C"):
        """An array with arbitrary contents."""
        from . import arr

        dt = np.dtype(dtype)
        a = np.zeros(shape, dtype=dt, order=order)
        arr.keep(a)
        for i, p in enumerate(arr.addrs(a)):
            arr.write_bytes(p, self.elem("%s[%d]" % (name, i), dt))
        return a

    def scalar(self, name, dtype):
        from . import arr

        dt = np.dtype(dtype)
        a = self.array(name, dt, ())
        if dt.names is not None:
            return arr.SymScalar(a) if arr.shadowed(a) else a[()]
        return arr.scalar(a.dtype, arr.read_bytes(arr.base_addr(a), dt.itemsize))

    def options(self, name, **fixed):
        """Keyword arguments for Options with the given ones fixed."""
        return dict(fixed)

    def attempt(self, f, *args, **kw):
        """(value, None) or (None, exception) of a call of the code under test."""
        try:
            return self.call(f, *args, **kw), None
        except Exception as e:  # noqa: BLE001
            return None, e


class ConcCtx(Base):
    symbolic = False

    def __init__(self, modules, values, tier="quick", fill=None):
        Base.__init__(self, modules, tier)
        self.values = values
        self.fill = fill
        self.names = {}
        self.observed = []

    def _get(self, name, default, width=None, lo=0, hi=None):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = "%s!%d" % (name, n)
        if name not in self.values and self.fill is not None and width is not None:
            # an input that the path did not come to
            if hi is None:
                hi = (1 << width) - 1
            vs = [v for v in specials(width) if lo <= v <= hi] + [lo, hi]
            self.values[name] = self.fill.choice(vs)
        return self.values.get(name, default)

    def _last(self, name):
        n = self.names[name] - 1
        return name if n == 0 else "%s!%d" % (name, n)

    def _had(self, name):
        return self._last(name) in self.values

    def _put(self, name, v):
        self.values[self._last(name)] = v

    def bits(self, name, width, lo=0, hi=None):
        return self._get(name, lo, width, lo, hi)

    def bool(self, name):
        return bool(self._get(name, 0, 1))

    def int(self, name, lo=None, hi=None):
        v = self._get(name, 0, 63, lo if lo is not None and lo > 0 else 0,
                      hi if hi is not None and hi >= 0 else None)
        if v >= 1 << 191:
            v -= 1 << 192
        if lo is not None and v < lo or hi is not None and v > hi:
            v = lo if lo is not None else hi
        return v

    def str(self, name, n, lo=0, hi=0x10FFFF, cls=str):
        s = "".join(chr(self.bits("%s[%d]" % (name, i), 32, lo, hi)) for i in range(n))
        return s if cls is str else cls(s)

    def bigint(self, name, n, prefix="", first=None):
        """An int of exactly n decimal digits, the first after prefix being at least first."""
        neg = self.bool(name + ".neg")
        if first is None:
            first = 0 if prefix else 1
        ds = [self.bits("%s.%d" % (name, i), 8, 0 if i else first, 9) for i in range(n - len(prefix))]
        if ds:
            ds[0] = max(ds[0], first)
        v = int(prefix + "".join(str(min(d, 9)) for d in ds))
        return -v if neg else v

    def bytes(self, name, n, lo=0, hi=255, cls=bytes):
        s = bytes([self.bits("%s[%d]" % (name, i), 8, lo, hi) for i in range(n)])
        return s if cls is bytes else cls(s)

    def float(self, name):
        from .terms import bitsf

        return bitsf(self.bits(name, 64))

    def complex(self, name):
        return complex(self.float(name + ".re"), self.float(name + ".im"))

    def choose(self, name, options):
        options = list(options)
        i = self._get(name, 0)
        if self.fill is not None and name in self.names and not self._had(name):
            i = self.fill.randrange(len(options))
            self._put(name, i)
        return options[i if i < len(options) else 0]

    def make(self, cls, *a, **kw):
        return cls(*a, **kw)

    def fraction(self, n, d):
        import fractions
        import math

        if d <= 0 or math.gcd(n, d) != 1:
            raise Skip()
        return fractions.Fraction(n, d)

    def ymd(self, name):
        """The year, month and day of an arbitrary date."""
        import datetime

        y, m, d = self.int(name + ".y", 1, 9999), self.int(name + ".m", 1, 12), self.int(name + ".day", 1, 31)
        try:
            datetime.date(y, m, d)
        except ValueError:
            raise Skip() from None
        return y, m, d

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, detail=None):
        self.nchecks += 1
        if not c:
            raise CheckFailed(label, "" if detail is None else repr(detail)[:500])

    def call(self, f, *a, **kw):
        return f(*a, **kw)

    def same(self, a, b, text_len=True):
        from .same import same

        return bool(same(a, b, text_len))

    def observe(self, label, v):
        self.observed.append((label, v))

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def If(self, c, a, b):
        """The int a or b without forking."""
        return a if c else b

    def dtype(self, spec):
        from .symdtype import real

        try:
            return real(spec)
        except ValueError:
            raise Skip() from None

    def random_bits(self, name, width):
        return self.bits(name, width)

    def set_random(self, hook):
        import random

        self._old = random.getrandbits
        random.getrandbits = hook

    def set_now(self, *fields):
        """The time that the package sees as the present one."""
        import datetime
        import types

        t = fields

        class Fixed(datetime.datetime):
            @classmethod
            def utcnow(cls):
                return datetime.datetime(*t)

            @classmethod
            def now(cls, tz=None):
                return datetime.datetime(*t, tzinfo=tz)

        try:
            datetime.datetime(*t)
        except ValueError:
            raise Skip() from None
        self._now = getattr(self.hs, "datetime", None)
        if isinstance(self._now, types.ModuleType):
            m = types.SimpleNamespace(**vars(datetime))
            m.datetime = Fixed
            self.hs.datetime = m
        elif self._now is datetime.datetime:
            self.hs.datetime = Fixed

    def weekday(self, y, m, d):
        """The day of the week of a date, 0 for Monday."""
        import datetime

        try:
            return datetime.date(y, m, d).weekday()
        except ValueError:
            raise Skip() from None

    def file_bytes(self, fn, n):
        with open(fn, "rb") as f:
            return f.read(n)

    def finish(self):
        if hasattr(self, "_old"):
            import random

            random.getrandbits = self._old
            del self._old
        if getattr(self, "_now", None) is not None:
            self.hs.datetime = self._now
            del self._now
        self.cleanup()


class SymCtx(Base):
    symbolic = True

    def __init__(self, modules, engine, tier="quick"):
        Base.__init__(self, modules, tier)
        self.e = engine
        self.vars = {}
        self.choices = {}
        self.observed = []

    def values(self, model=None):
        m = model if model is not None else self.e.get_model()
        out = dict(self.choices)
        import z3

        for n, t in self.vars.items():
            v = m.eval(t, model_completion=True)
            if z3.is_bv_value(v):
                out[n] = v.as_long()
            else:
                out[n] = int(z3.is_true(v))
        return out

    def diverse(self, rng):
        """Values of another model of the path, drawn to special values where it allows them."""
        import z3

        from .terms import W

        S = self.e.solver
        names = list(self.vars)
        groups = {}
        for n in names:
            groups.setdefault(n.partition("[")[0], []).append(n)
        rng.shuffle(names)
        want = {}
        for g in groups.values():
            # the bytes of a mark at the start of a text
            if len(g) >= 3 and rng.random() < 0.4 and all(
                    z3.is_bv(self.vars[n]) and self.vars[n].size() == 8 for n in g[:3]):
                want.update(zip(g, (0xEF, 0xBB, 0xBF)))
        S.push()
        S.set("timeout", 1000)
        try:
            r = None
            for n in sorted(names, key=lambda n: n not in want)[:24]:
                t = self.vars[n]
                if z3.is_bool(t):
                    c = t if rng.random() < 0.5 else z3.Not(t)
                else:
                    w = t.size()
                    v = want.get(n)
                    if v is None:
                        v = rng.choice(specials(w))
                        if w == W and rng.random() < 0.4:
                            v = (1 << W) - v & (1 << W) - 1
                    c = t == v
                if S.check(c) == z3.sat:
                    S.add(c)
            r = S.check()
            return self.values(S.model()) if r == z3.sat else None
        finally:
            S.set("timeout", 15000)
            S.pop()

    def _name(self, name):
        n = self.e.names.get(("ctx", name), 0)
        self.e.names[("ctx", name)] = n + 1
        return name if n == 0 else "%s!%d" % (name, n)

    def bits(self, name, width, lo=0, hi=None):
        import z3

        nm = self._name(name)
        t = z3.BitVec("in:" + nm, width)
        self.vars[nm] = t
        cs = []
        if lo:
            cs.append(z3.UGE(t, lo))
        if hi is not None and hi < (1 << width) - 1:
            cs.append(z3.ULE(t, hi))
        if cs:
            self.e.assume(z3.And(*cs) if len(cs) > 1 else cs[0])
        return t

    def elem(self, name, dt):
        return Base.elem(self, name, dt)

    def bool(self, name):
        import z3

        from .terms import SymBool

        nm = self._name(name)
        t = z3.Bool("in:" + nm)
        self.vars[nm] = t
        return SymBool(t)

    def int(self, name, lo=None, hi=None):
        import z3

        from .terms import SymInt, W

        nm = self._name(name)
        t = z3.BitVec("in:" + nm, W)
        self.vars[nm] = t
        cs = []
        cs.append(t >= (lo if lo is not None else -(1 << (W - 8))))
        cs.append(t <= (hi if hi is not None else (1 << (W - 8))))
        self.e.assume(z3.And(*cs))
        return SymInt(t)

    def bigint(self, name, n, prefix="", first=None):
        import z3

        from .terms import br, decimal

        neg = br(self.bool(name + ".neg").t)
        if first is None:
            first = 0 if prefix else 1
        ds = [z3.BitVecVal(int(c), 8) for c in prefix]
        ds += [self.bits("%s.%d" % (name, i), 8, 0 if i else first, 9) for i in range(n - len(prefix))]
        bounds = [(c, c) for c in prefix] + [(0 if i else first, 9) for i in range(n - len(prefix))]
        return decimal(neg, ds, bounds)

    def str(self, name, n, lo=0, hi=0x10FFFF, cls=str):
        from .strs import SymStr

        if n == 0:
            return cls("")
        return SymStr([self.bits("%s[%d]" % (name, i), 32, lo, hi) for i in range(n)], cls)

    def bytes(self, name, n, lo=0, hi=255, cls=bytes):
        from .strs import SymBytes

        if n == 0:
            return cls(b"")
        return SymBytes([self.bits("%s[%d]" % (name, i), 8, lo, hi) for i in range(n)], cls)

    def float(self, name):
        from .terms import SymFloat

        return SymFloat(self.bits(name, 64))

    def complex(self, name):
        from .terms import SymComplex

        return SymComplex(self.bits(name + ".re", 64), self.bits(name + ".im", 64))

    def choose(self, name, options):
        options = list(options)
        nm = self._name(name)
        i = self.e.choose(len(options), nm)
        self.choices[nm] = i
        return options[i]

    def make(self, cls, *a, **kw):
        from .rt import call

        return call(cls, *a, **kw)

    def fraction(self, n, d):
        from . import records

        import z3

        from .terms import W, iv

        # lowest terms is not expressible cheaply; the pair is assumed to be so
        self.assume(d > 0)
        return records.mkfraction(n, d)

    def ymd(self, name):
        from .records import days_in

        y, m, d = self.int(name + ".y", 1, 9999), self.int(name + ".m", 1, 12), self.int(name + ".day", 1, 31)
        self.assume(d <= days_in(y, m))
        return y, m, d

    def assume(self, c):
        from .terms import zbool

        self.e.assume(zbool(c))

    def check(self, label, c, detail=None):
        from .core import Violation
        from .rt import truth
        from .terms import Sym, SymBool, zbool

        self.nchecks += 1
        if isinstance(c, Sym) and not isinstance(c, SymBool):
            c = truth(c)
        if isinstance(c, np.ndarray):
            c = truth(c)
        z = zbool(c) if isinstance(c, SymBool) else bool(c)
        m = self.e.prove(z)
        if m is not None:
            raise Violation(label, self.values(m))
        # the rest of the path is under the condition, which was just proved

    def call(self, f, *a, **kw):
        from .rt import call

        return call(f, *a, **kw)

    def same(self, a, b, text_len=True):
        from .same import same

        return same(a, b, text_len)

    def observe(self, label, v):
        self.observed.append((label, v))

    def And(self, *xs):
        from .terms import and_

        return and_(*xs)

    def Or(self, *xs):
        from .terms import or_

        return or_(*xs)

    def Not(self, x):
        from .terms import not_

        return not_(x)

    def If(self, c, a, b):
        import z3

        from .terms import SymBool, iv, mkint

        if not isinstance(c, SymBool):
            return a if c else b
        return mkint(z3.If(c.t, iv(a), iv(b)))

    def set_random(self, hook):
        self.e.random_hook = hook

    def dtype(self, spec):
        from .symdtype import make

        return make(spec)

    def set_now(self, *fields):
        import datetime

        from . import files

        files.NOW[0] = self.make(datetime.datetime, *fields)

    def weekday(self, y, m, d):
        from . import records

        return records.weekday(y, m, d)

    def file_bytes(self, fn, n):
        from . import files

        return files.file_bytes(fn, n)

    def random_bits(self, name, width):
        import z3

        from .terms import W, mkint

        t = self.bits(name, width)
        return mkint(z3.ZeroExt(W - width, t))

    def finish(self):
        self.e.random_hook = None
        self.cleanup()
