"""Symbolic objects of immutable library classes as tuples of fields."""
import datetime
import fractions
import pathlib

import z3

from . import core
from .arr import SymScalar, any_sym
from .strs import SymStr, codes_of, ceq, mkstr
from .terms import Sym, SymBool, SymInt, W, and_, br, iv, mkbool, mkint, not_, or_

FUNCS = {}


def model(f):
    def deco(g):
        def h(*args, **kw):
            if any_sym(args) or any_sym(kw):
                return g(*args, **kw)
            return f(*args, **kw)
        FUNCS[f] = h
        return h
    return deco


class SymRecord(Sym):
    """cls(**f) with symbolic fields."""

    __slots__ = ("cls", "f", "eqf")

    def __init__(self, cls, f, eqf=None):
        self.cls = cls
        self.f = f
        self.eqf = eqf or tuple(f)

    def __getattr__(self, name):
        if name.startswith("__"):
            if name == "__reduce__":
                return self.reduce_
            raise AttributeError(name)
        f = object.__getattribute__(self, "f")
        if name in f:
            return f[name]
        cls = object.__getattribute__(self, "cls")
        if hasattr(cls, name):
            raise core.Unsupported("%s.%s" % (cls.__name__, name))
        raise AttributeError(name)

    def reduce_(self):
        if self.cls is datetime.timezone:
            if self.f["name"] is None:
                return (datetime.timezone, (self.f["offset"],))
            return (datetime.timezone, (self.f["offset"], self.f["name"]))
        raise core.Unsupported("reduce")

    def __reduce__(self):
        return self.reduce_()

    def __getinitargs__(self):
        return self.reduce_()[1]

    def check_hashable(self):
        pass

    def __eq__(self, o):
        from .rt import realtype

        if realtype(o) is not self.cls:
            if isinstance(o, Sym) or isinstance(o, (int, float)):
                if self.cls is fractions.Fraction:
                    raise core.Unsupported("Fraction compared with a number")
            return False
        if self.cls is range:
            raise core.Unsupported("equality of symbolic ranges")
        return and_(*[_eq(self.f[k], getattr(o, k)) for k in self.eqf])

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def str_(self):
        if self.cls is pathlib.PurePosixPath:
            out = list(codes_of(self.f["root"]))
            for i, p in enumerate(self.f["tail"]):
                if i:
                    out.append(47)
                out += codes_of(p)
            return mkstr(out or [46])
        raise core.Unsupported("str of " + self.cls.__name__)

    def weekday(self):
        if self.cls not in (datetime.date, datetime.datetime):
            raise core.Unsupported("weekday of " + self.cls.__name__)
        return weekday(self.f["year"], self.f["month"], self.f["day"])

    def isoweekday(self):
        return self.weekday() + 1

    def strftime(self, spec):
        return strftime(self, spec)

    def __len__(self):
        raise core.Unsupported("len of a record")

    def __iter__(self):
        raise core.Unsupported("iteration of a record")

    def __bool__(self):
        if self.cls in (datetime.date, datetime.datetime, datetime.time, datetime.timezone,
                        pathlib.PurePosixPath):
            return True
        raise core.Unsupported("truth of a record")

    def __repr__(self):
        return "<SymRecord %s>" % self.cls.__name__


def _eq(a, b):
    from .rt import cmp

    return cmp("==", a, b)


def toint(x):
    if isinstance(x, SymScalar):
        return x.item()
    return x


def within(x, lo, hi, msg):
    x = toint(x)
    if isinstance(x, Sym) and not isinstance(x, (SymInt, SymBool)):
        raise TypeError("an integer is required")
    c = and_(x >= lo, x <= hi)
    if not (c if isinstance(c, bool) else br(c.t)):
        raise ValueError(msg)
    return x


def days_in(year, month):
    """Number of days of the month as a term."""
    # the year is in 1..9999
    y, m = z3.Extract(13, 0, iv(year)), iv(month)
    leap = z3.And(z3.Extract(1, 0, y) == 0,
                  z3.Or(z3.URem(y, z3.BitVecVal(100, 14)) != 0,
                        z3.URem(y, z3.BitVecVal(400, 14)) == 0))
    c = lambda n: z3.BitVecVal(n, W)  # noqa: E731
    return mkint(z3.If(z3.Or(*[m == k for k in (4, 6, 9, 11)]), c(30),
                       z3.If(m == 2, z3.If(leap, c(29), c(28)), c(31))))


def weekday(year, month, day):
    """0 for Monday: that of the proleptic Gregorian calendar by Sakamoto's formula."""
    n = 20
    y, m, d = [z3.Extract(n - 1, 0, iv(x)) for x in (year, month, day)]
    c = lambda k: z3.BitVecVal(k, n)  # noqa: E731
    y = z3.If(z3.ULT(m, 3), y - 1, y)
    t = c(0)
    for i, k in enumerate((0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)):
        t = z3.If(m == i + 1, c(k), t)
    # 0 is Sunday
    s = z3.URem(y + z3.UDiv(y, c(4)) - z3.UDiv(y, c(100)) + z3.UDiv(y, c(400)) + t + d, c(7))
    return mkint(z3.ZeroExt(W - n, z3.URem(s + 6, c(7))))


NAMES = {"a": ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"),
         "b": ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")}


def digits(x, n):
    """The digits of a number that is not negative and has at most n."""
    x = toint(x)
    if not isinstance(x, Sym):
        return [ord(c) for c in "%0*d" % (n, x)]
    t = z3.Extract(19, 0, iv(x))
    e = core.ENGINE
    ds = [e.bv("digit", 8) for _ in range(n)]
    tot = z3.BitVecVal(0, 20)
    for d in ds:
        tot = tot * 10 + z3.ZeroExt(12, d)
    e.assume(z3.And(tot == t, *[z3.ULE(d, 9) for d in ds]))
    return [z3.ZeroExt(24, d + 48) for d in ds]


def strftime(rec, spec):
    if rec.cls not in (datetime.date, datetime.datetime, datetime.time) or isinstance(spec, Sym):
        raise core.Unsupported("format of " + rec.cls.__name__)
    out = []
    i = 0
    while i < len(spec):
        if spec[i] != "%":
            out.append(ord(spec[i]))
            i += 1
            continue
        k = spec[i + 1:i + 2]
        i += 2
        two = {"d": "day", "H": "hour", "M": "minute", "S": "second", "m": "month"}
        if k in two:
            out += digits(rec.f[two[k]], 2)
        elif k == "y":
            out += digits(rec.f["year"], 4)[2:]
        elif k == "Y":
            big = rec.f["year"] >= 1000
            if not (big if isinstance(big, bool) else br(big.t)):
                raise core.Unsupported("years of fewer digits")
            out += digits(rec.f["year"], 4)
        elif k == "a":
            out += codes_of(pick(NAMES["a"], rec.weekday()))
        elif k == "b":
            out += codes_of(pick(NAMES["b"], rec.f["month"] - 1))
        elif k == "%":
            out.append(37)
        else:
            raise core.Unsupported("format %" + k)
    return mkstr(out)


def pick(names, x):
    from .rt import getitem

    return getitem(names, x)


@model(datetime.date)
def date(year, month, day):
    year = within(year, 1, 9999, "year is out of range")
    month = within(month, 1, 12, "month must be in 1..12")
    day = within(day, 1, 31, "day is out of range for month")
    within(day, 1, days_in(year, month), "day is out of range for month")
    return SymRecord(datetime.date, {"year": year, "month": month, "day": day})


def _tz(tzinfo):
    if tzinfo is not None and not isinstance(tzinfo, (datetime.tzinfo, SymRecord)):
        raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
    return tzinfo


def tfields(hour, minute, second, microsecond, tzinfo, fold):
    return {"hour": within(hour, 0, 23, "hour must be in 0..23"),
            "minute": within(minute, 0, 59, "minute must be in 0..59"),
            "second": within(second, 0, 59, "second must be in 0..59"),
            "microsecond": within(microsecond, 0, 999999, "microsecond must be in 0..999999"),
            "tzinfo": _tz(tzinfo), "fold": within(fold, 0, 1, "fold must be either 0 or 1")}


@model(datetime.time)
def time(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    return SymRecord(datetime.time, tfields(hour, minute, second, microsecond, tzinfo, fold))


@model(datetime.datetime)
def datetime_(year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *,
              fold=0):
    year = within(year, 1, 9999, "year is out of range")
    month = within(month, 1, 12, "month must be in 1..12")
    day = within(day, 1, 31, "day is out of range for month")
    within(day, 1, days_in(year, month), "day is out of range for month")
    f = {"year": year, "month": month, "day": day}
    f.update(tfields(hour, minute, second, microsecond, tzinfo, fold))
    return SymRecord(datetime.datetime, f)


@model(datetime.timedelta)
def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    days, seconds, microseconds = toint(days), toint(seconds), toint(microseconds)
    if any(x != 0 for x in (milliseconds, minutes, hours, weeks)):
        raise core.Unsupported("timedelta units")
    for x in (days, seconds, microseconds):
        if not isinstance(x, (int, SymInt)):
            raise core.Unsupported("timedelta of a float")
    ok = and_(0 <= seconds, seconds < 86400, 0 <= microseconds, microseconds < 1000000)
    if not (ok if isinstance(ok, bool) else br(ok.t)):
        s2 = microseconds // 1000000
        microseconds = microseconds % 1000000
        seconds = seconds + s2
        days = days + seconds // 86400
        seconds = seconds % 86400
    c = and_(days >= -999999999, days <= 999999999)
    if not (c if isinstance(c, bool) else br(c.t)):
        raise OverflowError("days=%d; must have magnitude <= 999999999")
    return SymRecord(datetime.timedelta, {"days": days, "seconds": seconds,
                                          "microseconds": microseconds})


@model(datetime.timezone)
def timezone(offset, name=None):
    from .rt import realtype

    if realtype(offset) is not datetime.timedelta:
        raise TypeError("timezone() argument 1 must be datetime.timedelta")
    if name is not None and not issubclass(realtype(name), str):
        raise TypeError("timezone() argument 2 must be str")
    d, s, u = offset.days, offset.seconds, offset.microseconds
    # strictly between -24 h and 24 h
    ok = or_(d == 0, and_(d == -1, or_(s > 0, u > 0)))
    if not (ok if isinstance(ok, bool) else br(ok.t)):
        raise ValueError("offset must be strictly between -timedelta(hours=24) and 24")
    # equality of timezones is equality of the offsets; the checks compare both
    return SymRecord(datetime.timezone, {"offset": offset, "name": name}, ("offset",))


@model(range)
def range_(a, b=None, c=1):
    a, c = toint(a), toint(c)
    b = toint(b)
    if b is None:
        a, b = 0, a
    for x in (a, b, c):
        if not isinstance(x, (int, SymInt, SymBool)):
            raise TypeError("object cannot be interpreted as an integer")
    z = c == 0
    if z if isinstance(z, bool) else br(z.t):
        raise ValueError("range() arg 3 must not be zero")
    return SymRecord(range, {"start": a, "stop": b, "step": c})


COPRIME = []    # pairs of terms that are known to be in lowest terms


@model(fractions.Fraction)
def fraction(numerator=0, denominator=None):
    n, d = toint(numerator), 1 if denominator is None else toint(denominator)
    if not isinstance(n, (int, SymInt)) or not isinstance(d, (int, SymInt)):
        raise core.Unsupported("Fraction of something else")
    z = d == 0
    if z if isinstance(z, bool) else br(z.t):
        raise ZeroDivisionError("Fraction(%s, 0)")
    for a, b in COPRIME:
        e = and_(n == a, d == b)
        if e is True or (not isinstance(e, bool) and core.ENGINE.prove(e.t) is None):
            return SymRecord(fractions.Fraction, {"numerator": n, "denominator": d})
    raise core.Unsupported("normalisation of a symbolic Fraction")


def mkfraction(n, d):
    COPRIME.append((n, d))
    return SymRecord(fractions.Fraction, {"numerator": n, "denominator": d})


@model(pathlib.PurePosixPath)
def purepath(s):
    from . import posix

    root, rest = posix.splitroot(list(codes_of(s)))
    tail = [mkstr(c) for c in posix.comps(rest) if c and not posix.eqs(c, ".")]
    r = mkstr(root)
    return SymRecord(pathlib.PurePosixPath, {
        "root": r, "drive": "", "tail": tail,
        "parts": ((r,) if root else ()) + tuple(tail)})


def reset():
    COPRIME.clear()
