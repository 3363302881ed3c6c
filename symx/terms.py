"""Symbolic Python values: bool, int, float, complex."""
import z3

from . import core

W = 192  # width of the bit-vectors that stand for Python ints


HASHES = [0]


class Sym:
    """Base of all symbolic values (not numpy arrays)."""

    __slots__ = ("_h",)
    __array_ufunc__ = None

    def __hash__(self):
        # the same in every run of a path: sets are ordered by it
        try:
            return self._h
        except AttributeError:
            HASHES[0] += 1
            self._h = HASHES[0]
            return self._h

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise core.Unsupported("pickling of a symbolic value")


def br(cond):
    return core.ENGINE.branch(cond)


def zbool(x):
    """z3 Bool (or Python bool) of a SymBool/bool."""
    if isinstance(x, SymBool):
        return x.t
    return bool(x)


def and_(*xs):
    out = []
    for x in xs:
        x = zbool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return SymBool(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def or_(*xs):
    out = []
    for x in xs:
        x = zbool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return SymBool(z3.Or(*out)) if len(out) > 1 else SymBool(out[0])


def not_(x):
    x = zbool(x)
    if x is True or x is False:
        return not x
    return SymBool(z3.Not(x))


def implies(a, b):
    return or_(not_(a), b)


def mkbool(t):
    """SymBool, or a Python bool if the term is constant."""
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool(Sym):
    __slots__ = ("t", "npy")

    def __init__(self, t, npy=False):
        self.t = t
        self.npy = npy

    def __bool__(self):
        return br(self.t)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return and_(self, o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return or_(self, o)
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        if self.npy:
            return not_(self)
        return ~int(bool(self))

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.t, z3.BoolVal(o) if isinstance(o, bool) else o.t))
        return NotImplemented

    __rxor__ = __xor__

    def toint(self):
        return mkint(z3.If(self.t, z3.BitVecVal(1, W), z3.BitVecVal(0, W)))

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else not_(self)
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if isinstance(o, (int, SymInt)):
            return self.toint() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        return self.toint() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.toint() * o

    __rmul__ = __mul__

    def __repr__(self):
        return "<SymBool>"


def iv(x):
    """W-bit term of an int/SymInt/SymBool/bool, or None."""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    if isinstance(x, int):
        if -(1 << (W - 1)) <= x < (1 << (W - 1)):
            return z3.BitVecVal(x, W)
        raise core.Unsupported("int wider than the encoding")
    return None


def mkint(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t)


def _arith(name):
    fn = {
        "add": lambda a, b: a + b,
        "sub": lambda a, b: a - b,
        "mul": lambda a, b: a * b,
        "and": lambda a, b: a & b,
        "or": lambda a, b: a | b,
        "xor": lambda a, b: a ^ b,
    }[name]

    def f(self, o):
        if isinstance(o, (float, SymFloat, complex)):
            raise core.Unsupported("int/float arithmetic")
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(fn(self.t, b))

    def r(self, o):
        if isinstance(o, (float, SymFloat, complex)):
            raise core.Unsupported("int/float arithmetic")
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(fn(b, self.t))

    return f, r


def _floordiv(a, b):
    # Python floor division for signed terms (b != 0 assumed)
    q = a / b  # z3 signed division truncates
    r = z3.SRem(a, b)
    adj = z3.And(r != 0, (r < 0) != (b < 0))
    return z3.If(adj, q - 1, q)


def _mod(a, b):
    r = z3.SRem(a, b)
    adj = z3.And(r != 0, (r < 0) != (b < 0))
    return z3.If(adj, r + b, r)


class SymInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return br(self.t != 0)

    def __index__(self):
        v = core.ENGINE.concretize(self.t)
        if v >= 1 << (W - 1):
            v -= 1 << W
        return v

    __int__ = __index__

    __add__, __radd__ = _arith("add")
    __sub__, __rsub__ = _arith("sub")
    __mul__, __rmul__ = _arith("mul")
    __and__, __rand__ = _arith("and")
    __or__, __ror__ = _arith("or")
    __xor__, __rxor__ = _arith("xor")

    def __floordiv__(self, o):
        b = iv(o)
        if b is None:
            return NotImplemented
        if br(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_floordiv(self.t, b))

    def __rfloordiv__(self, o):
        a = iv(o)
        if a is None:
            return NotImplemented
        return SymInt(a).__floordiv__(self)

    def __mod__(self, o):
        b = iv(o)
        if b is None:
            return NotImplemented
        if br(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_mod(self.t, b))

    def __rmod__(self, o):
        a = iv(o)
        if a is None:
            return NotImplemented
        return SymInt(a).__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        raise core.Unsupported("true division of symbolic ints")

    __rtruediv__ = __truediv__
    __pow__ = __truediv__
    __rpow__ = __truediv__

    def __lshift__(self, o):
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(self.t << b)

    def __rshift__(self, o):
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkint(self.t >> b)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(~self.t)

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def _cmp(self, o, fn):
        if isinstance(o, (float, SymFloat)):
            raise core.Unsupported("int/float comparison")
        b = iv(o)
        if b is None:
            return NotImplemented
        return mkbool(fn(self.t, b))

    def __eq__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = Sym.__hash__

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        a = abs(self)
        n = 0
        while br(z3.UGE(iv(a), z3.BitVecVal(1 << n, W))):
            n += 1
            if n > W - 2:
                break
        return n

    def conjugate(self):
        return self

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .strs import SymBytes

        t = self.t
        if signed:
            lo, hi = -(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
        if not br(z3.And(t >= lo, t <= hi)):
            raise OverflowError("int too big to convert")
        bs = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(length)]
        if byteorder == "big":
            bs = bs[::-1]
        return SymBytes(bs)

    def __repr__(self):
        return "<SymInt>"

    def digits(self):
        """(negative, [digit terms, most significant first]) of the decimal form."""
        for neg, ds, x in DIGITS:
            if x.t.eq(self.t):
                return neg, ds
        neg = br(self.t < 0)
        a = -self.t if neg else self.t
        n = 1
        while not br(z3.ULT(a, z3.BitVecVal(10 ** n, W))):
            n += 1
            if n > 56:
                raise core.Unsupported("decimal form too long")
        e = core.ENGINE
        ds = []
        tot = z3.BitVecVal(0, W)
        conds = []
        for i in range(n):
            d = e.bv("digit", 8)
            conds.append(z3.ULE(d, 9))
            ds.append(d)
            tot = tot * 10 + z3.ZeroExt(W - 8, d)
        conds.append(tot == a)
        e.assume(z3.And(*conds))
        DIGITS.append((neg, ds, self))
        return neg, ds


DIGITS = []     # (negative, 8 bit digit terms, the SymInt) of the path


def decimal(neg, ds, bounds):
    """The SymInt with the digits (8 bit terms, the first is not 0), a definition."""
    n = len(ds)
    w = (10 ** n).bit_length() + 1
    tot = z3.BitVecVal(0, w)
    for d in ds:
        tot = tot * 10 + z3.ZeroExt(w - 8, d)
    tot = z3.ZeroExt(W - w, tot)
    x = SymInt(z3.simplify(-tot if neg else tot))
    # what follows about the whole from each digit
    t = iv(x)
    lo, hi = int("".join(str(a) for a, b in bounds)), int("".join(str(b) for a, b in bounds))
    core.ENGINE.assume(z3.And(t >= -hi, t <= -lo) if neg else z3.And(t >= lo, t <= hi))
    DIGITS.append((neg, list(ds), x))
    return x


def of_digits(neg, cs):
    """The SymInt whose decimal form the 8 bit character terms are, if known."""
    for ng, ds, x in DIGITS:
        if ng == neg and len(ds) == len(cs) and all(
                z3.simplify(d + 48).eq(c) for d, c in zip(ds, cs)):
            return x
    return None


FSORT = z3.Float64()


class SymFloat(Sym):
    """A Python float as its 64 bits."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def fp(self):
        return z3.fpBVToFP(self.t, FSORT)

    @staticmethod
    def _fp(o):
        if isinstance(o, SymFloat):
            return o.fp()
        if isinstance(o, float):
            return z3.fpBVToFP(z3.BitVecVal(fbits(o), 64), FSORT)
        if isinstance(o, int):
            return z3.FPVal(float(o), FSORT)
        return None

    def __bool__(self):
        return br(z3.Extract(62, 0, self.t) != 0)

    def __eq__(self, o):
        b = self._fp(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.fpEQ(self.fp(), b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        b = self._fp(o)
        return NotImplemented if b is None else mkbool(z3.fpLT(self.fp(), b))

    def __le__(self, o):
        b = self._fp(o)
        return NotImplemented if b is None else mkbool(z3.fpLEQ(self.fp(), b))

    def __gt__(self, o):
        b = self._fp(o)
        return NotImplemented if b is None else mkbool(z3.fpGT(self.fp(), b))

    def __ge__(self, o):
        b = self._fp(o)
        return NotImplemented if b is None else mkbool(z3.fpGEQ(self.fp(), b))

    def _un(self, *a):
        raise core.Unsupported("float arithmetic")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _un
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __pow__ = _un
    __int__ = __float__ = __index__ = _un

    def __neg__(self):
        return SymFloat(self.t ^ z3.BitVecVal(1 << 63, 64))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(self.t & z3.BitVecVal((1 << 63) - 1, 64))

    __hash__ = Sym.__hash__

    def is_integer(self):
        raise core.Unsupported("float.is_integer")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def __repr__(self):
        return "<SymFloat>"


class SymComplex(Sym):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re    # 64-bit terms
        self.im = im

    @property
    def real(self):
        return SymFloat(self.re)

    @property
    def imag(self):
        return SymFloat(self.im)

    def __eq__(self, o):
        if isinstance(o, (complex, SymComplex, float, int, SymFloat)):
            if isinstance(o, (float, int, SymFloat)):
                return and_(self.real == o, self.imag == 0.0)
            return and_(self.real == o.real, self.imag == o.imag)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return bool(or_(mkbool(z3.Extract(62, 0, self.re) != 0),
                        mkbool(z3.Extract(62, 0, self.im) != 0)))

    __hash__ = Sym.__hash__

    def conjugate(self):
        return SymComplex(self.re, (-self.imag).t)

    def _un(self, *a):
        raise core.Unsupported("complex arithmetic")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _un
    __truediv__ = __rtruediv__ = _un

    def __repr__(self):
        return "<SymComplex>"


def fbits(x):
    import struct

    return struct.unpack("<Q", struct.pack("<d", x))[0]


def bitsf(b):
    import struct

    return struct.unpack("<d", struct.pack("<Q", b))[0]
