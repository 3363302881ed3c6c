"""Symbolic text and bytes: fixed length on a path, symbolic code points."""
import numpy as np
import z3

from . import core, terms
from .terms import Sym, SymInt, and_, br, iv, mkbool, mkint, not_, or_, W

HEXD = "0123456789abcdefABCDEF"


# -- single characters (Python int or z3 BV) -------------------------------
def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b >> a.size():
            return False
        return z3.simplify(a == b)
    return z3.simplify(a == b)


def crange(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    m = (1 << c.size()) - 1
    if lo > m:
        return False
    hi = min(hi, m)
    if lo == hi:
        return ceq(c, lo)
    conds = []
    if lo > 0:
        conds.append(z3.UGE(c, lo))
    if hi < m:
        conds.append(z3.ULE(c, hi))
    if not conds:
        return True
    return z3.And(*conds)


def cand(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return z3.And(*out)


def cor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return z3.Or(*out)


def cnot(x):
    if x is True or x is False:
        return not x
    return z3.Not(x)


def cset(c, values):
    """c is one of the code points in values."""
    vs = sorted(set(values))
    rs = []
    i = 0
    while i < len(vs):
        j = i
        while j + 1 < len(vs) and vs[j + 1] == vs[j] + 1:
            j += 1
        rs.append(crange(c, vs[i], vs[j]))
        i = j + 1
    return cor(*rs)


def resize(c, w):
    if isinstance(c, int):
        return c
    s = c.size()
    if s == w:
        return c
    if s < w:
        return z3.simplify(z3.ZeroExt(w - s, c))
    return z3.simplify(z3.Extract(w - 1, 0, c))


def tocode(x):
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x


def codes_of(x):
    if isinstance(x, SymStr):
        return x.chars
    if isinstance(x, SymBytes):
        return x.chars
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    return None


def same_family(a, b):
    return is_text(a) and is_text(b) or is_bytes(a) and is_bytes(b)


def is_text(x):
    return isinstance(x, (str, SymStr))


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, SymBytes))


def mkstr(chars, cls=str):
    if all(isinstance(c, int) for c in chars):
        s = "".join(map(chr, chars))
        return cls(s) if cls is not str else s
    return SymStr(list(chars), cls)


def mkbytes(chars, cls=bytes):
    if all(isinstance(c, int) for c in chars):
        return cls(bytes(chars)) if cls is not bytes else bytes(chars)
    return SymBytes(list(chars), cls)


def codes_equal(a, b):
    if len(a) != len(b):
        return False
    r = cand(*[ceq(x, y) for x, y in zip(a, b)])
    return r


class _Seq(Sym):
    """Common behaviour of SymStr and SymBytes."""

    __slots__ = ("chars", "cls")

    def _new(self, chars, cls=None):
        raise NotImplementedError

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def _other(self, o):
        if not same_family(self, o):
            return None
        return codes_of(o)

    def __eq__(self, o):
        b = self._other(o)
        if b is None:
            if isinstance(o, np.ndarray):
                return NotImplemented
            return False
        return mkbool(codes_equal(self.chars, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = Sym.__hash__

    def _lt(self, a, b):
        for x, y in zip(a, b):
            if br(ceq(x, y)):
                continue
            if isinstance(x, int) and isinstance(y, int):
                return x < y
            w = x.size() if not isinstance(x, int) else y.size()
            xx = z3.BitVecVal(x, w) if isinstance(x, int) else x
            yy = z3.BitVecVal(y, w) if isinstance(y, int) else y
            return br(z3.ULT(xx, yy))
        return len(a) < len(b)

    def __lt__(self, o):
        b = self._other(o)
        return NotImplemented if b is None else self._lt(self.chars, b)

    def __gt__(self, o):
        b = self._other(o)
        return NotImplemented if b is None else self._lt(b, self.chars)

    def __le__(self, o):
        b = self._other(o)
        return NotImplemented if b is None else not self._lt(b, self.chars)

    def __ge__(self, o):
        b = self._other(o)
        return NotImplemented if b is None else not self._lt(self.chars, b)

    def __add__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return self._new(self.chars + list(b))

    def __radd__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return self._new(list(b) + self.chars)

    def __mul__(self, n):
        if isinstance(n, int):
            return self._new(self.chars * n)
        if isinstance(n, SymInt):
            return self._new(self.chars * n.__index__())
        return NotImplemented

    __rmul__ = __mul__

    def _find(self, sub, start=None, end=None, rev=False):
        n = len(self.chars)
        lo, hi, _ = slice(start, end).indices(n)
        rng = range(lo, hi - len(sub) + 1)
        for i in (reversed(rng) if rev else rng):
            if br(codes_equal(self.chars[i:i + len(sub)], sub)):
                return i
        return -1

    def _sub(self, x):
        b = self._other(x)
        if b is None:
            if isinstance(x, int) and isinstance(self, SymBytes):
                return [x]
            raise TypeError("wrong argument type")
        return b

    def __contains__(self, x):
        return self._find(self._sub(x)) >= 0

    def find(self, x, start=None, end=None):
        return self._find(self._sub(x), start, end)

    def rfind(self, x, start=None, end=None):
        return self._find(self._sub(x), start, end, True)

    def index(self, x, start=None, end=None):
        r = self.find(x, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, x, start=None, end=None):
        r = self.rfind(x, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, x, start=None, end=None):
        sub = self._sub(x)
        n = len(self.chars)
        lo, hi, _ = slice(start, end).indices(n)
        if not sub:
            return max(hi - lo + 1, 0)
        c, i = 0, lo
        while i + len(sub) <= hi:
            if br(codes_equal(self.chars[i:i + len(sub)], sub)):
                c += 1
                i += len(sub)
            else:
                i += 1
        return c

    def startswith(self, x, start=None, end=None):
        if isinstance(x, tuple):
            return any(self.startswith(y, start, end) for y in x)
        ch = self.chars[slice(start, end)]
        b = self._sub(x)
        if len(b) > len(ch):
            return False
        return mkbool(codes_equal(ch[:len(b)], b))

    def endswith(self, x, start=None, end=None):
        if isinstance(x, tuple):
            return any(self.endswith(y, start, end) for y in x)
        ch = self.chars[slice(start, end)]
        b = self._sub(x)
        if len(b) > len(ch):
            return False
        return mkbool(codes_equal(ch[len(ch) - len(b):], b))

    def removeprefix(self, x):
        if br_(self.startswith(x)):
            return self._new(self.chars[len(self._sub(x)):])
        return self

    def removesuffix(self, x):
        if len(x) and br_(self.endswith(x)):
            return self._new(self.chars[:-len(x)])
        return self

    def replace(self, old, new, count=-1):
        o, n = self._sub(old), self._sub(new)
        out = []
        i = 0
        ch = self.chars
        if not o:
            raise core.Unsupported("replace of empty text")
        while i < len(ch):
            if count != 0 and i + len(o) <= len(ch) and br(codes_equal(ch[i:i + len(o)], o)):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(ch[i])
                i += 1
        return self._new(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise core.Unsupported("split on white space")
        s = self._sub(sep)
        out, cur, i = [], [], 0
        ch = self.chars
        while i < len(ch):
            if maxsplit != 0 and i + len(s) <= len(ch) and br(codes_equal(ch[i:i + len(s)], s)):
                out.append(self._new(cur))
                cur = []
                i += len(s)
                maxsplit -= 1
            else:
                cur.append(ch[i])
                i += 1
        out.append(self._new(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise core.Unsupported("rsplit on white space")
        if maxsplit < 0:
            return self.split(sep)
        out = []
        rest = self
        while maxsplit > 0:
            if not isinstance(rest, _Seq):
                return rest.rsplit(sep, maxsplit) + out
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, self._new(rest.chars[i + len(sep):]))
            rest = self._new(rest.chars[:i])
            maxsplit -= 1
        out.insert(0, rest)
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, self._new([]), self._new([]))
        return (self._new(self.chars[:i]), sep, self._new(self.chars[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self._new([]), self._new([]), self)
        return (self._new(self.chars[:i]), sep, self._new(self.chars[i + len(sep):]))

    def _stripset(self, x):
        if x is None:
            return [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680] + list(
                range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000] \
                if isinstance(self, SymStr) else [9, 10, 11, 12, 13, 32]
        return self._sub(x)

    def lstrip(self, x=None):
        vs = self._stripset(x)
        ch = list(self.chars)
        while ch and br(cor(*[ceq(ch[0], v) for v in vs])):
            ch.pop(0)
        return self._new(ch)

    def rstrip(self, x=None):
        vs = self._stripset(x)
        ch = list(self.chars)
        while ch and br(cor(*[ceq(ch[-1], v) for v in vs])):
            ch.pop()
        return self._new(ch)

    def strip(self, x=None):
        r = self.lstrip(x)
        return r.rstrip(x)

    def join(self, items):
        out = []
        for i, x in enumerate(items):
            if not same_family(self, x):
                raise TypeError(f"sequence item {i}: wrong type")
            if i:
                out.extend(self.chars)
            out.extend(codes_of(x))
        return self._new(out)

    def _case(self, how):
        if not isinstance(self, SymStr):
            lo, hi, d = (97, 122, -32) if how == "upper" else (65, 90, 32)
            out = []
            for c in self.chars:
                if isinstance(c, int):
                    out.append(c + d if lo <= c <= hi else c)
                elif br(crange(c, lo, hi)):
                    out.append(tocode(c + d))
                else:
                    out.append(c)
            return self._new(out)
        if len(self.chars) > 1 and how == "lower" and any(br(ceq(c, 0x3a3)) for c in self.chars):
            raise core.Unsupported("lower case of a sigma")
        out = []
        for c in self.chars:
            out += _cased(c, how)
        return self._new(out)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        if not isinstance(self, SymStr):
            raise AttributeError("casefold")
        return self._case("casefold")

    def ljust(self, width, fill=None):
        f = codes_of(fill)[0] if fill is not None else 32
        return self._new(self.chars + [f] * (width - len(self.chars)))

    def rjust(self, width, fill=None):
        f = codes_of(fill)[0] if fill is not None else 32
        return self._new([f] * (width - len(self.chars)) + self.chars)

    def zfill(self, width):
        raise core.Unsupported("zfill")

    def _isall(self, name):
        if not isinstance(self, SymStr):
            ok = [c for c in range(256) if getattr(bytes([c]), name)()]
            return len(self) > 0 and mkbool(cand(*[cset(c, ok) for c in self.chars]))
        return len(self) > 0 and mkbool(cand(*[uclass(c, name) for c in self.chars]))

    def isdigit(self):
        return self._isall("isdigit")

    def isalpha(self):
        return self._isall("isalpha")

    def isalnum(self):
        return self._isall("isalnum")

    def isspace(self):
        return self._isall("isspace")

    def isdecimal(self):
        return self._isall("isdecimal")

    def isnumeric(self):
        return self._isall("isnumeric")

    def isprintable(self):
        return len(self) == 0 or self._isall("isprintable")

    def isidentifier(self):
        if len(self) == 0:
            return False
        return mkbool(cand(uclass(self.chars[0], "isidentifier"), *[uclass(c, "continues") for c in self.chars[1:]]))

    def isascii(self):
        return mkbool(cand(*[crange(c, 0, 127) for c in self.chars]))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(self.cls, name):
            r = self._npattr(name)
            if r is not NotImplemented:
                return r
            raise core.Unsupported(f"{self.cls.__name__}.{name}")
        raise AttributeError(f"'{self.cls.__name__}' object has no attribute '{name}'")

    def _npattr(self, name):
        if issubclass(self.cls, np.generic):
            from . import arr

            return arr.strscalar_attr(self, name)
        return NotImplemented


def br_(x):
    """Decide a bool/SymBool."""
    return bool(x)


class SymStr(_Seq):
    __slots__ = ()

    def __init__(self, chars, cls=str):
        self.chars = chars
        self.cls = cls

    def _new(self, chars, cls=None):
        return mkstr(chars, str if cls is None else cls)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.chars[i])
        if isinstance(i, tuple) and i == () and self.cls is np.str_:
            return self
        return mkstr([self.chars[i.__index__()]])

    def __iter__(self):
        for c in self.chars:
            yield mkstr([c])

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self.chars, encoding, errors)

    def __str__(self):
        return "<SymStr %d>" % len(self.chars)

    __repr__ = __str__

    def __format__(self, spec):
        raise core.Unsupported("format of symbolic text")

    def isidentifier(self):
        raise core.Unsupported("isidentifier")

    __hash__ = Sym.__hash__


class SymBytes(_Seq):
    __slots__ = ()

    def __init__(self, chars, cls=bytes):
        self.chars = chars
        self.cls = cls

    def _new(self, chars, cls=None):
        c = cls
        if c is None:
            c = bytearray if self.cls is bytearray else bytes
        return mkbytes(chars, c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self.chars[i])
        if isinstance(i, tuple) and i == () and self.cls is np.bytes_:
            return self
        c = self.chars[i.__index__()]
        return c if isinstance(c, int) else mkint(z3.ZeroExt(W - 8, c))

    def __setitem__(self, i, v):
        if self.cls is not bytearray:
            raise TypeError("'bytes' object does not support item assignment")
        raise core.Unsupported("bytearray item assignment")

    def __iter__(self):
        for i in range(len(self.chars)):
            yield self[i]

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self.chars, encoding, errors)

    def extend(self, o):
        if self.cls is not bytearray:
            raise AttributeError("extend")
        self.chars = self.chars + list(codes_of(o))

    def hex(self):
        raise core.Unsupported("bytes.hex")

    def __str__(self):
        return "<SymBytes %d>" % len(self.chars)

    __repr__ = __str__
    __hash__ = Sym.__hash__


# -- codecs ------------------------------------------------------------------
def norm_codec(e):
    if not isinstance(e, str):
        raise TypeError("encoding must be str")
    import codecs

    return codecs.lookup(e).name


def _uerr(codec, msg="symbolic"):
    return UnicodeEncodeError(codec, "\ud800", 0, 1, msg)


def _derr(codec, msg="symbolic"):
    return UnicodeDecodeError(codec, b"\xff", 0, 1, msg)


def _bv(c, w):
    return z3.BitVecVal(c, w) if isinstance(c, int) else resize(c, w)


def _ex(c, hi, lo):
    if isinstance(c, int):
        return (c >> lo) & ((1 << (hi - lo + 1)) - 1)
    return tocode(z3.Extract(hi, lo, c))


def _or8(base, c, hi, lo):
    """base | bits hi..lo of c, as a byte."""
    v = _ex(c, hi, lo)
    if isinstance(v, int):
        return base | v
    n = hi - lo + 1
    return tocode(z3.BitVecVal(base, 8) | (z3.ZeroExt(8 - n, v) if n < 8 else v))


def is_surrogate(c):
    return crange(c, 0xD800, 0xDFFF)


def _charmap(name):
    """The code point of every byte of a single-byte codec (None: undefined), or None."""
    if name not in CHARMAPS:
        t = None
        if name not in ("utf-7", "idna", "punycode", "unicode_escape", "raw_unicode_escape",
                        "utf-8", "utf-8-sig", "ascii", "iso8859-1"):
            try:
                t = []
                for b in range(256):
                    try:
                        u = bytes([b]).decode(name)
                        t.append(ord(u) if len(u) == 1 else None)
                    except UnicodeDecodeError:
                        t.append(None)
                # not a multi-byte codec
                if bytes(b for b in range(256) if t[b] is not None).decode(name) != "".join(
                        chr(c) for c in t if c is not None) or t.count(None) > 60:
                    t = None
            except Exception:  # noqa: BLE001
                t = None
        CHARMAPS[name] = t
    return CHARMAPS[name]


CHARMAPS = {}
_uclasses = {}
_cases = {}


def uranges(name):
    """The ranges of the code points of which a method of str holds."""
    if name not in _uclasses:
        if name == "continues":
            test = lambda x: ("a" + x).isidentifier()
        elif name == "isword":
            test = lambda x: x.isalnum() or x == "_"
        else:
            test = getattr(str, name)
        out = []
        for c in range(0x110000):
            if test(chr(c)):
                if out and out[-1][1] == c - 1:
                    out[-1][1] = c
                else:
                    out.append([c, c])
        _uclasses[name] = out
    return _uclasses[name]


def uclass(c, name):
    """Whether a method of str holds for the code point."""
    rs = uranges(name)
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in rs)
    if not br(crange(c, 0, 127)):
        return cor(*[crange(c, lo, hi) for lo, hi in rs if hi > 127])
    return cor(*[crange(c, lo, min(hi, 127)) for lo, hi in rs if lo < 128])


def decimals():
    if "decimals" not in _cases:
        import unicodedata

        _cases["decimals"] = [(c, 48 + unicodedata.decimal(chr(c))) for lo, hi in uranges("isdecimal") for c in range(lo, hi + 1)]
    return _cases["decimals"]


def _cased(c, how):
    """The codes that a code point becomes."""
    if isinstance(c, int):
        return [ord(x) for x in getattr(chr(c), how)()]
    if br(crange(c, 0, 127)):
        lo, hi, d = (97, 122, -32) if how == "upper" else (65, 90, 32)
        return [tocode(c + d) if br(crange(c, lo, hi)) else c]
    if how not in _cases:
        one, more = [], []
        for i in range(128, 0x110000):
            t = getattr(chr(i), how)()
            if len(t) > 1:
                more.append(i)
            elif ord(t) != i:
                one.append((i, ord(t)))
        _cases[how] = one, more
    one, more = _cases[how]
    if br(cset(c, more)):
        raise core.Unsupported("case conversion to more characters")
    r = _mapped(c, one, c.size())
    return [c if r is None else r]

HANDLERS = ("strict", "surrogatepass", "surrogateescape", "ignore", "replace", "backslashreplace",
            "xmlcharrefreplace", "namereplace")


def _ranges(pairs):
    """(from, to, offset) of the consecutive pairs."""
    out = []
    for a, b in sorted(pairs):
        if out and out[-1][1] == a - 1 and out[-1][2] == b - a:
            out[-1][1] = a
        else:
            out.append([a, a, b - a])
    return out


def _mapped(c, pairs, width):
    """The mapped code (of the width), or None where there is none."""
    rs = _ranges(pairs)
    if isinstance(c, int):
        for lo, hi, d in rs:
            if lo <= c <= hi:
                return c + d
        return None
    if not br(cor(*[crange(c, lo, hi) for lo, hi, d in rs])):
        return None
    c32 = resize(c, 32)
    v = c32
    for lo, hi, d in rs:
        if d:
            v = z3.If(z3.And(z3.UGE(c32, lo), z3.ULE(c32, hi)), c32 + d, v)
    return tocode(z3.Extract(width - 1, 0, v) if width < 32 else v)


def encode(chars, encoding="utf-8", errors="strict"):
    name = norm_codec(encoding)
    if errors not in HANDLERS:
        raise core.Unsupported("codec errors=" + str(errors))
    chars = [c if isinstance(c, int) else resize(c, 32) for c in chars]
    out = []
    if name == "utf-8-sig":
        r = encode(chars, "utf-8", errors)
        return mkbytes([0xEF, 0xBB, 0xBF] + codes_of(r))

    def bad(c, enc):
        """Handle a code point that the codec cannot represent."""
        if errors == "strict":
            raise _uerr(name)
        if errors == "ignore":
            return
        if errors == "replace":
            enc(ord("?"))
            return
        if errors == "surrogateescape" and br(crange(c, 0xDC80, 0xDCFF)):
            if not name.startswith("utf-16") and not name.startswith("utf-32"):
                out.append(_ex(c, 7, 0))
                return
            raise core.Unsupported("surrogateescape with " + name)
        if errors == "backslashreplace":
            if br(crange(c, 0, 0xFF)):
                lead, k = "x", 2
            elif br(crange(c, 0, 0xFFFF)):
                lead, k = "u", 4
            else:
                lead, k = "U", 8
            enc(92)
            enc(ord(lead))
            for i in reversed(range(k)):
                if isinstance(c, int):
                    enc(ord("%x" % (c >> 4 * i & 15)))
                else:
                    x = z3.ZeroExt(28, z3.Extract(4 * i + 3, 4 * i, c))
                    enc(tocode(z3.If(z3.ULE(x, 9), x + 48, x + 87)))
            return
        if errors == "xmlcharrefreplace" and isinstance(c, int):
            for ch in "&#%d;" % c:
                enc(ord(ch))
            return
        if errors in ("xmlcharrefreplace", "namereplace"):
            raise core.Unsupported("codec errors=" + errors)
        raise _uerr(name)

    table = _charmap(name)
    if name in ("ascii", "iso8859-1"):
        lim = 127 if name == "ascii" else 255

        def enc(c):
            if br(crange(c, 0, lim)):
                out.append(_ex(c, 7, 0))
            else:
                bad(c, enc)
    elif table is not None:
        inv = {}
        for b, c in enumerate(table):
            if c is not None:
                try:
                    inv[c] = chr(c).encode(name)[0]
                except UnicodeEncodeError:
                    pass

        def enc(c):
            v = _mapped(c, inv.items(), 8)
            if v is None:
                bad(c, enc)
            else:
                out.append(v)
    elif name == "utf-8":
        def enc(c):
            if br(crange(c, 0, 0x7F)):
                out.append(_ex(c, 7, 0))
            elif br(crange(c, 0, 0x7FF)):
                out.append(_or8(0xC0, c, 10, 6))
                out.append(_or8(0x80, c, 5, 0))
            elif br(crange(c, 0, 0xFFFF)):
                if errors != "surrogatepass" and br(is_surrogate(c)):
                    bad(c, enc)
                    return
                out.append(_or8(0xE0, c, 15, 12))
                out.append(_or8(0x80, c, 11, 6))
                out.append(_or8(0x80, c, 5, 0))
            else:
                out.append(_or8(0xF0, c, 20, 18))
                out.append(_or8(0x80, c, 17, 12))
                out.append(_or8(0x80, c, 11, 6))
                out.append(_or8(0x80, c, 5, 0))
    elif name in ("utf-16", "utf-16-le", "utf-16-be"):
        big = name == "utf-16-be"
        if name == "utf-16":
            out += [0xFF, 0xFE]

        def unit(u):
            lo, hi = _ex(u, 7, 0), _ex(u, 15, 8)
            out.extend([hi, lo] if big else [lo, hi])

        def enc(c):
            if br(crange(c, 0, 0xFFFF)):
                if errors != "surrogatepass" and br(is_surrogate(c)):
                    bad(c, enc)
                    return
                unit(c)
            elif isinstance(c, int):
                v = c - 0x10000
                unit(0xD800 | (v >> 10))
                unit(0xDC00 | (v & 0x3FF))
            else:
                v = c - 0x10000
                unit(tocode(z3.BitVecVal(0xD800, 16) | z3.ZeroExt(6, z3.Extract(19, 10, v))))
                unit(tocode(z3.BitVecVal(0xDC00, 16) | z3.ZeroExt(6, z3.Extract(9, 0, v))))
    elif name in ("utf-32", "utf-32-le", "utf-32-be"):
        big = name == "utf-32-be"
        if name == "utf-32":
            out += [0xFF, 0xFE, 0, 0]

        def enc(c):
            if errors != "surrogatepass" and br(is_surrogate(c)):
                bad(c, enc)
                return
            bs = [_ex(c, 8 * i + 7, 8 * i) for i in range(4)]
            out.extend(bs[::-1] if big else bs)
    else:
        raise core.Unsupported("codec " + name)
    for c in chars:
        enc(c)
    return mkbytes(out)


def cat(bs):
    """Combine bytes (least significant first) into one code (int or term)."""
    if all(isinstance(b, int) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b << (8 * i)
        return v
    return tocode(z3.Concat(*[_bv(b, 8) for b in reversed(bs)]))


def decode(bs, encoding="utf-8", errors="strict"):
    name = norm_codec(encoding)
    if errors not in HANDLERS[:6]:
        raise core.Unsupported("codec errors=" + str(errors))
    out = []
    n = len(bs)
    if name == "utf-8-sig":
        if n >= 3 and br(cand(ceq(bs[0], 0xEF), ceq(bs[1], 0xBB), ceq(bs[2], 0xBF))):
            bs = bs[3:]
        return decode(bs, "utf-8", errors)

    def bad(part=None):
        """Handle bytes that are not valid."""
        if errors == "ignore":
            return
        if errors == "replace":
            out.append(0xFFFD)
            return
        if errors == "strict" or part is None or errors == "surrogatepass":
            raise _derr(name)
        if errors == "surrogateescape":
            if name[:6] in ("utf-16", "utf-32"):
                raise core.Unsupported("surrogateescape with " + name)
            for b in part:
                if not br(crange(b, 0x80, 0xFF)):
                    raise _derr(name)
                out.append(0xDC00 + b if isinstance(b, int) else tocode(0xDC00 + resize(b, 32)))
            return
        for b in part:
            out.extend([92, 120])
            for x in (_ex(b, 7, 4), _ex(b, 3, 0)):
                if isinstance(x, int):
                    out.append(ord("%x" % x))
                else:
                    x = z3.ZeroExt(28, x)
                    out.append(tocode(z3.If(z3.ULE(x, 9), x + 48, x + 87)))

    def w32(c):
        return c if isinstance(c, int) else resize(c, 32)

    table = _charmap(name)
    if name in ("ascii", "iso8859-1"):
        for b in bs:
            if name == "ascii" and not br(crange(b, 0, 127)):
                bad([b])
            else:
                out.append(w32(b))
    elif table is not None:
        for b in bs:
            v = _mapped(b, [(k, c) for k, c in enumerate(table) if c is not None], 32)
            if v is None:
                bad([b])
            else:
                out.append(v)
    elif name == "utf-8":
        i = 0

        def bits(b, k):
            if isinstance(b, int):
                return b & ((1 << k) - 1)
            return z3.ZeroExt(32 - k, z3.Extract(k - 1, 0, b))

        def comb(parts):
            v = 0
            for p, sh in parts:
                v = v | (p << sh)
            return v if isinstance(v, int) else tocode(v)

        while i < n:
            b = bs[i]
            if br(crange(b, 0, 0x7F)):
                out.append(w32(b))
                i += 1
                continue
            if br(crange(b, 0xC2, 0xDF)):
                k, lead = 1, 5
            elif br(crange(b, 0xE0, 0xEF)):
                k, lead = 2, 4
            elif br(crange(b, 0xF0, 0xF4)):
                k, lead = 3, 3
            else:
                bad([b])
                i += 1
                continue
            ok = 1
            while ok <= k and i + ok < n:
                lo, hi = 0x80, 0xBF
                if ok == 1 and k == 2:
                    if br(ceq(b, 0xE0)):
                        lo = 0xA0
                    elif errors != "surrogatepass" and br(ceq(b, 0xED)):
                        hi = 0x9F
                elif ok == 1 and k == 3:
                    if br(ceq(b, 0xF0)):
                        lo = 0x90
                    elif br(ceq(b, 0xF4)):
                        hi = 0x8F
                if not br(crange(bs[i + ok], lo, hi)):
                    break
                ok += 1
            if ok <= k:
                bad(bs[i:i + ok])
                i += ok
                continue
            parts = [(bits(b, lead), 6 * k)]
            for j in range(1, k + 1):
                parts.append((bits(bs[i + j], 6), 6 * (k - j)))
            out.append(comb(parts))
            i += k + 1
    elif name in ("utf-16", "utf-16-le", "utf-16-be"):
        big = name == "utf-16-be"
        i = 0
        if name == "utf-16" and n >= 2:
            if br(cand(ceq(bs[0], 0xFF), ceq(bs[1], 0xFE))):
                i = 2
            elif br(cand(ceq(bs[0], 0xFE), ceq(bs[1], 0xFF))):
                i = 2
                big = True
        while i < n:
            if i + 1 >= n:
                bad(bs[i:])
                break
            p = bs[i:i + 2]
            u = cat(p[::-1] if big else p)
            i += 2
            if br(crange(u, 0xD800, 0xDBFF)):
                if i + 1 < n:
                    p = bs[i:i + 2]
                    v = cat(p[::-1] if big else p)
                    if br(crange(v, 0xDC00, 0xDFFF)):
                        i += 2
                        if isinstance(u, int) and isinstance(v, int):
                            out.append(0x10000 + ((u & 0x3FF) << 10) + (v & 0x3FF))
                        else:
                            uu = z3.ZeroExt(22, z3.Extract(9, 0, _bv(u, 16)))
                            vv = z3.ZeroExt(22, z3.Extract(9, 0, _bv(v, 16)))
                            out.append(tocode(0x10000 + (uu << 10) + vv))
                        continue
                    if errors != "surrogatepass":
                        bad(bs[i - 2:i])
                        continue
                elif errors != "surrogatepass":
                    # the text ends within the pair
                    bad(bs[i - 2:])
                    break
            elif errors != "surrogatepass" and br(crange(u, 0xDC00, 0xDFFF)):
                bad(bs[i - 2:i])
                continue
            out.append(w32(u))
    elif name in ("utf-32", "utf-32-le", "utf-32-be"):
        big = name == "utf-32-be"
        i = 0
        if name == "utf-32" and n >= 4:
            if br(cand(*[ceq(bs[j], v) for j, v in enumerate((0xFF, 0xFE, 0, 0))])):
                i = 4
            elif br(cand(*[ceq(bs[j], v) for j, v in enumerate((0, 0, 0xFE, 0xFF))])):
                i = 4
                big = True
        while i < n:
            if i + 3 >= n:
                bad(bs[i:])
                break
            p = bs[i:i + 4]
            u = cat(p[::-1] if big else p)
            i += 4
            if not br(crange(u, 0, 0x10FFFF)):
                bad(p)
            elif errors != "surrogatepass" and br(is_surrogate(u)):
                bad(p)
            else:
                out.append(u)
    else:
        raise core.Unsupported("codec " + name)
    return mkstr(out)


def int_from_text(x, base=10):
    """int(text, base) for symbolic text/bytes; raises ValueError as int does."""
    ch = list(codes_of(x))
    for i, c in enumerate(ch):
        if not br(crange(c, 0, 127)):
            if not isinstance(x, (SymStr, str)):
                raise ValueError("invalid literal for int()")
            # digits and white space of other scripts are taken
            d = _mapped(c, decimals(), 32)
            if d is not None:
                ch[i] = d
            elif br(uclass(c, "isspace")):
                ch[i] = 32
            else:
                raise ValueError("invalid literal for int()")
    while ch and br(cset(ch[0], [9, 10, 11, 12, 13, 32])):
        ch.pop(0)
    while ch and br(cset(ch[-1], [9, 10, 11, 12, 13, 32])):
        ch.pop()
    neg = False
    if ch and br(cset(ch[0], [43, 45])):
        neg = br(ceq(ch[0], 45))
        ch.pop(0)
    if base == 0:
        raise core.Unsupported("int(text, 0)")
    if base == 16 and len(ch) >= 2 and br(cand(ceq(ch[0], 48), cset(ch[1], [88, 120]))):
        ch = ch[2:]
    if not ch:
        raise ValueError("invalid literal for int()")
    under = [br(ceq(c, 95)) for c in ch]
    if any(under):
        if under[-1] or (under[0] and len(ch) == len(codes_of(x))) or any(
                p and q for p, q in zip(under, under[1:])):
            raise ValueError("invalid literal for int()")
        if under[0]:
            raise core.Unsupported("underscore in int()")
        ch = [c for c, u in zip(ch, under) if not u]
    if base == 10 and not all(isinstance(c, int) for c in ch):
        r = terms.of_digits(neg, [z3.BitVecVal(c, 8) if isinstance(c, int)
                                  else z3.simplify(z3.Extract(7, 0, c)) for c in ch])
        if r is not None:
            return r
    tot = z3.BitVecVal(0, W)
    for k, c in enumerate(ch):
        if isinstance(c, int):
            try:
                d = int(chr(c), base)
            except ValueError:
                raise ValueError("invalid literal for int()") from None
            d = z3.BitVecVal(d, W)
        else:
            c8 = z3.ZeroExt(W - c.size(), c)
            conds = [crange(c, 48, min(57, 47 + base))]
            dv = c8 - 48
            if base > 10:
                conds += [crange(c, 97, 86 + base), crange(c, 65, 54 + base)]
                dv = z3.If(z3.ULE(c8, 57), c8 - 48, z3.If(z3.ULE(c8, 90), c8 - 55, c8 - 87))
            if not br(cor(*conds)):
                raise ValueError("invalid literal for int()")
            d = dv
        tot = tot * base + d
    if len(ch) * base.bit_length() > W - 8:
        raise core.Unsupported("int() of a long text")
    return mkint(-tot if neg else tot)


def text_of_int(x):
    """str(SymInt)."""
    neg, ds = x.digits()
    out = [45] if neg else []
    for d in ds:
        out.append(tocode(z3.ZeroExt(24, d) + 48))
    return mkstr(out)


def hex_of_int(x, width=0, upper=False, pad=48, prefix=""):
    """Hexadecimal text of a non-negative SymInt."""
    t = x.t
    if br(t < 0):
        raise core.Unsupported("hex of a negative int")
    n = 1
    if pad == 48 and 1 < width - len(prefix) <= 40:
        # padded with zeros: the same whatever the number of digits
        n = width - len(prefix)
    while not br(z3.ULT(t, z3.BitVecVal(1 << (4 * n), W))):
        n += 1
        if n > 40:
            raise core.Unsupported("hex form too long")
    out = []
    for i in reversed(range(n)):
        nib = z3.ZeroExt(28, z3.Extract(4 * i + 3, 4 * i, t))
        out.append(tocode(z3.If(z3.ULE(nib, 9), nib + 48, nib + (55 if upper else 87))))
    out = [pad] * (width - len(prefix) - n) + out
    return mkstr([ord(c) for c in prefix] + out)
