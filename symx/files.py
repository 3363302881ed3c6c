"""Binary files with symbolic bytes, and the time of day."""
import builtins
import datetime
import os

import z3

from . import core
from .arr import any_sym
from .strs import SymBytes, codes_of
from .terms import Sym

OVERLAY = {}      # real path -> {offset: byte}
NOW = [None]


def reset():
    OVERLAY.clear()
    NOW[0] = None


def drop(fn):
    OVERLAY.pop(os.path.realpath(fn), None)


def file_bytes(fn, n):
    """The first bytes of a file."""
    with builtins.open(fn, "rb") as f:
        real = list(f.read(n))
    over = OVERLAY.get(os.path.realpath(fn))
    if over:
        for i, b in over.items():
            if i < len(real):
                real[i] = b
    return mk(real)


def mk(codes):
    if any(z3.is_expr(c) for c in codes):
        return SymBytes(codes, bytes)
    return bytes(codes)


class SymIO:
    """A binary file of which some bytes may be symbolic."""

    def __init__(self, f, fn):
        self.f = f
        self.key = os.path.realpath(fn)

    def write(self, b):
        at = self.f.tell()
        codes = list(codes_of(b)) if isinstance(b, Sym) else list(b)
        over = OVERLAY.setdefault(self.key, {})
        for i, c in enumerate(codes):
            if z3.is_expr(c):
                over[at + i] = c
            else:
                over.pop(at + i, None)
        self.f.write(bytes([0x53 if z3.is_expr(c) else c for c in codes]))
        return len(codes)

    def read(self, n=-1):
        at = self.f.tell()
        codes = list(self.f.read(n))
        over = OVERLAY.get(self.key, {})
        return mk([over.get(at + i, c) for i, c in enumerate(codes)])

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def flush(self):
        self.f.flush()

    def close(self):
        self.f.close()

    def truncate(self, *a):
        raise core.Unsupported("truncate")

    def fileno(self):
        return self.f.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


def open_(file, mode="r", *a, **kw):
    if any_sym(file) or any_sym(mode):
        raise core.Unsupported("symbolic file name")
    f = builtins.open(file, mode, *a, **kw)
    if "b" in mode and isinstance(file, (str, bytes, os.PathLike)):
        if "w" in mode:
            drop(file)
        return SymIO(f, file)
    return f


def utcnow():
    return NOW[0] if NOW[0] is not None else datetime.datetime.utcnow()


def now(tz=None):
    if NOW[0] is not None:
        if tz is None or tz == datetime.timezone.utc:
            from .records import SymRecord

            return SymRecord(datetime.datetime, dict(NOW[0].f, tzinfo=tz))
        raise core.Unsupported("local time")
    return datetime.datetime.now(tz)


FUNCS = {builtins.open: open_, datetime.datetime.utcnow: utcnow, datetime.datetime.now: now}
