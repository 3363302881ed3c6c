"""posixpath on symbolic text (after CPython's posixpath.py)."""
import os
import posixpath

from . import core
from .arr import any_sym
from .strs import SymBytes, SymStr, ceq, codes_equal, codes_of, is_text, mkbytes, mkstr
from .terms import br, not_, mkbool

FUNCS = {}


def model(f):
    def deco(g):
        def h(*args, **kw):
            if any_sym(args) or any_sym(kw):
                return g(*args, **kw)
            return f(*args, **kw)
        FUNCS[f] = h
        return h
    return deco


def text(p):
    if isinstance(p, (str, bytes, SymStr, SymBytes)):
        return p
    if isinstance(p, os.PathLike):
        return os.fspath(p)
    raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)


def mk(like, cs):
    return mkstr(cs) if is_text(like) else mkbytes(cs)


def eqs(cs, lit):
    r = codes_equal(cs, [ord(c) for c in lit])
    return r if isinstance(r, bool) else br(r)


def comps(cs):
    out, cur = [], []
    for c in cs:
        if br(ceq(c, 47)):
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    out.append(cur)
    return out


def splitroot(cs):
    if not cs or not br(ceq(cs[0], 47)):
        return [], cs
    if len(cs) < 2 or not br(ceq(cs[1], 47)):
        return [47], cs[1:]
    if len(cs) > 2 and br(ceq(cs[2], 47)):
        return [47], cs[1:]
    return [47, 47], cs[2:]


@model(posixpath.normpath)
def normpath(path):
    path = text(path)
    cs = list(codes_of(path))
    root, rest = splitroot(cs)
    out = []
    for c in comps(rest):
        if not c or eqs(c, "."):
            continue
        if not eqs(c, ".."):
            out.append((c, False))
        elif (not root and not out) or (out and out[-1][1]):
            out.append((c, True))
        elif out:
            out.pop()
    res = list(root)
    for i, (c, _) in enumerate(out):
        if i:
            res.append(47)
        res += c
    return mk(path, res or [46])


@model(posixpath.isabs)
def isabs(s):
    s = text(s)
    cs = codes_of(s)
    return mkbool(ceq(cs[0], 47)) if cs and not isinstance(ceq(cs[0], 47), bool) else (
        bool(cs) and ceq(cs[0], 47))


@model(posixpath.join)
def join(a, *p):
    path = text(a)
    for b in p:
        b = text(b)
        if is_text(b) != is_text(path):
            raise TypeError("Can't mix strings and bytes in path components")
        cb, cp = list(codes_of(b)), list(codes_of(path))
        if cb and br(ceq(cb[0], 47)):
            path = b
        elif not cp or br(ceq(cp[-1], 47)):
            path = mk(path, cp + cb)
        else:
            path = mk(path, cp + [47] + cb)
    return path


def rslash(cs):
    for i in range(len(cs) - 1, -1, -1):
        if br(ceq(cs[i], 47)):
            return i + 1
    return 0


@model(posixpath.split)
def split(p):
    p = text(p)
    cs = list(codes_of(p))
    i = rslash(cs)
    return mk(p, strip_head(cs[:i])), mk(p, cs[i:])


def strip_head(h):
    # all characters of a run of slashes only are kept
    k = len(h)
    while k and br(ceq(h[k - 1], 47)):
        k -= 1
    return h[:k] if k else h


@model(posixpath.dirname)
def dirname(p):
    p = text(p)
    cs = list(codes_of(p))
    return mk(p, strip_head(cs[:rslash(cs)]))


@model(posixpath.basename)
def basename(p):
    p = text(p)
    cs = list(codes_of(p))
    return mk(p, cs[rslash(cs):])


@model(posixpath.commonpath)
def commonpath(paths):
    paths = [text(p) for p in paths]
    if not paths:
        raise ValueError("commonpath() arg is an empty sequence")
    css = [list(codes_of(p)) for p in paths]
    absol = [bool(c) and br(ceq(c[0], 47)) for c in css]
    if len(set(absol)) != 1:
        raise ValueError("Can't mix absolute and relative paths")
    sp = [[c for c in comps(cs) if c and not eqs(c, ".")] for cs in css]

    def eq(a, b):
        r = codes_equal(a, b)
        return r if isinstance(r, bool) else br(r)

    # the common prefix of min and max is that of all
    common = sp[0]
    for s in sp[1:]:
        n = 0
        while n < len(common) and n < len(s) and eq(common[n], s[n]):
            n += 1
        common = common[:n]
    res = [47] if absol[0] else []
    for i, c in enumerate(common):
        if i:
            res.append(47)
        res += c
    return mk(paths[0], res)
