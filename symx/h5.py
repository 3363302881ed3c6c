"""HDF5 files with symbolic contents, on top of real h5py files.

Structure (groups, types, shapes, filters, attributes' existence, references)
is that of a real file.  Symbolic contents are kept in side tables keyed by
the address of the object in its file; a symbolic link name is stored under a
unique token.
"""
import h5py
import numpy as np

from . import arr, core
from .strs import (SymBytes, SymStr, ceq, cor, codes_of, codes_equal, crange, is_surrogate, mkstr)
from .terms import Sym, SymBool, SymInt, br

DATA = {}     # (file, addr) -> (dtype, shape, [(position, entry)])
ATTR = {}     # (file, addr, name) -> value
NAMES = {}    # token -> SymStr
MARK = "\U000f5359"


def reset():
    DATA.clear()
    ATTR.clear()
    NAMES.clear()


def is_h5(x):
    return isinstance(x, (h5py.Group, h5py.Dataset, h5py.AttributeManager))


def key(obj):
    oid = obj.id
    return (h5py.h5f.get_name(oid), h5py.h5o.get_info(oid).addr)


def akey(attrs):
    oid = attrs._id
    return (h5py.h5f.get_name(oid), h5py.h5o.get_info(oid).addr)


def purge(obj):
    if not DATA and not ATTR:
        return
    k = key(obj)
    DATA.pop(k, None)
    for a in [a for a in ATTR if a[:2] == k]:
        del ATTR[a]


def purge_file(filename):
    import os

    fn = os.fsencode(filename)
    for t in (DATA, ATTR):
        for k in [k for k in t if k[0] == fn]:
            del t[k]


# -- names -------------------------------------------------------------------
def new_token(name):
    t = "%s%d%s" % (MARK, len(NAMES), MARK)
    NAMES[t] = name
    return t


def real_name(tok):
    """A link name of the real file as str or SymStr."""
    return NAMES.get(tok, tok)


def path_name(p):
    """A path of the real file as str or SymStr."""
    if p is None or MARK not in p:
        return p
    out = []
    for i, c in enumerate(p.split("/")):
        if i:
            out.append(47)
        out += codes_of(real_name(c))
    return mkstr(out)


def split_codes(cs):
    parts, cur = [], []
    for c in cs:
        if br(ceq(c, 47)):
            parts.append(cur)
            cur = []
        else:
            cur.append(c)
    parts.append(cur)
    return parts


def eq_codes(a, b):
    c = codes_equal(a, b)
    return c if isinstance(c, bool) else br(c)


def translate(grp, name):
    """The real file's path for a (symbolic) path relative to grp."""
    symname = isinstance(name, Sym)
    if not symname and not NAMES:
        return name
    if isinstance(name, (bytes, SymBytes)):
        name = name.decode("utf-8")
        symname = isinstance(name, Sym)
    if not isinstance(name, (str, SymStr)):
        return name
    cs = list(codes_of(name))
    if not symname:
        if any(0xD800 <= c <= 0xDFFF for c in cs):
            return name
    else:
        for i, c in enumerate(cs):
            if not isinstance(c, int) and br(is_surrogate(c)) or (
                    isinstance(c, int) and 0xD800 <= c <= 0xDFFF):
                raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        for i, c in enumerate(cs):
            if br(ceq(c, 0)):
                # C strings end at the NUL
                cs = cs[:i]
                break
        if not cs:
            return "\0" if symname else ""
    parts = split_codes(cs)
    cur = grp
    if len(parts) > 1 and not parts[0]:
        cur = grp.file["/"]
    out = []
    for p in parts:
        if not p or (len(p) == 1 and br(ceq(p[0], 46))):
            out.append("" if not p else ".")
            continue
        psym = not all(isinstance(c, int) for c in p)
        nm = None
        links = list(cur) if isinstance(cur, h5py.Group) else []
        if not psym:
            s = "".join(map(chr, p))
            if s in links:
                # the link names of a group differ, so no token equals s
                nm = s
            else:
                for t in links:
                    if t in NAMES and eq_codes(NAMES[t].chars, p):
                        nm = t
                        break
                else:
                    nm = s
        else:
            for t in links:
                if eq_codes(codes_of(real_name(t)), p):
                    nm = t
                    break
            else:
                nm = new_token(SymStr(list(p)))
        out.append(nm)
        if isinstance(cur, h5py.Group):
            cur = cur.get(nm)
    return "/".join(out)


def active(grp, *names):
    return bool(NAMES) or any(isinstance(n, Sym) for n in names)


def names_in(grp):
    """Link names in the order of the real library."""
    ns = list(grp)
    if not any(n in NAMES for n in ns):
        return ns
    out = []
    for n in ns:
        s = real_name(n)
        i = 0
        while i < len(out) and bool(out[i] < s):
            i += 1
        out.insert(i, s)
    return out


# -- datasets ------------------------------------------------------------------
def snapshot(a, dt):
    """Symbolic bytes of an array cast to dt: list of (position, entry)."""
    out = []
    n = dt.itemsize
    same = a.dtype == dt
    if dt.kind == "c" and a.dtype.names is not None and len(a.dtype.names) == 2:
        # h5py reads such compounds as complex numbers
        part = np.dtype("f%d" % (n // 2)).newbyteorder(dt.byteorder)
        same = a.dtype.itemsize == n and all(a.dtype[m] == part for m in a.dtype.names)
    for i, p in enumerate(arr.addrs(a)):
        bs = arr.elem(a, p)
        if not same:
            bs = arr.ununits(dt, arr.cast(arr.units(a.dtype, bs), a.dtype, dt))
        for j, b in enumerate(bs):
            if not isinstance(b, int):
                out.append((i * n + j, b))
    return out


def store(dset, data):
    """Remember the symbolic contents of data, which was written to dset."""
    k = key(dset)
    DATA.pop(k, None)
    a = arr.to_array(data) if not isinstance(data, np.ndarray) else data
    if a.dtype.hasobject or not arr.shadowed(a):
        return
    if a.shape != dset.shape:
        a = np.broadcast_to(a, dset.shape)
    sn = snapshot(a, dset.dtype)
    if sn:
        DATA[k] = (dset.dtype, dset.shape, sn)


def load(dset, r):
    """Overlay the symbolic contents on an array read from dset."""
    ent = DATA.get(key(dset)) if DATA else None
    if ent is None:
        return r
    dt, shape, sn = ent
    if isinstance(r, np.ndarray):
        if r.shape != shape or r.dtype != dset.dtype:
            raise core.Unsupported("partial read of a dataset")
        arr.keep(r)
        ad = arr.addrs(r)
        n = dt.itemsize
        for pos, b in sn:
            arr.write_bytes(ad[pos // n] + pos % n, [b])
        return r
    t = arr.keep(np.zeros((), dtype=dset.dtype))
    bs = list(np.asarray(r).astype(dset.dtype).tobytes())
    for pos, b in sn:
        bs[pos] = b
    arr.write_bytes(arr.base_addr(t), bs)
    if dt.names is not None:
        return arr.SymScalar(t)
    return arr.scalar(t.dtype, arr.read_bytes(arr.base_addr(t), t.itemsize))


def getitem(obj, i):
    if isinstance(obj, h5py.Dataset):
        if not DATA:
            return obj[i]
        if DATA.get(key(obj)) is None:
            return obj[i]
        if i is Ellipsis or i == ():
            return load(obj, obj[i])
        if isinstance(i, slice) and i == slice(None):
            return load(obj, obj[...])
        raise core.Unsupported("partial read of a dataset")
    if isinstance(obj, h5py.AttributeManager):
        return attr_get(obj, i)
    if isinstance(i, (str, bytes, Sym)):
        return obj[translate(obj, i)]
    return obj[i]


def setitem(obj, i, v):
    if isinstance(obj, h5py.Dataset):
        if arr.any_sym(v) or (DATA and key(obj) in DATA):
            if not (i is Ellipsis or i == ()):
                raise core.Unsupported("partial write of a dataset")
            a = v if isinstance(v, np.ndarray) else arr.to_array(v)
            obj[i] = a
            store(obj, a)
            return
        obj[i] = v
        return
    if isinstance(obj, h5py.AttributeManager):
        attr_create(obj, i, v)
        return
    if isinstance(i, (str, bytes, Sym)):
        if arr.any_sym(v):
            raise core.Unsupported("group item assignment")
        obj[translate(obj, i)] = v
        return
    obj[i] = v


def delitem(obj, i):
    if isinstance(obj, h5py.AttributeManager):
        del obj[i]
        ATTR.pop(akey(obj) + (i,), None)
        return
    del obj[translate(obj, i)]


def contains(obj, i):
    if isinstance(obj, h5py.Group) and isinstance(i, (str, bytes, Sym)):
        return translate(obj, i) in obj
    return i in obj


# -- attributes ------------------------------------------------------------------
def attr_load(attrs, k, v):
    ent = ATTR.get(akey(attrs) + (k,)) if ATTR else None
    if ent is None:
        return v
    kind, val = ent
    if kind == "bytes":
        cs = list(val)
        while cs and br(ceq(cs[-1], 0)):
            cs.pop()
        from .strs import mkbytes

        r = mkbytes(cs)
        return SymBytes(r.chars, np.bytes_) if isinstance(r, SymBytes) else np.bytes_(r)
    if kind == "strs":
        a = np.empty((len(val),), object)
        for i, s in enumerate(val):
            a[i] = s
        return a
    if kind == "arr":
        r = np.array(v)
        arr.keep(r)
        ad = arr.addrs(r)
        n = r.dtype.itemsize
        for pos, b in val:
            arr.write_bytes(ad[pos // n] + pos % n, [b])
        return r if r.ndim else arr.scalar(r.dtype, arr.read_bytes(ad[0], n))
    if kind == "vlen":
        a = np.empty(v.shape, dtype=v.dtype)
        for i, (r, sn) in enumerate(zip(v, val)):
            r = arr.keep(np.array(r))
            ad = arr.addrs(r)
            for pos, b in sn:
                arr.write_bytes(ad[pos // r.dtype.itemsize] + pos % r.dtype.itemsize, [b])
            a[i] = r
        return a
    raise core.Unsupported("attribute")


def attr_get(attrs, k):
    return attr_load(attrs, k, attrs[k])


def attr_create(attrs, k, v, shape=None, dtype=None, modify=False):
    ATTR.pop(akey(attrs) + (k,), None) if ATTR else None
    if not arr.any_sym(v):
        if modify:
            attrs.modify(k, v)
        elif shape is None and dtype is None:
            attrs.create(k, v)
        else:
            attrs.create(k, v, shape=shape, dtype=dtype)
        return
    if isinstance(v, SymBytes) and v.cls is np.bytes_ and dtype is None:
        real, ent = np.bytes_(b"x" * len(v.chars)), ("bytes", list(v.chars))
    elif isinstance(v, (list, tuple)) and all(isinstance(s, (str, SymStr)) for s in v):
        if dtype is None or h5py.check_string_dtype(np.dtype(dtype)) is None:
            raise core.Unsupported("text attribute")
        for s in v:
            for c in codes_of(s):
                if br(is_surrogate(c)) if not isinstance(c, int) else 0xD800 <= c <= 0xDFFF:
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        for s in v:
            for c in codes_of(s):
                if br(ceq(c, 0)):
                    raise ValueError("VLEN strings do not support embedded NULLs")
        real, ent = ["x"] * len(v), ("strs", list(v))
    elif isinstance(v, np.ndarray) and v.dtype.hasobject and h5py.check_vlen_dtype(v.dtype) is not None:
        base = np.dtype(h5py.check_vlen_dtype(v.dtype))
        real = v
        ent = ("vlen", [snapshot(x, base) for x in v.flat])
    elif isinstance(v, (np.ndarray, arr.SymScalar)) and dtype is None:
        a = arr.to_array(v)
        real, ent = (a if a.ndim else a[()]), ("arr", snapshot(a, a.dtype))
    else:
        raise core.Unsupported("attribute value %s" % type(v).__name__)
    if modify:
        attrs.modify(k, real)
    elif shape is None and dtype is None:
        attrs.create(k, real)
    else:
        attrs.create(k, real, shape=shape, dtype=dtype)
    ATTR[akey(attrs) + (k,)] = ent


# -- methods --------------------------------------------------------------------
def setting(v):
    """A setting of a Dataset in each way it may be."""
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymInt):
        for k in range(10):
            if bool(v == k):
                return k
        raise core.Unsupported("setting of a Dataset")
    return v


def method(obj, name, args, kw):
    if isinstance(obj, h5py.AttributeManager):
        if name in ("create", "modify"):
            if name == "modify":
                return attr_create(obj, *args, modify=True)
            return attr_create(obj, args[0], args[1], *args[2:], **kw)
        if name == "get":
            if args[0] in obj:
                return attr_get(obj, args[0])
            return args[1] if len(args) > 1 else kw.get("default")
        if name == "items":
            return [(k, attr_get(obj, k)) for k in obj]
        if name == "values":
            return [attr_get(obj, k) for k in obj]
        if name == "pop":
            raise core.Unsupported("attrs.pop")
        if name == "__iter__":
            return iter(list(obj))
        return getattr(obj, name)(*args, **kw)
    if isinstance(obj, h5py.Dataset):
        if name in ("astype", "asstr", "read_direct", "fields", "iter_chunks", "write_direct",
                    "resize"):
            if DATA and key(obj) in DATA:
                raise core.Unsupported("Dataset." + name)
        if name == "__getitem__":
            return getitem(obj, *args)
        if name == "__setitem__":
            return setitem(obj, *args)
        return getattr(obj, name)(*args, **kw)
    # groups and files
    if name == "create_dataset":
        nm = args[0] if args else kw.pop("name")
        rest = list(args[1:])
        t = translate(obj, nm)
        kw = {k: v if k == "data" else setting(v) for k, v in kw.items()}
        data = kw.get("data", rest[2] if len(rest) > 2 else None)
        if isinstance(data, Sym):
            a = arr.to_array(data)
            if "data" in kw:
                kw["data"] = a
            else:
                rest[2] = a
            data = a
        d = obj.create_dataset(t, *rest, **kw)
        purge(d)
        if isinstance(data, np.ndarray):
            store(d, data)
        return d
    if name in ("create_group", "require_group"):
        nm = args[0] if args else kw.pop("name")
        t = translate(obj, nm)
        if name == "create_group":
            g = obj.create_group(t, *args[1:], **kw)
            purge(g)
            return g
        if t in obj:
            return obj.require_group(t)
        g = obj.require_group(t)
        purge(g)
        return g
    if name == "get":
        nm = args[0] if args else kw.pop("name")
        return obj.get(translate(obj, nm), *args[1:], **kw)
    if name in ("pop", "move", "copy", "require_dataset", "visit", "visititems", "update",
                "setdefault", "popitem"):
        if NAMES or DATA or ATTR:
            raise core.Unsupported("Group." + name)
        return getattr(obj, name)(*args, **kw)
    if name == "keys":
        return names_in(obj) if NAMES else obj.keys()
    if name == "__iter__":
        return iter(names_in(obj))
    if name == "items":
        return [(n, getitem(obj, n)) for n in names_in(obj)] if NAMES else obj.items()
    if name == "values":
        return [getitem(obj, n) for n in names_in(obj)] if NAMES else obj.values()
    if name == "__getitem__":
        return getitem(obj, *args)
    if name == "__contains__":
        return contains(obj, *args)
    if name == "__delitem__":
        return delitem(obj, *args)
    return getattr(obj, name)(*args, **kw)
