"""C31: dtype helper predicates are exact."""
import ast

import numpy as np

BOUNDS = ("dtypes built of up to two levels of fields, each a simple type (without bytes too) or a subarray whose dimensions are arbitrary "
          "(0..3 each, up to two of them); one of these 7 levels deep, as one of 40 fields, and of up to 9 dimensions; texts of all simple types and of the structured ones; those and the ones whose fields are in a type other than numpy.void read back from a file, plain and MATLAB compatible")
OUTSIDE = "other forms of deeper nesting"


def jobs(tier):
    return [("h_zero", {"form": f, "np_": a, "nq": b}) for f in FORMS for a in (1, 2) for b in (1, 2)] + [
        ("h_text", {"i": i}) for i in range(len(TEXT))] + [
        ("h_stored", {"i": i, "mc": mc}) for i in range(len(TEXT) + len(TYPED)) for mc in (False, True)]


FORMS = ["plain", "sub", "first", "last", "both", "nested", "nested3", "subfields", "fieldsubfields", "subsub", "deep", "many", "manysub"]
TEXT = ["u1", "<i8", ">i8", "?", "S3", "U2", "O", "c16", ("u1", (2,)), ("f4", (2, 3)), [("a", "u1"), ("b", "S2")],
        [("a", "u1", (2,))], [("a", [("b", ">u2"), ("c", "?")])], [("é", "u1")], [("a b'c", "u1")], "V3", "f2",
        [("a", "u1", (0,))], "M8[ns]", "m8[s]"]
# The names of the scalar types are in the texts of these.
TYPED = [(np.record, [("a", "<i4")]), [("a", (np.record, [("b", ">i2")]), (2,))], (np.int32, [("a", "<i2"), ("b", "<i2")]),
         (np.record, {"names": ["numpy.record", "b"], "formats": ["S2", "<f4"], "offsets": [4, 0]}),
         (np.record, [("a", (np.record, [("b", "?"), ("é", "O")]))])]


def dims(ctx, name, n):
    return [ctx.int("%s%d" % (name, i), 0, 3) for i in range(n)]


def h_zero(ctx, form, np_, nq):
    """A zero in the shape of any part of the type, whatever the dimensions are."""
    s1 = dims(ctx, "p", np_)
    s2 = dims(ctx, "q", nq)
    z1 = ctx.Or(*[d == 0 for d in s1])
    z2 = ctx.Or(*[d == 0 for d in s2])
    base = ctx.choose("base", ["u1", "S1", "S0", "U0", "V0"])
    sub = ("sub", base, s1)
    sub2 = ("sub", base, s2)
    if form == "plain":
        spec, z = base, False
    elif form == "sub":
        spec, z = sub, z1
    elif form == "first":
        spec, z = ("fields", [("a", sub), ("b", "u1")]), z1
    elif form == "last":
        spec, z = ("fields", [("b", "u1"), ("a", sub)]), z1
    elif form == "both":
        spec, z = ("fields", [("b", sub2), ("a", sub)]), ctx.Or(z1, z2)
    elif form == "nested":
        spec, z = ("fields", [("a", ("fields", [("b", sub), ("c", sub2)]))]), ctx.Or(z1, z2)
    elif form == "nested3":
        spec = ("fields", [("x", "u1"), ("a", ("fields", [("y", "u1"), ("d", ("fields", [("b", sub), ("c", sub2)]))]))])
        z = ctx.Or(z1, z2)
    elif form == "subfields":
        spec, z = ("sub", ("fields", [("b", sub)]), s2), ctx.Or(z1, z2)
    elif form == "fieldsubfields":
        spec, z = ("fields", [("x", "u1"), ("y", ("sub", ("fields", [("b", sub)]), s2))]), ctx.Or(z1, z2)
    elif form == "deep":
        spec, z = sub, z1
        for i in range(7):
            spec = ("sub", spec, [1, 2]) if i % 3 == 1 else ("fields", [("b%d" % i, "u1"), ("a", spec), ("c", ("sub", "u1", [2]))])
    elif form == "many":
        at = ctx.choose("at", [0, 15, 39])
        fs = [("f%d" % (i * 7 % 40), sub if i == at else ("sub", "u1", [2]) if i % 3 else "<f8") for i in range(40)]
        spec, z = ("fields", fs), z1
    elif form == "manysub":
        spec, z = ("fields", [("a", ("sub", base, [1, 2, 1, 3, 2] + s1 + s2))]), ctx.Or(z1, z2)
    else:
        spec, z = ("fields", [("a", ("sub", sub, s2))]), ctx.Or(z1, z2)
    got = ctx.utilities.does_dtype_have_a_zero_shape(ctx.dtype(spec))
    ctx.check("exactly when there is a zero", got == z)


def h_text(ctx, i):
    dt = np.dtype(TEXT[i])
    t = ctx.utilities.convert_dtype_to_str(dt)
    ctx.check("is text", isinstance(t, str))
    ctx.check("same dtype back", np.dtype(ast.literal_eval(t)) == dt)


def h_stored(ctx, i, mc):
    """The dtype that is read is the one that was written."""
    dt = np.dtype((TEXT + TYPED)[i])
    fn = ctx.path()
    f = ctx.call(ctx.hs.File, fn, writable=True, matlab_compatible=mc)
    ctx.call(f.write, dt, "/x")
    got = ctx.call(f.read, "/x")
    ctx.call(f.close)
    ctx.check("same dtype", isinstance(got, np.dtype) and got == dt and got.type is dt.type and str(got) == str(dt))
