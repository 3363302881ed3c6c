"""C26: Concurrent operations on one File act as if done one after another."""
import numpy as np

BOUNDS = ("two threads that each do one (of 16 kinds) operation (thorough: up to two) on one File that has two objects, with arbitrary 64 bit ints as data, "
          "every schedule with at most 1 (quick) / 3 (thorough) preemptions at function entries of the package and every line of File's methods, as a number of points before each; "
          "results, final contents and deadlocks are compared with both orders; plain and MATLAB options")
OUTSIDE = ("switches inside of h5py (which has its own lock) and between bytecodes of one line; more threads; iteration and the operations that MutableMapping makes of several "
           "(pop, popitem, clear, update, setdefault, items, values); several File objects on one file; processes")
TIME = {"quick": 90, "thorough": 500}
OPS = ["write new", "write over", "write list", "writes", "read a", "read list", "reads", "contains", "len", "del", "flush", "close", "get missing", "wrong", "closed", "reads new"]
PAIRS = ["write list", "write over", "writes", "read a", "reads", "len", "del", "close", "contains", "flush"]

QUICK = ["write list", "writes", "read a", "len", "del", "close"]


def jobs(tier):
    out = []
    for mode in ("plain", "matlab") if tier != "quick" else ("plain",):
        for a in OPS:
            for b in OPS:
                if tier != "quick" or a in QUICK or b in PAIRS:
                    out.append(("h_two", {"mode": mode, "first": [a], "second": [b], "switches": 1}))
    if tier != "quick":
        for a in PAIRS:
            for b in PAIRS:
                out.append(("h_two", {"mode": "plain", "first": [a], "second": [b], "switches": 2}))
                out.append(("h_two", {"mode": "plain", "first": [a, "read a"], "second": [b, "write over"], "switches": 3}))
    else:
        for a, b in (("flush", "close"), ("flush", "write list"), ("contains", "close"), ("contains", "del"), ("reads", "close"), ("reads", "del"), ("reads", "writes"),
                     ("write over", "close"), ("write over", "del"), ("closed", "close"), ("read list", "close"), ("write new", "close"), ("wrong", "read a"), ("get missing", "write over"), ("read a", "wrong"), ("wrong", "close")):
            out.append(("h_two", {"mode": "plain", "first": [a], "second": [b], "switches": 1}))
        for b in ("write list", "read a", "close"):
            out.append(("h_two", {"mode": "matlab", "first": ["write list"], "second": [b], "switches": 1}))
    return out


MODES = {"plain": {"matlab_compatible": False}, "matlab": {"matlab_compatible": True}}


def do(op, f, v):
    """The operation on the File."""
    if op == "write new":
        return f.write(v[0], "/n")
    if op == "write over":
        return f.write([v[0]], "/a")
    if op == "write list":
        return f.write([v[0], v[1]], "/c")
    if op == "writes":
        return f.writes({"/a": v[0], "/n": v[1]})
    if op == "read a":
        return f.read("/a")
    if op == "read list":
        return f.read("/b")
    if op == "reads":
        return f.reads(["/a", "/b"])
    if op == "reads new":
        return f.reads(["/a", "/n"])
    if op == "contains":
        return "/a" in f
    if op == "len":
        return len(f)
    if op == "del":
        del f["/a"]
        return None
    if op == "flush":
        return f.flush()
    if op == "close":
        return f.close()
    if op == "get missing":
        return f["/missing"]
    if op == "wrong":
        return f.write(object(), "/w")
    return f.closed


def model(op, st, v):
    """What the operation should give, and do to the state ("open" and the values)."""
    d = st["values"]
    if op == "close":
        st["open"] = False
        return "ok", None
    if op == "closed":
        return "ok", not st["open"]
    if not st["open"]:
        return "error", OSError
    if op == "write new":
        d["n"] = v[0]
    elif op == "write over":
        d["a"] = [v[0]]
    elif op == "write list":
        d["c"] = [v[0], v[1]]
    elif op == "writes":
        d["a"], d["n"] = v[0], v[1]
    elif op in ("read a", "reads", "reads new") and "a" not in d or op == "reads new" and "n" not in d:
        return "error", KeyError
    elif op == "read a":
        return "ok", d["a"]
    elif op == "read list":
        return "ok", d["b"]
    elif op == "reads":
        return "ok", [d["a"], d["b"]]
    elif op == "reads new":
        return "ok", [d["a"], d["n"]]
    elif op == "contains":
        return "ok", "a" in d
    elif op == "len":
        return "ok", len(d)
    elif op == "del":
        if "a" not in d:
            return "error", KeyError
        del d["a"]
    elif op == "get missing":
        return "error", KeyError
    elif op == "wrong":
        return "error", NotImplementedError
    return "ok", None


def orders(n, m):
    """The ways to merge n and m operations."""
    if n == 0 or m == 0:
        return [[0] * n + [1] * m]
    return [[0] + o for o in orders(n - 1, m)] + [[1] + o for o in orders(n, m - 1)]


def agree(ctx, got, want):
    if got[0] != want[0]:
        return False
    if got[0] == "error":
        return isinstance(got[1], want[1])
    return ctx.same(got[1], want[1], False)


def h_two(ctx, mode, first, second, switches):
    """Two threads."""
    fn = ctx.path()
    start = {"a": {"k": ctx.int("a", -(1 << 63), (1 << 63) - 1)}, "b": [1]}
    vals = [[ctx.int("v%d%d" % (t, i), -(1 << 63), (1 << 63) - 1) for i in range(2)] for t in range(2)]
    at = [ctx.int("at%d" % i, 0, 100000) for i in range(switches)]
    ops = [first, second]
    results = [[], []]
    with ctx.scheduler("File.") as s:
        f = ctx.call(ctx.hs.File, fn, writable=True, **MODES[mode])
        f.writes({"/" + k: x for k, x in start.items()})

        def thread(t):
            for op in ops[t]:
                try:
                    results[t].append(("ok", do(op, f, vals[t])))
                except Exception as e:
                    results[t].append(("error", e))

        ended = s.run([lambda: thread(0), lambda: thread(1)], at)
        ctx.check("no deadlock", ended)
        closed = f.closed
        f.close()
    f = ctx.call(ctx.hs.File, fn, **MODES[mode])
    final = {k: f.read("/" + k) for k in list(f)}
    f.close()
    ok = False
    for o in orders(len(first), len(second)):
        st = {"open": True, "values": dict(start)}
        n = [0, 0]
        same = True
        for t in o:
            same = same and agree(ctx, results[t][n[t]], model(ops[t][n[t]], st, vals[t]))
            n[t] += 1
        if same and closed == (not st["open"]) and set(final) == set(st["values"]):
            if all(ctx.same(final[k], st["values"][k], False) for k in final):
                ok = True
                break
    ctx.check("as if one after another", ok)
