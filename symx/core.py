"""The symbolic execution engine: path exploration, solver, decision trail.

A harness is executed again and again; every decision (branch on a symbolic
condition, choice between alternatives) is recorded in a trail.  After a path
ends, the deepest decision with an unexplored feasible alternative is flipped
and the harness is executed again.  z3 scopes are kept in step with the trail
so that a common prefix is asserted once.
"""
import os
import random
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class Control(BaseException):
    """Base of the exceptions that steer paths. Never caught by code under test."""


class PathAbort(Control):
    """The path is infeasible (an assumption does not hold)."""


class PathDone(Control):
    """End the path early (everything of interest was checked)."""


class Unsupported(Control):
    """The path met something that is not encoded."""


class Budget(Control):
    """The exploration ran out of its time budget."""


class Violation(Control):
    def __init__(self, label, values, detail=""):
        Control.__init__(self, label)
        self.label = label
        self.values = values
        self.detail = detail


class Decision:
    __slots__ = ("kind", "idx", "alts", "scope", "n", "cond")

    def __init__(self, kind, idx, alts, scope):
        self.kind = kind      # 'b' branch, 'c' choice, 'a' assumption, 'v' value
        self.idx = idx        # current outcome
        self.alts = alts      # outcomes that are still to be explored (list)
        self.scope = scope    # whether it owns a solver scope


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.solver_time = 0.0
        self.unsupported = {}
        self.unknown = 0
        self.assertions = 0
        self.assert_queries = 0


class Engine:
    def __init__(self, timeout_ms=20000, deadline=None, seed=0):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.trail = []
        self.pos = 0
        self.stats = Stats()
        self.model = None
        self.deadline = deadline
        self.max_decisions = 4000
        self.vars = []          # (name, kind, payload) in creation order
        self.names = {}
        self.path_conds = []
        # Depth first at first. Once much of the time is over the rest of the tree is
        # visited in a random order, as most of it is not going to be reached.
        self.began = time.time()
        self.rng = random.Random(seed)
        self.spread = False
        self.frontier = []

    # -- variables ---------------------------------------------------
    def fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    def bv(self, name, width):
        return z3.BitVec(self.fresh(name), width)

    def boolvar(self, name):
        return z3.Bool(self.fresh(name))

    # -- solver ------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_time += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.model = self.solver.model()
        elif r == z3.unknown:
            self.stats.unknown += 1
        return r

    def start_path(self):
        self.pos = 0
        self.names = {}
        self.vars = []
        self.known = {}

    def _model_says(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decide a z3 Bool; returns a Python bool."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "b":
                raise RuntimeError("nondeterministic harness: trail mismatch at branch")
            self.pos += 1
            self.known[cond.get_id()] = (cond, d.idx)
            return d.idx
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        if len(self.trail) > self.max_decisions:
            raise Unsupported("too many decisions on a path")
        self.stats.decisions += 1
        seen = self.known.get(cond.get_id())
        if seen is not None:
            # decided before on this path
            self.trail.append(Decision("b", seen[1], [], False))
            self.pos += 1
            return seen[1]
        out = self._decide(cond)
        self.known[cond.get_id()] = (cond, out)
        return out

    def _decide(self, cond):
        said = self._model_says(cond)
        if said is None:
            r = self._check(cond)
            t_ok = r != z3.unsat
            if r == z3.unknown:
                raise Unsupported("solver unknown")
        else:
            t_ok = True if said else None
        if said is False:
            f_ok = True
            saved = self.model
            r = self._check(cond)
            if r == z3.unknown:
                raise Unsupported("solver unknown")
            t_ok = r == z3.sat
            if not t_ok:
                self.model = saved
        else:
            saved = self.model
            if t_ok:
                r = self._check(z3.Not(cond))
                if r == z3.unknown:
                    raise Unsupported("solver unknown")
                f_ok = r == z3.sat
                self.model = saved
            else:
                f_ok = True
        if t_ok and f_ok:
            first = not (self.spread and self.rng.random() < 0.5)
            d = Decision("b", first, [not first], True)
            self.trail.append(d)
            self.pos += 1
            self.solver.push()
            self.solver.add(cond if first else z3.Not(cond))
            if self._model_says(cond) is not first:
                self.model = None
            d.cond = cond
            return first
        out = bool(t_ok)
        self.trail.append(Decision("b", out, [], False))
        self.pos += 1
        return out

    def choose(self, n, label=""):
        """A nondeterministic choice between n alternatives (no solver)."""
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "c":
                raise RuntimeError("nondeterministic harness: trail mismatch at choice")
            self.pos += 1
            return d.idx
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        self.stats.decisions += 1
        alts = list(range(n))
        first = self.rng.choice(alts) if self.spread else 0
        alts.remove(first)
        self.trail.append(Decision("c", first, alts, False))
        self.pos += 1
        return first

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "a":
                raise RuntimeError("nondeterministic harness: trail mismatch at assumption")
            self.pos += 1
            if not d.idx:
                raise PathAbort()
            return
        self.solver.push()
        self.solver.add(cond)
        ok = True
        if self._model_says(cond) is not True:
            r = self._check()
            if r == z3.unknown:
                self.solver.pop()
                raise Unsupported("solver unknown")
            ok = r == z3.sat
        self.trail.append(Decision("a", ok, [], True))
        self.trail[-1].cond = cond
        self.pos += 1
        if not ok:
            self.model = None
            raise PathAbort()

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                raise Unsupported("no model")
        return self.model

    def concretize(self, term, limit=64):
        """Fork over the values of a bit-vector term; returns a Python int."""
        t = z3.simplify(term)
        if z3.is_bv_value(t):
            return t.as_long()
        for _ in range(limit):
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                if d.kind != "v":
                    raise RuntimeError("nondeterministic harness: trail mismatch at value")
                v = d.n
            else:
                m = self.get_model()
                v = m.eval(t, model_completion=True).as_long()
                d = Decision("v", True, [], False)
                d.n = v
                self.trail.append(d)
            self.pos += 1
            if self.branch(t == v):
                return v
        raise Unsupported("concretisation of a value with more than %d values" % limit)

    def next_path(self):
        """Backtrack; returns False when the tree is exhausted."""
        if not self.spread and self.deadline is not None:
            now = time.time()
            self.spread = now - self.began > 0.3 * (self.deadline - self.began)
        while True:
            open_ = [i for i, d in enumerate(self.trail) if d.alts]
            if open_:
                self._flip(open_)
                return True
            if not self.frontier:
                while self.trail:
                    if self.trail.pop().scope:
                        self.solver.pop()
                return False
            self._restore(self.frontier.pop(self.rng.randrange(len(self.frontier))))

    def _flip(self, open_):
        i = open_[-1]
        if self.spread:
            cs = [k for k in open_ if self.trail[k].kind == "c"]
            i = self.rng.choice(cs if cs and self.rng.random() < 0.6 else open_)
            if i != open_[-1]:
                # what is open below is left for later
                saved = []
                for k, d in enumerate(self.trail[:open_[-1] + 1]):
                    c = Decision(d.kind, d.idx, list(d.alts) if k > i else [], d.scope)
                    if hasattr(d, "cond"):
                        c.cond = d.cond
                    if hasattr(d, "n"):
                        c.n = d.n
                    saved.append(c)
                self.frontier.append(saved)
        while len(self.trail) > i + 1:
            if self.trail.pop().scope:
                self.solver.pop()
        self.model = None
        d = self.trail[-1]
        d.idx = d.alts.pop(self.rng.randrange(len(d.alts)) if self.spread else 0)
        if d.kind == "b":
            self.solver.pop()
            self.solver.push()
            self.solver.add(d.cond if d.idx else z3.Not(d.cond))

    def _restore(self, trail):
        while self.trail:
            if self.trail.pop().scope:
                self.solver.pop()
        for d in trail:
            if d.scope:
                self.solver.push()
                self.solver.add(d.cond if d.kind == "a" or d.idx else z3.Not(d.cond))
            self.trail.append(d)
        self.model = None

    def prove(self, cond):
        """Is cond true for all values of the path?  None when valid, else a model."""
        self.stats.assertions += 1
        if cond is True:
            return None
        if cond is False:
            return self.get_model()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return None
        if z3.is_false(c):
            return self.get_model()
        self.stats.assert_queries += 1
        saved = self.model
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.model = saved
            return None
        if r == z3.unknown:
            raise Unsupported("solver unknown at an assertion")
        m = self.model
        self.model = saved
        return m


ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e
