"""A backtracking matcher over the parsed form of a regular expression, for
symbolic text.  Each test of a character forks when both outcomes are
feasible, so the match that is found on a path is the one the re module finds
for every value on that path (leftmost, greedy order of alternatives)."""
import re
import re._constants as C
import re._parser as P

from . import core, strs
from .strs import (SymBytes, SymStr, cand, ceq, cnot, codes_of, cor, crange, is_text, mkbytes,
                   mkstr)
from .terms import br

_cache = {}


def parse(pat):
    k = (pat.pattern, pat.flags)
    if k not in _cache:
        fl = pat.flags
        bad = fl & ~(re.UNICODE | re.ASCII | re.IGNORECASE | re.DOTALL | re.MULTILINE | re.VERBOSE)
        if bad:
            raise core.Unsupported("regex flags")
        _cache[k] = P.parse(pat.pattern, fl & ~re.UNICODE if isinstance(pat.pattern, bytes)
                            else fl)
    return _cache[k]


def category(c, cat, asc):
    neg = cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD)
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = crange(c, 48, 57) if asc else strs.uclass(c, "isdecimal")
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = cor(ceq(c, 32), crange(c, 9, 13)) if asc else strs.uclass(c, "isspace")
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        if asc:
            r = cor(crange(c, 48, 57), crange(c, 65, 90), crange(c, 97, 122), ceq(c, 95))
        else:
            r = strs.uclass(c, "isword")
    else:
        raise core.Unsupported("regex category")
    return cnot(r) if neg else r


_matched = {}


def matched(op, av, flags, asc):
    """The ranges of the characters that one item of a pattern matches."""
    k = (op, str(av), flags)
    if k not in _matched:
        from re import _compiler

        st = P.State()
        st.flags = flags
        st.str = ""
        r = _compiler.compile(P.SubPattern(st, [(op, av)]), flags)
        out = []
        text = flags & re.UNICODE or not asc
        for i in range(0x110000 if text else 256):
            if r.match(chr(i) if text else bytes([i])):
                if out and out[-1][1] == i - 1:
                    out[-1][1] = i
                else:
                    out.append([i, i])
        _matched[k] = out
    return _matched[k]


class M:
    """One matching attempt."""

    def __init__(self, pat, chars, end):
        self.tree = parse(pat)
        self.chars = chars
        self.end = end
        self.flags = pat.flags
        self.asc = bool(pat.flags & re.ASCII) or isinstance(pat.pattern, bytes)

    def run(self, start, full=False):
        groups = {}
        for e, g in self.seq(list(self.tree), 0, start, groups):
            if full and e != self.end:
                continue
            return e, g
        return None

    def test(self, c, op, av):
        if self.flags & re.IGNORECASE and op in (C.LITERAL, C.NOT_LITERAL, C.IN):
            return cor(*[crange(c, lo, hi) for lo, hi in matched(op, av, self.flags, self.asc)])
        if op is C.LITERAL:
            return ceq(c, av)
        if op is C.NOT_LITERAL:
            return cnot(ceq(c, av))
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return True
            return cnot(ceq(c, 10))
        if op is C.IN:
            neg = False
            rs = []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    rs.append(ceq(c, a))
                elif o is C.RANGE:
                    rs.append(crange(c, a[0], a[1]))
                elif o is C.CATEGORY:
                    rs.append(category(c, a, self.asc))
                else:
                    raise core.Unsupported("regex set")
            r = cor(*rs)
            return cnot(r) if neg else r
        return None

    def seq(self, items, k, pos, groups):
        if k == len(items):
            yield pos, groups
            return
        op, av = items[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < self.end and br(self.test(self.chars[pos], op, av)):
                yield from self.seq(items, k + 1, pos + 1, groups)
            return
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = pos == 0
                if not ok and av is C.AT_BEGINNING and self.flags & re.MULTILINE:
                    ok = br(ceq(self.chars[pos - 1], 10))
            elif av is C.AT_END:
                if pos == self.end:
                    ok = True
                elif pos == self.end - 1 or self.flags & re.MULTILINE:
                    ok = br(ceq(self.chars[pos], 10))
                else:
                    ok = False
            elif av is C.AT_END_STRING:
                ok = pos == self.end
            else:
                raise core.Unsupported("regex anchor")
            if ok:
                yield from self.seq(items, k + 1, pos, groups)
            return
        if op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt) + items[k + 1:], 0, pos, groups)
            return
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            if addf or delf:
                raise core.Unsupported("regex inline flags")
            if gid is None:
                yield from self.seq(list(sub) + items[k + 1:], 0, pos, groups)
                return
            for e, g in self.seq(list(sub), 0, pos, groups):
                g2 = dict(g)
                g2[gid] = (pos, e)
                yield from self.seq(items, k + 1, e, g2)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = None if hi is C.MAXREPEAT else hi
            yield from self.rep(list(sub), lo, hi, op is C.MAX_REPEAT, 0, pos, groups,
                                items, k + 1, -1)
            return
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            for e, g in self.rep(list(sub), lo, None if hi is C.MAXREPEAT else hi, True, 0, pos,
                                 groups, [], 0, -1):
                yield from self.seq(items, k + 1, e, g)
                return
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise core.Unsupported("regex look-behind")
                st = pos - lo
                if st < 0:
                    found = None
                else:
                    found = next((x for x in self.seq(list(sub), 0, st, groups) if x[0] == pos),
                                 None)
            else:
                found = next(self.seq(list(sub), 0, pos, groups), None)
            if (found is not None) == (op is C.ASSERT):
                yield from self.seq(items, k + 1, pos, found[1] if found else groups)
            return
        if op is C.GROUPREF:
            if av not in groups:
                return
            a, b = groups[av]
            if pos + b - a > self.end:
                return
            if all(br(ceq(self.chars[a + i], self.chars[pos + i])) for i in range(b - a)):
                yield from self.seq(items, k + 1, pos + b - a, groups)
            return
        raise core.Unsupported("regex operator " + str(op))

    def rep(self, sub, lo, hi, greedy, n, pos, groups, items, k, last):
        can = (hi is None or n < hi) and not (n >= lo and pos == last)
        if n < lo:
            for e, g in self.seq(sub, 0, pos, groups):
                yield from self.rep(sub, lo, hi, greedy, n + 1, e, g, items, k, pos)
            return
        if greedy:
            if can:
                for e, g in self.seq(sub, 0, pos, groups):
                    if e == pos:
                        continue
                    yield from self.rep(sub, lo, hi, greedy, n + 1, e, g, items, k, pos)
            yield from self.seq(items, k, pos, groups)
        else:
            yield from self.seq(items, k, pos, groups)
            if can:
                for e, g in self.seq(sub, 0, pos, groups):
                    yield from self.rep(sub, lo, hi, greedy, n + 1, e, g, items, k, pos)


class NoExists(Exception):
    pass


class Exists:
    """Whether there is any match, as one condition (no forking)."""

    def __init__(self, pat, chars, end):
        self.m = M(pat, chars, end)
        self.chars = chars
        self.end = end

    def cond(self, starts, full=False):
        st = self.seq(list(self.m.tree), {i: True for i in starts})
        return cor(*[c for p, c in st.items() if not full or p == self.end])

    def seq(self, items, st):
        for it in items:
            if not st:
                break
            st = self.step(it, st)
        return st

    @staticmethod
    def union(*sts):
        out = {}
        for st in sts:
            for p, c in st.items():
                out.setdefault(p, []).append(c)
        return {p: cor(*cs) for p, cs in out.items()}

    def step(self, item, st):
        op, av = item
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if op is C.IN and any(o is C.CATEGORY for o, _ in av) and not self.m.asc:
                raise NoExists()
            out = {}
            for p, c in st.items():
                if p < self.end:
                    x = cand(c, self.m.test(self.chars[p], op, av))
                    if x is not False:
                        out[p + 1] = x
            return out
        if op is C.AT:
            out = {}
            for p, c in st.items():
                if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                    ok = p == 0
                    if not ok and av is C.AT_BEGINNING and self.m.flags & re.MULTILINE:
                        ok = ceq(self.chars[p - 1], 10)
                elif av is C.AT_END:
                    ok = True
                    if p != self.end:
                        ok = False
                        if p == self.end - 1 or self.m.flags & re.MULTILINE:
                            ok = ceq(self.chars[p], 10)
                elif av is C.AT_END_STRING:
                    ok = p == self.end
                else:
                    raise NoExists()
                x = cand(c, ok)
                if x is not False:
                    out[p] = x
            return out
        if op is C.BRANCH:
            return self.union(*[self.seq(list(alt), st) for alt in av[1]])
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise NoExists()
            return self.seq(list(av[3]), st)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            cur = st
            for _ in range(lo):
                cur = self.seq(sub, cur)
            outs = [cur]
            n = lo
            while cur and (hi is C.MAXREPEAT or n < hi) and n <= lo + self.end:
                cur = self.seq(sub, cur)
                outs.append(cur)
                n += 1
            return self.union(*outs)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise NoExists()
            out = {}
            for p, c in st.items():
                f = cor(*self.seq(list(sub), {p: True}).values())
                x = cand(c, f if op is C.ASSERT else cnot(f))
                if x is not False:
                    out[p] = x
            return out
        raise NoExists()


class Match:
    def __init__(self, pat, string, start, end, groups, find=None):
        self.re = pat
        self.string = string
        self._find = find
        if find is None:
            self._s, self._e = start, end
            self._g = groups
        self.pos = 0
        self.endpos = len(string)

    def __getattr__(self, n):
        # the position of a match that is known to exist is found when needed
        if n in ("_s", "_e", "_g"):
            m = self._find()
            if m is None:
                raise core.PathAbort()
            self._s, self._e, self._g = m._s, m._e, m._g
            return self.__dict__[n]
        raise AttributeError(n)

    def _span(self, g):
        if g == 0:
            return self._s, self._e
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def group(self, *gs):
        def one(g):
            a, b = self._span(g)
            return None if a < 0 else self.string[a:b]
        if not gs:
            return one(0)
        return one(gs[0]) if len(gs) == 1 else tuple(one(g) for g in gs)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self.group(i) if self._span(i)[0] >= 0 else default
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self.group(n) for n in self.re.groupindex}

    @property
    def lastindex(self):
        raise core.Unsupported("Match.lastindex")

    def expand(self, template):
        raise core.Unsupported("Match.expand")


def _prep(pat, s):
    if is_text(s) != isinstance(pat.pattern, str):
        raise TypeError("cannot use a pattern of the other kind")
    return codes_of(s)


def at(pat, s, start, full=False, end=None):
    ch = _prep(pat, s)
    end = len(ch) if end is None else end
    r = M(pat, ch, end).run(start, full)
    return None if r is None else Match(pat, s, start, r[0], r[1])


def exists(pat, s, starts, full, endpos):
    ch = _prep(pat, s)
    n = len(ch) if endpos is None else endpos
    try:
        c = Exists(pat, ch, n).cond(starts, full)
    except NoExists:
        return None
    return br(c)


def lazily(pat, s, starts, full, endpos, find):
    e = exists(pat, s, starts, full, endpos)
    if e is None:
        return find()
    return Match(pat, s, 0, 0, {}, find) if e else None


def match(pat, s, pos=0, endpos=None):
    return lazily(pat, s, [pos], False, endpos, lambda: at(pat, s, pos, False, endpos))


def fullmatch(pat, s, pos=0, endpos=None):
    return lazily(pat, s, [pos], True, endpos, lambda: at(pat, s, pos, True, endpos))


def search(pat, s, pos=0, endpos=None):
    n = len(s) if endpos is None else endpos
    return lazily(pat, s, list(range(pos, n + 1)), False, endpos,
                  lambda: search1(pat, s, pos, endpos))


def search1(pat, s, pos=0, endpos=None):
    n = len(s) if endpos is None else endpos
    for i in range(pos, n + 1):
        m = at(pat, s, i, False, endpos)
        if m is not None:
            return m
    return None


def finditer(pat, s, pos=0, endpos=None):
    n = len(s) if endpos is None else endpos
    i = pos
    last_end = -1
    while i <= n:
        m = at(pat, s, i, False, endpos)
        if m is None:
            i += 1
            continue
        if m.end() == i:
            # an empty match
            yield m
            i += 1
            continue
        yield m
        i = m.end()


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.group(1))
        else:
            out.append(m.groups())
    return out


def sub(pat, repl, s, count=0, ctr=None):
    out = []
    last = 0
    n = 0
    ch = codes_of(s)
    tmpl = None
    if not callable(repl):
        tmpl = P.parse_template(repl, pat) if not isinstance(repl, (SymStr, SymBytes)) else None
        if isinstance(repl, (SymStr, SymBytes)):
            raise core.Unsupported("symbolic replacement text")
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out += ch[last:m.start()]
        if tmpl is None:
            r = repl(m)
        else:
            r = [] if False else None
            parts = []
            if isinstance(tmpl, list):
                for p in tmpl:
                    parts += codes_of(m.group(p)) if isinstance(p, int) else codes_of(p)
            else:
                raise core.Unsupported("replacement template")
            r = mkstr(parts) if is_text(s) else mkbytes(parts)
        out += codes_of(r)
        last = m.end()
        n += 1
    out += ch[last:]
    res = mkstr(out) if is_text(s) else mkbytes(out)
    if ctr is not None:
        ctr.append(n)
    return res


def subn(pat, repl, s, count=0):
    c = []
    r = sub(pat, repl, s, count, c)
    return r, c[0]


def split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        if m.start() == m.end():
            raise core.Unsupported("regex split on empty matches")
        out.append(s[last:m.start()])
        out += list(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out


METHODS = {"match": match, "fullmatch": fullmatch, "search": search, "finditer": finditer,
           "findall": findall, "sub": sub, "subn": subn, "split": split}
