"""Symbolic regular expression matching: a backtracking matcher over symbolic characters.

Works on the parse tree CPython's own `re` parser produces, so the pattern semantics come from the
pattern text the code under test uses.
"""
import re
import re._constants as C
import re._parser as P

from sx import chars
from sx.core import ANY, Cell, IntSet, Unsupported
from sx.values import c_in, c_is, cell_of, cells_of, is_sym, mkstr, str_eq

_parsed = {}


def parse(pattern, flags):
    key = (pattern, flags)
    r = _parsed.get(key)
    if r is None:
        tree = P.parse(pattern, flags)
        r = _parsed[key] = (tree, tree.state.flags | flags, tree.state.groups, dict(tree.state.groupdict))
    return r


def _category(cat, flags):
    asc = flags & re.ASCII
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        S = chars.ASCII_DIGIT if asc else chars.re_digit()
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        S = IntSet.of(" \t\n\r\f\v") if asc else chars.re_space()
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        S = IntSet.of(("a", "z"), ("A", "Z"), ("0", "9"), "_") if asc else chars.word()
    else:
        raise Unsupported(f"regex category {cat}")
    if cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD):
        S = ANY - S
    return S


def _fold(S, flags):
    if not flags & re.IGNORECASE:
        return S
    out = S
    for d, (lo, hi) in ((32, (65, 90)), (-32, (97, 122))):
        part = S & IntSet(((lo, hi),))
        out = out | IntSet([(a + d, b + d) for a, b in part.iv])
    return out


_sets = {}


def charset(op, av, flags):
    key = (op, repr(av), flags)
    r = _sets.get(key)
    if r is not None:
        return r
    if op is C.LITERAL:
        S = _fold(IntSet(((av, av),)), flags)
    elif op is C.NOT_LITERAL:
        S = ANY - _fold(IntSet(((av, av),)), flags)
    elif op is C.ANY:
        S = ANY if flags & re.DOTALL else ANY - IntSet.of("\n")
    elif op is C.IN:
        neg = False
        S = IntSet()
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                S = S | IntSet(((a, a),))
            elif o is C.RANGE:
                S = S | IntSet((a,))
            elif o is C.CATEGORY:
                S = S | _category(a, flags)
            else:
                raise Unsupported(f"regex set item {o}")
        S = _fold(S, flags)
        if neg:
            S = ANY - S
    else:
        return None
    _sets[key] = S
    return S


class _M:
    def __init__(self, cells, end, flags):
        self.cells = cells
        self.end = end
        self.flags = flags
        self.marks = {}

    def seq(self, items, i, pos, k):
        """match items[i:] at pos, then call the continuation"""
        if i == len(items):
            return k(pos)
        op, av = items[i]
        S = charset(op, av, self.flags)
        if S is not None:
            if pos < self.end and c_in(self.cells[pos], S):
                return self.seq(items, i + 1, pos + 1, k)
            return None
        nxt = lambda p: self.seq(items, i + 1, p, k)
        if op is C.SUBPATTERN:
            group, add, rem, sub = av
            if add or rem:
                raise Unsupported("inline regex flags")
            if group is None:
                return self.seq(list(sub), 0, pos, nxt)
            old = self.marks.get(group)

            def close(p):
                prev = self.marks.get(group)
                self.marks[group] = (pos, p)
                r = nxt(p)
                if r is None:
                    if prev is None:
                        self.marks.pop(group, None)
                    else:
                        self.marks[group] = prev
                return r

            return self.seq(list(sub), 0, pos, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and op is not C.POSSESSIVE_REPEAT:
                S = charset(sub[0][0], sub[0][1], self.flags)
                if S is not None:
                    return self.rep1(S, lo, hi, op is C.MAX_REPEAT, pos, nxt)
            if op is C.POSSESSIVE_REPEAT:
                p, n = pos, 0
                while hi is C.MAXREPEAT or n < hi:
                    q = self.seq(sub, 0, p, lambda x: x)
                    if q is None or q == p:
                        break
                    p, n = q, n + 1
                return nxt(p) if n >= lo else None
            return self.rep(sub, lo, hi, op is C.MAX_REPEAT, 0, pos, nxt, -1)
        if op is C.ATOMIC_GROUP:
            q = self.seq(list(av), 0, pos, lambda x: x)
            return None if q is None else nxt(q)
        if op is C.AT:
            n = self.end
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = pos == 0 or (
                    av is C.AT_BEGINNING and self.flags & re.MULTILINE and c_is(self.cells[pos - 1], 10)
                )
            elif av is C.AT_END_STRING:
                ok = pos == n
            elif av is C.AT_END:
                if self.flags & re.MULTILINE:
                    ok = pos == n or c_is(self.cells[pos], 10)
                else:
                    ok = pos == n or (pos == n - 1 and c_is(self.cells[pos], 10))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                W = _category(C.CATEGORY_WORD, self.flags)
                a = pos > 0 and c_in(self.cells[pos - 1], W)
                b = pos < n and c_in(self.cells[pos], W)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported(f"regex anchor {av}")
            return nxt(pos) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub_l = list(sub)
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("variable width lookbehind")
                r = None
                if pos - lo >= 0:
                    target = pos
                    r = self.seq(sub_l, 0, pos - lo, lambda x: x if x == target else None)
            else:
                r = self.seq(sub_l, 0, pos, lambda x: x)
            if (r is not None) == (op is C.ASSERT):
                return nxt(pos)
            return None
        if op is C.GROUPREF:
            m = self.marks.get(av)
            if m is None:
                return None
            sub = self.cells[m[0] : m[1]]
            if pos + len(sub) <= self.end and bool(str_eq(sub, self.cells[pos : pos + len(sub)])):
                return nxt(pos + len(sub))
            return None
        raise Unsupported(f"regex op {op}")

    def rep1(self, S, lo, hi, greedy, pos, nxt):
        maxn = self.end - pos
        if hi is not C.MAXREPEAT:
            maxn = min(maxn, int(hi))
        if greedy:
            n = 0
            while n < maxn and c_in(self.cells[pos + n], S):
                n += 1
            while n >= lo:
                r = nxt(pos + n)
                if r is not None:
                    return r
                n -= 1
            return None
        n = 0
        while True:
            if n >= lo:
                r = nxt(pos + n)
                if r is not None:
                    return r
            if n < maxn and c_in(self.cells[pos + n], S):
                n += 1
            else:
                return None

    def rep(self, sub, lo, hi, greedy, n, pos, nxt, last):
        def more():
            if (hi is C.MAXREPEAT or n < hi) and not (n >= lo and pos == last):
                return self.seq(sub, 0, pos, lambda p: self.rep(sub, lo, hi, greedy, n + 1, p, nxt, pos))
            return None

        if greedy:
            r = more()
            if r is not None:
                return r
            return nxt(pos) if n >= lo else None
        if n >= lo:
            r = nxt(pos)
            if r is not None:
                return r
        return more()


class SymMatch:
    def __init__(self, pat, string, start, end, marks, groups, names):
        self.re = pat
        self.string = string
        self._all = {0: (start, end), **marks}
        self._n = groups
        self._names = names

    @property
    def __class__(self):
        return re.Match

    def _g(self, g):
        if isinstance(g, str):
            if g not in self._names:
                raise IndexError("no such group")
            g = self._names[g]
        if g < 0 or g >= self._n:
            raise IndexError("no such group")
        return self._all.get(g)

    def span(self, g=0):
        m = self._g(g)
        return (-1, -1) if m is None else m

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _sub(self, g, default=None):
        m = self._g(g)
        if m is None:
            return default
        return self.string[m[0] : m[1]]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        if len(gs) == 1:
            return self._sub(gs[0])
        return tuple(self._sub(g) for g in gs)

    __getitem__ = _sub

    def groups(self, default=None):
        return tuple(self._sub(g, default) for g in range(1, self._n))

    def groupdict(self, default=None):
        return {n: self._sub(g, default) for n, g in self._names.items()}

    @property
    def lastindex(self):
        raise Unsupported("lastindex")

    def __bool__(self):
        return True

    def __repr__(self):
        return "<symmatch>"


class Pattern:
    """symbolic counterpart of a compiled pattern"""

    def __init__(self, pat, flags=0):
        if isinstance(pat, re.Pattern):
            self.pattern, self.flags = pat.pattern, pat.flags
        else:
            if is_sym(pat):
                pat = pat.concretise("regex pattern")
            self.pattern, self.flags = pat, flags
        self.flags = int(self.flags)
        self.tree, self.fl, self.ngroups, self.names = parse(self.pattern, self.flags & ~re.UNICODE)
        self.items = list(self.tree)

    def _try(self, s, cells, pos, end, full=False):
        m = _M(cells, end, self.fl)
        r = m.seq(self.items, 0, pos, (lambda p: p if p == end else None) if full else (lambda p: p))
        if r is None:
            return None
        return SymMatch(self, s, pos, r, dict(m.marks), self.ngroups, self.names)

    def _args(self, s, pos, endpos):
        cells = cells_of(s)
        if cells is None:
            raise TypeError("expected string or bytes-like object")
        n = len(cells)
        pos = max(0, min(pos, n))
        end = n if endpos is None else max(0, min(endpos, n))
        return cells, pos, end

    def match(self, s, pos=0, endpos=None):
        cells, pos, end = self._args(s, pos, endpos)
        return self._try(s, cells, pos, end)

    def fullmatch(self, s, pos=0, endpos=None):
        cells, pos, end = self._args(s, pos, endpos)
        return self._try(s, cells, pos, end, True)

    def search(self, s, pos=0, endpos=None):
        cells, pos, end = self._args(s, pos, endpos)
        for p in range(pos, end + 1):
            m = self._try(s, cells, p, end)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        cells, pos, end = self._args(s, pos, endpos)
        p = pos
        forbid_empty_at = -1
        while p <= end:
            m = self._try(s, cells, p, end)
            if m is not None and m.end() == m.start() == forbid_empty_at:
                # CPython retries for a non-empty match at this position
                mm = _M(cells, end, self.fl)
                start = p
                r = mm.seq(self.items, 0, p, lambda q: q if q > start else None)
                m = None if r is None else SymMatch(self, s, p, r, dict(mm.marks), self.ngroups, self.names)
            if m is None:
                p += 1
                continue
            yield m
            # after an empty match CPython requires the next match to advance
            forbid_empty_at = m.end() if m.end() == m.start() else -1
            p = m.end()

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            g = m.groups("")
            out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
        return out

    def split(self, s, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last : m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(cells_of(s[last : m.start()]))
            if callable(repl):
                r = repl(m)
            else:
                r = self._expand(repl, m)
            out.extend(cells_of(r))
            last = m.end()
            n += 1
        out.extend(cells_of(s[last:]))
        return mkstr(out), n

    def _expand(self, repl, m):
        if is_sym(repl):
            if not any(c_is(c, 92) for c in repl.cells):
                return repl
            raise Unsupported("symbolic regex replacement template")
        if "\\" not in repl:
            return repl
        tmpl = P.parse_template(repl, re.compile(self.pattern, self.flags & ~re.UNICODE))
        out = []
        for part in tmpl:
            if isinstance(part, int):
                out.extend(cells_of(m.group(part) or ""))
            elif part:
                out.extend(cells_of(part))
        return mkstr(out)


def has_sym(args, kwargs):
    return any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values())


def module_function(name):
    real = getattr(re, name)

    def f(pattern, *args, **kwargs):
        flags = kwargs.pop("flags", 0)
        if name in ("search", "match", "fullmatch", "finditer", "findall"):
            if len(args) > 1:
                flags = args[1]
                args = args[:1]
        elif name == "split":
            if len(args) > 2:
                flags = args[2]
                args = args[:2]
        elif name in ("sub", "subn"):
            if len(args) > 3:
                flags = args[3]
                args = args[:3]
        return getattr(Pattern(pattern, flags), name)(*args, **kwargs)

    return real, f
