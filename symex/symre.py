"""Backtracking regular-expression matcher over symbolic text.

The pattern is parsed by CPython's own `re._parser`; every character test against a symbolic
character becomes a solver-decided fork.  Unexpandable tokens (fingerprints, digests) are matched
as single cells.
"""

from __future__ import annotations

import re
import re._constants as C
import re._parser as P

from . import values as V
from .engine import Unsupported

_CATS = {
    C.CATEGORY_DIGIT: (frozenset("0123456789"), False),
    C.CATEGORY_NOT_DIGIT: (frozenset("0123456789"), True),
    C.CATEGORY_SPACE: (frozenset(" \t\n\r\x0b\x0c"), False),
    C.CATEGORY_NOT_SPACE: (frozenset(" \t\n\r\x0b\x0c"), True),
    C.CATEGORY_WORD: (
        frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"),
        False,
    ),
    C.CATEGORY_NOT_WORD: (
        frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"),
        True,
    ),
}
_ASCII = frozenset(chr(i) for i in range(128))


class _NeedExpand(Exception):
    def __init__(self, i):
        self.i = i


def _in_set(items):
    neg = False
    chars = set()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            chars.add(chr(av))
        elif op is C.RANGE:
            if av[1] - av[0] > 5000:
                raise Unsupported("huge character range")
            chars.update(chr(c) for c in range(av[0], av[1] + 1))
        elif op is C.CATEGORY:
            s, n = _CATS[av]
            chars.update((_ASCII - s) if n else s)
        else:
            raise Unsupported(f"regex set {op}")
    return frozenset(chars), neg


class _Matcher:
    def __init__(self, cells, flags):
        self.cells = cells
        self.flags = flags
        self.n = len(cells)
        self.groups: dict[int, tuple[int, int]] = {}

    # Every matcher takes a continuation k(pos) -> bool.
    def seq(self, nodes, i, pos, k):
        if i == len(nodes):
            return k(pos)
        op, av = nodes[i]
        nxt = lambda p: self.seq(nodes, i + 1, p, k)  # noqa: E731
        if op is C.LITERAL:
            if av == 0xE000:  # a lifted symbolic string embedded in the pattern
                j = i + 1
                digits = ""
                while nodes[j][1] != 0xE001:
                    digits += chr(nodes[j][1])
                    j += 1
                sub = V.chars_of(V._lookup(int(digits))._r)
                return self.lits(sub, 0, pos, lambda p: self.seq(nodes, j + 1, p, k))
            return pos < self.n and self.test_lit(pos, chr(av)) and nxt(pos + 1)
        if op is C.NOT_LITERAL:
            return pos < self.n and not self.test_lit(pos, chr(av)) and nxt(pos + 1)
        if op is C.ANY:
            if pos >= self.n:
                return False
            if not (self.flags & re.DOTALL) and self.test_lit(pos, "\n"):
                return False
            return nxt(pos + 1)
        if op is C.IN:
            return pos < self.n and self.test_in(pos, av) and nxt(pos + 1)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return pos == 0 and nxt(pos)
            if av is C.AT_END_STRING:
                return pos == self.n and nxt(pos)
            if av is C.AT_END:
                return (pos == self.n) and nxt(pos)
            raise Unsupported(f"regex anchor {av}")
        if op is C.SUBPATTERN:
            gid, add, dele, sub = av
            if add or dele:
                raise Unsupported("regex inline flags")
            if gid is None:
                return self.seq(list(sub), 0, pos, nxt)

            def done(p, pos=pos, gid=gid):
                old = self.groups.get(gid)
                self.groups[gid] = (pos, p)
                if nxt(p):
                    return True
                if old is None:
                    self.groups.pop(gid, None)
                else:
                    self.groups[gid] = old
                return False

            return self.seq(list(sub), 0, pos, done)
        if op is C.GROUPREF:
            if av not in self.groups:
                return False
            s, e = self.groups[av]
            return self.lits(self.cells[s:e], 0, pos, nxt)
        if op is C.BRANCH:
            return any(self.seq(list(b), 0, pos, nxt) for b in av[1])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            lazy = op is C.MIN_REPEAT
            counted = lo > 1 or hi is not C.MAXREPEAT

            def rep(count, p):
                if counted and p < self.n and isinstance(self.cells[p], V.Tok):
                    c = self.cells[p]
                    # A padded number is at least `pad` characters long.
                    if not (hi is C.MAXREPEAT and (count >= lo or count + c.pad >= lo)):
                        if c.kind in ("dec", "hex"):
                            raise _NeedExpand(p)
                        raise Unsupported(f"counting the characters of a {c.kind}")
                    wide = lo
                else:
                    wide = count + 1

                def more():
                    if hi is not C.MAXREPEAT and count >= hi:
                        return False
                    return self.seq(
                        sub, 0, p, lambda q: (q > p or count < lo) and rep(max(wide, count + 1), q)
                    )

                if count < lo:
                    return more()
                if lazy:
                    return nxt(p) or more()
                return more() or nxt(p)

            return rep(0, pos)
        raise Unsupported(f"regex op {op}")

    def lits(self, sub, j, pos, k):
        if j == len(sub):
            return k(pos)
        if pos >= self.n:
            return False
        c, x = self.cells[pos], sub[j]
        if isinstance(c, V.Tok) or isinstance(x, V.Tok):
            if isinstance(c, V.Tok) and isinstance(x, V.Tok) and c.kind == x.kind:
                if not V.eng().fork(V.tok_eq(c, x)):
                    return False
                return self.lits(sub, j + 1, pos + 1, k)
            if isinstance(x, str):
                return self.test_lit(pos, x) and self.lits(sub, j + 1, pos + 1, k)
            raise Unsupported("regex back-reference across tokens")
        q = V.char_eq(c, x)
        if V.z3.is_false(q):
            return False
        if not V.z3.is_true(q) and not V.eng().fork(q):
            return False
        return self.lits(sub, j + 1, pos + 1, k)

    def test_lit(self, pos, ch):
        c = self.cells[pos]
        if isinstance(c, V.Tok) and c.kind in ("dec", "hex") and ch in c.alphabet:
            raise _NeedExpand(pos)
        if self.flags & re.IGNORECASE and ch.lower() != ch.upper():
            return V.char_in(c, frozenset((ch.lower(), ch.upper())))
        return V.char_is(c, ch)

    def test_in(self, pos, items):
        c = self.cells[pos]
        chars, neg = _in_set(items)
        if isinstance(c, V.Tok) and c.kind in ("dec", "hex"):
            raise _NeedExpand(pos)
        r = V.char_in(c, chars)
        return (not r) if neg else r


class SymMatch:
    def __init__(self, cells, start, end, groups, ngroups, names, string):
        self._cells, self._s, self._e = cells, start, end
        self._groups, self._n, self._names = groups, ngroups, names
        self.string = string
        self.lastindex = max(groups) if groups else None

    def _gid(self, g):
        return self._names[g] if isinstance(g, str) else g

    def span(self, g=0):
        g = self._gid(g)
        if g == 0:
            return (self._s, self._e)
        return self._groups.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _text(self, g, default=None):
        s, e = self.span(g)
        if s < 0:
            return default
        return V.mk_str(tuple(self._cells[s:e]))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._text(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._text(g, default) for g in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {n: self._text(g, default) for n, g in self._names.items()}


def run(pattern, flags, text, *, mode):
    """mode: match | fullmatch | search. Returns SymMatch or None."""
    parsed = P.parse(pattern, flags)
    flags = parsed.state.flags
    nodes = list(parsed)
    names = dict(parsed.state.groupdict)
    ngroups = parsed.state.groups - 1
    cells = []
    for it in V.lift_items(text):
        cells.extend(it if isinstance(it, str) else (it,))
    while True:
        m = _Matcher(cells, flags)
        starts = range(len(cells) + 1) if mode == "search" else (0,)
        try:
            for s in starts:
                end = []

                def k(p):
                    if mode == "fullmatch" and p != m.n:
                        return False
                    end.append(p)
                    return True

                m.groups = {}
                if m.seq(nodes, 0, s, k):
                    return SymMatch(cells, s, end[-1], dict(m.groups), ngroups, names, text)
            return None
        except _NeedExpand as e:
            cells = [
                *cells[: e.i],
                *V.chars_of((cells[e.i],)),
                *cells[e.i + 1 :],
            ]
