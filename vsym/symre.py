"""Backtracking matcher for regular expressions over symbolic strings.

Patterns are parsed by Python's own `re._parser`; each character test becomes
a solver decision.  Greedy and lazy repeats, groups, alternatives, character
classes, anchors."""
from __future__ import annotations

import re
from re import _constants as K
from re import _parser

from .core import And, Or, Not
from .strs import SymStr


def cond(c, test):
    """Symbolic truth of `test(char)` for an item of a string."""
    if type(c) is SymStr:
        c = c.items[0]
    if isinstance(c, str):
        return test(c)
    idx, alpha = c
    return Or(*[idx == k for k, ch in enumerate(alpha) if test(ch)])


def in_set(av):
    neg = av[0][0] is K.NEGATE
    items = av[1:] if neg else av

    def test(ch):
        o, r = ord(ch), False
        for op, a in items:
            if op is K.LITERAL:
                r |= o == a
            elif op is K.RANGE:
                r |= a[0] <= o <= a[1]
            elif op is K.CATEGORY:
                r |= category(a, ch)
            else:
                raise NotImplementedError(op)
        return r != neg
    return test


def category(a, ch):
    n = str(a)
    pos = {'CATEGORY_DIGIT': str.isdigit, 'CATEGORY_SPACE': str.isspace,
           'CATEGORY_WORD': lambda c: c.isalnum() or c == '_'}
    if n in pos:
        return pos[n](ch)
    return not pos[n.replace('NOT_', '')](ch)


class Match:
    def __init__(self, s, start, end, groups, names):
        self.s, self._start, self._end = s, start, end
        self.g, self.names = groups, names

    def end(self, g=0):
        return self._end if g == 0 else self._sp(g)[1]

    def start(self, g=0):
        return self._start if g == 0 else self._sp(g)[0]

    def _sp(self, g):
        return self.g.get(self.names.get(g, g), (-1, -1))

    def span(self, g=0):
        return self.start(g), self.end(g)

    def __getitem__(self, g):
        if g == 0:
            return self.s[self._start:self._end]
        if isinstance(g, str) and g not in self.names:
            raise IndexError('no such group')
        a, b = self._sp(g)
        return None if a < 0 else self.s[a:b]

    def group(self, *gs):
        if len(gs) <= 1:
            return self[gs[0] if gs else 0]
        return tuple(self[g] for g in gs)

    def groups(self):
        return tuple(self[i + 1] for i in range(self.n))

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, Pattern):
            pattern = pattern.pattern
        self.pattern, self.flags = pattern, flags
        self.tree = _parser.parse(pattern, flags)
        self.names = dict(self.tree.state.groupdict)
        self.n = self.tree.state.groups - 1

    def match(self, s, pos=0):
        for end, g in self._m(list(self.tree), s, pos, {}):
            m = Match(s, pos, end, g, self.names)
            m.n = self.n
            return m
        return None

    def fullmatch(self, s, pos=0):
        for end, g in self._m(list(self.tree), s, pos, {}):
            if end == len(s):
                m = Match(s, pos, end, g, self.names)
                m.n = self.n
                return m
        return None

    def search(self, s, pos=0):
        for i in range(pos, len(s) + 1):
            m = self.match(s, i)
            if m:
                return m
        return None

    def _m(self, prog, s, i, g):
        if not prog:
            yield i, g
            return
        op, av = prog[0]
        rest = prog[1:]
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            if i >= len(s):
                return
            if op is K.LITERAL:
                test = lambda c: ord(c) == av       # noqa: E731
            elif op is K.NOT_LITERAL:
                test = lambda c: ord(c) != av       # noqa: E731
            elif op is K.ANY:
                test = lambda c: c != '\n'          # noqa: E731
            else:
                test = in_set(av)
            if cond(s[i], test):
                yield from self._m(rest, s, i + 1, g)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            yield from self._rep(list(sub), lo, hi, op is K.MAX_REPEAT,
                                 rest, s, i, g)
        elif op is K.SUBPATTERN:
            grp, _, _, sub = av
            for j, h in self._m(list(sub), s, i, g):
                if grp is not None:
                    h = {**h, grp: (i, j)}
                yield from self._m(rest, s, j, h)
        elif op is K.BRANCH:
            for alt in av[1]:
                yield from self._m(list(alt) + rest, s, i, g)
        elif op is K.GROUPREF_EXISTS:
            grp, yes, no = av
            sub = yes if grp in g else (no or [])
            yield from self._m(list(sub) + rest, s, i, g)
        elif op is K.AT:
            n = str(av)
            if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = i == 0
            elif n in ('AT_END', 'AT_END_STRING'):
                ok = i == len(s)
            else:
                raise NotImplementedError(n)
            if ok:
                yield from self._m(rest, s, i, g)
        else:
            raise NotImplementedError(op)

    def _rep(self, sub, lo, hi, greedy, rest, s, i, g):
        if lo > 0:
            for j, h in self._m(sub, s, i, g):
                yield from self._rep(sub, lo - 1,
                                     hi if hi is K.MAXREPEAT else hi - 1,
                                     greedy, rest, s, j, h)
            return
        more = hi is K.MAXREPEAT or hi > 0
        if not greedy:
            yield from self._m(rest, s, i, g)
        if more:
            for j, h in self._m(sub, s, i, g):
                if j > i:
                    yield from self._rep(
                        sub, 0, hi if hi is K.MAXREPEAT else hi - 1, greedy,
                        rest, s, j, h)
        if greedy:
            yield from self._m(rest, s, i, g)


class SymRe:
    """Stand-in for the module `re` in instrumented code."""
    VERBOSE = re.VERBOSE

    def __getattr__(self, n):
        return getattr(re, n)

    def compile(self, p, flags=0):
        return Pattern(p, int(flags))

    def match(self, p, s, flags=0):
        return Pattern(p, int(flags)).match(s)

    def search(self, p, s, flags=0):
        return Pattern(p, int(flags)).search(s)
