"""D01: linear, spiders, stairs, cups and tree readers."""
import itertools

from vsym.case import Suite
from vsym.core import And, Not, Or
from vsym.lq import atoms, mk, satom, teq, wiring, wt
from vsym.strs import sstr

from props.c03 import derivation, tree, two_level, uses

from lambeq.backend.grammar import Box, Cup, Diagram, Id, Spider, Ty, Word
from lambeq.core.types import AtomicType
from lambeq.text2diagram import (CCGParser, LinearReader, TreeReader,
                                 TreeReaderMode, cups_reader,
                                 spiders_reader, stairs_reader)
from lambeq.text2diagram.ccg_rule import CCGRule as R

S = AtomicType.SENTENCE

SUITE = Suite(
    'D01',
    bounds='sentences of 1 to 4 (quick) / 6 (thorough) symbolic tokens, or '
    'strings of up to 5 / 6 symbolic characters (letters, blanks, tabs); '
    'word types of 1 to 2 symbolic wires; combining boxes from 2 to 4 '
    'wires into 0 to 2; derivations of up to 3 words over all CCG rules '
    'for the tree reader, all modes',
    assumptions=['the combining box makes progress and its type fits the '
                 'words (otherwise the reader refuses)',
                 'the CCG parser behind the tree reader returns an '
                 'arbitrary derivation (decided in C03)'],
    outside='longer sentences; the parsers themselves')


def tokens(ctx, n):
    return [ctx.name(f'w{i}') for i in range(n)]


OTHER = ['x', 'y']


def names(d):
    return [b.name for b in d.boxes if isinstance(b, Word)]


def same_words(ctx, d, ws, extra=()):
    got = names(d)
    ctx.check(len(got) == len(ws) + len(extra), 'each word once')
    ctx.check(And(*[a == b for a, b in zip(got, [*extra, *ws])]),
              'words in order')


def read(ctx, reader, ws, other=OTHER):
    how = ctx.choose('how', ['tokens', 'batch'])
    if how == 'tokens':
        return reader.sentence2diagram(ws, tokenised=True)
    a, b = reader.sentences2diagrams([other, ws], tokenised=True)
    if other is not ws:
        ctx.check([w for w in names(a) if w in other] == other,
                  'batches keep their order')
    return b


@SUITE.case(quick=lambda: [dict(n=n) for n in range(1, 5)],
            thorough=lambda: [dict(n=n) for n in range(1, 7)])
def spiders(ctx, n):
    ws = tokens(ctx, n)
    d = read(ctx, spiders_reader, ws)
    ctx.check(wt(d) and d.dom.is_empty and bool(teq(d.cod, S)), 'types')
    same_words(ctx, d, ws)
    ctx.check(len(d.boxes) == n + 1
              and all(bool(teq(w.cod, S)) for w in d.boxes[:-1]), 'boxes')
    k = itertools.count()
    w = wiring(d, key=lambda b: next(k), spiders=True)[0]
    ctx.check(w == frozenset([frozenset(
        [(i, 'o', 0) for i in range(n)] + [('out', 0)])]),
        'all words meet in one spider')


@SUITE.case(quick=lambda: [dict(n=n) for n in range(1, 5)],
            thorough=lambda: [dict(n=n) for n in range(1, 7)])
def cups(ctx, n):
    ws = tokens(ctx, n)
    d = read(ctx, cups_reader, ws)
    ctx.check(wt(d) and d.dom.is_empty and bool(teq(d.cod, S)), 'types')
    same_words(ctx, d, ws, ['START'])
    ctx.check(all(isinstance(b, (Word, Cup)) for b in d.boxes), 'boxes')
    ctx.check(all(bool(teq(b.cod, S.r @ S)) for b in d.boxes[1:n + 1]),
              'word types')
    k = itertools.count()
    w = wiring(d, key=lambda b: next(k))[0]
    want = [{(0, 'o', 0), (1, 'o', 0)}]
    want += [{(i, 'o', 1), (i + 1, 'o', 0)} for i in range(1, n)]
    want += [{(n, 'o', 1), ('out', 0)}]
    ctx.check(w == frozenset(map(frozenset, want)),
              'each word is joined to the next')


def terms(ctx, d, wire_key=None):
    """Interpret a diagram of words and boxes on a list of terms."""
    st = []
    for lay in d.layers:
        left, box, right = lay.unpack()
        k = len(left)
        ins, box_n = st[k:k + len(box.dom)], len(box.cod)
        t = (box.name, tuple(ins))
        st[k:k + len(box.dom)] = [(t, i) for i in range(box_n)]
    return st


def tsame(a, b):
    """Terms are equal (symbolic names)."""
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and And(*[tsame(x, y)
                                          for x, y in zip(a, b)])
    if type(a) is tuple or type(b) is tuple:
        return False
    return a == b


@SUITE.case(quick=lambda: [dict(n=n) for n in range(1, 5)],
            thorough=lambda: [dict(n=n) for n in range(1, 7)])
def stairs(ctx, n):
    ws = tokens(ctx, n)
    d = read(ctx, stairs_reader, ws)
    ctx.check(wt(d) and d.dom.is_empty and bool(teq(d.cod, S)), 'types')
    same_words(ctx, d, ws)
    t = ((ws[0], ()), 0)
    for w in ws[1:]:
        t = (('STAIR', (t, ((w, ()), 0))), 0)
    st = terms(ctx, d)
    ctx.check(len(st) == 1 and tsame(st[0], t), 'a stair')


def _lin(ns):
    return [dict(n=n, m=m, k=k, j=j, start=s) for n in ns
            for m in (1, 2) for k in (2, 3, 4) for j in (0, 1, 2)
            for s in (0, 1, 2) if k > j and n * m + s <= 7]


@SUITE.case(quick=lambda: _lin((1, 2, 3)), thorough=lambda: _lin(range(1, 7)))
def linear(ctx, n, m, k, j, start):
    """Any combining diagram is applied on the left until one wire is
    left."""
    a = satom(ctx, 'a', -1, 1)
    ws = tokens(ctx, n)
    box = Box('C', mk([a] * k, Ty), mk([a] * j, Ty)).to_diagram() \
        if j else Box('C', mk([a] * k, Ty), Ty()).to_diagram()
    sb = Box('B', Ty(), mk([a] * start, Ty)).to_diagram() if start else Id()
    r = LinearReader(box, mk([a] * m, Ty), sb)
    st = [(('B', ()), i) for i in range(start)]
    for w in ws:
        st += [((w, ()), i) for i in range(m)]
    ok = True
    while len(st) > 1:
        if len(st) < k:
            ok = False
            break
        t = ('C', tuple(st[:k]))
        st = [(t, i) for i in range(j)] + st[k:]
    try:
        d = read(ctx, r, ws, ws)
    except ValueError:
        ctx.check(not ok, 'combined')
        return
    ctx.check(ok, 'refused when the wires run out')
    ctx.check(wt(d) and d.dom.is_empty, 'types')
    ctx.check(teq(d.cod, mk([a], Ty)) if st else d.cod.is_empty, 'codomain')
    same_words(ctx, d, ws, ['B'] if False else ())
    got = terms(ctx, d)
    ctx.check(len(got) == len(st) and And(*[
        tsame(x, y) for x, y in zip(got, st)]), 'linear combination')


@SUITE.case(quick=lambda: [dict(n=n, r=r) for n in range(1, 6)
                           for r in ('spiders', 'cups', 'stairs')
                           if n < 5 or r == 'stairs'],
            thorough=lambda: [dict(n=n, r=r) for n in range(1, 7)
                              for r in ('spiders', 'cups', 'stairs')])
def strings(ctx, n, r):
    """A string is read as its blank-separated words."""
    reader = {'spiders': spiders_reader, 'cups': cups_reader,
              'stairs': stairs_reader}[r]
    s = sstr(ctx, 's', n, 'ab \t')
    parts, cur = [], ''
    for i in range(n):
        if Or(s[i] == ' ', s[i] == '\t'):
            parts, cur = parts + ([cur] if len(cur) else []), ''
        else:
            cur = cur + s[i]
    parts += [cur] if len(cur) else []
    if not parts:
        ctx.check(True)
        return
    d = reader.sentence2diagram(s)
    same_words(ctx, d, parts, ['START'] if r == 'cups' else [])
    e = reader.sentence2diagram(parts, tokenised=True)
    ctx.check(len(d) == len(e) and And(*[
        x.box.name == y.box.name for x, y in zip(d.layers, e.layers)]),
        'as its tokens')


@SUITE.case(quick=[dict()])
def refused(ctx):
    w = ctx.name('w')
    for r in (spiders_reader, cups_reader, stairs_reader):
        for s, t in ((w, True), ([w], False), ([w, 3], True),
                     ((w,), True)):
            try:
                r.sentence2diagram(s, tokenised=t)
                ctx.fail('input of the wrong kind accepted')
            except ValueError:
                pass
    ctx.check(True)


# ---- tree reader -----------------------------------------------------------

class Fixed(CCGParser):
    """Parser that returns the given derivations."""

    def __init__(self, trees):
        super().__init__()
        self.trees = trees

    def sentences2trees(self, sentences, tokenised=False,
                        suppress_exceptions=False, verbose=None):
        return [self.trees[' '.join(s) if tokenised else s]
                for s in sentences]


def height(t):
    return 0 if not t.children else 1 + max(map(height, t.children))


def ref_term(t, mode):
    """Term of the tree diagram, from the tree with unary rules removed."""
    if not t.children:
        return (t.text, ())
    kids = tuple(ref_term(c, mode) for c in t.children)
    M = TreeReaderMode
    if mode == M.NO_TYPE:
        name = 'UNIBOX'
    elif mode == M.RULE_ONLY:
        name = t.rule.value
    elif mode == M.HEIGHT:
        name = f'layer_{height(t)}'
    else:
        name = t.rule.value + '(' + ', '.join(
            str(c.biclosed_type) for c in t.children) + ')'
    return (name, kids)


def flat(t, m):
    """Children terms as wires."""
    return (t[0], tuple((flat(c, m), i) for c in t[1] for i in range(m)))


def shape(rt):
    """(rule, kids) with unary rules removed."""
    if rt == 'L':
        return 'L'
    if rt[0] in ('U', 'US', 'UC', 'U='):
        return shape(rt[1])
    return (rt[0],) + tuple(map(shape, rt[1:]))


def _trees():
    return two_level(tops=('', 'U'), mids=('', 'FTR', 'U'))


@SUITE.case(quick=lambda: [dict(rt=t) for t in _trees()[::3]],
            thorough=lambda: [dict(rt=t) for t in _trees()],
            max_witness=1)
def trees(ctx, rt):
    node, leaves = derivation(ctx, rt)
    t = tree(node)
    n = len(leaves)
    mode = ctx.choose('mode', list(TreeReaderMode))
    m = ctx.choose('width', [1, 2])
    wtype = mk([satom(ctx, f't{i}', -1, 1) for i in range(m)], Ty)
    words = [f'w{i}' for i in range(n)]
    reader = TreeReader(Fixed({' '.join(words): t}), mode, wtype)
    how = ctx.choose('tokenised', [True, False])
    d = reader.sentence2diagram(words if how else ' '.join(words),
                                tokenised=how, collapse_noun_phrases=False)
    ctx.check(wt(d) and d.dom.is_empty and bool(teq(d.cod, wtype)), 'types')
    same_words(ctx, d, words)
    st = terms(ctx, d)
    tops = {id(x[0]) for x in st}
    ctx.check(len(st) == m and len(tops) == 1
              and [i for _, i in st] == list(range(m)), 'one tree')
    top = st[0][0]

    # structure: the derivation without unary rules
    def match(term, sh):
        if sh == 'L':
            return not term[1]
        if len(term[1]) != m * (len(sh) - 1):
            return False
        for i, c in enumerate(sh[1:]):
            ws = term[1][i * m:i * m + m]
            if [k for _, k in ws] != list(range(m)) \
                    or any(w[0] is not ws[0][0] for w in ws) \
                    or not match(ws[0][0], c):
                return False
        return True
    ctx.check(match(top, shape(rt)), 'one box per rule')
    ctx.check(tsame(top, flat(ref_term(t._resolved(), mode), m)),
              'names of the boxes')
    if mode == TreeReaderMode.HEIGHT:
        def hs(sh):
            return 0 if sh == 'L' else 1 + max(map(hs, sh[1:]))
        ctx.check(top[0] == f'layer_{hs(shape(rt))}', 'height')


@SUITE.case(quick=[dict()])
def tree_failures(ctx):
    """No tree, no diagram; wrong settings are refused."""
    r = TreeReader(Fixed({'a': None}))
    ctx.check(r.sentence2diagram('a', suppress_exceptions=True) is None,
              'failed parse')
    for p, m in ((3, TreeReaderMode.HEIGHT), (lambda: 3,
                                              TreeReaderMode.HEIGHT),
                 (Fixed({}), 'HEIGHT')):
        try:
            TreeReader(p, m)
            ctx.fail('wrong settings accepted')
        except ValueError:
            pass
    ctx.check(isinstance(TreeReader(lambda: Fixed({})).ccg_parser, Fixed),
              'parser factory')
    ctx.check(len(TreeReader.available_modes()) == 4, 'modes')
