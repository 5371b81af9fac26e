"""R01: sentence rewrite rules."""
import itertools
from collections import Counter

from vsym.case import Suite
from vsym.core import And, Or
from vsym.lq import atoms, beq, deq, mk, satom, teq, wiring, wt

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Daggered, Diagram, Id, \
    Spider, Swap, Ty, Word
from lambeq.rewrite import CoordinationRewriteRule, CurryRewriteRule, \
    Rewriter, SimpleRewriteRule, UnknownWordsRewriteRule
from lambeq.rewrite.base import CollapseDomainRewriteRule

SUITE = Suite(
    'R01',
    bounds='each default rule, and coordination, currying, domain '
    'collapsing, unknown words and user rules, on one box with up to 6 '
    'outputs and 2 inputs of any atomic names (n and s included) and '
    'windings -3..3 and words from a pool containing every listed word in '
    'several capitalisations; sentences of up to 3 boxes with words, cups, '
    'swaps, caps, spiders, daggered and adjoint words rewritten by every '
    'pair (quick) / triple of rules; vocabularies from up to 4 word '
    'occurrences; the rewritten diagrams are compared as wirings, with '
    'spiders joining wires',
    outside='user rules with upper-case entries in a case-insensitive word '
    'list')

# documented rules: words and codomain
W_DET = ['a', 'an', 'the']
W_CONN = ['and', 'but', 'however', 'if', 'that', 'whether']
W_AUX = ['am', 'are', 'be', 'been', 'being', 'is', 'was', 'were', 'did', 'do',
         'does', "'d", 'had', 'has', 'have', 'may', 'might', 'will']
W_REL = ['that', 'which', 'who', 'whom', 'whose']


def T(s):
    out = []
    for x in s.split():
        n, _, a = x.partition('.')
        out.append((n, len(a) if 'r' in a else -len(a)))
    return out


# rule -> (words or None, codomain, placeholder type, wiring); the wiring
# lists joined ports: o = outer output, w = output of the remaining word
RULES = {
    'determiner': (W_DET, T('n n.l'), None, ['o0 o1']),
    'connector': (W_CONN, T('s s.l'), None, ['o0 o1']),
    'auxiliary': (W_AUX, T('n.r s s.l n'), None, ['o0 o3', 'o1 o2']),
    'postadverb': (None, T('s.r n.rr n.r s'), T('s.r s'),
                   ['o0 w0', 'o1 o2', 'o3 w1']),
    'preadverb': (None, T('n.r s s.l n'), T('s s.l'),
                  ['o0 o3', 'o1 w0', 'o2 w1']),
    'prepositional_phrase': (None, T('s.r n.rr n.r s n.l'), T('s.r s n.l'),
                             ['o0 w0', 'o1 o2', 'o3 w1', 'o4 w2']),
    'object_rel_pronoun': (W_REL, T('n.r n n.ll s.l'), None,
                           ['o0 o1 o2', 'o3']),
    'subject_rel_pronoun': (W_REL, T('n.r n s.l n'), None,
                            ['o0 o1 o3', 'o2']),
}
DEFAULT = ['auxiliary', 'connector', 'determiner', 'postadverb', 'preadverb',
           'prepositional_phrase']


def ports(spec, word):
    out = set()
    for grp in spec:
        c = set()
        for x in grp.split():
            k = int(x[1:])
            c.add(('out', k) if x[0] == 'o' else (word, 'o', k))
        out.add(frozenset(c))
    return frozenset(out)


def cod_is(ty, spec):
    a = atoms(ty)
    if len(a) != len(spec):
        return False
    return And(*[And(x.name == n, x.z == z) for x, (n, z) in zip(a, spec)])


def concrete(spec):
    return mk([Ty(n, z=z) for n, z in spec])


def sym_ty(ctx, p, n, z=3):
    for s in 'ns':
        ctx.literal_name(s)
    return mk([satom(ctx, f'{p}{i}', -z, z) for i in range(n)])


def wire(ctx, d, dom, cod, name, want):
    """The rewritten diagram has the type of the box and exactly the wanted
    wiring."""
    d = d.to_diagram()
    ctx.check(And(wt(d), teq(d.dom, dom), teq(d.cod, cod)),
              f'{name}: type')
    cl, _, loops = wiring(d, key=lambda b: b.name, spiders=True)
    ctx.check(loops == 0 or name.endswith('rel_pronoun'), f'{name}: loops')
    ctx.check(cl == want, f'{name}: wiring')


CAPS = ['lower', 'Title', 'UPPER']


def spelled(w, c):
    return {'lower': w, 'Title': w[:1].upper() + w[1:], 'UPPER':
            w.upper()}[c]


def pool(rule):
    ws = RULES[rule][0] or []
    return [*ws, 'walks', 'thee', 'an d', 'nd', 'th', 'which' if
            'which' not in ws else 'the', '']


@SUITE.case(quick=lambda: [dict(rule=r, o=o, i=i, caps=c) for r in RULES
                           for o in range(7) for i in range(2)
                           for c in (CAPS if o == len(RULES[r][1]) else
                                     CAPS[:1])
                           if i == 0 or o == len(RULES[r][1])])
def rule(ctx, rule, o, i, caps):
    """A default rule fires exactly on its words and type."""
    words, spec, ph, wires = RULES[rule]
    r = Rewriter([rule]).rules[0]
    same = len(spec) == o
    w = spelled(ctx.choose('word', pool(rule) if same else ['the', 'that']),
                caps)
    cod, dom = sym_ty(ctx, 'c', o), sym_ty(ctx, 'd', i, 1)
    b = (Word(w, cod) if not i and ctx.bool('isword')
         else Box(w, dom, cod))
    hit = And(i == 0, cod_is(cod, spec),
              words is None or w.lower() in words)
    res = r(b)
    if hit is False or not bool(hit):
        ctx.check(res is None, f'{rule} fires where it should not')
        return
    ctx.check(res is not None, f'{rule} does not fire')
    wire(ctx, res, dom, cod, rule, ports(wires, w))
    if ph is not None:
        k = [x for x in res.to_diagram().boxes if x.name == w]
        ctx.check(len(k) == 1 and isinstance(k[0], Word), 'word kept')
        ctx.check(And(cod_is(k[0].cod, ph)), 'type of the word')


@SUITE.case(quick=lambda: [dict(k=k, i=i) for k in range(4)
                           for i in range(2) if k < 3 or i == 0],
            thorough=lambda: [dict(k=k, i=i) for k in range(5)
                              for i in range(3)])
def coordination(ctx, k, i):
    words = ctx.choose('words', [None, ['or'], ['and', 'Or'], []])
    r = CoordinationRewriteRule(words)
    w = ctx.choose('w', ['and', 'or', 'And', 'Or', 'x'])
    n = {0: 1, 1: 3, 2: 6, 3: 4, 4: 9}[k]
    z = 2 if n < 6 else 1
    cod, dom = sym_ty(ctx, 'c', n, z), sym_ty(ctx, 'd', i, 1)
    b = Box(w, dom, cod)
    ok = w in (['and'] if words is None else words) and not i and n % 3 == 0
    m = n // 3
    a = atoms(cod)
    if ok:
        ok = And(*[And(a[m + j].name == a[m - 1 - j].name,
                       a[m - 1 - j].z == a[m + j].z + 1,
                       a[m + j].name == a[3 * m - 1 - j].name,
                       a[3 * m - 1 - j].z == a[m + j].z - 1)
                   for j in range(m)])
    res = r(b)
    if ok is False or not bool(ok):
        ctx.check(res is None, 'fires where it should not')
        return
    ctx.check(res is not None, 'does not fire')
    wire(ctx, res, dom, cod, 'coordination', frozenset(
        frozenset({('out', m - 1 - j), ('out', m + j), ('out', 3 * m - 1 - j)})
        for j in range(m)))


def bent(name, left, dom, mid, right):
    """Wiring of a box whose outputs left/right were bent to inputs."""
    want = set()
    for k in range(left):
        want.add(frozenset({('out', k), (name, 'i', left - 1 - k)}))
    for k in range(dom):
        want.add(frozenset({('in', k), (name, 'i', left + k)}))
    for k in range(mid):
        want.add(frozenset({('out', left + k), (name, 'o', k)}))
    for k in range(right):
        want.add(frozenset({('out', left + mid + k),
                            (name, 'i', left + dom + right - 1 - k)}))
    return frozenset(want)


@SUITE.case(quick=[dict(i=i, o=o) for i in range(3) for o in range(4)],
            thorough=[dict(i=i, o=o) for i in range(3) for o in range(6)])
def curry(ctx, i, o):
    """Outer adjoint outputs become inputs."""
    r = CurryRewriteRule()
    cod, dom = sym_ty(ctx, 'c', o, 2), sym_ty(ctx, 'd', i, 1)
    b = Box('w', dom, cod)
    a = atoms(cod)
    res = r(b)
    hit = Or(a[0].z != 0, a[-1].z != 0) if o else False
    if hit is False or not bool(hit):
        ctx.check(res is None, 'nothing to curry')
        return
    ctx.check(res is not None, 'not curried')
    left = 0
    while left < o and bool(a[left].z > 0):
        left += 1
    right = 0
    while right < o and bool(a[o - 1 - right].z < 0):
        right += 1
    wire(ctx, res, dom, cod, 'curry', bent('w', left, i, o - left - right,
                                           right))
    x = [x for x in res.to_diagram().boxes if x.name == 'w'][0]
    ctx.check(teq(x.cod, mk(a[left:o - right])), 'outputs left')


@SUITE.case(quick=[dict(i=i, o=o) for i in range(4) for o in range(3)])
def collapse(ctx, i, o):
    left = bool(ctx.bool('left'))
    r = CollapseDomainRewriteRule(left=left)
    cod, dom = sym_ty(ctx, 'c', o, 1), sym_ty(ctx, 'd', i, 2)
    b = Box('w', dom, cod)
    res = r(b)
    if not i:
        ctx.check(res is None, 'nothing to collapse')
        return
    want = set()
    for k in range(i):
        want.add(frozenset({('in', k), (
            'w', 'o', i - 1 - k if left else o + i - 1 - k)}))
    for k in range(o):
        want.add(frozenset({('out', k), ('w', 'o', i + k if left else k)}))
    wire(ctx, res, dom, cod, 'collapse', frozenset(want))
    x = [x for x in res.to_diagram().boxes if x.name == 'w'][0]
    ctx.check(not atoms(x.dom), 'no inputs left')


@SUITE.case(quick=[dict(o=o, sens=s, words=w) for o in range(3)
                   for s in (False, True) for w in (None, 'low', 'mixed')
                   if s or w != 'mixed'])
def user_rule(ctx, o, sens, words):
    """A user's rule: its type, its words, and its placeholder."""
    ws = {None: None, 'low': ['foo', 'bar baz'],
          'mixed': ['Foo', 'bar']}[words]
    spec = [('n', 0), ('s', -1)][:o]
    want = concrete(spec)
    ph = SimpleRewriteRule.placeholder(want @ Ty('n'))
    two = ctx.bool('two')
    f = Box('f', want @ Ty('n'), want)
    g2 = Box('f', want @ Ty('n') @ want @ Ty('n'), want)
    tmpl = (ph @ ph >> g2) if two else (ph >> f)
    r = SimpleRewriteRule(want, tmpl, words=ws, case_sensitive=sens)
    w = ctx.choose('w', ['foo', 'Foo', 'FOO', 'bar', 'bar baz', 'x', 'ba'])
    cod = sym_ty(ctx, 'c', ctx.small('n', max(0, o - 1), o + 1), 1)
    b = Word(w, cod)
    hit = And(cod_is(cod, spec), ws is None
              or (w if sens else w.lower()) in ws)
    res = r(b)
    if hit is False or not bool(hit):
        ctx.check(res is None, 'fires where it should not')
        return
    ctx.check(res is not None, 'does not fire')
    new = Word(w, want @ Ty('n'))
    exp = (new @ new >> g2) if two else (new >> f)
    ctx.check(deq(res.to_diagram(), exp.to_diagram()), 'template filled in')
    ctx.check(r.template is tmpl and [x.name for x in tmpl.boxes].count(
        SimpleRewriteRule.PLACEHOLDER_WORD) == (2 if two else 1),
        'template unchanged')


# ---- sentences

def first(rules, b):
    for r in rules:
        x = r(b)
        if x is not None:
            return x
    return b


def substitute(rules, d):
    """Replace every box by what the first matching rule makes of it."""
    out = Id(d.dom)
    for layer in d.layers:
        left, b, right = layer.unpack()
        if isinstance(b, (Cup, Cap, Swap, Spider)):
            new = b
        elif isinstance(b, Daggered):
            u = b.dagger()
            new = first(rules, u.rotate(-u.z)).rotate(u.z).dagger()
        else:
            new = first(rules, b.rotate(-b.z)).rotate(b.z)
        out = out >> Id(left) @ new @ Id(right)
    return out


N, S = Ty('n'), Ty('s')
BOXES = {
    'the': lambda: Word('the', N @ N.l), 'cat': lambda: Word('cat', N),
    'The.l': lambda: Word('The', N @ N.l).l,
    'the+': lambda: Word('the', N @ N.l).dagger(),
    'is': lambda: Word('is', N.r @ S @ S.l @ N),
    'quickly': lambda: Word('quickly', S.r @ N.r.r @ N.r @ S),
    'not': lambda: Word('not', N.r @ S @ S.l @ N),
    'that': lambda: Word('that', N.r @ N @ S.l @ N),
    'that s': lambda: Word('that', S @ S.l),
    'that.r': lambda: Word('that', N.r @ N @ S.l @ N).r,
    'and': lambda: Word('and', N.r @ N @ N.l),
    'and+.l': lambda: Word('and', N.r @ N @ N.l).dagger().l,
    'f': lambda: Box('the', N, N @ N.l), 'v': lambda: Word('v', N.r @ S),
}
NAMES = [*RULES, 'coordination', 'curry']


def rule_sets(k):
    pairs = list(itertools.permutations(
        ['auxiliary', 'preadverb', 'determiner', 'curry',
         'subject_rel_pronoun', 'connector'], 2))
    if not k:
        return [None, [], ['curry'], ['coordination'], ['determiner'],
                ['subject_rel_pronoun'], ['preadverb', 'auxiliary'],
                ['auxiliary', 'preadverb']]
    return [None, [], *[[n] for n in NAMES], *[list(p) for p in pairs[:k]]]


@SUITE.case(quick=lambda: [dict(a=a, n=2, k=0) for a in BOXES],
            thorough=lambda: [dict(a=a, n=3, k=12) for a in BOXES])
def sentence(ctx, a, n, k):
    """Every box is rewritten by the first rule that applies to it, in its
    place; nothing else changes."""
    names = [a] + [ctx.choose(f'b{i}', [*BOXES]) for i in range(n - 1)]
    d = Id()
    for x in names:
        b = BOXES[x]()
        # feed inputs from boxes of their own
        if b.dom:
            b = Box('src', Ty(), b.dom) >> b
        d = d @ b
    cut = [i for i in range(len(d.cod) - 1)
           if d.cod[i].r == d.cod[i + 1] or d.cod[i].l == d.cod[i + 1]]
    if cut and ctx.bool('cup'):
        i = ctx.choose('at', cut)
        x, y = d.cod[i], d.cod[i + 1]
        d = d >> Id(d.cod[:i]) @ Diagram.cups(x, y, x.l == y) \
            @ Id(d.cod[i + 2:])
    if len(d.cod) > 1 and ctx.bool('swap'):
        d = d >> Diagram.swap(d.cod[:1], d.cod[1:2]) @ Id(d.cod[2:])
    rs = ctx.choose('rules', rule_sets(k))
    rw = Rewriter(rs)
    rw(Word('the', N).to_diagram())
    rw(Word('and', N @ N.l).to_diagram())
    before = d.to_diagram()
    res = rw(d)
    want = substitute([Rewriter([x]).rules[0] for x in
                       (DEFAULT if rs is None else rs)], before)
    ctx.check(And(wt(res), teq(res.dom, before.dom),
                  teq(res.cod, before.cod)), 'type of the sentence')

    def key(b):
        x = b.dagger() if isinstance(b, Daggered) else b
        return (b.name, type(b).__name__, x.z)
    ctx.check(wiring(res, key, True)[:2] == wiring(want, key, True)[:2],
              'rewritten sentence')
    res2 = rw(d)
    ctx.check(deq(res, res2), 'the same again')


@SUITE.case(quick=[{}])
def rule_names(ctx):
    nm = ctx.choose('nm', [*NAMES, 'x', '', 'Determiner', 'curry '])
    try:
        r = Rewriter([nm])
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == (nm in NAMES), 'rule names')
    ctx.check(sorted(Rewriter.available_rules()) == sorted(NAMES),
              'available rules')
    if ok:
        user = SimpleRewriteRule(N, Word('u', N))
        r.add_rules(user, 'determiner')
        ctx.check(len(r.rules) == 3 and r.rules[1] is user,
                  'rules are added in order')
        ctx.check(len(Rewriter().rules) == len(DEFAULT), 'default rules')


# ---- unknown words

VOC = [('a', N), ('a', S), ('b', N), ('c', N @ S)]


def occ(ctx, p):
    w, t = ctx.choose(p, VOC)
    b = Word(w, t)
    k = ctx.choose(p + 'k', ['', 'l', 'r', 'D', 'box', 'Dl'])
    if k == 'box':
        return Box(w, Ty(), t), None
    x = b
    if 'D' in k:
        x = x.dagger()
    if 'l' in k:
        x = x.l
    if k == 'r':
        x = x.r
    return x, (w, t)


@SUITE.case(quick=[dict(n=n, ign=i) for n in range(4) for i in (0, 1)],
            thorough=[dict(n=n, ign=i) for n in range(5) for i in (0, 1)])
def unknown(ctx, n, ign):
    """Words below the threshold become unknown words of the same type."""
    occs = [occ(ctx, 'o')][:n]
    occs += [(Word(*w), w) for w in
             [ctx.choose(f'p{i}', VOC[:3]) for i in range(1, n)]]
    k = len(occs) // 2
    minf = ctx.small('min', 0, 3)
    tok = '<UNK>'

    def cat(bs):
        return Id().tensor(*[b for b, _ in bs]) if bs else Id()
    ds = [cat(occs[:k]), cat(occs[k:])]
    r = UnknownWordsRewriteRule.from_diagrams(
        ds, min_freq=minf, unk_token=tok, ignore_types=bool(ign))
    cnt = Counter((w[0] if ign else w) for _, w in occs if w)
    test, w = occ(ctx, 't')
    known = w is not None and cnt[w[0] if ign else w] >= max(minf, 1)
    res = Rewriter([r])(test.to_diagram()).boxes[0]
    u = res.dagger() if isinstance(res, Daggered) else res
    ctx.check(And(teq(res.dom, test.dom), teq(res.cod, test.cod)), 'type')
    if w is None or known:
        ctx.check(beq(res, test), 'known word kept')
    else:
        ctx.check(u.name == tok and isinstance(u, Word), 'unknown word')
        ctx.check(u.z == (test.dagger().z if isinstance(test, Daggered)
                          else test.z), 'winding')


@SUITE.case(quick=[{}])
def vocabulary(ctx):
    """Explicit vocabularies of words and of typed words."""
    voc = []
    for i in range(2):
        w = ctx.choose(f'v{i}', ['a', 'b', ('a', N), ('b', S), None])
        if w is not None:
            voc.append(w)
    r = UnknownWordsRewriteRule(ctx.choose('as', [set, list, tuple])(voc))
    w, t = ctx.choose('w', [('a', N), ('a', S), ('b', N), ('b', S)])
    res = r(Word(w, t))
    if w in voc or (w, t) in voc:
        ctx.check(res is None, 'in the vocabulary')
    else:
        ctx.check(res is not None and beq(res, Word('<UNK>', t)), 'unknown')
    ctx.check(r(Box(w, Ty(), t)) is None, 'only words are replaced')
