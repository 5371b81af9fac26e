"""C03: CCG derivation trees: diagrams, JSON, unary rules."""
import itertools
import json

from vsym.case import Suite
from vsym.core import And
from vsym.lq import atoms, wiring, wt

from props.c01 import ref_ty, same, ty_is
from props.c02 import joined, path_ty, to_cat

from lambeq.backend.grammar import Cap, Cup, Swap, Word
from lambeq.text2diagram.ccg_rule import CCGRule as R
from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType

SUITE = Suite(
    'C03',
    bounds='derivations of up to 4 words: every pair of rules one above the '
    'other (all application, composition, crossed and generalised rules, '
    'type raising, punctuation and conjunction; the generalised ones with '
    'two extra arguments), with type-changing unary rules above, between '
    'and below them (thorough: also three levels); most general '
    'categories with symbolic atoms',
    assumptions=['unary rules change atoms, or the core of the category, or '
                 'swap the direction of the outermost slash; '
                 'type-changing at a composition keeps its arguments',
                 'a unary rule does not retype a type-raised category '
                 'except through the rule whose functor it is'],
    outside='longer derivations')


class Skip(Exception):
    pass


class Var:
    n = 0

    def __init__(self):
        self.b = None
        self.twins = []         # atoms replaced by a unary rule
        self.id = Var.n
        Var.n += 1


def deref(c):
    while isinstance(c, Var) and c.b is not None:
        c = c.b
    return c


def bind(v, c):
    v.b = c
    for t in v.twins:
        t = deref(t)
        if isinstance(t, Var) and not occurs(t, c):
            w = deref(c)
            if isinstance(w, tuple):
                v.twins.remove(t) if t in v.twins else None
                bind(t, rename(c))
            elif isinstance(w, Var) and w is not t:
                w.twins.append(t)
                t.twins.append(w)
            else:
                bind(t, Var())


def need(c, d):
    """Result and argument of a category with slash d."""
    c = deref(c)
    if isinstance(c, Var):
        bind(c, (Var(), d, Var()))
        c = deref(c)
    if not isinstance(c, tuple) or c[1] != d:
        raise Skip
    return c[0], c[2]


def occurs(v, c):
    c = deref(c)
    return c is v or (isinstance(c, tuple)
                      and (occurs(v, c[0]) or occurs(v, c[2])))


def unify(a, b):
    a, b = deref(a), deref(b)
    if a is b:
        return
    if isinstance(a, Var):
        if occurs(a, b):
            raise Skip
        bind(a, b)
    elif isinstance(b, Var):
        unify(b, a)
    elif isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]:
        unify(a[0], b[0])
        unify(a[2], b[2])
    elif a != b:
        raise Skip


def rename(c):
    """Same shape, fresh atoms."""
    c = deref(c)
    if isinstance(c, tuple):
        return (rename(c[0]), c[1], rename(c[2]))
    if isinstance(c, str):
        return Var()
    v = Var()
    v.twins.append(c)
    c.twins.append(v)
    return v


def gen(rt, cat):
    """[rule, cat, children] for a rule tree and the category it derives."""
    if rt == 'L':
        return ['L', cat, []]
    rule, subs = rt[0], rt[1:]
    if rule in ('U', 'US', 'UC', 'U='):
        # the child is generated first, so that its form is known
        sub = Var()
        kid = gen(subs[0], sub)
        if rule == 'U=':
            unify(cat, sub)
        elif rule == 'U':
            unify(cat, rename(sub))
        elif rule == 'US':
            c = deref(sub)
            if isinstance(c, Var):
                bind(c, (Var(), '/', Var()))
                c = deref(c)
            unify(cat, (rename(c[0]), '\\' if c[1] == '/' else '/',
                        rename(c[2])))
        else:
            c = deref(sub)
            if not isinstance(c, tuple):
                unify(cat, (Var(), '/', Var()))
            else:
                unify(cat, grown(sub))
        return [rule, cat, [kid]]
    if rule == 'FTR':
        t, a = need(cat, '/')
        t2, x = need(a, '\\')
        unify(t, t2)
        return [rule, cat, [gen(subs[0], x)]]
    if rule == 'BTR':
        t, a = need(cat, '\\')
        t2, x = need(a, '/')
        unify(t, t2)
        return [rule, cat, [gen(subs[0], x)]]
    if rule == 'LP':
        dom = ['punc', cat]
    elif rule == 'RP':
        dom = [cat, 'punc']
    elif rule == 'CJL':
        x, y = need(cat, '\\')
        unify(x, y)
        dom = ['conj', x]
    elif rule == 'CJR':
        x, y = need(cat, '/')
        unify(x, y)
        dom = [x, 'conj']
    elif rule == 'CJP':
        x, y = need(cat, '\\')
        unify(x, y)
        dom = ['punc', x]
    else:
        Y = Var()
        slash = {'FA': '', 'BA': '', 'FC': '/', 'BC': '\\', 'FX': '\\',
                 'BX': '/', 'GFC': '//', 'GBC': '\\\\', 'GFX': '\\/',
                 'GBX': '/\\', 'GFX2': '\\\\', 'GBX2': '//'}[rule]
        args, core = [], cat
        for d in reversed(slash):
            core, z = need(core, d)
            args.append((d, z))
        other = Y
        for d, z in reversed(args):
            other = (other, d, z)
        if rule.lstrip('G')[0] == 'F':
            dom = [(core, '/', Y), other]
        else:
            dom = [other, (core, '\\', Y)]
    kids = []
    for s, c in zip(subs, dom):
        if isinstance(c, str) and s != 'L':
            raise Skip
        kids.append(gen(s, c))
    return [rule, cat, kids]


def grown(c):
    """The category with a complex core."""
    c = deref(c)
    if isinstance(c, tuple):
        return (grown(c[0]), c[1], rename(c[2]))
    return (Var(), '\\', Var())


BIN = ['FA', 'BA', 'FC', 'BC', 'FX', 'BX', 'GFC', 'GBC', 'GFX', 'GBX',
       'GFX2', 'GBX2', 'LP', 'RP', 'CJL', 'CJR', 'CJP']
RULE = {'GFX2': R.GENERALIZED_FORWARD_CROSSED_COMPOSITION,
        'GBX2': R.GENERALIZED_BACKWARD_CROSSED_COMPOSITION,
        'CJL': R.CONJUNCTION, 'CJR': R.CONJUNCTION, 'CJP': R.CONJUNCTION,
        'US': R.UNARY, 'UC': R.UNARY, 'U=': R.UNARY}


def rule_of(r):
    return RULE.get(r) or R(r)


def retyped_raising(rt, under=False):
    """A type-raised category that is not the functor of its rule would be
    retyped."""
    if rt == 'L':
        return False
    if rt[0] in ('U', 'US', 'UC') or under:
        under = True
        for i, s in enumerate(rt[1:]):
            if s != 'L' and s[0] in ('FTR', 'BTR') and not (
                    len(rt) == 3 and (
                        rt[0].lstrip('G')[0] == 'F' and (s[0], i) ==
                        ('FTR', 0) or rt[0].lstrip('G')[0] == 'B'
                        and (s[0], i) == ('BTR', 1))):
                return True
    return any(retyped_raising(s, under) for s in rt[1:])


def possible(rt):
    if retyped_raising(rt):
        return False
    try:
        gen(rt, Var())
        return True
    except Skip:
        return False


def un(u, t):
    return (u, t) if u else t


def two_level(tops=('', 'U'), mids=('', 'FTR', 'BTR', 'U', 'US', 'UC')):
    out = []
    for t in tops:
        for p in BIN:
            for m in mids:
                for c in ['L'] + BIN:
                    sub = un(m, 'L' if c == 'L' else (c, 'L', 'L'))
                    for side in (0, 1):
                        kids = ['L', 'L']
                        kids[side] = sub
                        out.append(un(t, (p, *kids)))
    return [x for x in dict.fromkeys(out) if possible(x)]


def three_level():
    some = ['FA', 'BA', 'FC', 'BC', 'FX', 'BX', 'GFC', 'GBX', 'CJL']
    out = []
    for a, b, c in itertools.product(some, repeat=3):
        for i, j in itertools.product((0, 1), repeat=2):
            k = ['L', 'L']
            k[j] = (c, 'L', 'L')
            q = ['L', 'L']
            q[i] = (b, *k)
            out.append((a, *q))
    return [x for x in out if possible(x)]


def uses(rt, names):
    return rt != 'L' and (rt[0] in names
                          or any(uses(s, names) for s in rt[1:]))


def freeze(c, name):
    c = deref(c)
    if isinstance(c, tuple):
        return (freeze(c[0], name), c[1], freeze(c[2], name))
    return name(c) if isinstance(c, Var) else c


def derivation(ctx, rt):
    """(root node with frozen categories, leaves)"""
    node = gen(rt, Var())
    known, leaves = {}, []

    def name(v):
        if v.id not in known:
            known[v.id] = ctx.name(f'v{len(known)}')
        return known[v.id]

    def go(n):
        n[1] = freeze(n[1], name)
        for k in n[2]:
            go(k)
        if n[0] == 'L':
            n.append(len(leaves))
            leaves.append(n)
    go(node)
    return node, leaves


def tree(node):
    rule, cat, kids = node[:3]
    if rule == 'L':
        return CCGTree(f'w{node[3]}', biclosed_type=to_cat(cat))
    return CCGTree(rule=rule_of(rule), biclosed_type=to_cat(cat),
                   children=[tree(k) for k in kids])


def ref_wiring(node):
    """Reference wiring of the words, from the categories alone."""
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            x = parent[x]
        return x

    def union(a, b):
        parent[find(a)] = find(b)

    count = [0]

    def go(n):
        """Wires of the image of n's category."""
        rule, cat, kids = n[:3]
        if rule == 'L':
            return [(f'w{n[3]}', 'o', i) for i in range(len(path_ty(cat)))]
        ks = [go(k) for k in kids]
        dom = [k[1] for k in kids]
        outs = []
        for _ in path_ty(cat):
            count[0] += 1
            outs.append(('t', count[0]))
        if rule in ('U', 'US', 'U='):
            a = dict(zip(path_ty(dom[0]), ks[0]))
            for p, w in zip(path_ty(cat), outs):
                union(a[p], w)
            return outs
        if rule in ('CJL', 'CJP', 'CJR'):
            i = 1 if rule == 'CJR' else 0
            dom[i] = (cat, '\\' if i else '/', dom[1 - i])
            # the conjunction has a wire for every atom of its new type
            leaf = kids[i]
            ks[i] = [(f'w{leaf[3]}', 'o', j)
                     for j in range(len(path_ty(dom[i])))]
            r = R.BACKWARD_APPLICATION if i else R.FORWARD_APPLICATION
        else:
            r = rule_of(rule)
        if rule == 'LP':
            return ks[1]
        if rule == 'RP':
            return ks[0]
        ins = [w for k in ks for w in k]
        for pair in joined(r, dom, cat, 2 if rule[0] == 'G' else 1):
            a, b = [ins[i] if k == 'in' else outs[i] for k, i in pair]
            union(a, b)
        return outs
    outs = go(node)
    ports = {}
    for i, w in enumerate(outs):
        ports.setdefault(('out', i), w)
    classes = {}
    for p, w in ports.items():
        classes.setdefault(find(w), set()).add(p)
    for x in list(parent) + outs:
        if x[0] != 't':
            classes.setdefault(find(x), set()).add(x)
    return frozenset(frozenset(c) for c in classes.values())


def words_of(d):
    return [b for b in d.to_diagram().boxes if isinstance(b, Word)]


def conjs(node):
    """Leaves that act as punctuation and are dropped."""
    rule, _, kids = node[:3]
    out = []
    if rule in ('LP', 'RP'):
        out.append(kids[0 if rule == 'LP' else 1][3])
    for k in kids:
        out += conjs(k)
    return out


def _quick():
    return [dict(rt=x) for x in two_level(tops=('',),
                                          mids=('', 'FTR', 'BTR'))] + \
        [dict(rt=x) for x in two_level(tops=('U',), mids=('',))] + \
        [dict(rt=x) for x in two_level(tops=('',), mids=('U', 'US'))]


@SUITE.case(quick=_quick(),
            thorough=[dict(rt=x) for x in two_level() + three_level()],
            max_witness=1)
def diagram(ctx, rt):
    """The diagram of any derivation."""
    node, leaves = derivation(ctx, rt)
    t = tree(node)
    d = t.to_diagram(collapse_noun_phrases=False)
    check_diagram(ctx, rt, node, leaves, d)
    grown_ = uses(rt, ('UC',))
    if uses(rt, ('US',)):
        try:
            t.to_diagram(planar=True, collapse_noun_phrases=False)
            ctx.fail('unary swap drawn planar')
        except ValueError:
            pass
        return
    p = t.to_diagram(planar=True, collapse_noun_phrases=False)
    ctx.check(wt(p), 'planar: well typed')
    ctx.check(p.dom.is_empty and bool(ty_is(p.cod, ref_ty(node[1]))),
              'planar: boundary')
    ctx.check(all(isinstance(b, (Word, Cup, Cap)) for b in p.boxes),
              'planar: no swaps')
    ctx.check(sorted(w.name for w in words_of(p))
              == sorted(w.name for w in words_of(d)), 'planar: words')
    ctx.check(wiring(p) == wiring(d), 'planar: same wiring')


def check_diagram(ctx, rt, node, leaves, d):
    ctx.check(wt(d), 'well typed')
    ctx.check(d.dom.is_empty, 'no inputs')
    ctx.check(ty_is(d.cod, ref_ty(node[1])), 'root category')
    dropped = conjs(node)
    ctx.check([w.name for w in words_of(d)]
              == [f'w{i}' for i in range(len(leaves)) if i not in dropped],
              'words in order')
    ctx.check(all(isinstance(b, (Word, Cup, Cap, Swap)) for b in d.boxes),
              'only words and wires')
    if not uses(rt, ('UC',)):
        conn, _, loops = wiring(d)
        ctx.check(conn == ref_wiring(node) and loops == 0, 'wiring')
    if not uses(rt, ('U', 'US', 'UC', 'CJL', 'CJR', 'CJP')):
        ctx.check(And(*[ty_is(w.cod, ref_ty(leaves[int(w.name[1:])][1]))
                        for w in words_of(d)]), 'types of the words')


SMALL = [('FA', 'L', 'L'), ('BA', 'L', ('FA', 'L', 'L')),
         ('FC', ('FTR', 'L'), 'L'), ('BX', 'L', 'L'),
         ('U', ('FA', 'L', 'L')), ('FA', 'L', ('U=', 'L')),
         ('FA', 'L', ('U', 'L')), ('LP', 'L', 'L'), ('CJL', 'L', 'L'),
         ('U=', ('U=', ('BA', 'L', ('U=', 'L')))), 'L', ('U', 'L')]


@SUITE.case(quick=[dict(rt=x) for x in SMALL],
            thorough=[dict(rt=x) for x in SMALL]
            + [dict(rt=x) for x in two_level(tops=('',), mids=('',))],
            max_witness=3)
def collapse(ctx, rt):
    """Noun phrases become nouns everywhere."""
    for s in ('np', 'n'):
        ctx.literal_name(s)
    node, leaves = derivation(ctx, rt)
    t = tree(node)

    def col(c):
        if isinstance(c, tuple):
            return (col(c[0]), c[1], col(c[2]))
        return 'n' if c == 'np' else c

    def go(u, n):
        ctx.check(same(u.biclosed_type, col(n[1])), 'collapsed category')
        ctx.check(u.rule == rule_of(n[0]) and
                  len(u.children) == len(n[2]), 'same structure')
        if n[0] == 'L':
            ctx.check(u.text == f'w{n[3]}', 'same words')
        for v, k in zip(u.children, n[2]):
            go(v, k)
    go(t.collapse_noun_phrases(), node)
    d = t.to_diagram()

    def colnode(n):
        n[1] = col(n[1])
        for k in n[2]:
            colnode(k)
    colnode(node)
    check_diagram(ctx, rt, node, leaves, d)


@SUITE.case(quick=[dict(rt=x) for x in SMALL],
            thorough=[dict(rt=x) for x in SMALL]
            + [dict(rt=x) for x in two_level(tops=('',), mids=('', 'U'))],
            max_witness=3)
def trivial(ctx, rt):
    """Removing trivial unary rules."""
    node, leaves = derivation(ctx, rt)
    t = tree(node)
    text = t.text
    s = t.without_trivial_unary_rules()

    def strip(n):
        while n[0][0] == 'U' and bool(same(to_cat(n[1]), n[2][0][1])):
            n = n[2][0]
        return [n[0], n[1], [strip(k) for k in n[2]], *n[3:]]

    def go(u, n):
        ctx.check(u.rule == rule_of(n[0]), 'rules are kept')
        ctx.check(same(u.biclosed_type, n[1]), 'categories are kept')
        ctx.check(len(u.children) == len(n[2]), 'children are kept')
        h = [go(v, k) for v, k in zip(u.children, n[2])]
        height = 1 + max(h) if h else 0
        ctx.check(u.height == height, 'height')
        ctx.check((u.is_leaf, u.is_unary, u.is_binary)
                  == (len(h) == 0, len(h) == 1, len(h) == 2), 'flags')
        return height
    go(s, strip(node))
    ctx.check(s.text == text, 'words are kept')
    go(t, node)
    d = t.to_diagram(collapse_noun_phrases=False)
    e = s.to_diagram(collapse_noun_phrases=False)
    ctx.check(wiring(d) == wiring(e) and [w.name for w in words_of(d)]
              == [w.name for w in words_of(e)], 'same diagram')


@SUITE.case(quick=[dict(rt=x, unk=u) for x in SMALL for u in (0, 1)],
            thorough=[dict(rt=x, unk=u) for x in SMALL
                      + two_level(tops=('',), mids=('', 'U'))
                      for u in (0, 1)], max_witness=3)
def jsonify(ctx, rt, unk):
    """A tree survives being written to JSON and read back."""
    node, leaves = derivation(ctx, rt)
    # concrete names: the text of a category is what is stored
    k = [0]

    def fix(n):
        def f(c):
            if isinstance(c, tuple):
                return (f(c[0]), c[1], f(c[2]))
            k[0] += 1
            return c if c in ('conj', 'punc') else 'abcdnst'[k[0] % 7]
        n[1] = f(n[1])
        for q in n[2]:
            fix(q)
    fix(node)
    t = tree(node)
    if unk and t.children:
        t.rule = R.UNKNOWN
        t._text = ctx.choose('text', [None, 'other text', ''])
    for u in (t, t.children[-1] if t.children else t):
        data = u.to_json()
        back = CCGTree.from_json(data)
        again = CCGTree.from_json(json.dumps(data))
        for b in (back, again):
            ctx.check(b == u and u == b, 'equal tree')
            go_same(ctx, b, u)
    data = t.to_json()

    def fill(x):
        x.setdefault('children', None)
        x.setdefault('text', None)
        for c in x['children'] or []:
            fill(c)
    fill(data)
    ctx.check(CCGTree.from_json(data) == t, 'explicit null fields')
    ctx.check(CCGTree.from_json(None) is None
              and CCGTree.to_json(None) is None, 'no tree')
    # equality sees every field
    if t.children:
        v = CCGTree.from_json(t.to_json())
        v.children[0].biclosed_type = CCGType('zzz')
        ctx.check(v != t, 'different category')
        v = CCGTree.from_json(t.to_json())
        leaf = v
        while leaf.children:
            leaf = leaf.children[-1]
        leaf._text = 'zzz'
        ctx.check(v != t or t._text is not None, 'different word')


def go_same(ctx, a, b):
    ctx.check(a.text == b.text and a.rule == b.rule
              and str(a.biclosed_type) == str(b.biclosed_type)
              and a.biclosed_type == b.biclosed_type
              and len(a.children) == len(b.children)
              and a.height == b.height, 'same fields')
    for x, y in zip(a.children, b.children):
        go_same(ctx, x, y)
