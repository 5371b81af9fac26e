"""C04: the bobcat grammar engine: categories, unification, rules."""
import functools
import itertools

from vsym.case import Suite
from vsym.core import And, If, Not, Or
from vsym.strs import SymStr, instrumented, op_str, sstr
from vsym.symre import SymRe

from lambeq.bobcat import lexicon as real
from lambeq.bobcat.grammar import Grammar
from lambeq.bobcat.lexicon import Atom, Category, Feature, Relation
from lambeq.bobcat.rules import Rules
from lambeq.bobcat.tree import Lexical, Rule, Unify

SUITE = Suite(
    'C04',
    bounds='category strings of up to 3 slashes with one atom of up to 4+4 '
    'symbolic characters, all strings of up to 4 (quick) / 5 (thorough) '
    'symbolic characters; equality, matching and unification of '
    'categories of up to 2 slashes (equality: 3, thorough) with every atom '
    'and feature; rules on all pairs of categories of up to 2 slashes '
    '(and the spines needed by the generalised rules), symbolic '
    'directions, every history of the two constituents',
    assumptions=['the feature X is only used on S, and stands for one '
                 'variable in the two categories being combined (features '
                 'of other atoms are ignored by unification)'],
    outside='larger categories; shared head variables inside a category')

ATOMS = list(Atom._member_map_.values())
FEATS = list(Feature._member_map_.values())


class H:
    """Collision-free model of `hash`."""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if not isinstance(o, H) or len(self.t) != len(o.t):
            return False
        return And(*[(x.hash == y.hash)
                     if isinstance(x, Category) and isinstance(y, Category)
                     else False if isinstance(x, Category)
                     or isinstance(y, Category)
                     else x == y for x, y in zip(self.t, o.t)])

    def __ne__(self, o):
        return Not(self == o)


def unhashed(fn):
    """Run a harness with one hash for all categories (hashes only speed
    up comparisons, which `equality` decides)."""
    @functools.wraps(fn)
    def f(ctx, **kw):
        old = Category._hash
        real.CATEGORIES.clear()
        if ctx.symbolic:
            Category._hash = lambda self: 7
        try:
            return fn(ctx, **kw)
        finally:
            real.CATEGORIES.clear()
            Category._hash = old
    return f


def hashed(fn):
    """Run a harness with the model of `hash` in the lexicon."""
    @functools.wraps(fn)
    def f(ctx, **kw):
        real.CATEGORIES.clear()
        if ctx.symbolic:
            real.hash = H
        try:
            return fn(ctx, **kw)
        finally:
            real.CATEGORIES.clear()
            vars(real).pop('hash', None)
    return f


class Enum:
    """An arbitrary member of an enumeration."""

    def __init__(self, term, cls):
        self.t, self.cls = term, cls

    def __eq__(self, o):
        return self.t == (o.t if type(o) is Enum else int(o))

    def __ne__(self, o):
        return Not(self == o)

    def __ge__(self, o):
        return self.t >= int(o)

    def __hash__(self):
        return hash(self.conc())

    def conc(self):
        for m in self.cls._member_map_.values():
            if self == m:
                return m

    is_free = property(lambda s: Feature.is_free.fget(s))
    is_punct = property(lambda s: Or(*[s == a for a in ATOMS if a.is_punct]))

    def __str__(self):
        return str(self.conc())


def val(e):
    return e.t if type(e) is Enum else int(e)


def enum(ctx, p, cls, vals=None):
    n = len(cls.values)
    t = ctx.int(p, 0, n - 1)
    if vals is not None:
        ctx.assume(Or(*[t == int(v) for v in vals]))
    if ctx.symbolic and not isinstance(t, int) or type(t) is not int:
        return Enum(t, cls)
    return list(cls._member_map_.values())[int(t)]


def all_shapes(n):
    if n == 0:
        return ['*']
    return [(a, b) for k in range(n) for a in all_shapes(k)
            for b in all_shapes(n - 1 - k)]


def upto(n):
    return [s for k in range(n + 1) for s in all_shapes(k)]


def size(s):
    return 0 if s == '*' else 1 + size(s[0]) + size(s[1])


def build(ctx, shape, p, heads=False, var=1, cnt=None, rel=True, fix=None):
    """Category of the given shape; `heads`: the word's head variable along
    the results and a fresh variable and dependency slot per argument."""
    cnt = [1, 0] if cnt is None else cnt
    if shape == '*':
        if fix and p in fix:
            a, f = fix[p], enum(ctx, f'{p}f', Feature)
            if a != Atom.S:
                f = Feature.NONE
        elif fix:
            a, f = enum(ctx, f'{p}a', Atom), Feature.NONE
        else:
            a, f = enum(ctx, f'{p}a', Atom), enum(ctx, f'{p}f', Feature)
        ctx.assume(Or(Not(f == Feature.X), a == Atom.S))
        ctx.assume(Not(a == Atom.NONE))
        return Category(a, f, var if heads else 0)
    d = ctx.choose(f'{p}d', ['/', '\\'])
    r = build(ctx, shape[0], f'{p}r', heads, var, cnt, rel, fix)
    cnt[0] += 1
    v = cnt[0]
    a = build(ctx, shape[1], f'{p}g', heads, v, cnt, False, fix)
    if heads and rel:
        cnt[1] += 1
        a.relation = Relation(p, cnt[1])
    return r.slash(d, a, var if heads else 0)


# ---- references ------------------------------------------------------------

def leaves(a, b):
    """Pairs of atoms of two categories of the same form, or None."""
    if a.atomic != b.atomic:
        return None
    if a.atomic:
        return [(a, b)]
    if a.dir != b.dir:
        return None
    x, y = leaves(a.result, b.result), leaves(a.argument, b.argument)
    return None if x is None or y is None else x + y


def pick(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return If(c, a, b)


def unifies(a, b):
    """(condition, binding of X): some feature for X makes them equal."""
    ps = leaves(a, b)
    if ps is None:
        return False, None
    X = int(Feature.X)
    same = And(*[x.atom == y.atom for x, y in ps])
    ok, forced = True, []
    for x, y in ps:
        isS = x.atom == Atom.S
        u, v = val(x.feature), val(y.feature)
        ok = And(ok, Or(Not(isS), u == v, u == X, v == X))
        forced.append((And(isS, Or(And(u == X, Not(free(v))),
                                   And(v == X, Not(free(u))))),
                       pick(u == X, v, u)))
    for (c, u), (d, v) in itertools.combinations(forced, 2):
        ok = And(ok, Or(Not(c), Not(d), u == v))
    bind = X
    for x, y in ps:
        for u, v in ((x, y), (y, x)):
            c = And(x.atom == Atom.S, val(u.feature) == X,
                    Not(val(v.feature) == X),
                    Not(val(v.feature) == int(Feature.NONE)))
            bind = pick(c, val(v.feature), bind)
    return And(same, ok), bind


def free(t):
    return Or(t == int(Feature.X), t == int(Feature.NONE))


def is_inst(c, ref, bind):
    """Symbolic: c is `ref` (nested (r, dir, a) / Category) with X bound."""
    if isinstance(ref, tuple):
        return c.complex and c.dir == ref[1] and And(
            is_inst(c.result, ref[0], bind), is_inst(c.argument, ref[2],
                                                     bind))
    if ref.complex:
        return is_inst(c, (ref.result, ref.dir, ref.argument), bind)
    if not c.atomic:
        return False
    X = int(Feature.X)
    f = val(ref.feature)
    want = pick(f == X, bind, f)
    return And(c.atom == ref.atom,
               Or(val(c.feature) == want,
                  And(free(val(c.feature)), free(want))))


def schema(rule, n, l, r):
    """(unify pair, result reference) prescribed by CCG, or None."""
    def need(c, d=None):
        return c is not None and c.complex and (d is None or c.dir == d)
    fwd = rule in (Rule.FA, Rule.FC, Rule.GFC)
    f, a = (l, r) if fwd else (r, l)
    if not need(f, '/' if fwd else '\\'):
        return None
    args = []
    for _ in range(n):
        if not need(a):
            return None
        args.append((a.dir, a.argument))
        a = a.result
    if n:
        want = {Rule.FC: '/', Rule.GFC: '/', Rule.BC: '\\', Rule.GBC: '\\',
                Rule.BX: '/', Rule.GBX: '/'}[rule]
        if args[0][0] != want:
            return None
    res = f.result
    for d, z in reversed(args):
        res = (res, d, z)
    return (f.argument, a), res


ARITY = {Rule.FA: [0], Rule.BA: [0], Rule.FC: [1], Rule.BC: [1],
         Rule.BX: [1], Rule.GFC: [2, 3], Rule.GBX: [2, 3], Rule.GBC: [2]}


def prescribed(rule, l, r, cat):
    out = False
    for n in ARITY[rule]:
        s = schema(rule, n, l, r)
        if s:
            ok, bind = unifies(*s[0])
            out = Or(out, And(ok, is_inst(cat, s[1], bind)))
    return out


class Everything:
    def __contains__(self, x):
        return True


def rules(eisner):
    R = Rules(eisner, Grammar({}, [], [], []), {})
    R.rule_instances = Everything()
    return R


# ---- strings -----------------------------------------------------------------

class Assoc:
    """Dictionary whose keys are compared with `==`."""

    def __init__(self, d=()):
        self.d = list(dict(d).items())

    def __getitem__(self, k):
        for a, b in self.d:
            if type(a) is tuple:
                if all(x == y for x, y in zip(a, k)):
                    return b
            elif a == k:
                return b
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.d.insert(0, (k, v))

    def items(self):
        return self.d


class Vars(str):
    def index(self, s):
        for i, c in enumerate(str.__str__(self)):
            if s == c:
                return i
        raise ValueError(s)


def api(ctx):
    if not ctx.symbolic:
        return real
    m = instrumented('lambeq.bobcat.lexicon')
    if not isinstance(m.re, SymRe):
        m.re = SymRe()
        m.VAR_SLOT_REGEX = m.re.compile(real.VAR_SLOT_REGEX.pattern,
                                        real.VAR_SLOT_REGEX.flags)
        m.CAT_REGEX = m.re.compile(real.CAT_REGEX.pattern,
                                   real.CAT_REGEX.flags)
        m.VARIABLES = Vars(m.VARIABLES)
        for e in (m.Atom, m.Feature):
            e._member_map_ = Assoc(e._member_map_)
    m.CATEGORIES = Assoc()
    return m


def text(m, c, top=True, full=False):
    """Independent printer."""
    if c.atomic:
        s = str(m.Atom.values[c.atom])
        if c.feature != m.Feature.NONE:
            s = s + '[' + m.Feature.values[c.feature] + ']'
        return s
    s = text(m, c.result, False) + c.dir + text(m, c.argument, False)
    return s if top else '(' + s + ')'


@SUITE.case(quick=lambda: [dict(n=n) for n in range(1, 6)],
            thorough=lambda: [dict(n=n) for n in range(1, 7)])
def strings(ctx, n):
    """Every accepted string is the printed form of its category."""
    m = api(ctx)
    s = sstr(ctx, 's', n, '()/\\NPS[]X')
    try:
        c = m.Category.parse(s)
    except (AssertionError, KeyError, IndexError):
        ctx.check(True)
        return
    got = text(m, c)
    t = s
    if len(t) > 1 and t[0] == '(' and c.complex \
            and len(t) == len(got) + 2:
        t = t[1:-1]
    ctx.check(len(t) == len(got) and t == got, 'string of the category')
    p = op_str(c)
    ctx.check(len(p) == len(got) and p == got, 'printed category')


def templates(n):
    out = []
    for s in upto(n):
        k = size(s) + 1
        for i in range(k):
            out.append(dict(shape=s, at=i))
    return out


@SUITE.case(quick=lambda: [dict(**t, na=na, nf=nf) for t in templates(2)
                           for na, nf in ((1, 0), (2, 0), (4, 0), (1, 2),
                                          (1, 3))
                           if t['shape'] == '*' or (na, nf) in ((2, 0),
                                                                (1, 2))],
            thorough=lambda: [dict(**t, na=na, nf=nf) for t in templates(3)
                              for na, nf in ((1, 0), (2, 0), (3, 0), (4, 0),
                                             (1, 1), (1, 2), (1, 3),
                                             (1, 4))])
def parsing(ctx, shape, at, na, nf):
    """A well-formed string parses to the category it spells."""
    m = api(ctx)
    atom = sstr(ctx, 'a', na, 'NPScoj,.:LRQUB')
    feat = sstr(ctx, 'f', nf, 'Xadsdclbtngp')
    marked = ctx.choose('marked', [False, True])
    cnt = [0]
    spec = []

    def leaf(i):
        a, f = (atom, feat) if i == at else (('S', 'N', 'PP', 'NP')[i % 4],
                                             '')
        s = a + ('[' + f + ']' if len(f) else '')
        if marked and i == at:
            s = s + '{Y}<3>'
        elif marked:
            s = s + '{_}'
        spec.append((a, f))
        return s

    def go(sh):
        if sh == '*':
            i = cnt[0]
            cnt[0] += 1
            return leaf(i), ('leaf', i)
        d = ctx.choose(f'd{cnt[0]}-{size(sh)}', ['/', '\\'])
        a, ra = go(sh[0])
        b, rb = go(sh[1])
        return '(' + a + d + b + ')' + ('{Z}' if marked else ''), (ra, d, rb)
    s, ref = go(shape)
    if shape != '*' and not marked and ctx.choose('outer', [True, False]):
        s = s[1:-1]
    known_a = any(atom == x for x in Atom.values[1:])
    known_f = not nf or any(feat == x for x in Feature.values[1:])
    try:
        c = m.Category.parse(s)
    except (AssertionError, KeyError, IndexError):
        ctx.check(not (known_a and known_f), 'accepted')
        return
    ctx.check(known_a and known_f, 'unknown atom or feature')

    def same(c, r):
        if r[0] == 'leaf':
            a, f = spec[r[1]]
            return (c.atomic and m.Atom.values[c.atom] == a
                    and m.Feature.values[c.feature] == f
                    and c.var == ((2 if r[1] == at else 1) if marked else 0)
                    and bool(c.relation) == (marked and r[1] == at))
        return (c.complex and c.dir == r[1] and same(c.result, r[0])
                and c.var == (3 if marked else 0)
                and same(c.argument, r[2])
                and c.bwd == (r[1] == '\\') and c.fwd == (r[1] == '/'))
    ctx.check(same(c, ref), 'category spelled by the string')
    p = op_str(c)
    e = text(m, c)
    ctx.check(len(p) == len(e) and p == e, 'printing')
    d = m.Category.parse(p)
    ctx.check(d == c, 'parsing what was printed')
    if marked:
        r = m.Category.__repr__(c)
        ctx.check(m.Category.__repr__(m.Category.parse(r)) == r,
                  'marked-up form')


# ---- equality, matching ----------------------------------------------------

@SUITE.case(quick=lambda: [dict(s=s, t=t) for s in upto(1) for t in upto(1)]
            + [dict(s=s, t=s) for s in all_shapes(2)],
            thorough=lambda: [dict(s=s, t=t) for s in upto(2)
                              for t in upto(2)]
            + [dict(s=s, t=s) for s in all_shapes(3)])
@hashed
def equality(ctx, s, t):
    if True:
        a, b = build(ctx, s, 'a'), build(ctx, t, 'b')
        ps = leaves(a, b)
        if ps is None:
            want = match = False
        else:
            want = And(*[And(x.atom == y.atom,
                             Or(val(x.feature) == val(y.feature),
                                And(x.atom == Atom.S,
                                    free(val(x.feature)),
                                    free(val(y.feature)))))
                         for x, y in ps])
            match = And(*[And(x.atom == y.atom,
                              Or(val(x.feature) == val(y.feature),
                                 val(x.feature) == int(Feature.NONE)))
                          for x, y in ps])
        got = a == b
        ctx.check(got if want else not got, 'equality')
        if got:
            h = a.hash == b.hash
            ctx.check(h, 'equal categories hash alike')
            ctx.check(b == a, 'symmetric')
        got = a.matches(b)
        ctx.check(got if match else not got, 'pattern matching')


# ---- unification -----------------------------------------------------------

def tree(cat, word, i, rule=Rule.L):
    if cat.var:
        t = Lexical(cat, word, i)
    else:
        t = Lexical(Category(var=1), word, i)
        t.cat, t.unfilled_deps, t.var_map = cat, [], {}
    t.rule = rule
    return t


@SUITE.case(quick=lambda: [dict(s=s, fwd=f, heads=h) for s in upto(2)
                           for f in (True, False) for h in (True, False)
                           if size(s) < 2 or f != h])
@unhashed
def unification(ctx, s, fwd, heads):
    a = build(ctx, s, 'a', heads)
    f = build(ctx, s, 'f', heads, 2, [2, 0], False)
    f = Category(Atom.NP, Feature.NONE, int(heads)).slash(
        '/' if fwd else '\\', f, int(heads))
    l, r = (f, a) if fwd else (a, f)
    u = Unify(tree(l, 'l', 1), tree(r, 'r', 2), fwd)
    want, bind = unifies(f.argument, a)
    got = u.unify(a, f.argument)
    ctx.check(got if want else not got, 'unifiable')
    if got:
        v = val(u.feature)
        ctx.check(Or(And(free(v), free(bind)), v == bind),
                  'value of the feature variable')
        if size(s) < 2:
            ctx.check(is_inst(u.translate_res(f), f, bind), 'instance')
            ctx.check(is_inst(u.translate_arg(a), a, bind), 'instance')


@SUITE.case(quick=lambda: [dict(s=s) for s in upto(2)])
@unhashed
def translate(ctx, s):
    """Relabelling keeps the category and relabels each slot."""
    c = build(ctx, s, 'c', True)
    f = enum(ctx, 'f', Feature)
    vm = {v: 20 + v for v in c.vars}
    d = c.translate(vm, f)

    def same(c, d):
        ok = And(d.var == vm[c.var], d.relation == c.relation)
        if c.complex:
            return And(ok, d.complex and d.dir == c.dir,
                       d.type_raising_dep_var == c.type_raising_dep_var,
                       same(c.result, d.result),
                       same(c.argument, d.argument))
        isx = And(c.feature == Feature.X, Not(f == Feature.NONE))
        return And(ok, d.atomic, c.atom == d.atom,
                   Or(And(isx, d.feature == f),
                      And(Not(isx), d.feature == c.feature)))
    ctx.check(same(c, d), 'translation')
    ctx.check(d.vars == {20 + v for v in c.vars}, 'slots')


# ---- rules -----------------------------------------------------------------

def chain(n, core='*'):
    for _ in range(n):
        core = (core, '*')
    return core


PAIRS = [(a, b) for a in upto(2) for b in upto(2)
         if size(a) + size(b) <= 3]
GEN = [(('*', ('*', '*')), ((('*', '*'), '*'), '*')),
       (((('*', '*'), '*'), '*'), ('*', ('*', '*')))]
GEN3 = [(('*', ('*', '*')), (((('*', '*'), '*'), '*'), '*')),
        ((((('*', '*'), '*'), '*'), '*'), ('*', ('*', '*')))]
GBC = [(((('*', '*')), '*'), ('*', '*')),
       (((('*', '*')), '*'), ('*', ('*', '*')))]
HIST = [Rule.L, Rule.FA, Rule.CONJ, Rule.BTR, Rule.FTR, Rule.BC, Rule.FC,
        Rule.GBC, Rule.GFC, Rule.BX]


def verify(ctx, L, R, eisner, combine):
    l, r = L.cat, R.cat
    out = combine(L, R)
    ctx.check(all(t is not None for t in out), 'list of trees')
    seen = set()
    blocked = {
        Rule.BA: L.rule in (Rule.CONJ, Rule.BTR, Rule.FTR)
        or (eisner and R.rule in (Rule.BC, Rule.GBC)),
        Rule.FA: R.rule in (Rule.CONJ, Rule.BTR, Rule.FTR)
        or (eisner and L.rule in (Rule.FC, Rule.GFC)),
        Rule.BC: Rule.CONJ in (L.rule, R.rule)
        or (eisner and R.rule in (Rule.BC, Rule.GBC)),
        Rule.FC: eisner and L.rule in (Rule.FC, Rule.GFC),
        Rule.BX: R.rule == Rule.CONJ}
    blocked[Rule.GFC], blocked[Rule.GBC] = blocked[Rule.FC], blocked[Rule.BC]
    blocked[Rule.GBX] = blocked[Rule.BX]
    for t in out:
        seen.add(t.rule)
        ctx.check(t.left is L and t.right is R, 'children')
        if t.rule in ARITY:
            ctx.check(prescribed(t.rule, l, r, t.cat),
                      f'{t.rule.name}: prescribed category')
            ctx.check(not blocked[t.rule], f'{t.rule.name}: normal form')
        elif t.rule == Rule.CONJ:
            ctx.check(And(l.atomic, Or(*[l.atom == a for a in
                                         (Atom.CONJ, Atom.COMMA,
                                          Atom.SEMICOLON)])), 'conjunction')
            ctx.check(is_inst(t.cat, (r, '\\', r), int(Feature.X)),
                      'coordination: X\\X')
            ctx.check(R.rule not in (Rule.CONJ, Rule.BTR, Rule.FTR),
                      'coordinating coordinations')
        elif t.rule == Rule.ADJ_CONJ:
            ctx.check(And(l.atomic, l.atom == Atom.CONJ, r.atomic,
                          r.atom == Atom.N), 'adjectival conjunction')
            ctx.check(is_inst(t.cat, r, int(Feature.X)), 'its category')
        elif t.rule in (Rule.LP, Rule.RP):
            p, c, C = (l, r, R) if t.rule == Rule.LP else (r, l, L)
            ctx.check(And(p.atomic, p.atom.is_punct), 'punctuation')
            ctx.check(is_inst(t.cat, c, int(Feature.X)), 'its category')
        else:
            ctx.fail(f'rule {t.rule}')
    # completeness
    special = Or(*[And(c.atomic, Or(c.atom.is_punct, c.atom == Atom.CONJ))
                   if c.atomic else False for c in (l, r)])
    for rule, (n,) in [(k, v) for k, v in ARITY.items() if len(v) == 1
                       and k != Rule.GBC]:
        s = schema(rule, n, l, r)
        if s is None or blocked[rule]:
            continue
        ok, _ = unifies(*s[0])
        if rule == Rule.BX:
            a = r.argument
            if a.atomic:
                ok = And(ok, Not(Or(a.atom == Atom.N, a.atom == Atom.NP)))
        if special:
            continue
        ctx.check(Or(Not(ok), bool(seen & {rule, Rule.FA, Rule.BA})),
                  f'{rule.name}: applied')
    if l.atomic and R.rule not in (Rule.CONJ, Rule.BTR, Rule.FTR):
        rp = And(r.atomic, Or(r.atom.is_punct, r.atom == Atom.CONJ)) \
            if r.atomic else False
        ctx.check(Or(Not(Or(l.atom == Atom.CONJ, l.atom == Atom.COMMA,
                            l.atom == Atom.SEMICOLON)), rp,
                     bool(seen & {Rule.CONJ, Rule.BA})),
                  'conjunction applied')
        ctx.check(Or(Not(l.atom.is_punct), rp, Rule.LP in seen),
                  'left punctuation')
    if r.atomic and L.rule not in (Rule.CONJ, Rule.BTR, Rule.FTR):
        lp = And(l.atomic, Or(l.atom.is_punct, l.atom == Atom.CONJ)) \
            if l.atomic else False
        ctx.check(Or(Not(r.atom.is_punct), lp, Rule.RP in seen),
                  'right punctuation')
    return out


@SUITE.case(quick=lambda: [dict(a=a, b=b) for a, b in PAIRS],
            thorough=lambda: [dict(a=a, b=b) for a in upto(2)
                              for b in upto(2)])
@unhashed
def combine(ctx, a, b):
    heads = size(a) + size(b) <= 3
    l, r = build(ctx, a, 'l', heads), build(ctx, b, 'r', heads)
    L, R = tree(l, 'left', 1), tree(r, 'right', 2)
    out = verify(ctx, L, R, False, rules(False).combine)
    if heads:
        for t in out:
            if t.rule in (Rule.FA, Rule.FC, Rule.BA, Rule.BC, Rule.BX):
                f, x = (L, R) if t.rule in (Rule.FA, Rule.FC) else (R, L)
                got = [(d.head.word, d.relation, d.filler.word)
                       for d in t.filled_deps]
                ctx.check(got == [(f.word, f.cat.argument.relation, x.word)],
                          'dependency filled')
                rest = len(f.unfilled_deps) + len(x.unfilled_deps) - 1
                ctx.check(len(t.unfilled_deps) == rest,
                          'open dependencies kept')


@SUITE.case(quick=lambda: [dict(a=a, b=b, hl=hl, hr=hr)
                           for a, b in [('*', ('*', '*')),
                                        (('*', '*'), '*'),
                                        (('*', '*'), ('*', '*'))]
                           for hl in HIST for hr in HIST
                           if Rule.L in (hl, hr) or hl == hr],
            thorough=lambda: [dict(a=a, b=b, hl=hl, hr=hr)
                              for a, b in PAIRS
                              for hl in HIST for hr in HIST
                              if Rule.L in (hl, hr)])
@unhashed
def history(ctx, a, b, hl, hr):
    """Normal form: which constituents a rule may use."""
    e = ctx.choose('eisner', [True, False])
    l, r = build(ctx, a, 'l'), build(ctx, b, 'r')
    verify(ctx, tree(l, 'left', 1, hl), tree(r, 'right', 2, hr), e,
           rules(e).combine)


@SUITE.case(quick=lambda: [dict(a=a, b=b) for a, b in GEN + GBC + GEN3])
@unhashed
def generalised(ctx, a, b):
    # the cores are verb phrases, the extra arguments and results arbitrary
    if (a, b) in GBC:
        fa = {'lrr': Atom.S, 'lrg': Atom.S} if a[0] != '*' else None
        fb = {'rg': Atom.S, 'rgr': Atom.S, 'rgg': Atom.S}
    else:
        small, big = ('l', 'r') if size(a) < size(b) else ('r', 'l')
        core = big + 'r' * (max(size(a), size(b)) - 1)
        fa = fb = {small + 'gr': Atom.S, small + 'gg': Atom.NP,
                   core + 'r': Atom.S, core + 'g': Atom.NP}
    l, r = build(ctx, a, 'l', True, fix=fa), build(ctx, b, 'r', True, fix=fb)
    L, R = tree(l, 'left', 1), tree(r, 'right', 2)
    for v in l.vars:
        if v not in L.var_map and ctx.choose(f'filled{v}', [False, True]) \
                and (a, b) in GBC and v == l.result.result.var:
            L.var_map[v] = L.var_map[1]
    out = verify(ctx, L, R, False, rules(False).combine)
    S_NP = Category.parse('S\\NP')
    for rule, c, d, dr in ((Rule.GFC, l, r, '/'), (Rule.GBX, r, l, '\\')):
        if c.dir != dr or not c.argument.complex:
            continue
        for n in (2, 3):
            s = schema(rule, n, l, r)
            if s is None or any(t.rule != rule for t in out):
                continue
            k = d
            for _ in range(n):
                ok_dir = k.dir == '/'
                k = k.result
                if not ok_dir:
                    break
            if not ok_dir or not k.complex or k.result.complex:
                continue
            ok, _ = unifies(*s[0])
            if And(ok, S_NP._matches(c.argument),
                   Not(k.result.feature == Feature.X)):
                ctx.check(any(t.rule == rule for t in out),
                          f'{rule.name} applied')


# ---- unary and punctuation tables --------------------------------------------

@SUITE.case(quick=lambda: [dict(s=s) for s in upto(1)],
            thorough=lambda: [dict(s=s) for s in upto(2)])
@unhashed
def tables(ctx, s):
    """Type-raising and type-changing rules are those of the grammar."""
    cat = build(ctx, s, 'c', True)
    g = Grammar({}, [],
                [(1, 'N', None, 'NP', False),
                 (2, 'S[dcl]\\NP', None, 'NP\\NP', True),
                 (3, ',', 'N', 'NP', False),
                 (4, 'S[dcl]', ',', 'NP', False),
                 (5, 'N', None, 'NP\\NP', False)],
                [('NP', '(S[X]{Y}/(S[X]{Y}\\NP{_}){Y}){Y}', '+'),
                 ('NP', '(S[X]{Y}\\(S[X]{Y}/NP{_}){Y}){Y}', '+'),
                 ('PP', '(S[X]{Y}\\(S[X]{Y}/PP{_}){Y}){Y}', '+')])
    marked = {'NP': Category.parse('NP{_}'),
              'NP\\NP': Category.parse('(NP{_}\\NP{Y}){_}')}
    R = Rules(False, g, marked)
    tr = [(Category.parse(a), Category.parse(b))
          for a, b, _ in g.type_raising_rules]
    t = tree(cat, 'w', 1)

    def eqv(pat):
        ps = leaves(pat, cat)
        return False if ps is None else And(*[And(
            x.atom == y.atom, Or(val(x.feature) == val(y.feature),
                                 val(x.feature) == int(Feature.NONE),
                                 And(x.atom == Atom.S,
                                     free(val(x.feature)),
                                     free(val(y.feature)))))
            for x, y in ps])
    out = R.type_raise([t])
    want = [b for a, b in tr if eqv(a)]
    ctx.check([x.cat for x in out] == want, 'type raising')
    for x in out:
        ctx.check(x.left is t and x.right is None, 'child')
        ctx.check(x.rule == (Rule.FTR if x.cat.fwd else Rule.BTR),
                  'direction')
    out = R.type_change([t])
    want = [(i, marked[c]) for i, a, b, c, _ in g.type_changing_rules
            if b is None and eqv(Category.parse(a))]
    ctx.check([x.cat for x in out] == [c for _, c in want], 'type changing')
    ctx.check(all(x.rule == Rule.U and x.left is t and x.right is None
                  for x in out), 'unary tree')
    comma = tree(Category(Atom.COMMA, Feature.NONE, 1), ',', 2)
    punct = Or(cat.atom.is_punct, cat.atom == Atom.CONJ) \
        if cat.atomic else False
    if punct:
        return
    out = R.left_punct(comma, t)
    tc = [x for x in out if x.cat is marked['NP']]
    ctx.check(len(tc) == (1 if eqv(Category.parse('N')) else 0),
              'left punctuation rule')
    out = R.right_punct(t, comma)
    tc = [x for x in out if x.cat is marked['NP']]
    ctx.check(len(tc) == (1 if eqv(Category.parse('S[dcl]')) else 0),
              'right punctuation rule')
