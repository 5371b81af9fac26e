"""C02: CCG rules: diagrams, inference and resolution."""
from vsym.case import Suite
from vsym.core import And, Or
from vsym.lq import wiring, wt

from props.c01 import all_shapes, build, ref_eq, ref_ty, same, ty_is

from lambeq.backend.grammar import Cap, Cup, Swap
from lambeq.text2diagram.ccg_rule import CCGRule, CCGRuleUseError
from lambeq.text2diagram.ccg_type import CCGType

SUITE = Suite(
    'C02',
    bounds='rules applied to categories with sub-categories of up to 1 '
    '(quick) / 2 (thorough) slashes and up to 3 extra arguments in the '
    'generalised rules; inference over all premises and conclusions of up '
    'to 2 slashes each (quick) / 3 (thorough, with 4 in total); directions and '
    'atomic names symbolic, names may equal "conj" and "punc"',
    assumptions=['resolution is asked for codomains to which the rule can '
                 'be applied (complex for compositions, type-raised for '
                 'type raising)',
                 'removing punctuation and conjunction are inferred from '
                 'the mark alone, as for CCGbank; resolution makes the '
                 'types agree'],
    outside='larger categories')

R = CCGRule


def to_cat(ref):
    if isinstance(ref, tuple):
        return CCGType(result=to_cat(ref[0]), direction=ref[1],
                       argument=to_cat(ref[2]))
    return CCGType(ref)


def instance(ctx, rule, shapes, dirs):
    """Schema instance: (dom refs, cod ref, wires) where wires lists the
    atoms of the inputs as labels, in input order and in output order."""
    X, Y, Z = [build(ctx, CCGType, s, ctx.name, p)[1]
               for s, p in zip(shapes, 'xyz')]
    ex = [build(ctx, CCGType, '*', ctx.name, f'e{i}')[1]
          for i in range(len(dirs))]

    def spine(core, args):
        for d, e in args:
            core = (core, d, e)
        return core
    if rule == R.UNARY:
        return [X], X
    if rule == R.FORWARD_TYPE_RAISING:
        return [X], (Y, '/', (Y, '\\', X))
    if rule == R.BACKWARD_TYPE_RAISING:
        return [X], (Y, '\\', (Y, '/', X))
    if rule == R.FORWARD_APPLICATION:
        return [(X, '/', Y), Y], X
    if rule == R.BACKWARD_APPLICATION:
        return [Y, (X, '\\', Y)], X
    if rule == R.FORWARD_COMPOSITION:
        return [(X, '/', Y), (Y, '/', Z)], (X, '/', Z)
    if rule == R.BACKWARD_COMPOSITION:
        return [(Y, '\\', Z), (X, '\\', Y)], (X, '\\', Z)
    if rule == R.FORWARD_CROSSED_COMPOSITION:
        return [(X, '/', Y), (Y, '\\', Z)], (X, '\\', Z)
    if rule == R.BACKWARD_CROSSED_COMPOSITION:
        return [(Y, '/', Z), (X, '\\', Y)], (X, '/', Z)
    if rule == R.REMOVE_PUNCTUATION_LEFT:
        return ['punc', X], X
    if rule == R.REMOVE_PUNCTUATION_RIGHT:
        return [X, 'punc'], X
    args = [(d, e) for d, e in zip(dirs, [Z] + ex)]
    if rule in (R.GENERALIZED_FORWARD_COMPOSITION,
                R.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
        return [(X, '/', Y), spine(Y, args)], spine(X, args)
    return [spine(Y, args), (X, '\\', Y)], spine(X, args)


def path_ty(ref, z=0, path=()):
    """Atoms of the image with their position in the category."""
    if not isinstance(ref, tuple):
        return [path]
    res, op, arg = ref
    parts = [(res, 0, 'r'), (arg, -1, 'a')] if op == '/' else \
        [(arg, 1, 'a'), (res, 0, 'r')]
    if z % 2:
        parts = parts[::-1]
    return [x for q, dz, c in parts
            for x in path_ty(q, z + dz, path + (c,))]


def joined(rule, dom, cod, n=None):
    """Reference wiring: the atoms of the categories are joined as the rule
    says."""
    def at(k, ref, prefix):
        # input wire indices by category position
        off = sum(len(path_ty(d)) for d in dom[:k])
        return {p[len(prefix):]: ('in', off + i)
                for i, p in enumerate(path_ty(ref))
                if p[:len(prefix)] == prefix}
    outs = {p: ('out', i) for i, p in enumerate(path_ty(cod))}
    pairs = []

    def join(a, b):
        assert set(a) == set(b)
        pairs.extend(frozenset([a[p], b[p]]) for p in a)

    def osub(prefix):
        return {p[len(prefix):]: v for p, v in outs.items()
                if p[:len(prefix)] == prefix}
    if rule == R.UNARY:
        join(at(0, dom[0], ()), outs)
    elif rule in (R.FORWARD_TYPE_RAISING, R.BACKWARD_TYPE_RAISING):
        join(at(0, dom[0], ()), osub(('a', 'a')))
        join(osub(('r',)), osub(('a', 'r')))
    elif rule == R.REMOVE_PUNCTUATION_LEFT:
        join(at(0, dom[1], ()), outs)
    elif rule == R.REMOVE_PUNCTUATION_RIGHT:
        join(at(0, dom[0], ()), outs)
    else:
        fwd = rule.value.startswith(('F', 'GF'))
        f, g = (0, 1) if fwd else (1, 0)
        # n: number of extra arguments
        if rule in (R.FORWARD_APPLICATION, R.BACKWARD_APPLICATION):
            n = 0
        elif n is None:
            n = 0
            core = cod
            want = dom[f][0]
            while core is not want:
                core, n = core[0], n + 1
        deep = ('r',) * n
        join(at(f, dom[f], ('r',)), osub(deep))
        join(at(f, dom[f], ('a',)), at(g, dom[g], deep))
        for k in range(n):
            q = ('r',) * k + ('a',)
            join(at(g, dom[g], q), osub(q))
    return frozenset(pairs)


GEN = (R.GENERALIZED_FORWARD_COMPOSITION,
       R.GENERALIZED_BACKWARD_COMPOSITION,
       R.GENERALIZED_FORWARD_CROSSED_COMPOSITION,
       R.GENERALIZED_BACKWARD_CROSSED_COMPOSITION)
BASIC = (R.UNARY, R.FORWARD_TYPE_RAISING, R.BACKWARD_TYPE_RAISING,
         R.FORWARD_APPLICATION, R.BACKWARD_APPLICATION,
         R.FORWARD_COMPOSITION, R.BACKWARD_COMPOSITION,
         R.FORWARD_CROSSED_COMPOSITION, R.BACKWARD_CROSSED_COMPOSITION,
         R.REMOVE_PUNCTUATION_LEFT, R.REMOVE_PUNCTUATION_RIGHT)


def gen_dirs(rule, n):
    """Directions of the extra arguments of a generalised rule."""
    import itertools
    if rule == GEN[0]:
        return ['/' * n]
    if rule == GEN[1]:
        return ['\\' * n]
    first = '\\' if rule == GEN[2] else '/'
    return [first + ''.join(t)
            for t in itertools.product('/\\', repeat=n - 1)]


def insts(size, xy, nmax):
    out = []
    for r in BASIC:
        for x in all_shapes(size):
            for y in all_shapes(size):
                for z in (all_shapes(size) if r.value in
                          ('FC', 'BC', 'FX', 'BX') else ['*']):
                    if 'U' in r.value[0] + r.value[-1] and y != '*':
                        continue
                    if r.value in ('LP', 'RP') and y != '*':
                        continue
                    out.append(dict(rule=r.value, shapes=(x, y, z),
                                    dirs=''))
    for r in GEN:
        for n in range(1, nmax + 1):
            for d in gen_dirs(r, n):
                for x in all_shapes(xy):
                    for y in all_shapes(xy):
                        out.append(dict(rule=r.value,
                                        shapes=(x, y, '*' if n > 1 else
                                                ('*', '*')), dirs=d))
    return out


def images(refs):
    return [a for r in refs for a in ref_ty(r)]


def diagram(ctx, rule, dom, cod, msg):
    d = rule.apply([to_cat(x) for x in dom], to_cat(cod))
    ctx.check(wt(d), msg + ': well typed')
    punct = {R.REMOVE_PUNCTUATION_LEFT: dom[1:],
             R.REMOVE_PUNCTUATION_RIGHT: dom[:1]}
    ctx.check(ty_is(d.dom, images(punct.get(rule, dom))), msg + ': domain')
    ctx.check(ty_is(d.cod, ref_ty(cod)), msg + ': codomain')
    ctx.check(all(isinstance(b, (Cup, Cap, Swap)) for b in
                  d.to_diagram().boxes), msg + ': wires only')
    return d


@SUITE.case(quick=insts(1, 1, 2), thorough=insts(2, 1, 3), max_witness=2)
def apply(ctx, rule, shapes, dirs):
    """The diagram of a rule on any instance of its schema."""
    rule = R(rule)
    dom, cod = instance(ctx, rule, shapes, dirs)
    d = diagram(ctx, rule, dom, cod, 'diagram')
    conn, nodes, loops = wiring(d)
    ctx.check(loops == 0 and not nodes, 'wires only')
    want = joined(rule, dom, cod)
    ctx.check(conn == want, 'wiring')
    ctx.check(all(len(c) == 2 for c in conn), 'wiring')
    cats = [to_cat(x) for x in dom]
    e = rule(cats, to_cat(cod))
    ctx.check(ty_is(e.cod, ref_ty(cod)), 'call')
    # resolution leaves a matching use alone
    got = rule.resolve(cats, to_cat(cod))
    ctx.check(len(got) == len(dom) and And(*[same(g, x) for g, x in
                                             zip(got, dom)]),
              'resolve with the original codomain')
    # too few, too many
    for bad in ([], cats + cats[:1], cats[:-1]):
        if len(bad) != len(cats):
            try:
                rule.apply(bad, to_cat(cod))
                ctx.fail('wrong number of premises')
            except CCGRuleUseError:
                pass
    # the rule that is inferred fits as well
    r = R.infer_rule(cats, to_cat(cod))
    ctx.check(r != R.UNKNOWN, 'some rule is inferred')
    if r != R.CONJUNCTION:
        rdom = [to_ref(c) for c in r.resolve(cats, to_cat(cod))]
        ctx.check(And(*[ref_eq(a, b) for a, b in zip(dom, rdom)])
                  or r in (R.REMOVE_PUNCTUATION_LEFT, R.UNARY,
                           R.REMOVE_PUNCTUATION_RIGHT),
                  'the inferred rule admits the premises')
        diagram(ctx, r, rdom, cod, 'inferred')


def to_ref(c):
    if c.is_complex:
        return (to_ref(c.result), c.direction, to_ref(c.argument))
    return c.name


def spines(ref):
    """[(core, [(dir, arg), ...] from the core outwards)]"""
    out, args = [], []
    while isinstance(ref, tuple):
        args = [(ref[1], ref[2])] + args
        ref = ref[0]
        out.append((ref, args))
    return out


def isx(a, op):
    return isinstance(a, tuple) and a[1] == op


def schema(rule, dom, cod):
    """Symbolic: premises and conclusion match the schema of the rule."""
    if rule == R.LEXICAL:
        return not dom
    if len(dom) == 1:
        x, = dom
        if rule == R.UNARY:
            return True
        if rule == R.FORWARD_TYPE_RAISING:
            return isx(cod, '/') and isx(cod[2], '\\') and \
                And(ref_eq(cod[0], cod[2][0]), ref_eq(cod[2][2], x))
        if rule == R.BACKWARD_TYPE_RAISING:
            return isx(cod, '\\') and isx(cod[2], '/') and \
                And(ref_eq(cod[0], cod[2][0]), ref_eq(cod[2][2], x))
        return False
    if len(dom) != 2:
        return False
    l, r = dom
    if rule == R.FORWARD_APPLICATION:
        return ref_eq(l, (cod, '/', r))
    if rule == R.BACKWARD_APPLICATION:
        return ref_eq(r, (cod, '\\', l))
    if rule == R.REMOVE_PUNCTUATION_LEFT:
        return ref_eq(l, 'punc')
    if rule == R.REMOVE_PUNCTUATION_RIGHT:
        return ref_eq(r, 'punc')
    if rule == R.CONJUNCTION:
        return Or(*[ref_eq(x, y) for x in dom for y in ('conj', 'punc')])
    v = rule.value
    n = 1 if not v.startswith('G') else None
    fwd = v.lstrip('G').startswith('F')
    f, g = (l, r) if fwd else (r, l)
    slash = '/' if fwd else '\\'
    if not isx(f, slash):
        return False
    other = '\\' if fwd else '/'
    crossed = v.endswith('X')
    out = []
    for core, args in spines(g):
        ds = [d for d, _ in args]
        if n is not None and len(args) != n:
            continue
        if crossed:
            if ds[0] != other:
                continue
        elif any(d != slash for d in ds):
            continue
        want = f[0]
        for d, a in args:
            want = (want, d, a)
        out.append(And(ref_eq(core, f[2]), ref_eq(cod, want)))
    return Or(*out) if out else False


ALL = [r for r in R if r not in (R.UNKNOWN,)]


def triples(size, total):
    s = all_shapes(size)

    def sz(x):
        return 0 if x == '*' else 1 + sz(x[0]) + sz(x[1])
    return [dict(dom=(a, b), cod=c) for a in s for b in s for c in s
            if sz(a) + sz(b) + sz(c) <= total] + \
        [dict(dom=(a,), cod=c) for a in s for c in s]


@SUITE.case(quick=triples(2, 4), thorough=triples(3, 5) + triples(2, 6),
            max_witness=2)
def infer(ctx, dom, cod):
    """Whatever is inferred matches its schema; nothing is missed."""
    for s in ('punc', 'conj'):
        ctx.literal_name(s)
    cs = [build(ctx, CCGType, s, ctx.name, 'lr'[i])
          for i, s in enumerate(dom)]
    c, rc = build(ctx, CCGType, cod, ctx.name, 'c')
    cats, refs = [x for x, _ in cs], [x for _, x in cs]
    r = R.infer_rule(cats, c)
    if r == R.UNKNOWN:
        for s in ALL:
            if s not in (R.LEXICAL,):
                ctx.check(~bt(schema(s, refs, rc)), 'no rule is missed')
        try:
            r.apply(cats, c)
            ctx.fail('unknown rule applied')
        except CCGRuleUseError:
            pass
        return
    ctx.check(schema(r, refs, rc), 'schema of the inferred rule')
    if r == R.CONJUNCTION:
        out = r.resolve(cats, c)
        left = bool(cats[0].is_conjoinable)
        s = R.FORWARD_APPLICATION if left else R.BACKWARD_APPLICATION
        diagram(ctx, s, [to_ref(x) for x in out], rc, 'conjunction')
        keep = 1 if left else 0
        ctx.check(same(out[keep], refs[keep]), 'conjunct is kept')
        return
    out = [to_ref(x) for x in r.resolve(cats, c)]
    if r not in (R.UNARY, R.REMOVE_PUNCTUATION_LEFT,
                 R.REMOVE_PUNCTUATION_RIGHT):
        ctx.check(And(*[ref_eq(a, b) for a, b in zip(out, refs)]),
                  'resolution of an exact use')
    diagram(ctx, r, out, rc, 'inferred')


def bt(x):
    from vsym.core import SymBool, bterm
    return SymBool(bterm(x)) if not isinstance(x, SymBool) else x


def resolutions(size):
    out = []
    for r in list(BASIC) + [R.CONJUNCTION] + list(GEN):
        dirs = (gen_dirs(r, 1) + gen_dirs(r, 2)) if r in GEN else ['']
        for d in dirs:
            for x in all_shapes(size):
                for c in all_shapes(size):
                    out.append(dict(rule=r.value, shape=x, dirs=d, new=c))
    return out


@SUITE.case(quick=resolutions(1), thorough=resolutions(2), max_witness=2)
def resolve(ctx, rule, shape, dirs, new):
    """Resolution for a retyped conclusion gives premises from which the
    rule derives that conclusion."""
    rule = R(rule)
    if rule == R.CONJUNCTION:
        side = ctx.choose('side', [0, 1])
        _, x = build(ctx, CCGType, shape, ctx.name, 'x')
        _, c = build(ctx, CCGType, new, ctx.name, 'n')
        mark = ctx.choose('mark', ['conj', 'punc'])
        dom = [x, x]
        dom[side] = mark
        out = [to_ref(a) for a in rule.resolve([to_cat(a) for a in dom],
                                               to_cat(c))]
        left = side == 0 or dom[0] in ('conj', 'punc')
        diagram(ctx, R.FORWARD_APPLICATION if side == 0 else
                R.BACKWARD_APPLICATION, out, c, 'conjunction')
        return
    dom, cod = instance(ctx, rule, (shape, '*', '*'), dirs)
    # a new core instead of X (and a new argument instead of Z)
    _, core = build(ctx, CCGType, new, ctx.name, 'n')
    if rule in (R.FORWARD_TYPE_RAISING, R.BACKWARD_TYPE_RAISING):
        y, z = ctx.name('ny'), core
        cod = (y, cod[1], (y, cod[2][1], z))
    elif rule in GEN or rule.value in ('FC', 'BC', 'FX', 'BX'):
        args, cur = [], cod
        want = dom[0][0] if 'F' in rule.value[:2] else dom[1][0]
        while cur is not want:
            args.append((cur[1], ctx.name('na')))
            cur = cur[0]
        cod = core
        for d, a in reversed(args):
            cod = (cod, d, a)
    else:
        cod = core
    out = [to_ref(a) for a in rule.resolve([to_cat(a) for a in dom],
                                           to_cat(cod))]
    ctx.check(len(out) == len(dom), 'number of premises')
    ctx.check(schema(rule, out, cod), 'the rule fits the resolved premises')
    diagram(ctx, rule, out, cod, 'resolved')
    # what does not depend on the conclusion stays
    if rule == R.FORWARD_APPLICATION:
        ctx.check(ref_eq(out[1], dom[1]), 'argument is kept')
    if rule == R.BACKWARD_APPLICATION:
        ctx.check(ref_eq(out[0], dom[0]), 'argument is kept')


@SUITE.case()
def refused(ctx):
    a = CCGType(ctx.name('a'))
    for r, dom in ((R.UNKNOWN, [a]), (R.LEXICAL, []), (R.CONJUNCTION,
                   [a, a]), (R.FORWARD_TYPE_RAISING, [a])):
        try:
            r.apply(dom)
            ctx.fail('rule without a diagram applied')
        except CCGRuleUseError:
            pass
    for f in (lambda: R.UNKNOWN.resolve([a], a), lambda: R.UNKNOWN.symbol,
              lambda: R.CONJUNCTION.resolve([a, a], a)):
        try:
            f()
            ctx.fail('not refused')
        except CCGRuleUseError:
            pass
    ctx.check(R('no such rule') == R.UNKNOWN, 'unknown')
    ctx.check(R.infer_rule([], a) == R.LEXICAL, 'lexical')
    ctx.check(R.infer_rule([a, a, a], a) == R.UNKNOWN, 'three premises')
    for r in R:
        ctx.check(R(r.value) == r, 'value')
