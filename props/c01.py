"""C01: CCG categories: strings, equality, pregroup images, replacement."""
import itertools

from vsym.case import Suite
from vsym.core import And, Or, Not
from vsym.lq import atoms, teq
from vsym.strs import SymStr, instrumented, sstr

from lambeq.text2diagram import ccg_type as real
from lambeq.text2diagram.ccg_type import CCGType

SUITE = Suite(
    'C01',
    bounds='strings of up to 6 (quick) / 8 (thorough) symbolic characters '
    'over brackets, slashes and two letters, with and without the suffix '
    '"[conj]"; all categories of up to 3 (quick) / 4 (thorough) slashes '
    'with symbolic directions and atomic names (of 1 to 2 symbolic '
    'characters when printed and parsed; of up to 2 (3) slashes with '
    'conjunction tags inside the names)',
    assumptions=['atomic names are not empty, contain no brackets or '
                 'slashes and do not end in "[conj]" (the grammar has no '
                 'notation for such names, nor for the empty category)'],
    outside='longer strings; other characters than those of the alphabet '
    'all count as letters')

ALPHA = '()/\\ab'
MOD = 'lambeq.text2diagram.ccg_type'


def api(ctx):
    """The code under test: instrumented for symbolic strings."""
    return instrumented(MOD) if ctx.symbolic else real


# ---- reference grammar -----------------------------------------------------

class Bad(Exception):
    pass


def is_(c, chars):
    return bool(Or(*[c == x for x in chars]))


def ref_cat(s, mapper=None):
    """Category as nested tuples (result, slash, argument) or a name."""
    def bracket(i):
        if i >= len(s):
            raise Bad
        if is_(s[i], '('):
            c, i = compound(i + 1)
            if i >= len(s) or not is_(s[i], ')'):
                raise Bad
            return c, i + 1
        j = i
        while j < len(s) and not is_(s[j], '()/\\'):
            j += 1
        if j == i or (j < len(s) and is_(s[j], '(')):
            raise Bad
        return s[i:j], j

    def compound(i):
        c, i = bracket(i)
        if i < len(s) and is_(s[i], '/\\'):
            op = '/' if is_(s[i], '/') else '\\'
            d, i = bracket(i + 1)
            return (c, op, d), i
        return c, i
    c, i = compound(0)
    if i != len(s):
        raise Bad
    return c


def same(cat, ref):
    """Symbolic: the category is the reference one."""
    if isinstance(ref, tuple):
        r, op, a = ref
        if not cat.is_complex or cat.is_atomic or cat.is_empty:
            return False
        if cat.is_over == cat.is_under or cat.is_over != (op == '/'):
            return False
        return And(cat.direction == op, same(cat.result, r),
                   same(cat.argument, a))
    if not cat.is_atomic or cat.is_complex or cat.is_empty:
        return False
    if cat.is_over or cat.is_under:
        return False
    return cat.name == ref


@SUITE.case(quick=[dict(n=n, conj=c) for n in range(7) for c in (0, 1)
                   if n + c < 7],
            thorough=[dict(n=n, conj=c) for n in range(9) for c in (0, 1)],
            max_witness=4)
def parse(ctx, n, conj):
    """Every string is parsed as the documented grammar says or refused."""
    m = api(ctx)
    s = sstr(ctx, 's', n, ALPHA)
    text = s + '[conj]' if conj else s
    try:
        want = ref_cat(s)
        if conj:
            want = (want, '\\', want)
    except Bad:
        want = None
    try:
        got = m.CCGType.parse(text)
    except m.CCGParseError:
        got = None
    if want is None:
        ctx.check(got is None, 'ill-formed string is refused')
    else:
        ctx.check(got is not None, 'well-formed string is parsed')
        ctx.check(same(got, want), 'parsed category')


# ---- categories ------------------------------------------------------------

def shapes(n):
    """All binary trees with n inner nodes."""
    if n == 0:
        return ['*']
    return [(a, b) for k in range(n) for a in shapes(k)
            for b in shapes(n - 1 - k)]


def build(ctx, C, shape, leaf, p='c'):
    """(category, reference)"""
    if shape == '*':
        x = leaf(p)
        return C(x), x
    r, rr = build(ctx, C, shape[0], leaf, p + 'r')
    a, ra = build(ctx, C, shape[1], leaf, p + 'a')
    op = '/' if ctx.bool(p + 'over') else '\\'
    return C(result=r, direction=op, argument=a), (rr, op, ra)


def all_shapes(n):
    return [s for k in range(n + 1) for s in shapes(k)]


@SUITE.case(quick=[dict(shape=s) for s in all_shapes(3)],
            thorough=[dict(shape=s) for s in all_shapes(4)], max_witness=3)
def roundtrip(ctx, shape):
    """Printing and parsing are inverse."""
    m = api(ctx)
    k = [0]

    def leaf(p):
        k[0] += 1
        return sstr(ctx, p, 1 + k[0] % 2, 'ab[]S')
    c, ref = build(ctx, m.CCGType, shape, leaf)
    ctx.check(same(c, ref), 'construction')
    s = c.to_string()
    ctx.check(s == m.CCGType.__str__(c), 'str')
    d = m.CCGType.parse(s)
    ctx.check(same(d, ref), 'parsing the printed category')
    ctx.check(d == c, 'equal')
    t = m.CCGType.parse(s + "[conj]") if shape == '*' else \
        m.CCGType.parse('(' + s + ')[conj]')
    ctx.check(same(t, (ref, '\\', ref)), 'conjunction suffix')
    up = m.CCGType.parse(s, map_atomic=lambda a: a + 'x')

    def mapped(r):
        return ((mapped(r[0]), r[1], mapped(r[2])) if isinstance(r, tuple)
                else r + 'x')
    ctx.check(same(up, mapped(ref)), 'map_atomic')


TAGS = ['a', 'n[conj]', '[conj]', '[conj]b', 'n[conj]s']


@SUITE.case(quick=[dict(shape=s) for s in all_shapes(2)],
            thorough=[dict(shape=s) for s in all_shapes(3)], max_witness=3)
def tagged(ctx, shape):
    """The conjunction tag may be a part of atomic names."""
    C = real.CCGType
    c, ref = build(ctx, C, shape, lambda p: ctx.choose(p, TAGS))
    last = ref
    while isinstance(last, tuple):
        last = last[2]
    s = str(c)
    ctx.assume(not s.endswith('[conj]'))
    ctx.check(same(C.parse(s), ref), 'parsing the printed category')
    t = C.parse(s + '[conj]' if shape == '*' else f'({s})[conj]')
    ctx.check(same(t, (ref, '\\', ref)), 'conjunction suffix')


def ref_eq(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        return And(a[1] == b[1], ref_eq(a[0], b[0]), ref_eq(a[2], b[2]))
    return a == b


def ref_ty(r, z=0):
    """Atoms (name, winding) of the pregroup image."""
    if not isinstance(r, tuple):
        return [(r, z)]
    res, op, arg = r
    if z % 2 == 0:
        parts = ([(res, 0), (arg, -1)] if op == '/' else
                 [(arg, 1), (res, 0)])
    else:
        parts = ([(arg, -1), (res, 0)] if op == '/' else
                 [(res, 0), (arg, 1)])
    return [x for q, dz in parts for x in ref_ty(q, z + dz)]


def ty_is(ty, pairs):
    ats = atoms(ty)
    if len(ats) != len(pairs):
        return False
    return And(*[And(a.name == n, a.z == z)
                 for a, (n, z) in zip(ats, pairs)])


@SUITE.case(quick=[dict(a=a, b=b) for a in all_shapes(2)
                   for b in all_shapes(2)],
            thorough=[dict(a=a, b=b) for a in all_shapes(3)
                      for b in all_shapes(3)])
def equality(ctx, a, b):
    """Two categories are equal exactly when written the same."""
    x, rx = build(ctx, CCGType, a, ctx.name, 'x')
    y, ry = build(ctx, CCGType, b, ctx.name, 'y')
    w = bool(ref_eq(rx, ry))
    ctx.check((x == y) == w, 'equality')
    ctx.check((x != y) == (not w), 'inequality')
    ctx.check(not (x == CCGType()) and CCGType() == CCGType(), 'empty')
    if w:
        ctx.check(teq(x.to_grammar(), y.to_grammar()), 'same images')
    ctx.check(same(x << y, (rx, '/', ry)), 'over')
    ctx.check(same(x >> y, (ry, '\\', rx)), 'under')
    ctx.check(And(same(x.over(y), (rx, '/', ry)),
                  same(x.under(y), (rx, '\\', ry)),
                  same(x.slash('/', y), (rx, '/', ry)),
                  same(x.slash('\\', y), (rx, '\\', ry))), 'slash')


@SUITE.case(quick=[dict(shape=s) for s in all_shapes(3)],
            thorough=[dict(shape=s) for s in all_shapes(4)])
def image(ctx, shape):
    """The pregroup image, the sides and the parts of a category."""
    c, ref = build(ctx, CCGType, shape, ctx.name)
    ty = c.to_grammar()
    ctx.check(ty_is(ty, ref_ty(ref)), 'image')
    if isinstance(ref, tuple):
        res, op, arg = ref
        ctx.check(And(same(c.result, res), same(c.argument, arg)), 'parts')
        l, r = (res, arg) if op == '/' else (arg, res)
        ctx.check(And(same(c.left, l), same(c.right, r)), 'sides')
    else:
        for f in ('result', 'argument', 'left', 'right', 'direction'):
            try:
                getattr(c, f)
                ctx.fail(f'{f} of an atomic category')
            except AttributeError:
                pass
    # split at every category of the spine
    base, want_l, want_r = ref, [], []
    cat = c
    while True:
        if not bool(spine_before(ref, base)):
            l, mid, r = c.split(cat)
            ctx.check(ty_is(mid, ref_ty(base)), 'split: middle')
            ctx.check(And(ty_is(l, want_l), ty_is(r, want_r)),
                      'split: sides')
        if not isinstance(base, tuple):
            break
        res, op, arg = base
        if op == '/':
            want_r = ref_ty(arg, -1) + want_r
        else:
            want_l = want_l + ref_ty(arg, 1)
        base, cat = res, cat.result


def spine_before(ref, base):
    """Symbolic: an outer category of the spine equals `base`."""
    out = []
    while ref is not base:
        out.append(ref_eq(ref, base))
        ref = ref[0]
    return Or(*out) if out else False


def ref_replace(r, old, new):
    if bool(ref_eq(r, old)):
        return new
    if isinstance(r, tuple):
        return (ref_replace(r[0], old, new), r[1],
                ref_replace(r[2], old, new))
    return r


@SUITE.case(quick=[dict(shape=s, old=o, empty=e) for s in all_shapes(2)
                   for o in all_shapes(1) for e in (False, True)],
            thorough=[dict(shape=s, old=o, empty=e) for s in all_shapes(3)
                      for o in all_shapes(1) for e in (False, True)])
def replacement(ctx, shape, old, empty):
    """Replacing a sub-category everywhere."""
    c, ref = build(ctx, CCGType, shape, ctx.name)
    o, ro = build(ctx, CCGType, old, ctx.name, 'o')
    if empty:
        c = CCGType(result=CCGType(), direction='/', argument=c)
        got = c.replace(o, CCGType('new'))
        ctx.check(got.is_over and got.result.is_empty, 'empty result')
        if got.is_over:
            ctx.check(same(got.argument, ref_replace(ref, ro, 'new')),
                      'replaced')
        return
    ctx.check(same(c.replace(o, CCGType('new')),
                   ref_replace(ref, ro, 'new')), 'replaced')


OPS = ('|', '/', '\\')


@SUITE.case(quick=[dict(shape=s, d=d) for s in all_shapes(3)
                   for d in ('|', '/', '\\', '/|', r'\|', '|/')],
            thorough=[dict(shape=s, d=d) for s in all_shapes(4)
                      for d in [x for x in OPS]
                      + [x + y for x in OPS for y in OPS]])
def replace_result(ctx, shape, d):
    """Replacing a result: what comes back is the category with one result
    of its spine replaced, reached by slashes of the requested directions,
    and `original` is the one replaced when it can be reached."""
    c, ref = build(ctx, CCGType, shape, ctx.name)
    o = ctx.name('orig')
    got, old = c.replace_result(CCGType(o), CCGType('new'), d)
    first, rest = d[0], d[-1]

    def ok(op, want):
        return want == '|' or op == want

    # admissible positions: (depth, replaced, new category)
    cands = []
    cur, outer = ref, []
    while isinstance(cur, tuple):
        res, op, arg = cur
        if ok(op, first) and all(ok(p, rest) for p, _ in outer):
            new = ('new', op, arg)
            for p, a in reversed(outer):
                new = (new, p, a)
            cands.append((res, new))
        outer.append((op, arg))
        cur = res
    if old is None:
        ctx.check(same(got, ref), 'unchanged')
        # nothing to replace, or hidden behind a match of the wrong slash
        ctx.check(not cands, 'replacement is found')
        return
    ctx.check(Or(*[And(same(old, r), same(got, n)) for r, n in cands])
              if cands else False, 'admissible replacement')
    hit = [r for r, _ in cands if not isinstance(r, tuple)]
    for r in hit:
        if bool(r == o):
            ctx.check(same(old, r), 'original is preferred')
            return
    # otherwise the innermost admissible result
    ctx.check(And(same(old, cands[-1][0]), same(got, cands[-1][1])),
              'innermost result')


@SUITE.case()
def refused(ctx):
    """Malformed constructor arguments and directions are refused."""
    a = CCGType(ctx.name('a'))
    for kw in (dict(result=a), dict(argument=a), dict(result=a,
               argument=a), dict(direction='/'),
               dict(result=a, direction='/'),
               dict(result=a, direction='|', argument=a),
               dict(name='x', result=a, direction='/', argument=a)):
        try:
            CCGType(**kw)
            ctx.fail('malformed category')
        except AssertionError:
            pass
    for d in ('', '///', 'x', '/x'):
        try:
            a.under(a).replace_result(a, a, d)
            ctx.fail('malformed direction')
        except ValueError:
            pass
    ctx.check(CCGType().is_empty and CCGType().to_grammar().is_empty,
              'empty category')
