"""G06: JSON round trip of grammar entities."""
import copy
import json

from vsym.case import Suite
from vsym.core import And, SymInt, SymName
from vsym.lq import (aeq, aneq, atoms, beq, deq, mk, satom, sdiag, sty, teq)
from props.util import real_name

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Daggered, Diagram, Frame, \
    Id, Layer, Spider, Swap, Ty, Word, grammar

SUITE = Suite(
    'G06',
    bounds='types of up to 3 factors, boxes of every kind with up to 2 wires '
    'a side, frames with up to 2 components nested up to depth 2 (every kind '
    'of component), diagrams of up to 2 (quick) / 3 (thorough) layers; names '
    'symbolic (dictionary form) or solver-split over equality patterns '
    '(string form), winding numbers symbolic in [-2,2]',
    assumptions=['names are opaque strings'],
    outside='non-string names; other categories (their entities have no JSON '
    'form)')

KINDS = ('box', 'word', 'cup', 'cap', 'swap', 'spider', 'dagger', 'dagword',
         'frame', 'dagframe')


def conc(ctx, x, pool):
    """The same JSON data with names concretised per equality pattern."""
    if isinstance(x, dict):
        return {k: conc(ctx, v, pool) for k, v in x.items()}
    if isinstance(x, list):
        return [conc(ctx, v, pool) for v in x]
    if isinstance(x, SymName):
        return real_name(ctx, x, pool)
    if type(x) is SymInt:
        return x.__index__()
    return x


def mkbox(ctx, p, kind, depth=0):
    if kind in ('box', 'dagger'):
        n, m = ctx.choose(p + '.ar', [(1, 2), (0, 1), (2, 0)])
        b = Box(ctx.name(p + '.f'), sty(ctx, p + '.a', n), sty(ctx, p + '.c',
                                                               m),
                z=ctx.int(p + '.z', -2, 2))
        return b.dagger() if kind == 'dagger' else b
    if kind in ('word', 'dagword'):
        w = Word(ctx.name(p + '.w'), sty(ctx, p + '.c',
                                         ctx.small(p + '.n', 0, 3)),
                 z=ctx.int(p + '.z', -2, 2))
        return w.dagger() if kind == 'dagword' else w
    if kind == 'swap':
        return Swap(satom(ctx, p + '.a'), satom(ctx, p + '.b'))
    if kind == 'spider':
        return Spider(satom(ctx, p + '.a'), ctx.small(p + '.i', 0, 2),
                      ctx.small(p + '.o', 0, 2))
    if kind in ('cup', 'cap'):
        x = satom(ctx, p + '.a')
        rev = ctx.choose(p + '.rev', [False, True])
        if kind == 'cup':
            return Cup(x, x.l if rev else x.r, rev)
        return Cap(x, x.r if rev else x.l, rev)
    comps = [comp(ctx, f'{p}.{i}', k, depth - 1)
             for i, k in enumerate(ctx.case.params.get('comps', ('box',)))]
    f = Frame(ctx.name(p + '.F'), sty(ctx, p + '.a', ctx.small(p + '.n', 0,
                                                               1)),
              sty(ctx, p + '.c', ctx.small(p + '.m', 0, 2)),
              z=ctx.int(p + '.z', -2, 2), components=comps)
    return f.dagger() if kind == 'dagframe' else f


def comp(ctx, p, kind, depth):
    if kind == 'diagram':
        return sdiag(ctx, p, satom(ctx, p + '.d', 0, 1), 1, maxw=2,
                     kinds=('box', 'cap', 'word'), zlo=0, zhi=1)
    if kind == 'id':
        return Id(sty(ctx, p + '.d', 1))
    if kind in ('frame', 'dagframe'):
        f = Frame(ctx.name(p + '.G'), satom(ctx, p + '.ga'),
                  satom(ctx, p + '.gb'), components=[
                      mkbox(ctx, p + '.in', 'word'),
                      mkbox(ctx, p + '.in2', 'dagger')])
        return f.dagger() if kind == 'dagframe' else f
    return mkbox(ctx, p, kind, depth)


def same(a, b):
    if isinstance(a, Ty):
        return type(b) is type(a) and teq(a, b)
    if isinstance(a, Layer):
        return type(b) is Layer and And(teq(a.left, b.left), beq(a.box,
                                                                 b.box),
                                        teq(a.right, b.right))
    if isinstance(a, Box):
        return isinstance(b, Box) and beq(a, b)
    return isinstance(b, Diagram) and deq(a, b)


def roundtrip(ctx, x, form):
    data = x.to_json()
    if form == 'str':
        if ctx.symbolic:
            data = conc(ctx, data, [])
        x = grammar.from_json(copy.deepcopy(data))
        text = json.dumps(data)
        before = text
    else:
        text = data
        before = copy.deepcopy(data)
    ctx.check(data.get('category') == 'grammar', 'metadata')
    y = grammar.from_json(text)
    ctx.check(type(y) is type(x), 'kind')
    ctx.check(same(x, y), 'generic reader')
    ctx.check(jeq(text, before), 'input not modified')
    z = type(x).from_json(text)
    ctx.check(And(type(z) is type(x), same(x, z)), 'own reader')
    ctx.check(bool(y == x) and bool(z == x), 'equal')
    ctx.check(jeq(y.to_json(), data), 'same JSON again')


def jeq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and And(
            *[jeq(a[k], b[k]) for k in a])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and And(
            *[jeq(x, y) for x, y in zip(a, b)])
    return a == b


FORMS = ('dict', 'str')


@SUITE.case(quick=[dict(n=n, form=f) for n in range(4) for f in FORMS],
            thorough=[dict(n=n, form=f) for n in range(5) for f in FORMS])
def types(ctx, n, form):
    roundtrip(ctx, sty(ctx, 't', n, -1 if form == 'str' else -2, 1), form)


def quick_boxes():
    out = [dict(kind=k, form=f) for k in KINDS[:8] for f in FORMS]
    cs = ('box', 'word', 'dagger', 'dagword', 'diagram', 'id', 'frame',
          'dagframe', 'cup', 'cap', 'swap', 'spider')
    for k in ('frame', 'dagframe'):
        out += [dict(kind=k, form='dict', comps=(c,)) for c in cs]
        out += [dict(kind=k, form='dict', comps=())]
        out += [dict(kind=k, form='dict', comps=c) for c in
                (('box', 'dagger'), ('word', 'diagram'))]
    return out


@SUITE.case(quick=quick_boxes, max_witness=10)
def boxes(ctx, kind, form, comps=()):
    x = mkbox(ctx, 'x', kind)
    # narrow the string form: every value is concretised
    if form == 'str' and ctx.symbolic:
        for a in [*atoms(x.dom), *atoms(x.cod)]:
            ctx.assume(And(a.z >= -1, a.z <= 1))
        ctx.assume(And(x.z >= -1, x.z <= 1))
    roundtrip(ctx, x, form)


@SUITE.case(quick=[dict(n=n, k=k) for n in range(3) for k in range(3)
                   if n < 2 or k < 2],
            thorough=[dict(n=n, k=k) for n in range(3) for k in range(3)],
            max_witness=10)
def diagrams(ctx, n, k):
    d = sdiag(ctx, 'd', sty(ctx, 'd', n, -1, 1), k, maxw=3 if k < 2 else 2,
              daggers=True)
    roundtrip(ctx, d, 'dict')
    for l in d.layers:
        roundtrip(ctx, l, 'dict')


@SUITE.case(quick=[dict(kind=k) for k in ('frame', 'dagframe')],
            max_witness=10)
def frame_diagram(ctx, kind):
    """Frames inside layers of diagrams, in string form."""
    w = Word('w', Ty(ctx.name('t')), z=1)
    inner = Frame('in', Ty('a'), Ty('b'), components=[
        w.dagger(), Box(ctx.name('g'), Ty('a', z=1), Ty()).dagger(),
        Cup(Ty('a'), Ty('a').r), Id(Ty('a'))])
    f = Frame(ctx.name('f'), Ty('a'), Ty('a'), components=[
        inner.dagger() if kind == 'dagframe' else inner,
        inner.to_diagram() >> Box('h', Ty('b'), Ty('a'))])
    d = Id(Ty('b')) @ f.dagger() >> Id(Ty('b')) @ f
    roundtrip(ctx, d, 'str')
