"""U02: conversion to DisCoPy and back."""
import itertools

import discopy.monoidal
import numpy as np
from discopy import quantum as dq
from discopy import tensor as dt
from discopy.grammar import pregroup as dg

from vsym.case import Suite
from vsym.core import And
from vsym.lq import atoms, deq, mk, sdiag, teq
from vsym.poly import arr_eq, carray

from lambeq.backend import grammar as g
from lambeq.backend import quantum as q
from lambeq.backend import tensor as t
from lambeq.backend.converters.discopy import from_discopy, to_discopy, \
    ty_d2l, ty_l2d

SUITE = Suite(
    'U02',
    bounds='grammar diagrams of up to 2 (quick) / 3 (thorough) layers of '
    'boxes, words, cups, caps, swaps and spiders with symbolic type names, '
    'box names and winding numbers (-2..2), and their daggers; tensor '
    'diagrams of 1 / 2 layers with symbolic entries, every dagger and '
    'rotation; every quantum gate, rotations with symbolic phases, controlled '
    'gates nested twice at distances -2..2, scalars, kets, bras, measuring, '
    'encoding, discarding, with every sequence of up to 2 / 3 daggers and '
    'adjoints, in circuits of up to 2 layers; types of up to 3 atoms',
    assumptions=['exact arithmetic'],
    stubs=['str() of a DisCoPy type rewritten in Python (same result)'],
    outside='larger diagrams; frames (refused by both libraries)')


def _ty_str(self):
    xs = [str(x) for x in self.inside]
    if len(xs) == 1:
        return xs[0]
    return ' @ '.join(xs) or type(self).__name__ + '()'


# equal to DisCoPy's own, but keeps the symbolic name of an atomic type
# (str.join in C would replace it by its text)
discopy.monoidal.Ty.__str__ = _ty_str


# ---- what the DisCoPy side must look like --------------------------------

def dz(x):
    return x.z or 0


def dty_ok(ty, dty):
    """DisCoPy type against the lambeq type, atom by atom."""
    a = atoms(ty)
    if isinstance(dty, dt.Dim):
        return tuple(dty.inside) == tuple(d for x in a for d in x.dim)
    b = list(dty.inside)
    if isinstance(dty, dq.Ty):
        want = [dq.qubit if x == q.qubit else dq.bit if x == q.bit else
                dq.Ty(x.name) for x in a]
        return list(dty) == want
    return len(a) == len(b) and And(*[
        And(x.name == y.name, x.z == dz(y)) for x, y in zip(a, b)]) \
        if a or b else True


GATES = {'H': dq.H, 'S': dq.S, 'T': dq.T, 'X': dq.X, 'Y': dq.Y, 'Z': dq.Z,
         'SWAP': dq.SWAP}
ROT = {q.Rx: dq.Rx, q.Ry: dq.Ry, q.Rz: dq.Rz}


def dbox_ok(b, c):
    """DisCoPy box against the lambeq box."""
    bound = And(dty_ok(b.dom, c.dom), dty_ok(b.cod, c.cod))
    if type(b) in ROT:
        return And(bound, type(c) is ROT[type(b)], c.data == b.data)
    if isinstance(b, q.Controlled):
        return And(bound, isinstance(c, dq.Controlled)) and And(
            c.distance == b.distance, dbox_ok(b.controlled, c.controlled))
    if isinstance(b, (q.Ket, q.Bra)):
        k = dq.Ket if isinstance(b, q.Ket) else dq.Bra
        return type(c) is k and And(bound, tuple(c.bitstring) == (b.bit,))
    if isinstance(b, q.Sqrt):
        return And(bound, type(c) is dq.gates.Sqrt, c.data == b.data)
    if isinstance(b, q.Scalar):
        return And(bound, type(c) is dq.gates.Scalar, c.data == b.data)
    for x, y in ((q.Discard, dq.Discard), (q.Measure, dq.Measure),
                 (q.Encode, dq.Encode)):
        if isinstance(b, x):
            return And(bound, type(c) is y)
    if isinstance(b, q.Daggered):
        return And(bound, bool(c.is_dagger), dbox_ok(b.box, c.dagger()))
    if isinstance(b, q.Box):
        ref = GATES.get(b.name)
        return ref is not None and And(bound, c.name == ref.name,
                                       bool(dz(c)) == bool(b.z % 2))
    if isinstance(b, (g.Daggered, t.Daggered)):
        return And(bound, bool(c.is_dagger), dbox_ok(b.dagger(), c.dagger()))
    m = dt if isinstance(b, t.Box) else dg
    for n in ('Cup', 'Cap', 'Swap', 'Spider'):
        if isinstance(b, getattr(t if m is dt else g, n)):
            return And(bound, isinstance(c, getattr(m, n)))
    return And(bound, isinstance(c, dg.Word) == isinstance(b, g.Word),
               not c.is_dagger, c.name == b.name, dz(c) == b.z)


def structure(ctx, d, dd, msg):
    ctx.check(And(dty_ok(d.dom, dd.dom), dty_ok(d.cod, dd.cod)),
              msg + ': DisCoPy boundary')
    ls = list(dd)
    ctx.check(len(ls) == len(d.layers), msg + ': DisCoPy layers')
    for l, (left, c, right) in zip(d.layers, ls):
        ctx.check(And(dty_ok(l.left, left), dty_ok(l.right, right)),
                  msg + ': DisCoPy wires beside a box')
        ctx.check(dbox_ok(l.box, c), msg + ': DisCoPy box')


def roundtrip(ctx, d, msg='round trip'):
    d = d.to_diagram()
    dd = to_discopy(d)
    structure(ctx, d, dd, msg)
    r = from_discopy(dd)
    ctx.check(type(r) is type(d), msg + ': kind of diagram')
    ctx.check(deq(d, r), msg + ': structure')
    ctx.check(bool(r == d), msg + ': equal')
    for x, y in zip(d.boxes, r.boxes):
        same_data(ctx, x, y, msg)
    return r


def same_data(ctx, x, y, msg):
    while isinstance(x, (g.Daggered,)) and isinstance(y, (g.Daggered,)):
        x, y = x.dagger(), y.dagger()
    if isinstance(x, q.Controlled):
        ctx.check(And(x.distance == y.distance,
                      type(x.controlled) is type(y.controlled)),
                  msg + ': controlled')
        return same_data(ctx, x.controlled, y.controlled, msg)
    if isinstance(x, (q.Ket, q.Bra)):
        ctx.check(x.bit == y.bit, msg + ': bit')
        return
    a, b = getattr(x, 'data', None), getattr(y, 'data', None)
    if isinstance(a, np.ndarray):
        arr_eq(ctx, a, b, msg + ': data')
    elif a is not None or b is not None:
        ctx.check(a == b, msg + ': data')


OPS = ('l', 'r', '+')


def apply(b, ops):
    for o in ops:
        b = b.l if o == 'l' else b.r if o == 'r' else b.dagger()
    return b


def words(n):
    return [''.join(w) for k in range(n + 1)
            for w in itertools.product('lr+', repeat=k)]


# ---- types ---------------------------------------------------------------

@SUITE.case(quick=[dict(n=n) for n in range(3)],
            thorough=[dict(n=n) for n in range(4)])
def grammar_type(ctx, n):
    ty = mk([g.Ty(ctx.name(f'x{i}'), z=ctx.small(f'x{i}.z', -2, 2))
             for i in range(n)])
    d = ty_l2d(ty, dg.Ty)
    ctx.check(dty_ok(ty, d), 'DisCoPy type')
    ctx.check(teq(ty_d2l(d, g.Ty), ty), 'type round trip')


@SUITE.case(quick=[dict(n=n) for n in range(4)])
def quantum_type(ctx, n):
    ty = mk([ctx.choose(f'x{i}', [q.qubit, q.bit])
             for i in range(n)], q.Ty)
    d = ty_l2d(ty, dq.Ty)
    ctx.check(dty_ok(ty, d), 'DisCoPy type')
    ctx.check(teq(ty_d2l(d, q.Ty), ty), 'type round trip')


@SUITE.case(quick=[dict(n=n) for n in range(4)])
def tensor_type(ctx, n):
    ds = [ctx.choose(f'x{i}', [2, 3, 5]) for i in range(n)]
    ty = t.Dim(*ds) if ds else t.Dim()
    d = ty_l2d(ty, dt.Dim)
    ctx.check(tuple(d.inside) == tuple(ds), 'DisCoPy dimension')
    r = ty_d2l(d, t.Dim)
    ctx.check(bool(r == ty) and tuple(x for a in atoms(r) for x in a.dim)
              == tuple(ds), 'dimension round trip')


# ---- grammar -------------------------------------------------------------

def zty(ctx, p, n):
    return mk([g.Ty(ctx.name(f'{p}{i}'), z=ctx.small(f'{p}{i}.z', -1, 1))
               for i in range(n)])


@SUITE.case(quick=[dict(ops=w, a=1, b=1) for w in words(2)]
            + [dict(ops=w, a=a, b=b) for w in words(1) for a in range(3)
               for b in range(3) if (a, b) not in ((1, 1), (2, 2))],
            thorough=[dict(ops=w, a=a, b=b) for w in words(3)
                      for a in range(3) for b in range(3) if a + b < 4])
def grammar_box(ctx, ops, a, b):
    """Boxes with any winding number under daggers and adjoints, between
    other wires."""
    x = g.Box(ctx.name('f'), zty(ctx, 'a', a), zty(ctx, 'b', b))
    x = apply(x, ops)
    L, R = g.Ty(ctx.name('L')), g.Ty(ctx.name('R'), z=1)
    roundtrip(ctx, g.Id(L) @ x @ g.Id(R))


@SUITE.case(quick=[dict(ops=w, n=n) for w in words(2) for n in (1, 2)
                   if n == 1 or len(w) < 2],
            thorough=[dict(ops=w, n=n) for w in words(3) for n in (1, 2, 3)
                      if n < 3 or len(w) < 2])
def word(ctx, ops, n):
    x = apply(g.Word(ctx.name('w'), zty(ctx, 'b', n)), ops)
    roundtrip(ctx, x)


def gdiags(n):
    return [dict(kinds=k) for i in range(n + 1) for k in itertools.product(
        ('box', 'word', 'cup', 'cap', 'swap', 'spider'), repeat=i)]


@SUITE.case(quick=gdiags(1) + [dict(kinds=k) for k in (
    ('word', 'word', 'cup'), ('cap', 'cup'), ('box', 'swap'),
    ('spider', 'spider'), ('cap', 'swap'), ('swap', 'cup'))],
            thorough=gdiags(2))
def grammar_diagram(ctx, kinds):
    n = ctx.choose('n', [0, 1, 2])
    d = g.Id(zty(ctx, 'd', n))
    for i, k in enumerate(kinds):
        e = sdiag(ctx, f'l{i}', d.cod, 1, kinds=(k,), maxw=3, zlo=-1, zhi=1,
                  arity=((1, 1), (0, 1), (2, 1), (1, 2)))
        if not e.layers:
            ctx.assume(False)
        d = g.Diagram(d.dom, e.cod, [*d.layers, *e.layers])
    if ctx.choose('dag', [False, True]):
        d = d.dagger()
    roundtrip(ctx, d)


@SUITE.case(quick=[dict(kind=k) for k in ('cup', 'cap')])
def orientation(ctx, kind):
    """Both orientations of cups and caps, at every winding number."""
    z = ctx.small('z', -2, 2)
    s = ctx.choose('s', [1, -1])
    a = g.Ty(ctx.name('a'), z=z)
    b = g.Ty(a.name, z=z + s)
    if kind == 'cup':
        d = g.Cup(a, b, is_reversed=s < 0)
    else:
        d = g.Cap(a, b, is_reversed=s > 0)
    r = roundtrip(ctx, d)
    ctx.check(r.boxes[0].is_reversed == d.is_reversed, 'orientation')


@SUITE.case(quick=[{}])
def spider(ctx):
    m, n = ctx.small('m', 0, 3), ctx.small('n', 0, 3)
    s = g.Spider(g.Ty(ctx.name('a'), z=ctx.small('z', -2, 2)), m, n)
    r = roundtrip(ctx, s)
    ctx.check(And(r.boxes[0].n_legs_in == m, r.boxes[0].n_legs_out == n,
                  teq(r.boxes[0].type, s.type)), 'legs')


# ---- tensors -------------------------------------------------------------

SHAPES = [((2,), (3,)), ((), (2,)), ((2, 3), (2,)), ((2,), ()), ((), ()),
          ((2,), (3, 2))]


@SUITE.case(quick=[dict(ops=w, dom=a, cod=b) for a, b in SHAPES
                   for w in words(2 if len(a) + len(b) < 3 else 1)],
            thorough=[dict(ops=w, dom=a, cod=b) for w in words(3)
                      for a, b in SHAPES])
def tensor_box(ctx, ops, dom, cod):
    x = t.Box(ctx.name('A'), t.Dim(*dom) if dom else t.Dim(),
              t.Dim(*cod) if cod else t.Dim(),
              carray(ctx, 'e', dom + cod))
    x = apply(x, ops)
    roundtrip(ctx, t.Id(t.Dim(3)) @ x @ t.Id(t.Dim(2)))


@SUITE.case(quick=[{}])
def tensor_structure(ctx):
    a, b = (t.Dim(ctx.choose(n, [2, 3])) for n in 'ab')
    k = ctx.choose('k', ['cup', 'cap', 'swap', 'spider', 'id'])
    if k == 'spider':
        d = t.Spider(a, ctx.small('m', 0, 3), ctx.small('n', 0, 3))
    else:
        d = {'cup': lambda: t.Cup(a, a), 'cap': lambda: t.Cap(a, a),
             'swap': lambda: t.Swap(a, b), 'id': lambda: t.Id(a @ b)}[k]()
    if ctx.choose('dag', [False, True]):
        d = d.dagger()
    d = t.Id(b) @ d
    if ctx.choose('then', [False, True]) and len(atoms(d.cod)) > 1:
        d = d >> t.Diagram.permutation(d.cod, list(range(len(
            atoms(d.cod))))[::-1])
    roundtrip(ctx, d)


# ---- circuits ------------------------------------------------------------

def base(ctx, kind, p='p'):
    if kind in GATES:
        return getattr(q, kind)
    if kind in ('Rx', 'Ry', 'Rz'):
        return getattr(q, kind)(ctx.real(p))
    if kind == 'sym':
        return q.Rx(q.Symbol('a') if hasattr(q, 'Symbol') else 0)
    if kind == 'Scalar':
        return q.Scalar(ctx.real(p))
    if kind == 'Sqrt':
        return q.Sqrt(ctx.choose(p, [0, 1, 2, 0.5]))
    if kind in ('Ket', 'Bra'):
        return getattr(q, kind)(ctx.choose(p, [0, 1]))
    return {'Discard': q.Discard, 'Measure': q.Measure,
            'Encode': q.Encode}[kind]()


SINGLE = [k for k in GATES if k != 'SWAP'] + ['Rx', 'Ry', 'Rz']
OTHER = ['SWAP', 'Scalar', 'Sqrt', 'Ket', 'Bra', 'Measure', 'Encode']


def pad(ctx, x):
    k = ctx.choose('pad', [(0, 0), (1, 0), (0, 2), (1, 1)])
    return q.Id(q.qubit ** k[0]) @ x @ q.Id(
        q.qubit @ q.bit if k[1] == 2 else q.qubit ** k[1])


@SUITE.case(quick=[dict(kind=k, ops=w) for k in SINGLE + OTHER
                   for w in words(2)],
            thorough=[dict(kind=k, ops=w) for k in SINGLE + OTHER
                      for w in words(4)])
def gate(ctx, kind, ops):
    roundtrip(ctx, pad(ctx, apply(base(ctx, kind), ops)))


@SUITE.case(quick=[{}])
def discard(ctx):
    roundtrip(ctx, pad(ctx, q.Discard()))


@SUITE.case(quick=[dict(kind=k, inner=i, outer=o) for k in SINGLE
                   for i in words(1) for o in words(1)],
            thorough=[dict(kind=k, inner=i, outer=o) for k in SINGLE
                      for i in words(2) for o in words(2)])
def controlled(ctx, kind, inner, outer):
    d = ctx.choose('d', [1, -1, 2, -2])
    x = q.Controlled(apply(base(ctx, kind), inner), d)
    roundtrip(ctx, pad(ctx, apply(x, outer)))


@SUITE.case(quick=[dict(kind=k, ops=o) for k in ('X', 'S', 'Rz', 'Ry')
                   for o in words(1)],
            thorough=[dict(kind=k, ops=o) for k in SINGLE
                      for o in words(2)])
def nested(ctx, kind, ops):
    d, e = ctx.choose('d', [1, -1, 2, -2]), ctx.choose('e', [1, -1, 2])
    m = ctx.choose('m', OPS + ('',))
    x = q.Controlled(base(ctx, kind), d)
    x = q.Controlled(apply(x, m), e)
    if ctx.choose('third', [False, True]):
        x = q.Controlled(x, -1)
    roundtrip(ctx, apply(x, ops))


LAYER = {'U': 'q', 'Rz': 'q', 'CX': 'qq', 'CRz': 'qq', 'Bra': 'q',
         'Measure': 'q', 'Discard': 'q', 'Encode': 'b', 'SWAP': 'qq',
         'Ket': '', 'Scalar': ''}
TY = {'q': q.qubit, 'b': q.bit}


@SUITE.case(quick=[dict(kinds=k) for k in itertools.product(LAYER, repeat=2)],
            thorough=[dict(kinds=k) for k in itertools.product(
                LAYER, repeat=3)])
def circuit(ctx, kinds):
    """Sequences of layers, each at any fitting position."""
    dom = ctx.choose('dom', ['q', 'qq', 'bq', 'qqb', 'qqq', 'b', 'bb', ''])
    d = q.Id(mk([TY[c] for c in dom], q.Ty))
    for i, k in enumerate(kinds):
        x = {'U': lambda: q.S.dagger(), 'CX': lambda: q.CX,
             'CRz': lambda: q.Controlled(q.Rz(ctx.real(f'p{i}')), -1)
             }.get(k, lambda: base(ctx, k, f'p{i}'))()
        w = ''.join('q' if a == q.qubit else 'b' for a in atoms(d.cod))
        sig = LAYER[k]
        offs = [o for o in range(len(w) - len(sig) + 1)
                if w[o:o + len(sig)] == sig]
        if not offs:
            ctx.assume(False)
        o = ctx.choose(f'o{i}', offs)
        d = d >> q.Id(d.cod[:o]) @ x @ q.Id(d.cod[o + len(sig):])
    roundtrip(ctx, d)


@SUITE.case(quick=[{}])
def refused(ctx):
    """Boxes DisCoPy's converter has no counterpart for are refused."""
    k = ctx.choose('k', ['custom', 'classical swap', 'mixed state', 'type'])
    x = {'custom': lambda: q.Box('U', q.qubit, q.qubit, np.eye(2)),
         'classical swap': lambda: q.Swap(q.bit, q.qubit),
         'mixed state': lambda: q.Discard().dagger(),
         'type': lambda: q.MixedState()}[k]()
    try:
        r = from_discopy(to_discopy(x.to_diagram()))
    except NotImplementedError:
        ctx.check(True, 'refused')
        return
    ctx.check(bool(r == x.to_diagram()), 'neither refused nor converted')
