"""Q01: gates are the unitaries they claim to be."""
import itertools

import numpy as np

from props import numref as R
from props import qref as Q
from vsym.case import Suite
from vsym.poly import arr_eq, carray, centry, phase

from lambeq.backend import quantum as q
from lambeq.backend.quantum import Bit, Bra, CCX, CCZ, Controlled, CRx, CRy, \
    CRz, CX, CY, CZ, Daggered, Diagram, H, Id, Ket, Rx, Ry, Rz, S, Scalar, \
    Sqrt, SWAP, Swap, T, X, Y, Z, bit, generate_cap, generate_cup, \
    generate_spider, qubit

SUITE = Suite(
    'Q01',
    bounds='every phase of rotations symbolic (cos, sin as algebraic '
    'variables with cos^2+sin^2=1), custom gates with every matrix entry a '
    'symbolic complex number; daggers and rotations nested up to 3; '
    'controls at distances -3..3, nested up to 2 (quick) / 3 (thorough) '
    'deep; apply_gate on up to 4 qubits; cups, caps on up to 2 qubits, '
    'spiders with up to 4 (quick) / 6 (thorough) legs',
    assumptions=['exact arithmetic (floating point rounding is not '
                 'modelled); numpy backend'],
    outside='other numerical backends; square roots of negative or symbolic '
    'scalars')

FIX = {'X': X, 'Y': Y, 'Z': Z, 'H': H, 'S': S, 'T': T}
ROT = {'Rx': Rx, 'Ry': Ry, 'Rz': Rz}
OPS = ['', 'D', 'l', 'r', 'rr', 'Dr', 'rD', 'DD', 'lDr', 'rDl', 'DlD', 'rDr',
       'll', 'DDD']


def gate(ctx, g, p='p'):
    """-> (box, reference, number of qubits)"""
    if g in FIX:
        return FIX[g], Q.fixed(ctx, g), 1
    if g in ROT:
        ph = phase(ctx, p)
        return ROT[g](ph), Q.rotation(ctx, g, ph), 1
    if g == 'Sdg':
        return S.dagger(), R.dag(Q.fixed(ctx, 'S'), 1), 1
    if g == 'Tr':
        return T.r, R.rot(Q.fixed(ctx, 'T'), 1), 1
    if g == 'U':
        a = carray(ctx, p + 'u', (2, 2))
        return q.Box('U', qubit, qubit, a), a, 1
    if g == 'Udg':
        a = carray(ctx, p + 'u', (2, 2))
        return q.Box('U', qubit, qubit, a).dagger(), R.dag(a, 1), 1
    if g == 'Ur':
        a = carray(ctx, p + 'u', (2, 2))
        return q.Box('U', qubit, qubit, a).r, R.rot(a, 1), 1
    if g == 'V':
        a = carray(ctx, p + 'v', (2, 2, 2, 2))
        return q.Box('V', qubit ** 2, qubit ** 2, a), a, 2
    if g == 'SWAP':
        return SWAP, R.perm([2, 2], [1, 0]), 2
    raise KeyError(g)


def ev(ctx, d, a, msg):
    d = d if isinstance(d, Diagram) else d.to_diagram()
    want = (2,) * (len(d.dom) + len(d.cod))
    r = d.eval()
    ctx.check(np.shape(r) == want, f'{msg}: shape')
    arr_eq(ctx, r, a, msg)


def ops_on(x, a, ni, no, ops):
    for o in ops:
        if o == 'D':
            x, a, ni, no = x.dagger(), R.dag(a, ni), no, ni
        else:
            x, a = (x.l if o == 'l' else x.r), R.rot(a, ni)
    return x, a, ni, no


ALLG = [*FIX, *ROT, 'U', 'V', 'SWAP']


@SUITE.case(quick=[dict(g=g, ops=o) for g in ALLG for o in OPS])
def single(ctx, g, ops):
    x, a, n = gate(ctx, g)
    ctx.check(x.dom == qubit ** n and x.cod == qubit ** n, 'type')
    x, a, ni, no = ops_on(x, a, n, n, ops)
    arr_eq(ctx, x.array, a, 'array') if g != 'SWAP' else None
    ev(ctx, x, a, 'eval')
    ev(ctx, Id(x.dom) >> x, a, 'diagram')


@SUITE.case(quick=[dict(g=g) for g in ROT])
def additivity(ctx, g):
    a, b = phase(ctx, 'a'), phase(ctx, 'b')
    f = ROT[g]
    r = (f(a) >> f(b)).eval()
    arr_eq(ctx, r, f(a + b).eval(), 'sum')
    arr_eq(ctx, (f(a) >> f(a).dagger()).eval(), R.eye([2]), 'inverse')
    arr_eq(ctx, f(0).eval(), R.eye([2]), 'zero')
    arr_eq(ctx, f(1).eval(), -R.eye([2]), 'full turn')
    arr_eq(ctx, f(a + 2).eval(), f(a).eval(), 'period')
    ctx.check((f(a).phase == a) and (CRx(a).phase == a), 'phase')


@SUITE.case(quick=[dict(k=k, ops=o) for k in ('ket0', 'ket1', 'bra0',
                                              'bra1', 'bit0', 'bit1')
                   for o in OPS if not (k[:3] == 'bit' and 'D' not in o
                                        and o == 'zz')])
def states(ctx, k, ops):
    b = int(k[-1])
    cls = {'ket': Ket, 'bra': Bra, 'bit': Bit}[k[:3]]
    a = np.array([1 - b, b])
    x, ni, no = cls(b), int(cls is Bra), int(cls is not Bra)
    ty = bit if cls is Bit else qubit
    ctx.check(x.dom == ty ** ni and x.cod == ty ** no, 'type')
    x, a, ni, no = ops_on(x, a, ni, no, ops)
    ctx.check(x.dom == ty ** ni and x.cod == ty ** no, 'type after')
    ev(ctx, x, a, 'eval')


@SUITE.case(quick=[dict(k=k, n=n) for k in ('Ket', 'Bra', 'Bit')
                   for n in range(1, 4)])
def strings(ctx, k, n):
    bs = [ctx.small(f'b{i}', 0, 1) for i in range(n)]
    x = getattr(q, k)(*bs)
    a = np.zeros((2,) * n, dtype=int)
    a[tuple(bs)] = 1
    ev(ctx, x, a, 'eval')


@SUITE.case(quick=[dict(f=f, ops=o) for f in ('sym', 'real', 'rt2', 'rt4',
                                              'rt0', 'rthalf')
                   for o in ('', 'D', 'r', 'l', 'rr', 'Dr', 'rD', 'DD')])
def scalars(ctx, f, ops):
    if f == 'sym':
        v = centry(ctx, 'v')
        x, a = Scalar(v), v
    elif f == 'real':
        v = centry(ctx, 'v', real=True)
        x, a = Scalar(v), v
    else:
        v = {'rt2': 2, 'rt4': 4.0, 'rt0': 0, 'rthalf': 0.5}[f]
        x, a = Sqrt(v), v ** .5
    ctx.check(x.dom == q.Ty() and x.cod == q.Ty(), 'type')
    a = np.asarray(a)
    x, a, _, _ = ops_on(x, a, 0, 0, ops)
    arr_eq(ctx, x.array, a, 'array')
    arr_eq(ctx, x.to_diagram().eval(), a, 'eval')
    arr_eq(ctx, (x @ x).eval(), a * a, 'product')


# ---- controls

INNER = ['X', 'Y', 'Z', 'H', 'S', 'T', 'Rx', 'Ry', 'Rz', 'U', 'Udg', 'Ur',
         'Sdg', 'Tr']
DIST = [1, 2, 3, -1, -2, -3]


@SUITE.case(quick=[dict(g=g, d=d) for g in INNER for d in (1, -1, 2, -2)]
            + [dict(g=g, d=d) for g in ('U', 'Rz', 'Ry', 'X', 'S')
               for d in (3, -3)],
            thorough=[dict(g=g, d=d) for g in INNER for d in DIST])
def control(ctx, g, d):
    x, a, n = gate(ctx, g)
    c, ra = Controlled(x, d), Q.controlled(a, n, d)
    w = n + abs(d)
    ctx.check(c.dom == qubit ** w and c.cod == qubit ** w, 'type')
    ev(ctx, c, ra, 'eval')
    ev(ctx, c.decompose(), ra, 'decompose')
    # entry-wise definition with explicit qubits
    ct, tg = (0, w - n) if d > 0 else (w - 1, 0)
    arr_eq(ctx, ra, Q.multi(a, n, [ct], tg, w), 'reference')


@SUITE.case(quick=[dict(g=g, d=d, ops=o) for g in ('U', 'Rx', 'Ry', 'Rz',
                                                   'S', 'Y')
                   for d in (1, -2) for o in OPS if o]
            + [dict(g='V', d=d, ops=o) for d in (1, -1, 2)
               for o in ('', 'D', 'r', 'Dr')],
            thorough=[dict(g=g, d=d, ops=o) for g in INNER + ['V']
                      for d in (1, -1, 2, -2) for o in OPS])
def control_ops(ctx, g, d, ops):
    x, a, n = gate(ctx, g)
    w = n + abs(d)
    x, a, _, _ = ops_on(Controlled(x, d), Q.controlled(a, n, d), w, w, ops)
    ev(ctx, x, a, 'eval')


@SUITE.case(quick=[dict(g='U', ds=(d, e), ops=o)
                   for d in (1, -1, 2, -2) for e in (1, -1, 2, -2)
                   for o in ('',) if abs(d) + abs(e) < 4]
            + [dict(g='U', ds=(d, e), ops=o)
               for d in (1, -1) for e in (1, -1, 2) for o in ('D', 'r', 'Dr')
               if abs(d) + abs(e) < 4],
            thorough=[dict(g='U', ds=(d, e), ops=o)
                      for d in (1, -1, 2, -2) for e in (1, -1, 2, -2)
                      for o in ('', 'D', 'r', 'Dr')]
            + [dict(g='X', ds=ds, ops='')
               for ds in itertools.product((1, -1, 2), repeat=3)
               if sum(map(abs, ds)) < 5])
def nested(ctx, g, ds, ops):
    x, a, n = gate(ctx, g)
    for d in ds:
        x, a = Controlled(x, d), Q.controlled(a, n, d)
        n += abs(d)
    ctx.check(len(x.dom) == n, 'width')
    x, a, _, _ = ops_on(x, a, n, n, ops)
    ev(ctx, x, a, 'eval')


@SUITE.case(quick=[dict(g=g) for g in ('Rx', 'Ry', 'Rz')])
def named_rotations(ctx, g):
    p = phase(ctx, 'p')
    f = {'Rx': CRx, 'Ry': CRy, 'Rz': CRz}[g]
    for d in (1, -1, 2):
        ev(ctx, f(p, d), Q.controlled(Q.rotation(ctx, g, p), 1, d), f'd={d}')
    ev(ctx, f(p), Q.controlled(Q.rotation(ctx, g, p), 1, 1), 'default')


@SUITE.case()
def named_controls(ctx):
    for c, g in ((CX, 'X'), (CY, 'Y'), (CZ, 'Z')):
        ev(ctx, c, Q.controlled(Q.fixed(ctx, g), 1, 1), g)
    for c, g in ((CCX, 'X'), (CCZ, 'Z')):
        ev(ctx, c, Q.multi(Q.fixed(ctx, g), 1, [0, 1], 2, 3), 'CC' + g)
    ev(ctx, SWAP, R.perm([2, 2], [1, 0]), 'SWAP')


# ---- application of gates by index

@SUITE.case(quick=[dict(g=g, n=n) for g in ('H', 'S', 'Ry', 'X', 'T', 'Z')
                   for n in (1, 3)])
def apply_single(ctx, g, n):
    i = ctx.small('i', 0, n - 1)
    x, a, _ = gate(ctx, g)
    d = Id(qubit ** n)
    d = getattr(d, g)(x.phase, i) if g in ROT else getattr(d, g)(i)
    ctx.check(d.dom == qubit ** n and d.cod == qubit ** n, 'type')
    ev(ctx, d, Q.on(a, [i], n), 'eval')


@SUITE.case(quick=[dict(g=g, n=n) for g in ('CX', 'CY', 'CZ', 'CRx', 'CRy',
                                            'CRz') for n in (2, 3)]
            + [dict(g='CY', n=4), dict(g='CRy', n=4)])
def apply_controlled(ctx, g, n):
    c, t = ctx.choose('ct', list(itertools.permutations(range(n), 2)))
    d = Id(qubit ** n)
    if g in ('CRx', 'CRy', 'CRz'):
        p = phase(ctx, 'p')
        a = Q.rotation(ctx, g[1:], p)
        d = getattr(d, g)(p, c, t)
    else:
        a = Q.fixed(ctx, g[1:])
        d = getattr(d, g)(c, t)
    ctx.check(d.dom == qubit ** n and d.cod == qubit ** n, 'type')
    ev(ctx, d, Q.multi(a, 1, [c], t, n), 'eval')


@SUITE.case(quick=[dict(g=g, n=n) for g in ('CCX', 'CCZ')
                   for n in (3, 4)])
def apply_ccx(ctx, g, n):
    c1, c2, t = ctx.choose('cct', list(itertools.permutations(range(n), 3)))
    d = getattr(Id(qubit ** n), g)(c1, c2, t)
    ctx.check(d.dom == qubit ** n and d.cod == qubit ** n, 'type')
    ev(ctx, d, Q.multi(Q.fixed(ctx, g[2]), 1, [c1, c2], t, n), 'eval')


@SUITE.case(quick=[dict(n=n) for n in (2, 3)])
def apply_swap(ctx, n):
    i, j = ctx.choose('ij', list(itertools.permutations(range(n), 2)))
    d = Id(qubit ** n).SWAP(i, j)
    ev(ctx, d, Q.on(R.perm([2, 2], [1, 0]), [i, j], n), 'eval')


@SUITE.case(quick=[dict(n=n) for n in (2, 3)])
def apply_two(ctx, n):
    """A custom gate on two qubits, in either order and not adjacent."""
    i, j = ctx.choose('ij', list(itertools.permutations(range(n), 2)))
    x, a, _ = gate(ctx, 'V')
    d = Id(qubit ** n).apply_gate(x, i, j)
    ev(ctx, d, Q.on(a, [i, j], n), 'eval')


# ---- cups, caps, spiders

@SUITE.case(quick=[dict(n=n, ops=o) for n in (0, 1, 2)
                   for o in ('', 'D', 'r', 'l', 'Dr')])
def cupcap(ctx, n, ops):
    ty = qubit ** n
    a = R.cup([2] * n)
    for x, ni, no in ((generate_cap(ty, ty), 0, 2 * n),
                      (generate_cup(ty, ty), 2 * n, 0),
                      (Diagram.caps(ty, ty.r), 0, 2 * n),
                      (Diagram.cups(ty, ty.r), 2 * n, 0)):
        ctx.check(x.dom == qubit ** ni and x.cod == qubit ** no, 'type')
        x, b, ni, no = ops_on(x, a, ni, no, ops)
        ev(ctx, x, b, f'{ni}->{no}')


def _legs(k):
    return [dict(i=i, o=o) for i in range(k + 1) for o in range(k + 1)
            if i + o <= k]


@SUITE.case(quick=_legs(4), thorough=_legs(6))
def spider(ctx, i, o):
    for x in (generate_spider(qubit, i, o), Diagram.special_boxes['spider'](qubit, i, o)):
        ctx.check(x.dom == qubit ** i and x.cod == qubit ** o, 'type')
        ev(ctx, x, R.delta(2, i + o), 'eval')


# ---- equality

def _pool(ctx, k):
    """A gate out of many, with its array."""
    sh = ctx.choose(f's{k}', ['rot', 'rotD', 'fix', 'c', 'cr', 'state',
                              'scalar'])
    if sh in ('rot', 'rotD'):
        g = ctx.choose(f'g{k}', list(ROT))
        x, a, _ = gate(ctx, g, f'p{k}')
        return x
    if sh == 'fix':
        g = ctx.choose(f'g{k}', ['X', 'Y', 'S', 'T'])
        return ops_on(FIX[g], Q.fixed(ctx, g), 1, 1,
                      ctx.choose(f'o{k}', ['', 'D', 'r', 'rD']))[0]
    if sh == 'c':
        g = ctx.choose(f'g{k}', ['X', 'S'])
        return Controlled(FIX[g], ctx.choose(f'd{k}', [1, -1, 2, -2]))
    if sh == 'cr':
        return CRz(phase(ctx, f'p{k}'), ctx.choose(f'd{k}', [1, -1]))
    if sh == 'state':
        return ctx.choose(f'c{k}', [Ket, Bra, Bit])(
            ctx.small(f'b{k}', 0, 1))
    return ctx.choose(f'c{k}', [Scalar(2), Sqrt(2), Sqrt(4), Scalar(4)])


def _misplaced(x, y):
    return (isinstance(x, Controlled) and isinstance(y, Controlled)
            and len(x.dom) == len(y.dom) and _dists(x) != _dists(y))


def _dists(x):
    r = []
    while isinstance(x, Controlled):
        r.append(x.distance)
        x = x.controlled
    return r


@SUITE.case(max_witness=10)
def equality(ctx):
    x, y = _pool(ctx, 1), _pool(ctx, 2)
    if (x == y) is True or bool(x == y):
        kf = 'Q01-controlled-eq'
        if _misplaced(x, y):
            from vsym import core
            if kf in core.KNOWN:
                ctx.check_known(kf, True, False, 'equal controlled gates on '
                                'different qubits')
                return
        ctx.check(x.dom == y.dom and x.cod == y.cod, 'type')
        arr_eq(ctx, x.to_diagram().eval(), y.to_diagram().eval(),
               'equal gates')
        ctx.check(hash(x) == hash(y), 'hash')
