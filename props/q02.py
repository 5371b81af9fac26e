"""Q02: evaluation of circuits with measurements, discards and classical
wires."""
import itertools

import numpy as np

from props import numref as R
from props import qref as Q
from props.q01 import gate
from vsym.case import Suite
from vsym.poly import arr_eq, carray, centry, phase

from lambeq.backend import quantum as q
from lambeq.backend.quantum import Bit, Bra, Controlled, CX, Diagram, \
    Discard, Encode, Id, Ket, Layer, Measure, MixedState, Rx, Ry, Rz, \
    Scalar, Swap, Ty, bit, qubit

SUITE = Suite(
    'Q02',
    bounds='circuits of up to 2 (quick) / 3 (thorough) layers over every '
    'sequence of gates with symbolic entries, controlled rotations with '
    'symbolic phases, kets, bras, bits, classical boxes, custom mixed '
    'boxes, scalars, discards, mixed states, measurements, encodings and '
    'swaps of qubits and bits, at every offset, from every list of up to 3 '
    'wires (2 for entangling gates); longer fixed circuits for discarding '
    'and measuring',
    assumptions=['exact arithmetic (floating point rounding is not '
                 'modelled); numpy backend; default contractor'],
    outside='shot-based backends (see Q04); daggers of custom mixed boxes')

MIXED = (Discard, MixedState, Measure, Encode)
TY = {'q': qubit, 'b': bit}


def ty(ws):
    t = Ty()
    for w in ws:
        t = t @ TY[w]
    return t


# kind -> list of (dom, cod)
SIG = {
    'U': ['q'], 'Udg': ['q'], 'Ry': ['q'], 'CU': ['qq'], 'CRz-': ['qq'],
    'CX2': ['qqq'], 'bra': ['q'], 'discard': ['q'], 'measure': ['q'],
    'encode': ['b'], 'swap': ['qq', 'bb', 'qb', 'bq'], 'cbox': ['b'],
    'cadd': ['bb'], 'cdag': ['b'], 'ket': [''], 'bit': [''], 'mixed': [''],
    'scalar': [''], 'noise': ['q'], 'inst': ['q'], 'unbit': ['b'],
    'swapq': ['qq']}


COD = {'CU': 'qq', 'CRz-': 'qq', 'CX2': 'qqq', 'bra': '', 'discard': '',
       'measure': 'b', 'encode': 'q', 'cbox': 'b', 'cadd': 'b', 'cdag': 'b',
       'bit': 'b', 'scalar': '', 'inst': 'bq', 'unbit': ''}


def feasible(w, kinds, maxw):
    if not kinds:
        return True
    k = kinds[0]
    for s in SIG[k]:
        for off in range(len(w) - len(s) + 1):
            if w[off:off + len(s)] == s:
                c = s[::-1] if 'swap' in k else COD.get(k, 'q')
                v = w[:off] + c + w[off + len(s):]
                if len(v) <= maxw and feasible(v, kinds[1:], maxw):
                    return True
    return False


def make(ctx, k, p, dom):
    """-> (box, tensor over doubled wires, codomain)"""
    if k in ('U', 'Udg', 'Ry'):
        if k == 'Ry':
            x, a, _ = gate(ctx, 'Ry', p)
        else:
            x, a, _ = gate(ctx, k, p)
        return x, Q.dbl(a), 'q'
    if k == 'CU':
        x, a, _ = gate(ctx, 'U', p)
        return Controlled(x), Q.dbl(Q.controlled(a, 1, 1)), 'qq'
    if k == 'CRz-':
        x, a, _ = gate(ctx, 'Rz', p)
        return Controlled(x, -1), Q.dbl(Q.controlled(a, 1, -1)), 'qq'
    if k == 'CX2':
        return (Controlled(q.X, 2),
                Q.dbl(Q.controlled(Q.fixed(ctx, 'X'), 1, 2)), 'qqq')
    if k in ('bra', 'ket', 'bit', 'unbit'):
        b = ctx.small(p, 0, 1)
        v = np.array([1 - b, b])
        x = {'bra': Bra, 'ket': Ket}.get(k, Bit)(b)
        if k == 'unbit':
            return x.dagger(), v, ''
        return ((x, v, 'b') if k == 'bit' else
                (x, Q.dbl(v), 'q' if k == 'ket' else ''))
    if k == 'discard':
        return Discard(), Q.DISCARD, ''
    if k == 'mixed':
        return MixedState(), Q.DISCARD, 'q'
    if k == 'measure':
        return Measure(), Q.MEASURE, 'b'
    if k == 'encode':
        return Encode(), Q.ENCODE, 'q'
    if k == 'scalar':
        v = centry(ctx, p)
        return Scalar(v), np.asarray(v * v.conjugate()), ''
    if k in ('cbox', 'cdag'):
        a = carray(ctx, p, (2, 2))
        x = q.Box('c', bit, bit, a)
        return (x, a, 'b') if k == 'cbox' else (x.dagger(), R.dag(a, 1), 'b')
    if k == 'cadd':
        a = carray(ctx, p, (2, 2, 2))
        return q.Box('add', bit @ bit, bit, a), a, 'b'
    if k == 'noise':
        a = carray(ctx, p, (2, 2, 2, 2))
        return (q.Box('noise', qubit, qubit, a, is_mixed=True),
                a.reshape(4, 4), 'q')
    if k == 'inst':
        a = carray(ctx, p, (2, 2, 2, 2, 2))
        return (q.Box('inst', qubit, bit @ qubit, a, is_mixed=True),
                a.reshape(4, 2, 4), 'bq')
    raise KeyError(k)


def build(ctx, wires, kinds, maxw):
    d, ref = Id(ty(wires)), Q.Proc(wires)
    for j, k in enumerate(kinds):
        opts = [(s, off) for s in SIG[k]
                for off in range(len(ref.w) - len(s) + 1)
                if ''.join(ref.w[off:off + len(s)]) == s]
        ctx.assume(bool(opts))
        s, off = ctx.choose(f'o{j}', opts)
        left, right = ty(ref.w[:off]), ty(ref.w[off + len(s):])
        if k in ('swap', 'swapq'):
            x = Swap(TY[s[0]], TY[s[1]])
            ref.swap(off)
        else:
            x, a, cod = make(ctx, k, f'k{j}', s)
            ctx.assume(len(ref.w) - len(s) + len(cod) <= maxw)
            ref.apply(a, len(s), list(cod), off)
        d = d >> left @ x @ right
    return d, ref


def check(ctx, d, ref, msg='mixed'):
    ctx.check(d.dom == ty(ref.inw) and d.cod == ty(ref.w), 'type')
    want = ref.result()
    got = d.eval(mixed=True)
    ctx.check(np.shape(got) == want.shape, f'{msg}: shape {np.shape(got)}')
    arr_eq(ctx, got, want, msg)
    both = {'q', 'b'} <= {*ref.inw, *ref.w}
    if both or any(isinstance(x, MIXED) or x.name in ('noise', 'inst')
                   for x in d.boxes):
        ctx.check(d.is_mixed, 'the circuit is mixed')
        arr_eq(ctx, d.eval(), want, msg + ' by default')


def wires(n, at_most_b=9):
    return [''.join(x) for k in range(n + 1)
            for x in itertools.product('qb', repeat=k)]


def need(kinds):
    """Starting wires to try: everything of two wires, plus three for swaps
    among other wires."""
    n = 2
    if kinds[0] in ('swap', 'measure', 'discard', 'encode', 'bit', 'mixed'):
        n = 3
    if any(k in ('CU', 'CRz-', 'noise', 'inst', 'U') for k in kinds):
        n = 2
    if 'CX2' in kinds:
        n = 3
    out = []
    for w in wires(n):
        if kinds[0] == 'CX2' and w != 'qqq':
            continue
        if 'CX2' in kinds and len(kinds) > 1 and w.count('b') > 1:
            continue
        if any(all(x in w for x in s) and s in w for s in SIG[kinds[0]]):
            if w.count('q') < 3 or len(kinds) == 1 or kinds[0] != 'swap':
                out.append(w)
    return out


@SUITE.case(quick=[dict(k=k, w=w) for k in SIG for w in need([k])
                   if k != 'swapq'])
def one(ctx, k, w):
    check(ctx, *build(ctx, w, [k], 4))


QK = ['U', 'Ry', 'CU', 'bra', 'discard', 'measure', 'encode', 'swap',
      'cbox', 'ket', 'bit', 'mixed', 'scalar', 'inst']


def _two(ks1, ks2, ws):
    return [dict(ks=(a, b), w=w) for a in ks1 for b in ks2 for w in ws
            if feasible(w, (a, b), 3)]


@SUITE.case(quick=_two(QK, QK, ['', 'q', 'b', 'qb', 'bq']),
            thorough=_two(list(SIG), list(SIG), wires(2))
            + _two(['swap', 'measure', 'encode', 'discard', 'bit'],
                   ['swap', 'measure', 'encode', 'discard', 'cadd', 'unbit'],
                   ['qbq', 'bqb', 'qqb', 'bbq', 'bqq', 'qbb']))
def two(ctx, ks, w):
    check(ctx, *build(ctx, w, ks, 3))


@SUITE.case(quick=(), thorough=lambda: [
    dict(ks=ks, w=w) for ks in itertools.product(
        QK, ('swap', 'measure', 'discard', 'encode', 'bra', 'bit', 'CU'),
        ('swap', 'measure', 'discard', 'encode', 'cbox', 'inst'))
    for w in ('', 'q', 'b', 'qb', 'bq', 'qq', 'bb') if feasible(w, ks, 3)])
def three(ctx, ks, w):
    check(ctx, *build(ctx, w, ks, 3))


@SUITE.case(quick=[dict(ks=ks) for ks in itertools.product(
    ('ket', 'bit'), ('ket', 'encode', 'CU', 'bit'),
    ('measure', 'discard', 'swap', 'bra'),
    ('swap', 'measure', 'discard', 'encode'))
    if feasible('', ks, 3)],
    thorough=[dict(ks=ks) for ks in itertools.product(
        ('ket', 'bit', 'mixed'), ('ket', 'encode', 'CU', 'bit', 'Ry'),
        ('measure', 'discard', 'swap', 'bra', 'CRz-', 'cbox'),
        ('swap', 'measure', 'discard', 'encode', 'cadd', 'U'))
        if feasible('', ks, 3)])
def four(ctx, ks):
    check(ctx, *build(ctx, '', ks, 3))


# ---- laws

def pure(ctx, n, kinds, maxw=3, inn=None):
    """A circuit with qubits only. -> diagram, pure reference"""
    d, ref = Id(qubit ** n), Q.Pure(['q'] * n)
    for j, k in enumerate(kinds):
        s = {'U': 1, 'CU': 2, 'ket': 0, 'bra': 1, 'swap': 2, 'scalar': 0,
             'Rx': 1, 'H': 1, 'CRz-': 2}[k]
        opts = list(range(len(ref.w) - s + 1))
        ctx.assume(bool(opts))
        off = ctx.choose(f'o{j}', opts)
        cod = {'ket': 1, 'bra': 0, 'scalar': 0}.get(k, s)
        ctx.assume(len(ref.w) + cod - s <= maxw)
        if k == 'swap':
            x, a = Swap(qubit, qubit), R.perm([2, 2], [1, 0])
        elif k == 'ket' or k == 'bra':
            b = ctx.small(f'b{j}', 0, 1)
            x, a = (Ket if k == 'ket' else Bra)(b), np.array([1 - b, b])
        elif k == 'CU':
            g, a, _ = gate(ctx, 'U', f'k{j}')
            x, a = Controlled(g), Q.controlled(a, 1, 1)
        elif k == 'CRz-':
            g, a, _ = gate(ctx, 'Rz', f'k{j}')
            x, a = Controlled(g, -1), Q.controlled(a, 1, -1)
        elif k == 'scalar':
            v = centry(ctx, f'k{j}')
            x, a = Scalar(v), np.asarray(v)
        else:
            x, a, _ = gate(ctx, k, f'k{j}')
        d = d >> (qubit ** off) @ x @ (qubit ** (len(ref.w) - off - s))
        ref.apply(a, s, ['q'] * cod, off)
    return d, ref


PK = ['U', 'CU', 'ket', 'bra', 'swap', 'scalar']


@SUITE.case(quick=[dict(ks=ks, n=n) for n in (0, 1, 2) for ks in
                   itertools.product(PK, repeat=2)
                   if feasible('q' * n, ks, 3)],
            thorough=[dict(ks=ks, n=n) for n in (0, 1, 2) for ks in
                      itertools.product(PK, repeat=3)
                      if feasible('q' * n, ks, 3)])
def pure_and_doubled(ctx, ks, n):
    """Pure evaluation, and mixed evaluation of a pure circuit."""
    d, ref = pure(ctx, n, ks)
    ctx.check(not d.is_mixed, 'a circuit of pure gates is pure')
    got = d.eval()
    arr_eq(ctx, got, ref.a, 'pure')
    m = Q.Proc(['q'] * n)
    m.a, m.w = Q.dbl(ref.a), ['q'] * (ref.a.ndim - n)
    arr_eq(ctx, d.eval(mixed=True), m.result(), 'doubled')


STATES = [('ket', 'U', 'ket', 'CU'), ('ket', 'Rx', 'ket', 'CRz-'),
          ('ket', 'U', 'ket', 'swap'), ('ket', 'U', 'ket', 'bra'),
          ('ket', 'ket', 'swap', 'U'), ('ket', 'scalar', 'Rx', 'U')]


@SUITE.case(quick=[dict(ks=ks) for ks in STATES])
def born(ctx, ks):
    """Measuring every wire: the squared moduli; discarding every wire: their
    sum; measuring one wire and discarding the rest: marginals."""
    d, ref = pure(ctx, 0, ks)
    n = len(ref.w)
    pr = np.empty(ref.a.shape, dtype=object)
    for i in np.ndindex(ref.a.shape):
        v = ref.a[i]
        pr[i] = v * (v.conjugate() if hasattr(v, 'conjugate') else v)
    meas = Id().tensor(*[Measure()] * n)
    arr_eq(ctx, (d >> meas).eval(), pr, 'probabilities')
    disc = Id().tensor(*[Discard()] * n)
    arr_eq(ctx, (d >> disc).eval(), pr.sum(), 'total')
    for i in range(n):
        m = Id().tensor(*[Measure() if j == i else Discard()
                          for j in range(n)])
        arr_eq(ctx, (d >> m).eval(),
               pr.sum(axis=tuple(j for j in range(n) if j != i)),
               f'marginal {i}')
    e = d.init_and_discard()
    ctx.check(e.dom == Ty() and e.cod == Ty(), 'init_and_discard type')
    arr_eq(ctx, e.eval(), pr.sum(), 'init_and_discard')


@SUITE.case(quick=[dict(w=w) for w in wires(2) if w])
def init_and_discard(ctx, w):
    """The domain is initialised to zero, open qubits are discarded and open
    bits kept."""
    k = ctx.choose('k', ['U', 'measure', 'swap', 'encode', 'cbox', 'CU',
                         'Ry'])
    d, ref = build(ctx, w, [k], 3)
    e = d.init_and_discard()
    zero = tuple(0 for _ in w)
    a = ref.a[zero]
    n = len(ref.w)
    for i in reversed(range(n)):
        if ref.w[i] == 'q':
            a = np.tensordot(a, Q.DISCARD, axes=([i], [0]))
    ctx.check(e.dom == Ty() and e.cod == bit ** ref.w.count('b'), 'type')
    arr_eq(ctx, e.eval(mixed=True), a, 'value')


@SUITE.case(quick=[dict(k=k, w=w) for k in ('measure', 'encode', 'discard',
                                            'mixed', 'swap', 'U', 'cbox')
                   for w in ('qb', 'bq')])
def dagger(ctx, k, w):
    """The dagger of a mixed circuit is its adjoint map."""
    d, ref = build(ctx, w, [k], 3)
    e = d.dagger()
    rev = Q.Proc(ref.w)
    rev.a, rev.w = R.dag(np.asarray(ref.a), len(ref.inw)), list(ref.inw)
    check(ctx, e, rev, 'dagger')
