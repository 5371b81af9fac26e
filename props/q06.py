"""Q06: circuits converted to PennyLane denote the circuit."""
import itertools
import math
from fractions import Fraction

import numpy as np
import pennylane as qml
import torch

from props import numref as R
from props import qref as Q
from props import q03
from props.q03 import CTRL, SIGQ, apply_pure, build, cases, closed, sq
from props.q04 import Params, refused
from vsym.case import Suite
from vsym.poly import Ang, arr_eq

from lambeq.backend import pennylane as lpl
from lambeq.backend import quantum as q
from lambeq.backend.pennylane import to_pennylane
from lambeq.backend.quantum import Bit, Bra, Controlled, Discard, Encode, \
    H, Id, Ket, Measure, MixedState, Rx, Rz, S, X, Z, bit, qubit
from lambeq.backend.symbol import Symbol

SUITE = Suite(
    'Q06',
    bounds='pure circuits and circuits with discards of up to 3 (quick) / 4 '
    '(thorough) layers of the supported gates at every placement on up to '
    '4 wires, amplitudes and probabilities, phases being (scaled) symbols '
    'or literals; open wires of circuits of up to 10 qubits',
    assumptions=['exact arithmetic', 'PennyLane operations are the textbook '
                 'gates of their names'],
    outside='devices other than the default simulator, gradients; the '
    'global phase of conjugated Y gates')

SUPPORTED = {'ket', 'bra', 'discard', 'swap', 'scalar', 'sqrt', 'Rx', 'Ry',
             'Rz', 'Sdg', 'Tdg', 'CX', 'CY-', 'CZ2', 'CX-2', 'CRz', 'CRy-',
             'CRx2', 'CRy', 'Sr', 'Tr', 'Sdgr', 'X', 'Y', 'Z', 'H', 'S', 'T'}
NAME = {'Hadamard': 'H', 'PauliX': 'X', 'PauliY': 'Y', 'PauliZ': 'Z',
        'S': 'S', 'T': 'T'}


def op_matrix(ctx, op):
    name = op.name
    inv = 0
    while name.startswith('Adjoint('):
        name, inv = name[8:-1], inv + 1
    k = 0
    if name == 'CNOT':
        name, k = 'PauliX', 1
    elif name in ('CY', 'CZ'):
        name, k = 'Pauli' + name[1], 1
    elif name in ('CRX', 'CRY', 'CRZ'):
        name, k = name[1:], 1
    if name in ('RX', 'RY', 'RZ'):
        p = op.data[0]
        p = p * (1 / (2 * math.pi)) if type(p) is Ang else Fraction(
            float(p) / (2 * math.pi)).limit_denominator(4096)
        a = Q.rotation(ctx, 'R' + name[1].lower(), p)
    elif name == 'SWAP':
        a = R.perm([2, 2], [1, 0])
    else:
        a = Q.fixed(ctx, NAME[name])
    if inv % 2:
        a = R.dag(a, a.ndim // 2)
    for _ in range(k):
        a = Q.controlled(a, a.ndim // 2, 1)
    return a


class Torch:
    """Stand-in for torch on symbolic arrays."""
    pi = math.pi

    @staticmethod
    def tensor(x, *a, **k):
        return x

    @staticmethod
    def reshape(a, s):
        return np.reshape(a, s)

    @staticmethod
    def trace(a):
        return np.trace(a)

    def __getattr__(self, k):
        return getattr(torch, k)


def simulate(ctx, func, n):
    def run(params):
        with qml.queuing.AnnotatedQueue() as qu:
            func(params)
        a = np.zeros((2,) * n, dtype=object)
        a[(0,) * n] = 1
        *ops, m = qu.queue
        for op in ops:
            w = [int(x) for x in op.wires]
            ctx.check(len(set(w)) == len(w) and all(0 <= x < n for x in w),
                      'wires')
            a = apply_pure(a, op_matrix(ctx, op), w)
        kind = type(m).__name__
        if kind == 'StateMP':
            return a.reshape(-1)
        if kind == 'ProbabilityMP':
            assert [int(x) for x in m.wires] == list(range(n))
            return sq(a).reshape(-1)
        assert kind == 'DensityMatrixMP', kind
        w = [int(x) for x in m.wires]
        rest = [i for i in range(n) if i not in w]
        b = a.transpose(w + rest).reshape(2 ** len(w), -1)
        c = np.empty(b.shape, dtype=object)
        for i in np.ndindex(b.shape):
            v = b[i]
            c[i] = v.conjugate() if hasattr(v, 'conjugate') else v
        return b.dot(c.T)
    return run


def evaluate(ctx, d, pars, probs):
    save = lpl.torch
    if ctx.symbolic:
        lpl.torch = Torch()
    try:
        p = to_pennylane(d, probabilities=probs)
        if ctx.symbolic:
            p._circuit = simulate(ctx, p._circuit.func, p._n_qubits)
        w = {Symbol(n): v if ctx.symbolic
             else torch.tensor(v, dtype=torch.float64)
             for n, v in pars.ref.items()}
        p.initialise_concrete_params(w)
        r = p.eval()
        r2 = p.eval()
    finally:
        lpl.torch = save
    if not ctx.symbolic:
        r, r2 = r.detach().numpy(), r2.detach().numpy()
    arr_eq(ctx, r, r2, 'evaluating twice')
    return r


PREP = ('ket', 'bra', 'discard', 'swap', 'Rx', 'CX', 'CRy-', 'scalar')


def qcases(kss, ns, maxq):
    return [c for c in cases(kss, ns, maxq) if c['n'] or 'ket' in c['ks']]


def quick():
    out = []
    for c in qcases([(k,) for k in SIGQ if k in SUPPORTED], (0, 1, 2, 3), 4):
        out += [dict(c, mode='symbol', probs=p) for p in (False, True)]
    for c in qcases(itertools.product(PREP, repeat=2), (0, 1, 2), 3):
        out += [dict(c, mode='symbol', probs=p) for p in (False, True)]
    for c in qcases([('Rx', g, 'H') for g in ('S', 'T', 'Sdg', 'Tdg', 'Sr',
                                             'Tr', 'Sdgr')]
                   + [('scalar', 'sqrt', 'scalar'), ('bra', 'scalar', 'sqrt'),
                      ('scalar', 'bra', 'scalar'), ('bra', 'discard', 'bra'),
                      ('discard', 'bra', 'ket'), ('ket', 'CX', 'bra'),
                      ('CX', 'bra', 'ket'), ('scalar', 'discard', 'scalar')],
                   (1, 2, 3), 3):
        out += [dict(c, mode='symbol', probs=p) for p in (False, True)]
    par = [('Rx',), ('Ry',), ('Rz', 'H'), ('CRx2',), ('CRy',), ('CRy-',),
           ('CRz',), ('Rz', 'Rx')]
    for c in qcases(par, (1, 2, 3), 3):
        out += [dict(c, mode=m, probs=False) for m in ('scaled', 'literal')]
    return out


def thorough():
    return quick() + [
        dict(c, mode='symbol', probs=p) for c in qcases(
            itertools.product(PREP, repeat=3), (0, 1, 2, 3), 3)
        for p in (False, True)]


@SUITE.case(quick=quick, thorough=thorough, max_witness=8)
def circuit(ctx, ks, n, maxq, mode, probs):
    pars = Params(ctx, mode)
    d, ref = build(ctx, n, ks, maxq, pars)
    snap = q03.snapshot(d)
    r = np.asarray(evaluate(ctx, d, pars, probs))
    ctx.check(snap == q03.snapshot(d), 'the argument is not changed')
    if 'discard' in ks:
        want = np.asarray(closed(ref)).reshape(())
    elif probs:
        want = sq(ref.a)
    else:
        want = ref.a
    arr_eq(ctx, r, want, 'PennyLane circuit')


@SUITE.case(quick=[dict(n=n, k=k, probs=p) for n in (9, 10) for k in (2, 3)
                   for p in (False,)], max_witness=2)
def open_wires(ctx, n, k, probs):
    """Open wires come out in order in larger registers."""
    import random
    sel = {}
    opens = []
    for i in range(n):
        left = k - len(opens)
        if left and (n - i <= left or ctx.choose(f'o{i}', [False, True])):
            opens.append(i)
    pars = Params(ctx)
    phases = {}
    d, last, want = Ket(*[0] * n), [], np.asarray(1, dtype=object)
    gates = []
    for i in range(n):
        if i in opens:
            x, a = q03.one(ctx, 'Ry', f'p{i}', pars)
            gates.append(x)
            last.append(Id(qubit))
            want = np.multiply.outer(want, a[0])
        else:
            v = i % 2
            gates.append(X if v else Id(qubit))
            last.append(Bra(v))
    d = d >> Id().tensor(*gates) >> Id().tensor(*last)
    r = evaluate_sparse(ctx, d, pars)
    arr_eq(ctx, r, want, 'open wires')


def evaluate_sparse(ctx, d, pars):
    if not ctx.symbolic:
        return evaluate(ctx, d, pars, False)
    save = lpl.torch
    lpl.torch = Torch()
    try:
        p = to_pennylane(d)
        n = p._n_qubits

        def run(params):
            with qml.queuing.AnnotatedQueue() as qu:
                p._fun(params)
            vs = [[1, 0] for _ in range(n)]
            for op in qu.queue[:-1]:
                w, = op.wires
                m = op_matrix(ctx, op)
                v = vs[w]
                vs[w] = [v[0] * m[0, j] + v[1] * m[1, j] for j in (0, 1)]
            return Sparse(n, vs)
        p._fun = p._circuit.func
        p._circuit = run
        p.initialise_concrete_params({Symbol(k): v
                                      for k, v in pars.ref.items()})
        return p.eval()
    finally:
        lpl.torch = save


class Sparse:
    """A product state; only the selected amplitudes are computed."""

    def __init__(self, n, vs):
        self.n, self.vs = n, vs

    def __getitem__(self, idx):
        out = np.empty(len(idx), dtype=object)
        for k, i in enumerate(idx):
            r = 1
            for j, b in enumerate(format(i, f'0{self.n}b')):
                r = r * self.vs[j][int(b)]
            out[k] = r
        return out


UNSUP = {
    'measure': lambda p: Measure(), 'bit': lambda p: Bit(0),
    'encode': lambda p: Encode(), 'mixed': lambda p: MixedState(),
    'CS': lambda p: Controlled(S), 'CH': lambda p: Controlled(H, -1),
    'CCX': lambda p: Controlled(Controlled(X)),
    'CCRz': lambda p: Controlled(Controlled(Rz(p))),
    'CSdg': lambda p: Controlled(S.dagger()),
    'custom': lambda p: q.Box('f', qubit, qubit),
    'Xr': lambda p: Controlled(S.r),
}


@SUITE.case(quick=[dict(k=k, n=n) for k in UNSUP for n in (0, 1)])
def unsupported(ctx, k, n):
    box = UNSUP[k](Symbol('p'))
    refused(ctx, lambda: to_pennylane(Id(qubit ** n) @ box), k)
