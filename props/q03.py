"""Q03: the circuital form and the gate list denote the circuit."""
import itertools
from contextlib import contextmanager

import numpy as np

from props import numref as R
from props import qref as Q
from props.q02 import COD, SIG, TY, feasible, ty
from vsym.case import Suite
from vsym.core import And
from vsym.poly import arr_eq, centry, exact, phase

from lambeq.backend import quantum as q
from lambeq.backend.quantum import Bra, Controlled, Daggered, Diagram, \
    Discard, Gate, Id, Ket, Measure, Rx, Ry, Rz, S, Scalar, Sqrt, SWAP, \
    Swap, T, Ty, X, Y, Z, H, bit, qubit, readoff_circuital, to_circuital

SUITE = Suite(
    'Q03',
    bounds='circuits of up to 3 (quick) / 4 (thorough) layers over every '
    'sequence of preparations, post-selections (symbolic outcome), '
    'discards, rotations with symbolic phase, fixed and daggered gates, '
    'single and double controls at distances -2..2, swaps, scalars and '
    'measurements, at every offset, on up to 3 (4) qubits',
    assumptions=['exact arithmetic'],
    outside='encodings, mixed states, classical boxes (see unsupported), '
    'gates acting after a measurement on the measured wire')

ONE = {'X': X, 'Y': Y, 'Z': Z, 'H': H, 'S': S, 'T': T}
SIGQ = {'ket': 0, 'bra': 1, 'discard': 1, 'measure': 1, 'swap': 2,
        'scalar': 0, 'sqrt': 0, 'Rx': 1, 'Ry': 1, 'Rz': 1, 'Sdg': 1,
        'Tdg': 1, 'CX': 2, 'CY-': 2, 'CZ2': 3, 'CX-2': 3, 'CRz': 2,
        'CRy-': 2, 'CRx2': 3, 'CRy': 2, 'CCX': 3, 'CCX+-': 3, 'CCZ-+': 3,
        'CCX--': 3, 'CCX+2': 4, 'CCX2-': 4, 'CCX-2+': 4, 'CSdg': 2,
        'CH': 2, 'Sr': 1, 'Tr': 1, 'Yr': 1, 'Sdgr': 1, **{g: 1 for g in ONE}}
CODQ = {'ket': 1, 'bra': 0, 'discard': 0, 'scalar': 0, 'sqrt': 0}
CTRL = {'CX': ('X', 1), 'CY-': ('Y', -1), 'CZ2': ('Z', 2),
        'CX-2': ('X', -2), 'CRz': ('Rz', 1), 'CRy-': ('Ry', -1),
        'CRx2': ('Rx', 2), 'CRy': ('Ry', 1), 'CCX': ('X', 1, 1),
        'CCX+-': ('X', 1, -1), 'CCZ-+': ('Z', -1, 1),
        'CCX--': ('X', -1, -1), 'CCX+2': ('X', 1, 2),
        'CCX2-': ('X', 2, -1), 'CCX-2+': ('X', -2, 1),
        'CSdg': ('Sdg', 1), 'CH': ('H', 1)}


class Params:
    """Phases: symbolic numbers (numeric=True) or lambeq symbols with a
    reference phase each."""

    def __init__(self, ctx, symbols=False):
        self.ctx = ctx
        self.symbols = symbols
        self.ref = {}

    def new(self, name):
        p = phase(self.ctx, name)
        if not self.symbols:
            return p, p
        from lambeq.backend.symbol import Symbol
        self.ref[name] = p
        return Symbol(name), p


def one(ctx, g, p, pars):
    if g in ('Rx', 'Ry', 'Rz'):
        v, ref = pars.new(p)
        return {'Rx': Rx, 'Ry': Ry, 'Rz': Rz}[g](v), Q.rotation(ctx, g, ref)
    if g in ('Sdg', 'Tdg'):
        return ONE[g[0]].dagger(), R.dag(Q.fixed(ctx, g[0]), 1)
    if g in ('Sr', 'Tr', 'Yr'):
        return ONE[g[0]].r, R.rot(Q.fixed(ctx, g[0]), 1)
    if g == 'Sdgr':
        return S.dagger().r, R.rot(R.dag(Q.fixed(ctx, 'S'), 1), 1)
    return ONE[g], Q.fixed(ctx, g)


def make(ctx, k, p, pars):
    """-> box, tensor"""
    if k in ('ket', 'bra'):
        b = ctx.small(p, 0, 1)
        v = np.array([1 - b, b])
        return (Ket if k == 'ket' else Bra)(b), (v)
    if k in ('discard', 'measure'):
        return {'discard': Discard, 'measure': Measure}[k](), k
    if k == 'scalar':
        v = pars.scalar(ctx, p) if hasattr(pars, 'scalar') \
            else centry(ctx, p)
        return Scalar(v), np.asarray(v)
    if k == 'sqrt':
        return Sqrt(2), np.asarray(2 ** .5)
    if k in CTRL:
        g, *ds = CTRL[k]
        x, a = one(ctx, g, p, pars)
        n = 1
        for d in ds:
            x, a = Controlled(x, d), Q.controlled(a, n, d)
            n += abs(d)
        return x, a
    x, a = one(ctx, k, p, pars)
    return x, a


class Zero:
    """The amplitudes of a circuit started with n qubits in the state zero:
    axes [current wires..., discarded wires...]. Measured wires keep their
    axis (nothing acts on them any more); probabilities are the squared
    moduli summed over discarded wires."""

    def __init__(self, n):
        self.w = ['q'] * n
        self.a = np.zeros((2,) * n, dtype=object)
        self.a[(0,) * n] = 1

    def apply(self, a, n_in, cod, off):
        n, h = len(self.w), self.a.ndim - len(self.w)
        a = np.asarray(a)
        r = np.tensordot(self.a, a, axes=(
            [off + i for i in range(n_in)], list(range(n_in)))) \
            if n_in else np.asarray(np.multiply.outer(self.a, a))
        rest, k = n - n_in, len(cod)
        order = ([*range(off)] + [rest + h + i for i in range(k)]
                 + [*range(off, rest)] + [rest + i for i in range(h)])
        self.a = np.asarray(r).transpose(order)
        self.w[off:off + n_in] = cod

    def swap(self, off):
        self.a = np.swapaxes(self.a, off, off + 1)
        self.w[off], self.w[off + 1] = self.w[off + 1], self.w[off]

    def discard(self, off):
        self.a = np.moveaxis(self.a, off, -1)
        del self.w[off]

    def measure(self, off):
        self.w[off] = 'b'


def build(ctx, n, kinds, maxq, pars, inits=True):
    """A circuit on n initial qubits, each rotated by a symbolic angle;
    measured wires are not touched again except by swaps.
    -> diagram, reference"""
    d, ref = Id(qubit ** n), Zero(n)
    if n:
        ry = []
        for i in range(n):
            x, a = one(ctx, 'Ry' if i < 2 else 'H', f'i{i}', pars)
            ry.append(x)
            ref.apply(a, 1, ['q'], i)
        d = d >> Id().tensor(*ry)
    for j, k in enumerate(kinds):
        if k == 'swap':
            opts = list(range(len(ref.w) - 1))
        elif k == 'qswap':
            opts = [i for i in range(len(ref.w) - 1)
                    if ref.w[i:i + 2] == ['q', 'q']]
        else:
            m = SIGQ[k]
            opts = [i for i in range(len(ref.w) - m + 1)
                    if all(x == 'q' for x in ref.w[i:i + m])]
        ctx.assume(bool(opts))
        off = ctx.choose(f'o{j}', opts)
        if k in ('swap', 'qswap'):
            l, r = ref.w[off:off + 2]
            d = d >> ty(ref.w[:off]) @ Swap(TY[l], TY[r]) \
                @ ty(ref.w[off + 2:])
            ref.swap(off)
            continue
        left, right = ty(ref.w[:off]), ty(ref.w[off + m:])
        cod = ['b'] if k == 'measure' else ['q'] * CODQ.get(k, m)
        ctx.assume(len(ref.w) - m + len(cod) <= maxq)
        x, a = make(ctx, k, f'k{j}', pars)
        if isinstance(a, str):
            getattr(ref, a)(off)
        else:
            ref.apply(a, m, cod, off)
        d = d >> left @ x @ right
    return d, ref


def closed(ref):
    """Probabilities of the bits; open qubits are discarded."""
    pr = sq(ref.a)
    for i in reversed(range(pr.ndim)):
        if i >= len(ref.w) or ref.w[i] == 'q':
            pr = np.asarray(pr.sum(axis=i), dtype=object)
    return pr


def sq(a):
    a = np.asarray(a)
    pr = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = a[i]
        pr[i] = v * (v.conjugate() if hasattr(v, 'conjugate') else v)
    return pr


GATE1 = {'H', 'X', 'Y', 'Z', 'S', 'T'}


def apply_pure(a, g, qubits):
    """Apply a gate (k qubits) to a state tensor."""
    k = len(qubits)
    r = np.tensordot(a, g, axes=(list(qubits), list(range(k))))
    n = a.ndim
    rest = [i for i in range(n) if i not in qubits]
    order = [rest.index(i) if i in rest else n - k + list(qubits).index(i)
             for i in range(n)]
    return np.asarray(r).transpose(order)


def gate_matrix(ctx, g, ref=lambda p: p):
    """The gate a Gate record denotes, on its qubits in order."""
    name = g.gtype
    k = len(name) - len(name.lstrip('C'))
    base = name[k:]
    if base in GATE1:
        a = Q.fixed(ctx, base)
    elif base in ('Rx', 'Ry', 'Rz'):
        a = Q.rotation(ctx, base, ref(g.phase))
    elif base == 'SWAP':
        a = R.perm([2, 2], [1, 0])
    elif base.endswith('†') and base[:-1] in GATE1:
        a = R.dag(Q.fixed(ctx, base[:-1]), 1)
    else:
        raise KeyError(name)
    if g.dagger:
        a = R.dag(a, a.ndim // 2)
    for _ in range(k):
        a = Q.controlled(a, a.ndim // 2, 1)
    return a


def info_semantics(ctx, info, ref=lambda p: p):
    n = info.total_qubits
    a = np.zeros((2,) * n, dtype=object)
    a[(0,) * n] = 1
    scale = 1
    for g in info.gates:
        if g.gtype == 'Scalar':
            v = g.phase.item() if isinstance(g.phase, np.ndarray) \
                else g.phase
            scale = scale * (v * v.conjugate())
            continue
        qs = list(g.qubits)
        ctx.check(len(set(qs)) == len(qs) and all(0 <= x < n for x in qs),
                  f'qubits of {g.gtype}: {qs}')
        if g.control is not None:
            ctx.check(sorted(g.control) == sorted(qs[:-1])
                      and g.gate_q == qs[-1], 'controls')
        m = gate_matrix(ctx, g, ref)
        ctx.check(m.ndim == 2 * len(qs), f'{g.gtype} on {qs}')
        a = apply_pure(a, m, qs)
    pr = sq(a)
    ctx.check(set(info.bitmap) | set(info.discards) == set(range(n))
              and not set(info.bitmap) & set(info.discards),
              'every qubit is measured or discarded')
    ctx.check(sorted(info.bitmap.values()) == [*range(len(info.bitmap))],
              'bits are numbered consecutively')
    ctx.check(set(info.postmap) <= set(info.bitmap), 'post-selected qubits')
    axes = [k for k in sorted(info.bitmap, key=info.bitmap.get)
            if k not in info.postmap]
    idx = [info.postmap.get(i, slice(None)) for i in range(n)]
    pr = np.asarray(pr[tuple(idx)])
    left = [i for i in range(n) if i not in info.postmap]
    for i in reversed(left):
        if i in info.discards:
            pr = pr.sum(axis=left.index(i))
            left.remove(i)
    out = np.asarray(pr, dtype=object).transpose([left.index(i)
                                                  for i in axes])
    res = np.empty(out.shape, dtype=object)
    for i in np.ndindex(out.shape):
        res[i] = out[i] * scale
    return res


def layered(ctx, d):
    """The map of a diagram, layer by layer, from the arrays of its boxes."""
    st = Zero(0)
    for l in d.layers:
        b = l.box
        wires = [TY_INV[x] for x in l.left @ b.dom @ l.right]
        ctx.check(wires == st.w, 'layers are typed')
        off, m = len(l.left), len(b.dom)
        if isinstance(b, Swap):
            st.swap(off)
            continue
        if isinstance(b, (Measure, Discard)):
            (st.measure if isinstance(b, Measure) else st.discard)(off)
            continue
        a = b.array
        st.apply(a, m, [TY_INV[x] for x in b.cod], off)
    return st


TY_INV = {qubit: 'q', bit: 'b'}


def dists(x):
    r = []
    while isinstance(x, Controlled):
        r.append((x.distance, len(x.dom)))
        x = x.controlled
    return r


def snapshot(d):
    return [(l.left, dists(l.box), l.box.dom, l.right) for l in d.layers]


def verify(ctx, d, ref):
    want = closed(ref)
    snap = snapshot(d)
    c = to_circuital(d)
    ctx.check(snap == snapshot(d),
              'the argument is not changed')
    ctx.check(c.is_circuital, 'is_circuital')
    ctx.check(c.dom == Ty() and c.cod == bit ** ref.w.count('b'), 'type')
    cur = c.dom
    for l in c.layers:
        ctx.check(l.dom == cur, 'layers are typed')
        cur = l.cod
    ctx.check(cur == c.cod, 'layers are typed')
    info = readoff_circuital(c)
    arr_eq(ctx, info_semantics(ctx, info), want, 'gate list')
    arr_eq(ctx, closed(layered(ctx, c)), want, 'circuital diagram')


def feas(n, kinds, maxq, w=None):
    w = 'q' * n if w is None else w
    if not kinds:
        return True
    k = kinds[0]
    if k == 'swap':
        return any(feas(n, kinds[1:], maxq, w[:i] + w[i + 1] + w[i]
                        + w[i + 2:]) for i in range(len(w) - 1))
    m = SIGQ[k]
    c = 'b' if k == 'measure' else 'q' * CODQ.get(k, m)
    return any(feas(n, kinds[1:], maxq, w[:i] + c + w[i + m:])
               for i in range(len(w) - m + 1)
               if w[i:i + m] == 'q' * m and len(w) - m + len(c) <= maxq)


def cases(kss, ns, maxq):
    return [dict(ks=ks, n=n, maxq=maxq) for ks in kss for n in ns
            if feas(n, ks, maxq)]


PREP = ('ket', 'bra', 'discard', 'swap', 'Rx', 'CX', 'CRy-', 'measure',
        'scalar')
ALLG = [k for k in SIGQ if k not in ('ket', 'bra', 'discard', 'measure')]


def quick():
    out = cases([(k,) for k in SIGQ], (0, 2, 3), 4)
    out += cases(itertools.product(PREP, repeat=2), (0, 1, 2), 3)
    out += cases([('Rx', g) for g in SIGQ if SIGQ[g] == 1]
                 + [('Rx', g, 'H') for g in ('S', 'T', 'Sdg', 'Sr', 'Tr',
                                             'Sdgr')], (1,), 2)
    out += cases(itertools.product(PREP, ('ket', 'bra', 'CX', 'swap'),
                                   PREP), (0, 2), 3)
    out += cases([(a, b) for a in CTRL for b in ('ket', 'bra')]
                 + [(b, a) for a in CTRL for b in ('ket', 'bra')],
                 (2, 3, 4), 5)
    return out


def thorough():
    return quick() + cases(itertools.product(PREP, repeat=3), (0, 1, 2, 3),
                           3)


@SUITE.case(quick=quick, thorough=thorough, max_witness=8)
def circuit(ctx, ks, n, maxq):
    pars = Params(ctx)
    d, ref = build(ctx, n, ks, maxq, pars)
    verify(ctx, d, ref)
