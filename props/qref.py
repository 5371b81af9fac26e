"""Reference semantics of circuits, independent of the code under test.

Pure maps are tensors [inputs..., outputs...] with entry <out|U|in> (so gates
are transposed matrices).  Mixed maps use one axis of size 4 per qubit (a pair
of basis indices) and one axis of size 2 per bit."""
import cmath
import math

import numpy as np

from props import numref as R
from vsym.poly import Ang, Poly


def one_qubit(ctx, m):
    """A gate from its textbook matrix."""
    return np.array(m, dtype=object if ctx.symbolic else complex).T


def fixed(ctx, name):
    r = 2 ** -.5
    w = cmath.exp(1j * math.pi / 4)
    return one_qubit(ctx, {
        'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]],
        'Z': [[1, 0], [0, -1]], 'H': [[r, r], [r, -r]],
        'S': [[1, 0], [0, 1j]], 'T': [[1, 0], [0, w]],
        'I': [[1, 0], [0, 1]]}[name])


def cossin(p):
    """cos and sin of pi*p."""
    if isinstance(p, Ang):
        return (p * math.pi).cos(), (p * math.pi).sin()
    if isinstance(p, Poly):
        raise TypeError
    return math.cos(math.pi * p), math.sin(math.pi * p)


def rotation(ctx, name, p):
    """exp(-i pi p P) for a phase p in full turns."""
    c, s = cossin(p)
    return one_qubit(ctx, {
        'Rx': [[c, -1j * s], [-1j * s, c]],
        'Ry': [[c, -s], [s, c]],
        'Rz': [[c - 1j * s, 0], [0, c + 1j * s]]}[name])


def controlled(a, n, distance):
    """Control a gate on n qubits; the control is `distance` wires before
    (after, when negative) the first (last) wire the gate would have at
    distance 1; wires in between are untouched."""
    gap = abs(distance) - 1
    m = n + 1 + gap
    rest = R.eye([2] * gap)
    g = R.par(rest, gap, a, n) if distance > 0 else R.par(a, n, rest, gap)
    i = R.eye([2] * (m - 1))
    p0 = np.array([[1, 0], [0, 0]])
    p1 = np.array([[0, 0], [0, 1]])
    if distance > 0:
        return R.par(p0, 1, i, m - 1) + R.par(p1, 1, g, m - 1)
    return R.par(i, m - 1, p0, 1) + R.par(g, m - 1, p1, 1)


def multi(a, n, controls, target, total):
    """Gate `a` on n consecutive qubits from `target`, controlled by the
    listed qubits, on `total` qubits (direct definition, entry by entry)."""
    out = np.zeros((2,) * (2 * total), dtype=object)
    for i in np.ndindex(*(2,) * total):
        for o in np.ndindex(*(2,) * total):
            if any(i[k] != o[k] for k in range(total)
                   if not target <= k < target + n):
                continue
            x, y = i[target:target + n], o[target:target + n]
            if all(i[c] for c in controls):
                v = a[tuple(x) + tuple(y)]
            else:
                v = int(x == y)
            out[i + o] = v
    return out


def on(a, qubits, total):
    """Gate `a` (k qubits) on the listed qubits of `total`, in that order."""
    k = len(qubits)
    rest = [q for q in range(total) if q not in qubits]
    r = R.par(a, k, R.eye([2] * len(rest)), len(rest))
    order = list(qubits) + rest
    inv = [order.index(q) for q in range(total)]
    return np.asarray(r).transpose([*inv, *[total + i for i in inv]])


# ---- mixed

D = {'q': 4, 'b': 2}


def dbl(a, n_in=None):
    """The doubled map of a pure map between qubits."""
    a = np.asarray(a)
    k = a.ndim
    r = np.asarray(np.multiply.outer(a, R.conj(a)))
    r = r.transpose([x for i in range(k) for x in (i, k + i)])
    return r.reshape((4,) * k)


MEASURE = np.zeros((4, 2), dtype=int)
MEASURE[0, 0] = MEASURE[3, 1] = 1
ENCODE = MEASURE.T
DISCARD = np.array([1, 0, 0, 1])


class Proc:
    """A map being built layer by layer: axes [inputs..., current wires...]"""

    def __init__(self, wires):
        self.inw = list(wires)
        self.w = list(wires)
        self.a = R.eye([D[x] for x in wires])

    def apply(self, a, n_in, cod, off):
        ni, n = len(self.inw), len(self.w)
        a = np.asarray(a)
        r = np.tensordot(self.a, a, axes=(
            [ni + off + i for i in range(n_in)], list(range(n_in)))) \
            if n_in else np.asarray(np.multiply.outer(self.a, a))
        # axes: inputs, left, right, outputs
        k = len(cod)
        rest = n - n_in
        order = ([*range(ni + off)] + [ni + rest + i for i in range(k)]
                 + [ni + i for i in range(off, rest)])
        self.a = np.asarray(r).transpose(order)
        self.w[off:off + n_in] = cod

    def swap(self, off):
        ni = len(self.inw)
        self.a = np.swapaxes(self.a, ni + off, ni + off + 1)
        self.w[off], self.w[off + 1] = self.w[off + 1], self.w[off]

    def result(self):
        """Axes in the order of mixed evaluation: bits, first and second
        indices of the qubits; inputs before outputs."""
        ws = self.inw + self.w
        shape, start = [], []
        for x in ws:
            start.append(len(shape))
            shape += [2, 2] if x == 'q' else [2]
        a = self.a.reshape(shape)
        ni = len(self.inw)
        order = []
        for lo, hi in ((0, ni), (ni, len(ws))):
            order += [start[i] for i in range(lo, hi) if ws[i] == 'b']
            order += [start[i] for i in range(lo, hi) if ws[i] == 'q']
            order += [start[i] + 1 for i in range(lo, hi) if ws[i] == 'q']
        return a.transpose(order)


class Pure(Proc):
    """A pure map being built layer by layer."""

    def __init__(self, wires):
        self.inw = list(wires)
        self.w = list(wires)
        self.a = R.eye([2] * len(wires))

    def result(self):
        return self.a
