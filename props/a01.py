"""A01: circuit ansaetze map words to well-typed circuits with their own
parameters."""
import itertools

import numpy as np

from props import numref as R
from props import qref as Q
from vsym.case import Suite
from vsym.lq import mk
from vsym.poly import arr_eq, phase

from lambeq.ansatz import IQPAnsatz, Sim4Ansatz, Sim9Ansatz, Sim9CxAnsatz, \
    Sim14Ansatz, Sim15Ansatz, StronglyEntanglingAnsatz
from lambeq.backend import grammar as g
from lambeq.backend import quantum as q
from lambeq.backend.grammar import Box, Cap, Cup, Spider, Swap, Ty, Word
from lambeq.backend.quantum import Bra, Controlled, Discard, H, Id, Ket, \
    qubit, Rx, Ry, Rz, Scalar
from lambeq.backend.symbol import Symbol

SUITE = Suite(
    'A01',
    bounds='the seven circuit ansaetze with 0-3 layers on words and boxes '
    'of up to 2 input and 2 output types, each type on 0-2 qubits (up to 3 '
    'qubits exactly with every phase symbolic; up to 6 qubits for the gate '
    'list, or where that differs for every value of any two consecutive '
    'phases), 0-4 single-qubit parameters and custom rotations, 0-2 ancillas '
    'given as number, mapping or function, discarding or post-selecting in '
    'two bases; two boxes with any names, inputs and outputs; sentences of '
    'up to 3 words with cups, caps, swaps, daggers and adjoint words; '
    'any order of application of one ansatz object',
    assumptions=['exact arithmetic', 'atomic type names without "_", "@" '
                 'or "."'],
    outside='drawing, custom ansatz subclasses')

N, S = Ty('n'), Ty('s')
ANS = {'iqp': IQPAnsatz, 's14': Sim14Ansatz, 's15': Sim15Ansatz,
       's4': Sim4Ansatz, 's9': Sim9Ansatz, 's9cx': Sim9CxAnsatz,
       'se': StronglyEntanglingAnsatz}


# ---- the published circuits as gate lists

def gates(kind, n, layers, single, rots, ranges=None):
    """[(gate, parameter or None, qubits)], number of parameters."""
    out = []
    if n == 0:
        return out, 0
    if n == 1:
        return [(rots[i % len(rots)], i, [0]) for i in range(single)], single
    k = 0
    for layer in range(layers):
        if kind == 'iqp':
            out += [('H', None, [i]) for i in range(n)]
            out += [('CRz', k + i, [i, i + 1]) for i in range(n - 1)]
            k += n - 1
        elif kind == 's14':
            out += [('Ry', k + i, [i]) for i in range(n)]
            out += [('CRx', k + n + i, [i, (i - 1) % n]) for i in range(n)]
            out += [('Ry', k + 2 * n + i, [i]) for i in range(n)]
            for j in range(n):
                s = (n - j) % n
                out.append(('CRx', k + 3 * n + j, [s, (s + 1) % n]))
            k += 4 * n
        elif kind == 's15':
            out += [('Ry', k + i, [i]) for i in range(n)]
            out += [('CX', None, [i, (i - 1) % n]) for i in range(n)]
            out += [('Ry', k + n + i, [i]) for i in range(n)]
            for j in range(n):
                s = (n - j) % n
                out.append(('CX', None, [s, (s + 1) % n]))
            k += 2 * n
        elif kind == 's4':
            out += [('Rx', k + i, [i]) for i in range(n)]
            out += [('Rz', k + n + i, [i]) for i in range(n)]
            out += [('CRx', k + 2 * n + i, [i, i + 1])
                    for i in range(n - 1)]
            k += 3 * n - 1
        elif kind == 'se':
            for i in range(n):
                out += [('Rz', k + 3 * i, [i]), ('Ry', k + 3 * i + 1, [i]),
                        ('Rz', k + 3 * i + 2, [i])]
            st = layer % (n - 1) + 1 if ranges is None else ranges[layer]
            out += [('CX', None, [i, (i + st) % n]) for i in range(n)]
            k += 3 * n
        else:
            two = {'s9': 'CZ', 's9cx': 'CX'}[kind]
            out += [('H', None, [i]) for i in range(n)]
            out += [(two, None, [i, i + 1]) for i in range(n - 1)]
            out += [('Rx', k + i, [i]) for i in range(n)]
            k += n
    if kind == 'iqp' and layers:
        out += [('H', None, [i]) for i in range(n)]
    return out, k


# ---- meaning of a circuit with symbols

class Amp:
    """Amplitudes: axes [inputs..., wires..., discarded...]"""

    def __init__(self, n):
        self.ni = self.n = n
        self.a = R.eye([2] * n)

    def apply(self, a, n_in, off):
        ni, n = self.ni, self.n
        a = np.asarray(a)
        k = a.ndim - n_in
        r = np.tensordot(self.a, a, axes=(
            [ni + off + i for i in range(n_in)], list(range(n_in)))) \
            if n_in else np.asarray(np.multiply.outer(self.a, a))
        h = self.a.ndim - ni - n
        rest = n - n_in
        base = ni + rest
        order = ([*range(ni + off)] + [base + h + i for i in range(k)]
                 + [ni + i for i in range(off, rest)]
                 + [base + i for i in range(h)])
        self.a = np.asarray(r).transpose(order)
        self.n += k - n_in

    def at(self, a, qs):
        self.apply(Q.on(a, qs, self.n), self.n, 0)

    def swap(self, off):
        self.a = np.swapaxes(self.a, self.ni + off, self.ni + off + 1)

    def discard(self, off):
        self.a = np.moveaxis(self.a, self.ni + off, -1)
        self.n -= 1

    def result(self):
        h = self.a.ndim - self.ni - self.n
        if not h:
            return self.a
        ax = [*range(self.a.ndim - h, self.a.ndim)]
        return np.asarray(np.tensordot(self.a, R.conj(self.a), axes=(ax, ax)))


class Phases:
    def __init__(self, ctx):
        self.ctx, self.ref = ctx, {}

    def __getitem__(self, name):
        if name not in self.ref:
            self.ref[name] = phase(self.ctx, f'p{len(self.ref)}')
        return self.ref[name]

    def of(self, data):
        if isinstance(data, Symbol):
            p = self[data.name]
            sc = data.scale
            return p if sc == 1 else p * sc
        return data


class Few(Phases):
    """Only the named parameters are symbolic, the others zero."""

    def __init__(self, ctx, live):
        super().__init__(ctx)
        self.live = live

    def __getitem__(self, name):
        return super().__getitem__(name) if name in self.live else 0


def box_array(ctx, b, ph):
    if isinstance(b, q.Daggered):
        a = box_array(ctx, b.box, ph)
        return R.dag(a, len(b.box.dom))
    if isinstance(b, Controlled):
        return Q.controlled(box_array(ctx, b.controlled, ph),
                            len(b.controlled.dom), b.distance)
    if isinstance(b, (Rx, Ry, Rz)):
        return Q.rotation(ctx, type(b).__name__, ph.of(b.phase))
    if isinstance(b, (Ket, Bra)):
        return np.array([1 - b.bit, b.bit])
    if isinstance(b, Scalar):
        return np.asarray(b.array)
    if b.name in ('H', 'X', 'Y', 'Z', 'S', 'T'):
        a = Q.fixed(ctx, b.name)
        return R.rot(a, 1) if b.z % 2 else a
    raise AssertionError(f'unexpected box {b!r}')


def meaning(ctx, c, ph):
    c = c.to_diagram()
    m = Amp(len(c.dom))
    wt_q(ctx, c)
    for layer in c.layers:
        left, b, right = layer.unpack()
        off = len(left)
        if isinstance(b, q.Swap):
            m.swap(off)
        elif isinstance(b, Discard):
            m.discard(off)
        else:
            m.apply(box_array(ctx, b, ph), len(b.dom), off)
    return m.result()


def wt_q(ctx, c):
    cur = list(c.dom)
    for layer in c.layers:
        left, b, right = layer.unpack()
        ctx.check(cur == [*left, *b.dom, *right], 'layer boundary')
        cur = [*left, *b.cod, *right]
    ctx.check(cur == list(c.cod), 'codomain')


def ref_gate(ctx, m, gate, par, qs):
    if gate[0] == 'C':
        a = ref_one(ctx, gate[1:], par)
        m.at(Q.controlled(a, 1, 1), qs)
    else:
        m.at(ref_one(ctx, gate, par), qs)


def ref_one(ctx, gate, p):
    return Q.rotation(ctx, gate, p) if gate[0] == 'R' else Q.fixed(ctx, gate)


# ---- parameters

def labels(ctx, c, n, stem=None):
    """The n symbols of one box, in order of their index, checked to have
    distinct names made of a common label and 0..n-1."""
    syms = list(c.free_symbols)
    ctx.check(len(syms) == n, f'{len(syms)} parameters, {n} advertised')
    by = {}
    for s in syms:
        head, _, tail = s.name.rpartition('_')
        ctx.check(tail.isdigit(), f'parameter name {s.name!r}')
        by.setdefault(head, []).append(int(tail))
    ctx.check(len(by) <= 1, 'one label for all parameters of a box')
    for head, ks in by.items():
        ctx.check(sorted(ks) == [*range(n)], f'parameters {ks}')
        if stem is not None:
            ctx.check(stem in head.replace('\\', ''),
                      'parameter name derived from the box name')
        return [f'{head}_{i}' for i in range(n)]
    return []


SHAPES = [((), (0,)), ((), (0, 1)), ((0,), (1,)), ((0,), ()), ((0, 1), (0,)),
          ((0,), (1, 0)), ((), ()), ((0, 1), (1,)), ((0, 0), (1, 1))]


def mk_ansatz(kind, ob, layers, single, discard=False, anc=0, basis=None,
              rots=None, ranges=None):
    kw = dict(n_layers=layers, n_single_qubit_params=single, discard=discard,
              n_ancillas=anc)
    if kind == 'se':
        if ranges is not None:
            kw['ranges'] = ranges
        return StronglyEntanglingAnsatz(ob, **kw)
    if basis is not None:
        kw['postselection_basis'] = basis
    if rots is not None:
        kw['single_qubit_rotations'] = rots
    return ANS[kind](ob, **kw)


def ref_box(ctx, ph, names, glist, dom, cod, anc, discard, basis):
    m = Amp(dom)
    for _ in range(max(0, cod - dom) + anc):
        m.apply(np.array([1, 0]), 0, m.n)
    for gate, k, qs in glist:
        ref_gate(ctx, m, gate, None if k is None else ph[names[k]], qs)
    for _ in range(max(0, dom - cod) + anc):
        if discard:
            m.discard(m.n - 1)
        else:
            if basis is not None:
                m.apply(Q.fixed(ctx, 'H'), 1, m.n - 1)
            m.apply(np.array([1, 0]), 1, m.n - 1)
    return m.result()


VARIANTS = ['plain', 'z', 'tymap', 'dict', 'fun', 'history', 'rots']


def one_box(ctx, kind, shape, layers, maxq):
    d, c = shape
    size = [ctx.small(f'q{i}', 0, 2) if i in d + c else 1 for i in (0, 1)]
    dom, cod = sum(size[i] for i in d), sum(size[i] for i in c)
    anc = ctx.small('anc', 0, 2)
    n = max(dom, cod) + anc
    ctx.assume(n <= maxq)
    heavy = kind in ('se', 's14') and n > 1 and layers
    var = ctx.choose('variant', VARIANTS[:1] if heavy else VARIANTS)
    single = ctx.small('single', 0, 4) if n == 1 else 3
    rots, rot_names = None, ['Rx', 'Rz']
    if kind == 'se':
        rot_names = ['Rz', 'Ry']
        ctx.assume(var != 'rots')
    elif var == 'rots':
        ctx.assume(n == 1)
        rots, rot_names = [Ry, Rx, Rx], ['Ry', 'Rx', 'Rx']
    extras = max(0, dom - cod) + anc
    post = 'post'
    if extras:
        post = ctx.choose('post', ['post', 'discard'] + (
            ['H'] if kind != 'se' else []))
    discard, basis = post == 'discard', H if post == 'H' else None
    wd = [[N, S][i] for i in d]
    wc = [[N, S][i] for i in c]
    if var == 'z':
        wd = [x.rotate(ctx.small('z', -2, 2)) for x in wd]
        wc = [x.r for x in wc]
    b = Box('w', mk(wd), mk(wc))
    other = Box('x', N, N)
    ctx.assume(var not in ('dict', 'fun') or anc)
    ancs = {'dict': {b: anc, other: 1},
            'fun': lambda x: anc if x == b else 1}.get(var, anc)
    ob = {N: size[0], S: size[1]}
    if var == 'tymap':
        ob = {k: qubit ** v for k, v in ob.items()}
    a = mk_ansatz(kind, ob, layers, single, discard, ancs, basis, rots)
    if var == 'history':
        a(other)
    circ = a(b).to_diagram()
    glist, k = gates(kind, n, layers, single, rot_names)
    names = labels(ctx, circ, k, 'w')
    ctx.check(circ.dom == qubit ** dom, 'domain')
    ctx.check(circ.cod == qubit ** cod, 'codomain')
    return circ, (names, glist, dom, cod, anc, discard, basis)


@SUITE.case(quick=lambda: [dict(kind=k, shape=s, layers=l, maxq=2)
                           for k in ANS for s in SHAPES for l in (0, 1)
                           if not (l and k in ('s14', 'se')
                                   and s not in SHAPES[:4])],
            thorough=lambda: [dict(kind=k, shape=s, layers=l,
                                   maxq=3 if l < 2 and k not in ('se', 's14')
                                   else 2)
                              for k in ANS for s in SHAPES
                              for l in (0, 1, 2)
                              if not (l == 2 and k in ('se', 's14'))])
def box(ctx, kind, shape, layers, maxq):
    circ, r = one_box(ctx, kind, shape, layers, maxq)
    ph = Phases(ctx)
    arr_eq(ctx, meaning(ctx, circ, ph), ref_box(ctx, ph, *r), 'circuit')


def foata(glist):
    """Normal form of a gate list up to exchanging gates on different
    qubits."""
    lev, out = {}, []
    for gate, k, qs in glist:
        l = max([lev.get(x, 0) for x in qs])
        for x in qs:
            lev[x] = l + 1
        while len(out) <= l:
            out.append([])
        qs = sorted(qs) if gate in ('CRz', 'CZ') else list(qs)
        out[l].append((gate, k, tuple(qs)))
    return [sorted(x, key=str) for x in out]


def gate_list(c, names):
    idx = {s: i for i, s in enumerate(names)}
    out = []
    pos = list(range(len(c.dom)))
    new = len(pos)
    for layer in c.layers:
        left, b, right = layer.unpack()
        o = len(left)
        if isinstance(b, q.Swap):
            pos[o], pos[o + 1] = pos[o + 1], pos[o]
            continue
        k, nm = None, b.name
        qs = pos[o:o + len(b.dom)]
        if isinstance(b, Controlled):
            if isinstance(b.controlled, Controlled):
                return None
            qs = [qs[0], qs[-1]] if b.distance > 0 else [qs[-1], qs[0]]
            b, nm = b.controlled, 'C'
        else:
            nm = ''
        if isinstance(b, (Rx, Ry, Rz)):
            if not isinstance(b.phase, Symbol) or b.phase.scale != 1 \
                    or b.phase.name not in idx:
                return None
            k = idx[b.phase.name]
            nm += type(b).__name__
        elif b.name in ('H', 'X', 'Z'):
            nm += b.name
        else:
            return None
        out.append((nm, k, qs))
    return out if pos == sorted(pos) else None


@SUITE.case(quick=lambda: [dict(kind=k, n=n, layers=l)
                           for k in ANS for n in (3, 4) for l in (1, 2)]
            + [dict(kind='se', n=n, layers=l) for n, l in (
                (2, 2), (2, 3), (3, 3), (3, 4), (4, 4))],
            thorough=lambda: [dict(kind=k, n=n, layers=l) for k in ANS
                              for n in (3, 4, 5, 6) for l in (1, 2, 3, 4)])
def wide(ctx, kind, n, layers):
    """More qubits and layers: the gates are the published ones (exactly,
    or else with the same meaning for every value of any two consecutive
    phases, the others being zero)."""
    ranges = None
    if kind == 'se' and ctx.bool('ranges'):
        ranges = [ctx.small(f'r{i}', 1, n - 1) for i in range(layers)]
    sp = ctx.small('split', 0, 2)
    a = mk_ansatz(kind, {N: n - sp, S: sp}, layers, 3, ranges=ranges)
    d = [N, S] if sp else [N]
    c = mk(d)
    b = Box('w', c, c)
    circ = a(b).to_diagram()
    glist, k = gates(kind, n, layers, 3, None, ranges)
    names = labels(ctx, circ, k, 'w')
    ctx.check(circ.dom == qubit ** n and circ.cod == qubit ** n, 'type')
    got = gate_list(circ, names)
    if got is not None and foata(got) == foata(glist):
        ctx.check(True, 'gates')
        return
    ph = Phases(ctx)
    if k > 6:
        live = names[:1]
        if not sp and ranges is None:
            first = ctx.small('live', 0, k - 1)
            live = names[first:first + 2]
        ph = Few(ctx, live)
    arr_eq(ctx, meaning(ctx, circ, ph),
           ref_box(ctx, ph, names, glist, n, n, 0, False, None), 'circuit')


@SUITE.case(quick=lambda: [dict(n=n, layers=l) for n in (2, 3)
                           for l in (1, 2)])
def ranges(ctx, n, layers):
    """Ranges that do not fit are refused."""
    rs = [ctx.small(f'r{i}', 1, n + 1) for i in range(
        ctx.small('len', 0, layers + 1))]
    try:
        a = StronglyEntanglingAnsatz({N: n}, layers, ranges=rs)
    except ValueError:
        ctx.check(len(rs) != layers, 'ranges refused')
        return
    ctx.check(len(rs) == layers, 'wrong number of ranges accepted')
    try:
        a(Word('w', N))
    except ValueError:
        ctx.check(any(r >= n for r in rs), 'range refused')
        return
    ctx.check(all(r < n for r in rs), 'range too large accepted')


# ---- sharing of parameters

WORDS = ['a', 'b', 'a_', 'a_0', 'a n', 'a:', 'a\\', 'a__n']


def some_box(ctx, p, pool, rich):
    nm = ctx.choose(p + 'n', pool)
    tys = [N, S, N.r, N @ S, Ty()] + ([S @ N, N.l, N @ N, S.r @ N]
                                      if rich else [])
    dom = ctx.choose(p + 'd', tys)
    cod = ctx.choose(p + 'c', tys)
    return Box(nm, dom, cod)


@SUITE.case(quick=lambda: [dict(kind=k, i=i) for k in ('iqp', 's14', 'se')
                           for i in range(3)],
            thorough=lambda: [dict(kind=k, i=i, rich=True) for k in ANS
                              for i in range(len(WORDS))])
def sharing(ctx, kind, i, rich=False):
    """Boxes share parameters exactly when they are the same box, whatever
    was converted before and by which ansatz object."""
    ob = {N: 1, S: ctx.small('qs', 1, 2)}
    a = mk_ansatz(kind, ob, 1, 3)
    x = some_box(ctx, 'x', [WORDS[i]], rich)
    y = some_box(ctx, 'y', WORDS if rich else WORDS[:4], rich)
    fx, fy = a(x).free_symbols, a(y).free_symbols
    same = (x.name == y.name and x.dom == y.dom and x.cod == y.cod)
    if same:
        ctx.check(set(fx) == set(fy), 'equal boxes share parameters')
    else:
        ctx.check(not set(s.name for s in fx) & set(s.name for s in fy),
                  'different boxes have different parameters')
    e = mk_ansatz(kind, ob, 1, 3)
    gy, gx = e(y).free_symbols, e(x).free_symbols
    ctx.check(set(gx) == set(fx) and set(gy) == set(fy),
              'independent of the order of application')
    w = a(Word(x.name, x.cod)).free_symbols
    if not x.dom:
        ctx.check(set(w) == set(fx), 'word and box')


# ---- diagrams

def sentence(ctx, form):
    a, v, b = Word('a', N), Word('v', N.r @ S @ N.l), Word('b', N)
    i = Word('i', N.r @ S)
    return {
        'sv': lambda: a @ i >> Cup(N, N.r) @ S,
        'svo': lambda: a @ v @ b >> Cup(N, N.r) @ S @ Cup(N.l, N),
        'bent': lambda: a @ i.dagger().dagger() >> Cup(N, N.r) @ S,
        'rot': lambda: (a.l @ b >> Cup(N.l, N)),
        'rotr': lambda: (b @ a.r >> Cup(N, N.r)),
        'swap': lambda: (a @ i >> Cup(N, N.r) @ S) @ b >> Swap(S, N),
        'cap': lambda: Cap(N.r, N) @ a >> N.r @ Swap(N, N) >> Cup(
            N.r, N.rr) @ N if 0 else a >> N @ Cap(N.r, N) >> Cup(N, N.r) @ N,
        'dag': lambda: (a @ i >> Cup(N, N.r) @ S) >> Word('k', S).dagger(),
        'box': lambda: a @ b >> Swap(N, N) >> Box('f', N @ N, S),
        'boxr': lambda: a @ b >> Box('f', S.l, (N @ N).l).l.dagger()
        if 0 else a.r >> Box('f', N, S).r,
    }[form]()


FORMS = ['sv', 'svo', 'bent', 'rot', 'rotr', 'swap', 'cap', 'dag', 'box',
         'boxr']


def wires(ty, size):
    return sum(size[x.name] for x in ty)


def ref_meaning(ctx, a, d, size, ph):
    """The meaning of the converted diagram from the meanings of its boxes
    (each converted on its own) and the grammatical wiring."""
    d = d.to_diagram()
    m = Amp(wires(d.dom, size))
    for layer in d.layers:
        left, b, right = layer.unpack()
        off = wires(left, size)
        if isinstance(b, Swap):
            k, l = wires(b.left, size), wires(b.right, size)
            arr = R.perm([2] * (k + l), [*range(k, k + l), *range(k)])
            m.apply(arr, k + l, off)
        elif isinstance(b, (Cup, Cap)):
            k = wires(b.left, size)
            arr = R.cup([2] * k)
            m.apply(arr, 2 * k if isinstance(b, Cup) else 0, off)
        else:
            ops = []
            x = b
            z = getattr(x, 'z', 0)
            dag = isinstance(x, g.Daggered)
            if dag:
                x = x.box
                z = x.z
            x = x.rotate(-z)
            arr = meaning(ctx, a(x), ph)
            ni = wires(x.dom, size)
            if z % 2:
                arr = R.rot(arr, ni)
            if dag:
                arr = R.dag(arr, ni)
                ni = arr.ndim - ni
            m.apply(arr, ni, off)
    return m.result()


@SUITE.case(quick=lambda: [dict(kind=k, form=f, maxq=1 if k != 'iqp' else 2)
                           for k in ('iqp', 's14', 'se') for f in FORMS],
            thorough=lambda: [dict(kind=k, form=f, maxq=2) for k in ANS
                              for f in FORMS])
def diagram(ctx, kind, form, maxq):
    size = {'n': ctx.small('qn', 0, maxq), 's': ctx.small('qs', 0, maxq)}
    d = sentence(ctx, form).to_diagram()
    for b in d.boxes:
        ctx.assume(max(wires(b.dom, size), wires(b.cod, size)) <= 3)
    ctx.assume(wires(d.dom, size) <= 3)
    ob = {N: size['n'], S: size['s']}
    layers = ctx.small('layers', 0, 1)
    a = mk_ansatz(kind, ob, layers, 1)
    c = a(d)
    ctx.check(c.dom == qubit ** wires(d.dom, size)
              and c.cod == qubit ** wires(d.cod, size), 'type')
    ph = Phases(ctx)
    r = ref_meaning(ctx, mk_ansatz(kind, ob, layers, 1), d, size, ph)
    arr_eq(ctx, meaning(ctx, c, ph), r, 'meaning of the sentence')
    ctx.check(set(c.free_symbols) == {s for b in d.boxes
                                      for s in a(b).free_symbols},
              'parameters of the sentence')


@SUITE.case(quick=[dict(kind=k) for k in ANS])
def frames(ctx, kind):
    """Diagrams with frames are refused."""
    a = mk_ansatz(kind, {N: 1, S: 1}, 1, 1)
    f = g.Frame('f', N, S, components=[Word('w', N)])
    d = ctx.choose('d', [
        f, f.to_diagram(), f.dagger(), Word('a', N) >> f,
        Word('a', N) @ Word('b', S) >> f @ S, f >> Box('g', S, N)])
    try:
        a(d)
        ok = False
    except RuntimeError:
        ok = True
    ctx.check(ok, 'a diagram with frames is accepted')
