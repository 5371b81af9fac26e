"""Q04: circuits exported to and imported from tket denote the circuit."""
import itertools
from fractions import Fraction

import numpy as np
import pytket as tk
import sympy

from props import numref as R
from props import qref as Q
from props import q03
from props.q03 import CTRL, SIGQ, Zero, apply_pure, build, cases, closed, \
    layered, snapshot, sq
from vsym.case import Suite
from vsym.core import And, Or
from vsym.poly import Ang, arr_eq, centry, phase

from lambeq.backend import quantum as q
from lambeq.backend.converters import tk as ltk
from lambeq.backend.converters.tk import Circuit, from_tk, to_tk
from lambeq.backend.quantum import Bit, Bra, Controlled, Discard, Encode, \
    Id, Ket, Measure, MixedState, Rx, Ry, Rz, S, Scalar, SWAP, Swap, T, X, \
    Y, Z, H, bit, qubit
from lambeq.backend.symbol import Symbol

SUITE = Suite(
    'Q04',
    bounds='export, import and round trip of circuits of up to 3 (quick) / '
    '4 (thorough) layers of the supported gates at every placement on up to '
    '4 wires, phases being scaled symbols (any value) or the literals 0, '
    '1/4, -1/2, 1; imported tket circuits of up to 3 gates on 3 qubits '
    '(or 1 on 4) '
    'with every assignment of measured qubits to bits, every '
    'post-selection and two register layouts; renaming (every permutation), '
    'copying, adding bits and two steps of post-processing of circuits of up '
    'to 3 measured qubits; counts of 2 bits symbolic',
    assumptions=['exact arithmetic', 'pytket keeps the commands it is given '
                 '(gates on different qubits may be reordered)'],
    outside='compilation passes, real backends, mid-circuit measurement')

SUPPORTED = {'ket', 'bra', 'discard', 'measure', 'swap', 'scalar', 'sqrt',
             'Rx', 'Ry', 'Rz', 'Sdg', 'Tdg', 'CX', 'CZ2', 'CX-2', 'CRz',
             'CRy-', 'CRx2', 'CRy', 'CCX', 'CCX+-', 'CCX--', 'CCX+2',
             'CCX2-', 'CCX-2+', 'Sr', 'Tr', 'Yr', 'Sdgr', 'X', 'Y', 'Z', 'H',
             'S', 'T'}
SCALES = [Fraction(-1), Fraction(1, 2), Fraction(2)]
LITERALS = [Fraction(0), Fraction(1, 4), Fraction(-1, 2), Fraction(1)]


class Params:
    """Phases given to the code as scaled symbols or literals; the symbols
    stand for arbitrary real phases in the reference."""

    def __init__(self, ctx, mode='symbol', scalars='symbolic'):
        self.ctx, self.mode, self.scalars = ctx, mode, scalars
        self.ref = {}

    def new(self, name):
        ctx = self.ctx
        if self.mode != 'symbol' and name[0] == 'i':
            v = LITERALS[1]
            return float(v), v
        if self.mode == 'literal':
            v = ctx.choose(name, LITERALS)
            return float(v), v
        p = phase(ctx, name, D=2)
        sc = Fraction(1)
        if self.mode == 'scaled':
            sc = ctx.choose(name + 's', SCALES)
        self.ref[name] = p
        sym = Symbol(name) if sc == 1 else Symbol(name, scale=float(sc))
        return sym, p * (sc if ctx.symbolic else float(sc))

    def scalar(self, ctx, name):
        if self.scalars == 'symbolic':
            return centry(ctx, name)
        return ctx.choose(name, [0, 2, 0.5j, -0.5])

    def value(self, x):
        """A tket parameter (half turns) as a phase (full turns)."""
        if isinstance(x, sympy.Expr) and x.free_symbols:
            c, s = x.as_coeff_Mul()
            assert isinstance(s, sympy.Symbol), x
            f = Fraction(float(c)).limit_denominator(4096) / 2
            return self.ref[s.name] * (f if self.ctx.symbolic else float(f))
        return Fraction(float(x)).limit_denominator(4096) / 2


def op_matrix(ctx, op, pars):
    name = op.type.name
    k = 0
    while name.startswith('C'):
        name, k = name[1:], k + 1
    if name in ('Rx', 'Ry', 'Rz'):
        a = Q.rotation(ctx, name, pars.value(op.params[0]))
    elif name == 'SWAP':
        a = R.perm([2, 2], [1, 0])
    elif name.endswith('dg'):
        a = R.dag(Q.fixed(ctx, name[:-2]), 1)
    else:
        a = Q.fixed(ctx, name)
    for _ in range(k):
        a = Q.controlled(a, a.ndim // 2, 1)
    return a


def tk_semantics(ctx, c, pars, post=None, scalar=None):
    """Weights of the bits of a tket circuit which are not post-selected,
    in the order of the bits."""
    post = c.post_selection if post is None else post
    n = c.n_qubits
    qi = {x: i for i, x in enumerate(c.qubits)}
    bi = {x: i for i, x in enumerate(c.bits)}
    a = np.zeros((2,) * n, dtype=object)
    a[(0,) * n] = 1
    meas = {}
    for g in c.get_commands():
        qs = [qi[x] for x in g.qubits]
        ctx.check(not any(x in meas for x in qs), 'gate after measurement')
        if g.op.type.name == 'Measure':
            ctx.check(bi[g.bits[0]] not in meas.values(), 'bit reused')
            meas[qs[0]] = bi[g.bits[0]]
        else:
            a = apply_pure(a, op_matrix(ctx, g.op, pars), qs)
    pr = sq(a)
    ctx.check(sorted(meas.values()) == [*range(len(c.bits))],
              'every bit is measured')
    ctx.check(set(post) <= set(meas.values()), 'post-selected bits')
    idx = [post.get(meas[i], slice(None)) if i in meas else slice(None)
           for i in range(n)]
    left = [i for i in range(n) if idx[i] == slice(None)]
    pr = np.asarray(pr[tuple(idx)], dtype=object)
    for i in reversed(list(left)):
        if i not in meas:
            pr = np.asarray(pr.sum(axis=left.index(i)), dtype=object)
            left.remove(i)
    pr = pr.transpose([left.index(i) for i in sorted(left, key=meas.get)])
    s = c.scalar if scalar is None else scalar
    out = np.empty(pr.shape, dtype=object)
    for i in np.ndindex(pr.shape):
        out[i] = pr[i] * s
    return out


def bind(d, pars):
    """The imported diagram with the phases put in for its symbols."""
    syms = sorted(d.free_symbols)
    if not syms:
        return d
    return d.lambdify(*syms)(*[pars.ref[s.name] for s in syms])


def keep(ks):
    return all(k in SUPPORTED for k in ks)


def q_export():
    out = []
    for c in q03.quick():
        if keep(c['ks']):
            out += [dict(c, mode='symbol')]
    par = [('Rx',), ('Ry',), ('Rz',), ('CRx2',), ('CRy',), ('CRy-',),
           ('CRz',)]
    out += [dict(c, mode=m) for c in cases(par, (2, 3), 3)
            for m in ('scaled', 'literal')]
    out += [dict(c, mode=m) for c in cases(
        [('Rx', 'CRz'), ('H', 'Rz')], (1, 2), 3)
        for m in ('scaled', 'literal')]
    return out


def t_export():
    return q_export() + [
        dict(c, mode='symbol') for c in q03.thorough() if keep(c['ks'])][
        len([c for c in q03.quick() if keep(c['ks'])]):]


@SUITE.case(quick=q_export, thorough=t_export, max_witness=8)
def export(ctx, ks, n, maxq, mode):
    pars = Params(ctx, mode)
    d, ref = build(ctx, n, ks, maxq, pars)
    want = closed(ref)
    snap = snapshot(d)
    c = to_tk(d)
    ctx.check(snap == snapshot(d), 'the argument is not changed')
    ctx.check(isinstance(c, Circuit), 'kind')
    arr_eq(ctx, tk_semantics(ctx, c, pars), want, 'tket circuit')
    ctx.check(c.post_processing == Id(bit ** ref.w.count('b')),
              'post-processing')


# ---- direct circuital input, without conversion

@SUITE.case(quick=[dict(n=n, m=m) for n in (1, 2, 3)
                   for m in itertools.product('dbm', repeat=n)])
def circuital(ctx, n, m):
    """A circuit which already is in circuital form."""
    pars = Params(ctx)
    ks = [ctx.small(f'k{i}', 0, 1) for i in range(n)]
    st = Zero(0)
    d = Id()
    for i, k in enumerate(ks):
        d = d >> qubit ** i @ Ket(k)
        st.apply(np.array([1 - k, k]), 0, ['q'], i)
    for i in range(n):
        x, a = q03.one(ctx, 'Ry' if i < 2 else 'H', f'r{i}', pars)
        d = d >> qubit ** i @ x @ qubit ** (n - i - 1)
        st.apply(a, 1, ['q'], i)
    if n > 1:
        d = d >> Controlled(X, n - 1)
        st.apply(Q.controlled(Q.fixed(ctx, 'X'), 1, n - 1), n, ['q'] * n, 0)
    l = 0
    for i, x in enumerate(m):
        if x == 'b':
            b = ctx.small(f'b{i}', 0, 1)
            box = Bra(b)
            st.apply(np.array([1 - b, b]), 1, [], l)
        elif x == 'd':
            box = Discard()
            st.discard(l)
        else:
            box = Measure()
            st.measure(l)
        d = d >> bit ** l @ box @ qubit ** (n - i - 1)
        l += x == 'm'
    arr_eq(ctx, tk_semantics(ctx, to_tk(d), pars), closed(st), 'tket circuit')


# ---- round trip

PREP = ('ket', 'bra', 'discard', 'swap', 'CX', 'measure', 'scalar')


def q_trip():
    one = [(k,) for k in SIGQ if k in SUPPORTED]
    out = cases(one, (0, 2, 3), 4)
    out += cases(itertools.product(PREP, repeat=2), (0, 2), 3)
    out += cases([('ket', 'swap', 'measure'), ('measure', 'ket', 'CX'),
                  ('measure', 'swap', 'measure'), ('bra', 'CX', 'measure'),
                  ('CX', 'measure', 'swap'), ('CCX', 'CCX+-'),
                  ('measure', 'CX-2'), ('measure', 'CX', 'measure'),
                  ('CX', 'Sdg', 'CX')], (2, 3), 3)
    out = [dict(c, mode='symbol') for c in out]
    out += [dict(c, mode=m) for c in cases(
        [('Rx',), ('Ry',), ('Rz', 'H'), ('CRx2',), ('CRy',), ('CRz',)],
        (2,), 3)
        for m in ('scaled', 'literal')]
    return out


def t_trip():
    return q_trip() + [dict(c, mode='symbol') for c in cases(
        itertools.product(PREP, repeat=3), (0, 2, 3), 3)]


@SUITE.case(quick=q_trip, thorough=t_trip, max_witness=8)
def round_trip(ctx, ks, n, maxq, mode):
    pars = Params(ctx, mode, 'literal')
    d, ref = build(ctx, n, ks, maxq, pars)
    c = to_tk(d)
    e = from_tk(c)
    check_typed(ctx, e, ref.w.count('b'))
    ctx.check(set(s.name for s in e.free_symbols)
              == set(s.name for s in d.free_symbols)
              or mode == 'scaled', 'free symbols')
    arr_eq(ctx, closed(layered(ctx, bind(e, pars))), closed(ref),
           'imported circuit')
    e2 = from_tk(to_tk(e))
    arr_eq(ctx, closed(layered(ctx, bind(e2, pars))), closed(ref),
           'imported twice')


def check_typed(ctx, e, nbits):
    ctx.check(len(e.dom) == 0 and e.cod == bit ** nbits, 'type')
    cur = e.dom
    for l in e.layers:
        ctx.check(l.dom == cur, 'layers are typed')
        cur = l.cod
    ctx.check(cur == e.cod, 'layers are typed')


# ---- import

OPS = {'H': 1, 'X': 1, 'Y': 1, 'Z': 1, 'S': 1, 'T': 1, 'Sdg': 1, 'Tdg': 1,
       'Rx': 1, 'Ry': 1, 'Rz': 1, 'CX': 2, 'CY': 2, 'CZ': 2, 'CRx': 2,
       'CRy': 2, 'CRz': 2, 'SWAP': 2, 'CCX': 3}


def q_import():
    out = []
    for g in OPS:
        for m in itertools.permutations(range(3)):
            out.append(dict(gs=(g,), m=m, post=(), kind='lambeq'))
    for p in ((0,), (1,), (2,), (0, 2), (0, 1, 2)):
        for m in itertools.permutations(range(3)):
            out.append(dict(gs=('CX', 'CRz'), m=m, post=p, kind='lambeq'))
    for k in ('plain', 'registers'):
        for g in ('CX', 'CRy', 'SWAP', 'T', 'CCX'):
            for m in itertools.permutations(range(3)):
                out.append(dict(gs=(g,), m=m, post=(), kind=k))
    # gates anywhere in a wider register
    for g in ('CCX', 'CX', 'CRz', 'SWAP', 'Sdg'):
        out.append(dict(gs=(g,), m=(0, 1, 2, 3), post=(), kind='plain', n=4))
    # some qubits are not measured
    for m in ((0,), (None, 0), (None, None, 0), (1, None, 0), (1, 0),
              (None, 1, 0), ()):
        for p in ((), (0,)):
            if len(m) >= len(p):
                out.append(dict(gs=('CX', 'H'), m=m, post=p, kind='lambeq'))
    return out


def t_import():
    return q_import() + [
        dict(gs=gs, m=m, post=p, kind='lambeq')
        for gs in itertools.product(('H', 'Ry', 'CX', 'CRz', 'SWAP', 'Sdg'),
                                    repeat=2)
        for m in itertools.permutations(range(3)) for p in ((), (1,))]


@SUITE.case(quick=q_import, thorough=t_import, max_witness=4)
def imported(ctx, gs, m, post, kind, n=3):
    pars = Params(ctx)
    nb = len([x for x in m if x is not None])
    ctx.assume(all(p < nb for p in post))
    if kind == 'registers':
        c = tk.Circuit()
        c.add_q_register('b', 2)
        c.add_q_register('a', 1)
        c.add_c_register('d', 1)
        c.add_c_register('c', 2)
        qs, bs = list(c.qubits), list(c.bits)
    else:
        c = Circuit(n, nb) if kind == 'lambeq' else tk.Circuit(n, nb)
        qs, bs = list(c.qubits), list(c.bits)
    for i in range(2):
        name = f'a{i}'
        pars.ref[name] = phase(ctx, name, D=2)
        c.Ry(2 * sympy.Symbol(name), qs[i])
    for i in range(2, n):
        c.H(qs[i])
    for j, g in enumerate(gs):
        on = ctx.choose(f'on{j}', list(itertools.permutations(range(n),
                                                              OPS[g])))
        args = [qs[i] for i in on]
        if 'R' in g:
            name = f'p{j}'
            pars.ref[name] = phase(ctx, name, D=2)
            sc = ctx.choose(f's{j}', [1, -2] if len(gs) == 1 else [-1])
            getattr(c, g)(sc * sympy.Symbol(name), *args)
        else:
            getattr(c, g)(*args)
    for i, b in enumerate(m):
        if b is not None:
            c.Measure(qs[i], bs[b])
    sel, scalar = {}, 1
    if kind == 'lambeq':
        for p in post:
            sel[p] = ctx.small(f'v{p}', 0, 1)
        if sel:
            c.post_select(sel)
        scalar = ctx.choose('scalar', [1, 4, 0] if len(gs) == 1 else [1])
        if scalar != 1:
            c.scale(scalar)
    want = tk_semantics(ctx, c, pars, sel, scalar)
    before = [str(x) for x in c.get_commands()]
    e = from_tk(c)
    ctx.check([str(x) for x in c.get_commands()] == before,
              'the argument is not changed')
    check_typed(ctx, e, want.ndim)
    arr_eq(ctx, closed(layered(ctx, bind(e, pars))), want,
           'imported circuit')


# ---- refusal

def refused(ctx, f, msg):
    try:
        r = f()
    except Exception:
        ctx.check(True, msg)
        return
    ctx.fail(f'{msg} not refused: {r!r}')


UNSUP = {
    'CS': lambda p: Controlled(S), 'CY': lambda p: Controlled(Y),
    'CT-': lambda p: Controlled(T, -1), 'CH': lambda p: Controlled(H),
    'CSdg': lambda p: Controlled(S.dagger()),
    'CCRz': lambda p: Controlled(Controlled(Rz(p))),
    'CCCX': lambda p: Controlled(Controlled(Controlled(X))),
    'CSWAP': lambda p: Controlled(SWAP),
    'CCZ': lambda p: Controlled(Controlled(Z)),
    'encode': lambda p: Encode(), 'bit': lambda p: Bit(0),
    'bit1': lambda p: Bit(1),
    'mixed': lambda p: MixedState(),
    'custom': lambda p: q.Box('f', qubit, qubit),
    'custom H': lambda p: q.Box('f', qubit ** 2, qubit),
}


@SUITE.case(quick=[dict(k=k, n=n) for k in UNSUP for n in (0, 1)])
def unsupported(ctx, k, n):
    box = UNSUP[k](Symbol('p'))
    refused(ctx, lambda: to_tk(Id(qubit ** n) @ box >> Id(qubit ** n)
                               @ Id(box.cod)), k)


@SUITE.case(quick=[dict(k=k) for k in (
    'V', 'SX', 'TK1', 'CH', 'CSX', 'ZZPhase', 'ISWAP', 'U3',
    'Reset', 'CSWAP', 'mid', 'midpost', 'twice', 'samebit', 'sum',
    'product')])
def unsupported_tk(ctx, k):
    c = Circuit(3, 2)
    i = ctx.small('i', 0, 2)
    j, l = (i + 1) % 3, (i + 2) % 3
    a, b = sympy.symbols('a b')
    if k in ('V', 'SX', 'Reset'):
        getattr(c, k)(i)
    elif k == 'TK1':
        c.TK1(a, a, b, i)
    elif k == 'U3':
        c.U3(a, a, b, i)
    elif k in ('CH', 'CSX'):
        getattr(c, k)(i, j)
    elif k == 'ZZPhase':
        c.ZZPhase(a, i, j)
    elif k == 'ISWAP':
        c.ISWAP(a, i, j)
    elif k == 'CSWAP':
        c.CSWAP(i, j, l)
    elif k == 'mid':
        c.Measure(i, 0).H(i)
    elif k == 'midpost':
        c.Measure(i, 0).H(i).post_select({0: 0})
    elif k == 'twice':
        c.Measure(i, 0).Measure(i, 1)
    elif k == 'samebit':
        c.Measure(i, 0).Measure(j, 0)
    elif k == 'sum':
        c.Rx(a + b, i)
    else:
        c.Rz(a * b, i)
    refused(ctx, lambda: from_tk(c), k)


# ---- counts

class Backend:
    def __init__(self, counts):
        self.counts = counts
        self.got = None

    def process_circuits(self, circuits, n_shots=None, seed=None, **kw):
        self.got = list(circuits)
        return list(range(len(self.got)))

    def get_result(self, h):
        class Result:
            def get_counts(_):
                return dict(self.counts[h])
        return Result()


def q_counts():
    out = []
    for nb in (1, 2, 3):
        for k in range(nb + 1):
            for p in itertools.combinations(range(nb), k):
                for sc in (True, False):
                    for ps in (True, False):
                        for nm in (True, False):
                            if nb < 3 or (sc and ps):
                                out.append(dict(nb=nb, p=p, scale=sc,
                                                post=ps, norm=nm))
    return out


@SUITE.case(quick=q_counts, max_witness=4)
def counts(ctx, nb, p, scale, post, norm):
    strings = list(itertools.product((0, 1), repeat=nb))
    circs, cnts, sels, scs = [], [], [], []
    for j in range(2):
        c = Circuit(nb, nb)
        sel = {i: ctx.small(f'v{j}{i}', 0, 1) for i in p}
        c.post_select(sel)
        s = ctx.real(f'sc{j}')
        c.scale(s)
        cn = {b: ctx.real(f'c{j}' + ''.join(map(str, b))) for b in strings}
        if norm:
            tot = sum(cn.values())
            ctx.assume(tot > 0)
            for v in cn.values():
                ctx.assume(v >= 0)
        circs.append(c), cnts.append(cn), sels.append(sel), scs.append(s)
    be = Backend(cnts)
    got = circs[0].get_counts(circs[1], backend=be, scale=scale,
                              post_select=post, normalize=norm)
    ctx.check(len(got) == 2 and len(be.got) == 2
              and all(a is b for a, b in zip(be.got, circs)), 'circuits')
    for j in range(2):
        tot = sum(cnts[j].values()) if norm else 1
        want = {}
        for b in strings:
            if post:
                if any(b[i] != v for i, v in sels[j].items()):
                    continue
                key = tuple(x for i, x in enumerate(b) if i not in p)
            else:
                key = b
            want[key] = cnts[j][b] / tot * (scs[j] if scale else 1)
        if norm and ctx.symbolic:
            # outcomes that never occur may be left out
            for key, v in want.items():
                g = got[j].get(key, 0)
                ctx.check(close(ctx, g, v), f'counts of circuit {j}')
            ctx.check(set(got[j]) <= set(want), 'outcomes')
            continue
        ctx.check(set(got[j]) <= set(want), 'outcomes')
        for key in want:
            ctx.check(close(ctx, got[j].get(key, 0), want[key]),
                      f'counts of circuit {j}')


def close(ctx, a, b):
    if not ctx.symbolic:
        return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))
    return ctx.eq(a, b)


@SUITE.case(quick=[dict(m=m, shape=s) for m in (
    ('m', 'm'), ('m', 'b'), ('b', 'm'), ('d', 'm'), ('b', 'd', 'm'),
    ('m', 'd', 'b'), ('b',), ('m', 'b', 'm')) for s in (1, 2)],
    max_witness=4)
def eval_backend(ctx, m, shape):
    """Diagram.eval on a backend arranges the counts of the backend."""
    n = len(m)
    sel, bits = {}, 0
    d = Ket(*[0] * n) >> Id().tensor(*[H] * n)
    last = []
    for i, x in enumerate(m):
        if x == 'b':
            v = ctx.small(f'v{i}', 0, 1)
            sel[bits] = v
            last.append(Bra(v))
        else:
            last.append(Discard() if x == 'd' else Measure())
        bits += x != 'd'
    d = d >> Id().tensor(*last)
    strings = list(itertools.product((0, 1), repeat=bits))
    cns = [{b: ctx.real(f'c{j}' + ''.join(map(str, b))) for b in strings}
           for j in range(shape)]
    be = Backend(cns)

    class Np:
        def __getattr__(self, k):
            return getattr(np, k)

        def zeros(self, shape, *a, **k):
            return np.zeros(shape, dtype=object)
    save = q.np
    if ctx.symbolic:
        q.np = Np()
    try:
        got = d.eval(*[d] * (shape - 1), backend=be, normalize=False)
    finally:
        q.np = save
    got = [got] if shape == 1 else got
    ctx.check(len(got) == shape, 'one result per circuit')
    for j, g in enumerate(got):
        want = np.empty((2,) * (bits - len(sel)), dtype=object)
        for b in strings:
            if all(b[i] == v for i, v in sel.items()):
                want[tuple(x for i, x in enumerate(b)
                           if i not in sel)] = cns[j][b]
        g = np.asarray(g)
        ctx.check(g.shape == want.shape, 'shape')
        for i in np.ndindex(want.shape):
            ctx.check(close(ctx, g[i], want[i]), 'count')


# ---- the extended tket circuit itself

@SUITE.case(quick=[dict(n=n, sel=s) for n in (2, 3) for s in
                   itertools.chain.from_iterable(
                       itertools.combinations(range(n), k)
                       for k in range(n + 1))], max_witness=4)
def renamed(ctx, n, sel):
    """Renaming qubits and bits keeps the meaning: the post-selection, the
    scalar and the bits follow their new names."""
    c = Circuit(n, n)
    pars = Params(ctx)
    for i in range(n):
        name = f'a{i}'
        pars.ref[name] = phase(ctx, name, D=2)
        c.Ry(2 * sympy.Symbol(name), i)
    c.CX(0, 1)
    for i in range(n):
        c.Measure(i, i)
    post = {i: ctx.small(f'v{i}', 0, 1) for i in sel}
    c.post_select(dict(post))
    c.scale(4)
    want = tk_semantics(ctx, c, pars, post)
    perm = ctx.choose('bits', list(itertools.permutations(range(n))))
    qperm = ctx.choose('qubits', [tuple(range(n)),
                                  tuple(reversed(range(n)))])
    # only the units which get another name are listed, if `few`
    few = ctx.small('few', 0, 1)
    ren = {tk.Bit(i): tk.Bit(j) for i, j in enumerate(perm)
           if not few or i != j}
    ren.update({tk.Qubit(i): tk.Qubit(j) for i, j in enumerate(qperm)
                if not few or i != j})
    c.rename_units(ren)
    ctx.check(c.post_selection == {perm[i]: v for i, v in post.items()},
              'post-selection follows the bits')
    got = tk_semantics(ctx, c, pars)
    left = [i for i in range(n) if i not in sel]
    order = sorted(left, key=lambda i: perm[i])
    arr_eq(ctx, got, want.transpose([left.index(i) for i in order])
           if left else want, 'renamed circuit')


@SUITE.case(quick=[dict(n=n) for n in (1, 2, 3)], max_witness=4)
def copies(ctx, n):
    """Pickling, copying and upgrading keep everything."""
    import pickle
    k = ctx.small('k', 0, 2 ** n - 1)
    post = {i: ctx.small(f'v{i}', 0, 1) for i in range(n) if k >> i & 1}
    c = Circuit(n, n, post_selection=dict(post))
    pars = Params(ctx)
    for i in range(n):
        name = f'a{i}'
        pars.ref[name] = phase(ctx, name, D=2)
        c.Ry(2 * sympy.Symbol(name), i)
    perm = ctx.choose('perm', list(itertools.permutations(range(n))))
    for i in range(n):
        c.Measure(i, perm[i])
    c.scale(ctx.choose('s', [1, 4, 0.5]))
    m = n - len(post)
    if m:
        mk = ctx.choose('pp', ['none', 'not', 'rot'])
        if mk == 'not':
            c.post_process(Id(bit ** (m - 1)) @ q.Box('not', bit, bit,
                                                      [[0, 1], [1, 0]]))
        elif mk == 'rot' and m > 1:
            c.post_process(q.Diagram.permutation(
                bit ** m, [*range(1, m), 0]))
    want = tk_semantics(ctx, c, pars, post, c.scalar)
    for how in ('pickle', 'upgrade'):
        e = (pickle.loads(pickle.dumps(c)) if how == 'pickle'
             else Circuit.upgrade(c))
        ctx.check(e.post_selection == post, f'{how}: post-selection')
        ctx.check(e.scalar == c.scalar, f'{how}: scalar')
        ctx.check(e.post_processing == c.post_processing,
                  f'{how}: post-processing')
        arr_eq(ctx, tk_semantics(ctx, e, pars), want, how)


@SUITE.case(quick=[dict(n=n) for n in (0, 1, 2, 3)], max_witness=4)
def add_bit(ctx, n):
    """A bit added at an offset is put there among the post-processed
    bits."""
    c = Circuit(n, n)
    pp = Id(bit ** n)
    if n:
        i = ctx.small('i', 0, n - 1)
        pp = (bit ** i @ q.Box('not', bit, bit, np.array([[0, 1], [1, 0]]))
              @ bit ** (n - i - 1))
        c.post_process(pp)
    off = ctx.choose('off', [None, *range(n + 1)])
    c.add_bit(tk.Bit(n), off)
    ctx.check(c.n_bits == n + 1, 'number of bits')
    if off is None:
        ctx.check(c.post_processing == pp, 'post-processing kept')
        return
    a = np.asarray(c.post_processing.eval()).real.astype(int)
    b = [ctx.small(f'b{j}', 0, 1) for j in range(n + 1)]
    want = list(b[:n])
    if n:
        want[i] = 1 - want[i]
    want.insert(off, b[n])
    for o in np.ndindex(*(2,) * (n + 1)):
        ctx.check(int(a[(*map(int, b), *o)]) == int(list(o) == want),
                  f'outcome {o}')


@SUITE.case(quick=[dict(n=n, k=k) for n in (2, 3) for k in range(n)],
            max_witness=4)
def post_processed(ctx, n, k):
    """Post-processing steps are applied one after the other, and imported
    with the circuit."""
    c = Circuit(n, n)
    pars = Params(ctx)
    for i in range(n):
        name = f'a{i}'
        pars.ref[name] = phase(ctx, name, D=2)
        c.Ry(2 * sympy.Symbol(name), i)
        c.Measure(i, i)
    post = {i: ctx.small(f'v{i}', 0, 1) for i in range(k)}
    if post:
        c = Circuit(n, n, post_selection=dict(post))
        for i in range(n):
            c.Ry(2 * sympy.Symbol(f'a{i}'), i)
            c.Measure(i, i)
    m = n - k
    want = tk_semantics(ctx, c, pars, post)
    ref = Q.Proc(['b'] * m)
    st = np.asarray(want)
    for j in range(2):
        i = ctx.choose(f'at{j}', range(m))
        kind = ctx.choose(f'kind{j}', ['swap', 'box', 'end'])
        left, right = bit ** i, bit ** (m - i - 1)
        if kind == 'swap' and i + 1 < m:
            c.post_process(left @ Swap(bit, bit) @ bit ** (m - i - 2))
            st = np.swapaxes(st, i, i + 1)
        elif kind == 'box':
            arr = np.array([[1, 2], [3, 5]])
            c.post_process(left @ q.Box('f', bit, bit, arr) @ right)
            st = np.moveaxis(np.tensordot(st, arr, axes=([i], [0])), -1, i)
        elif kind == 'end' and m > 1 and j == 1:
            arr = np.array([1, 7])
            c.post_process(left @ q.Box('e', bit, q.Ty(), arr) @ right)
            st = np.tensordot(st, arr, axes=([i], [0]))
    e = from_tk(c)
    arr_eq(ctx, bind(e, pars).eval(mixed=True), st, 'post-processed')
