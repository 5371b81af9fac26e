"""Q05: free symbols, binding of symbols, and scales of symbols."""
import itertools
from fractions import Fraction

import numpy as np

from props import qref as Q
from vsym.case import Suite
from vsym.core import And, Or
from vsym.poly import Ang, arr_eq, carray, phase

from lambeq.backend import quantum as q
from lambeq.backend import tensor as t
from lambeq.backend.grammar import Functor
from lambeq.backend.quantum import Bra, Controlled, Discard, H, Id, Ket, \
    Rx, Ry, Rz, qubit
from lambeq.backend.symbol import Symbol, lambdify
from lambeq.backend.tensor import Dim

SUITE = Suite(
    'Q05',
    bounds='circuits and tensor diagrams of 1-3 symbolic boxes (rotations, '
    'single and double controls, daggers, conjugates, tensor boxes with '
    'one symbol or an array of symbols), any assignment of up to 3 symbol '
    'names to the boxes (equal names included), scales -1, 1/2, 2 and '
    'products of them, every order of binding, extra and missing symbols, '
    'two-step and repeated binding; all phases and array entries symbolic; '
    'symbol arithmetic with symbolic real scales',
    assumptions=['exact arithmetic'],
    outside='symbols inside custom array types')

NAMES = 'abc'


def rot_cls(k):
    return {'x': Rx, 'y': Ry, 'z': Rz}[k]


# box variants: (width, builder from a phase)
VAR = {
    'x': (1, lambda p: Rx(p)), 'y': (1, lambda p: Ry(p)),
    'z': (1, lambda p: Rz(p)),
    'x+': (1, lambda p: Rx(p).dagger()), 'yr': (1, lambda p: Ry(p).r),
    'zl': (1, lambda p: Rz(p).l), 'x+r': (1, lambda p: Rx(p).dagger().r),
    'cx': (2, lambda p: Controlled(Rx(p))),
    'cz-': (2, lambda p: Controlled(Rz(p), -1)),
    'cy+': (2, lambda p: Controlled(Ry(p)).dagger()),
    'cxr': (2, lambda p: Controlled(Rx(p), -1).r),
    'cz2': (3, lambda p: Controlled(Rz(p), 2)),
    'ccx': (3, lambda p: Controlled(Controlled(Rx(p), -1), 1)),
    'ccz+': (3, lambda p: Controlled(Controlled(Rz(p)), -1).dagger()),
    'ccyr': (3, lambda p: Controlled(Controlled(Ry(p), 1), -1).r),
}


def scaled(sym, sc):
    """The ways of writing a scaled symbol."""
    r = sym
    for s in sc:
        r = -r if s == -1 else (s * r if s == 2 else r * s)
    return r


SC = [(), (-1,), (0.5,), (2, 0.5), (-1, 2)]


def fac(sc):
    r = Fraction(1)
    for s in sc:
        r *= Fraction(s)
    return r


def times(ctx, p, f):
    return p * (f if ctx.symbolic else float(f))


def wrap_op(k, d):
    if k == 'dag':
        return d.dagger()
    if k == 'r':
        return d.r
    if k == 'l.dag':
        return d.l.dagger()
    return d


def quick_circ():
    out = []
    for v in VAR:
        for sc in SC:
            for w in ('', 'dag', 'r', 'l.dag'):
                out.append(dict(vs=(v,), names='a', sc=(sc,), wrap=w))
    for vs in (('x', 'z'), ('x+', 'cy+'), ('cxr', 'x'), ('cz2', 'ccx'),
               ('zl', 'ccz+'), ('yr', 'yr')):
        for names in ('aa', 'ab'):
            for w in ('', 'dag', 'r'):
                out.append(dict(vs=vs, names=names, sc=((-1,), ()), wrap=w))
    for names in ('aaa', 'aab', 'aba', 'baa', 'abc', 'cab'):
        out.append(dict(vs=('x', 'cz-', 'y'), names=names,
                        sc=((), (0.5,), (-1,)), wrap=''))
    return out


def thor_circ():
    out = quick_circ()
    for vs in itertools.product(('x', 'z', 'x+', 'cx', 'cy+', 'cxr', 'ccx'),
                                repeat=2):
        for names in ('aa', 'ab'):
            for w in ('', 'dag', 'r', 'l.dag'):
                out.append(dict(vs=vs, names=names, sc=((2, 0.5), (-1,)),
                                wrap=w))
    return out


def place(boxes):
    """Place boxes on three qubits with fixed gates between."""
    d = Id(qubit ** 3)
    for i, b in enumerate(boxes):
        n = len(b.dom)
        off = i % (4 - n)
        d = d >> Id(qubit ** off) @ b @ Id(qubit ** (3 - n - off))
        d = d >> Id(qubit) @ H @ Id(qubit)
    return d


def structure(ctx, a, b, msg):
    """Equal diagrams, box by box (phases compared by the solver)."""
    ctx.check(a.dom == b.dom and a.cod == b.cod and len(a.layers)
              == len(b.layers) and type(a) is type(b), msg + ': shape')
    for l, m in zip(a.layers, b.layers):
        ctx.check(l.left == m.left and l.right == m.right, msg + ': wires')
        same_box(ctx, l.box, m.box, msg)


def same_box(ctx, x, y, msg):
    ctx.check(type(x) is type(y) and x.dom == y.dom and x.cod == y.cod
              and x.z == y.z, f'{msg}: box {x!r} {y!r}')
    if isinstance(x, Controlled):
        ctx.check(x.distance == y.distance, msg + ': distance')
        same_box(ctx, x.controlled, y.controlled, msg)
    elif isinstance(x, (q.Daggered, t.Daggered)):
        same_box(ctx, x.box, y.box, msg)
    elif isinstance(x, q.Rotation):
        ctx.check(not isinstance(x.phase, Symbol)
                  and not isinstance(y.phase, Symbol), msg + ': unbound')
        num_eq(ctx, x.phase, y.phase, msg + ': phase')
        num_eq(ctx, x.data, y.data, msg + ': data')
    elif x.data is not None:
        arr_eq(ctx, np.asarray(x.array), np.asarray(y.array), msg)


def num_eq(ctx, a, b, msg):
    if ctx.symbolic:
        ctx.check(a == b, msg)
    else:
        ctx.check(abs(a - b) < 1e-9 * max(1, abs(a)), msg)


@SUITE.case(quick=quick_circ, thorough=thor_circ, max_witness=4)
def circuits(ctx, vs, names, sc, wrap):
    vals = {n: phase(ctx, n, D=4) for n in NAMES}
    used = sorted(set(names))
    syms = {n: Symbol(n) for n in NAMES}
    boxes = [VAR[v][1](scaled(syms[n], s))
             for v, n, s in zip(vs, names, sc)]
    d = wrap_op(wrap, place(boxes))
    want = wrap_op(wrap, place([VAR[v][1](times(ctx, vals[n], fac(s)))
                                for v, n, s in zip(vs, names, sc)]))
    ctx.check(d.free_symbols == {syms[n] for n in used}, 'free symbols')
    ctx.check(all(s.scale == 1 for s in d.free_symbols), 'scales removed')
    for b in boxes:
        ctx.check(len(b.free_symbols) == 1, 'free symbol of a box')
    before = [repr(b) for b in d.boxes]
    # every order, also with symbols which do not occur
    for order in itertools.permutations(used):
        f = d.lambdify(*[syms[n] for n in order])
        r = f(*[vals[n] for n in order])
        structure(ctx, r, want, f'bound in order {order}')
        ctx.check(not r.free_symbols, 'nothing left')
    extra = [n for n in NAMES if n not in used] + used
    r = d.lambdify(*[syms[n] for n in extra])(*[vals[n] for n in extra])
    structure(ctx, r, want, 'bound with extra symbols')
    # one function used twice: results are independent
    f = d.lambdify(*[syms[n] for n in used])
    r1 = f(*[vals[n] for n in used])
    f(*[times(ctx, vals[n], Fraction(2)) for n in used])
    structure(ctx, r1, want, 'after binding other values')
    # in two steps
    r = d
    for n in used:
        s = syms[n]
        left = {x for x in r.free_symbols if x != s}
        r = r.lambdify(s)(vals[n])
        ctx.check(r.free_symbols == left, 'symbols left after one step')
    structure(ctx, r, want, 'bound one by one')
    ctx.check(d.lambdify()() == d, 'binding nothing')
    ctx.check([repr(b) for b in d.boxes] == before
              and d.free_symbols == {syms[n] for n in used},
              'the argument is not changed')


@SUITE.case(quick=[dict(v=v, sc=s) for v in VAR for s in SC],
            max_witness=4)
def arrays(ctx, v, sc):
    """The bound box denotes the box built from the value."""
    p = phase(ctx, 'a', D=4)
    b = VAR[v][1](scaled(Symbol('a'), sc))
    r = b.lambdify(Symbol('a'))(p)
    w = VAR[v][1](times(ctx, p, fac(sc)))
    arr_eq(ctx, r.array, w.array, 'array')
    try:
        b.array
    except Exception:
        ctx.check(True, 'no array')
    else:
        ctx.fail('a symbolic gate was evaluated')


# ---- tensor boxes

DIMS = [((2,), (2,)), ((2, 3), (2,)), ((), (3, 2)), ((2,), ()), ((), ())]


@SUITE.case(quick=[dict(dom=a, cod=b, w=w, arr=arr) for a, b in DIMS
                   for w in ('', 'dag', 'r', 'l.dag', 'dag.r', 'rr')
                   for arr in (False, True)], max_witness=4)
def tensors(ctx, dom, cod, w, arr):
    n = int(np.prod(dom + cod)) if dom + cod else 1
    v = carray(ctx, 'v', (n,))
    dd, dc = Dim(*dom), Dim(*cod)
    if arr:
        syms = [Symbol(f's{i}') for i in range(n)]
        data = np.empty(n, dtype=object)
        data[:] = syms
        vals = list(v)
    else:
        syms = [Symbol('s', int(np.prod(dom, dtype=int)),
                       int(np.prod(cod, dtype=int)))]
        data = syms[0]
        vals = [v]
    b = t.Box('f', dd, dc, data)
    c = t.Box('f', dd, dc, v)

    def wrap(x):
        for k in w.split('.'):
            x = {'dag': lambda x: x.dagger(), 'r': lambda x: x.r,
                 'l': lambda x: x.l, 'rr': lambda x: x.r.r,
                 '': lambda x: x}[k](x)
        return x
    b, c = wrap(b), wrap(c)
    ctx.check(b.free_symbols == set(syms), 'free symbols')
    order = list(reversed(range(len(syms))))
    f = b.lambdify(*[syms[i] for i in order], Symbol('other'))
    r = f(*[vals[i] for i in order], 0)
    ctx.check(type(r) is type(c) and r.dom == c.dom and r.cod == c.cod
              and r.z == c.z, 'kind and type')
    ctx.check(not r.free_symbols and b.free_symbols == set(syms),
              'symbols afterwards')
    arr_eq(ctx, r.array, c.array, 'array')
    g = b.lambdify(Symbol('other'))(0)
    ctx.check(g.free_symbols == set(syms), 'not bound')
    if arr and n > 1:
        h = b.lambdify(syms[0])(vals[0])
        ctx.check(h.free_symbols == set(syms[1:]), 'partly bound')
        h = h.lambdify(*syms[1:])(*vals[1:])
        arr_eq(ctx, h.array, c.array, 'bound in two steps')


@SUITE.case(quick=[dict(names=n, w=w) for n in ('aa', 'ab', 'ba')
                   for w in ('', 'dag', 'r')], max_witness=4)
def tensor_diagrams(ctx, names, w):
    """Equal names share a value; the diagram evaluates to the diagram
    built from the values."""
    va = {'a': carray(ctx, 'a', (2, 2)), 'b': carray(ctx, 'b', (2, 2))}
    sy = {n: Symbol(n, 2, 2) for n in 'ab'}

    def build(f):
        d = Dim(2)
        return wrap_op(w, t.Box('f', d, d, f[names[0]])
                       >> t.Box('g', d, d, f[names[1]])
                       @ t.Id(Dim(1)) >> t.Box('f', d, d, f[names[0]]))
    d, want = build(sy), build(va)
    ctx.check(d.free_symbols == {sy[n] for n in names}, 'free symbols')
    order = sorted(set(names), reverse=True)
    r = d.lambdify(*[sy[n] for n in order])(*[va[n] for n in order])
    structure(ctx, r, want, 'bound')
    with object_arrays():
        arr_eq(ctx, r.eval(dtype=object) if ctx.symbolic else r.eval(),
               want.eval(dtype=object) if ctx.symbolic else want.eval(),
               'evaluation')


def object_arrays():
    from contextlib import nullcontext
    return nullcontext()


@SUITE.case(quick=[dict(m=m, s=s) for m in (False, True)
                   for s in (False, True)], max_witness=4)
def flags(ctx, m, s):
    """Binding keeps a quantum box mixed and self-adjoint."""
    v = carray(ctx, 'v', (4,))
    sym = Symbol('s', 2, 2)
    b = q.Box('f', qubit, qubit, sym, 0, m, s)
    for x, n in ((b, 'box'), (b.dagger(), 'dagger'), (b.r, 'conjugate'),
                 (b.l.dagger(), 'both')):
        r = x.lambdify(sym)(v)
        ctx.check(r.is_mixed == m and x.is_mixed == m, f'{n} is mixed')
        if not isinstance(x, q.Daggered):
            ctx.check(r.self_adjoint == s and x.self_adjoint == s,
                      f'{n} is self-adjoint')
        ctx.check(x.free_symbols == {sym} and not r.free_symbols, 'symbols')


# ---- the symbols themselves

@SUITE.case(quick=[dict(n=n) for n in (1, 2)])
def arithmetic(ctx, n):
    d0, c0 = ctx.int('dom', 1, 9), ctx.int('cod', 1, 9)
    k, l = ctx.real('k'), ctx.real('l')
    ctx.assume(k != 0)
    ctx.assume(l != 0)
    nm = ctx.name('n')
    s = Symbol(nm, d0, c0)
    ctx.check(s.size == d0 * c0 and s.scale == 1, 'fresh symbol')
    for r, w in ((s * k, k), (k * s, k), (-s, -1), ((s * k) * l, k * l),
                 (l * (k * s), k * l), (-(s * k), -k), (-(-(s * k)), k),
                 ((-s) * k, -k)):
        num_eq(ctx, r.scale, w, 'scale')
        ctx.check(And(r.name == nm, r.directed_dom == d0,
                      r.directed_cod == c0), 'name and size')
        ctx.check(r.unscaled == s, 'unscaled')
        ctx.check(s.scale == 1, 'the operand is not changed')
        v = ctx.real('v')
        num_eq(ctx, lambdify([s], r)(v), w * v, 'value of scaled symbol')
    m2 = ctx.name('m')
    o = Symbol(m2, d0, c0, k)
    ctx.check((s == o) == And(m2 == nm, k == 1) if ctx.symbolic else
              (s == o) == (m2 == nm and k == 1), 'equality')
    if n == 2:
        p = Symbol(m2, d0, c0)
        v, w = ctx.real('v1'), ctx.real('v2')
        ctx.assume(m2 != nm)
        num_eq(ctx, lambdify([s, p], s * k)(v, w), k * v, 'first')
        num_eq(ctx, lambdify([s, p], k * p)(v, w), k * w, 'second')
        num_eq(ctx, lambdify([p, s], s)(v, w), w, 'swapped')
        num_eq(ctx, lambdify([p, s], k)(v, w), k, 'number')


@SUITE.case(quick=[dict(v=v, k=k) for v in ('x', 'cy', 'ccz')
                   for k in range(4)], max_witness=4)
def linear(ctx, v, k):
    """dagger, conjugate and control act linearly on the scale."""
    sc = ctx.real('k')
    s = Symbol('a') * sc
    r = {'x': Rx, 'cy': Ry, 'ccz': Rz}[v](s)
    for _ in range(len(v) - 1):
        r = Controlled(r, ctx.choose('d', [1, -1, 2]))
    ops = [ctx.choose(f'op{i}', ['dag', 'r', 'l', 'ctl']) for i in range(k)]
    sign = 1
    for o in ops:
        if o == 'ctl':
            r = Controlled(r)
            continue
        r = r.dagger() if o == 'dag' else getattr(r, o)
        if o == 'dag' or v != 'cy':
            sign = -sign
    x = r
    while isinstance(x, Controlled):
        ctx.check(x.free_symbols == {Symbol('a')}, 'symbols of a control')
        num_eq(ctx, x.data.scale, sign * sc, 'scale of a control')
        x = x.controlled
    num_eq(ctx, x.phase.scale, sign * sc, 'scale')
    ctx.check(x.phase.name == 'a' and x.free_symbols == {Symbol('a')},
              'symbol')
