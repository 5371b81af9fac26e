"""T01: tensor diagrams evaluate to the contraction they denote."""
import itertools
from contextlib import contextmanager

import numpy as np

from props import numref as R
from vsym.case import Suite
from vsym.poly import arr_eq, carray

from lambeq.backend import tensor as t
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Cap, Cup, Diagram, Dim, Id, Spider, \
    Swap

SUITE = Suite(
    'T01',
    bounds='every array entry a symbolic complex number; wires of dimension '
    '2 and 3; single boxes with up to 2 inputs and 2 outputs with daggers '
    'and rotations nested up to 3 deep, diagrams of up to 3 (quick) / 4 '
    '(thorough) layers over every sequence of boxes, daggered and rotated '
    'boxes, cups, caps, swaps and spiders at every offset, on up to 3 '
    '(quick) / 4 wires; cups, caps, swaps, spiders over up to 2 (quick) / 3 '
    'factors; permutations of up to 3 wires',
    assumptions=['arithmetic is exact (floating point rounding is not '
                 'modelled); numpy backend'],
    outside='other numerical backends, larger dimensions, custom '
    'contractors')


_FIXED = None


@contextmanager
def fixed_dims(d):
    """Only use wires of dimension d in this block (None: 2 and 3)."""
    global _FIXED
    save, _FIXED = _FIXED, d
    try:
        yield
    finally:
        _FIXED = save


def dims(ctx, p, n):
    return [_FIXED or ctx.choose(f'{p}{i}', [2, 3]) for i in range(n)]


def tbox(ctx, name, dom, cod, form='tensor'):
    shape = tuple(dom) + tuple(cod)
    a = carray(ctx, name, shape)
    data = {'tensor': a, 'flat': a.reshape(-1),
            'matrix': a.reshape(int(np.prod(dom or [1])), -1)}[form]
    return Box(name, Dim(*dom), Dim(*cod), data), a


def ev(ctx, d, a, msg, ni=None):
    d = d.to_diagram() if not isinstance(d, Diagram) else d
    want = tuple(x for x in d.dom.dim) + tuple(d.cod.dim)
    r = d.eval(dtype=complex)
    ctx.check(np.shape(r) == want, f'{msg}: shape {np.shape(r)} {want}')
    arr_eq(ctx, r, a, msg)


AR = [(i, o) for i in range(3) for o in range(3)]
OPS = ['', 'D', 'l', 'r', 'rr', 'Dr', 'rD', 'lDr', 'DD', 'll', 'rDl', 'DlD']


def apply_ops(x, a, ni, no, ops):
    """Apply dagger / left / right adjoint to a box and its reference."""
    for o in ops:
        if o == 'D':
            x = x.dagger()
            a = R.dag(a, ni)
            ni, no = no, ni
        else:
            x = x.l if o == 'l' else x.r
            a = R.rot(a, ni)
    return x, a, ni, no


@SUITE.case(quick=[dict(i=i, o=o, form=f, ops=ops) for i, o in AR
                   for f, ops in [(f, p) for p in OPS for f in ('tensor',)]
                   + [(f, p) for f in ('flat', 'matrix')
                      for p in ('', 'D', 'r', 'Dr')] if i + o <= 3],
            thorough=[dict(i=i, o=o, form=f, ops=ops) for i, o in AR
                      for f in ('tensor', 'flat', 'matrix')
                      for ops in OPS])
def box(ctx, i, o, form, ops):
    f, a = tbox(ctx, 'f', dims(ctx, 'i', i), dims(ctx, 'o', o), form)
    x, a, ni, no = apply_ops(f, a, i, o, ops)
    ctx.check(len(x.dom) == ni and len(x.cod) == no, 'arity')
    arr_eq(ctx, x.array, a, 'array')
    ev(ctx, x, a, 'eval')


# ---- sequences of layers

def step(ctx, p, k, wires, maxw):
    """One layer of kind k at a chosen offset. -> (box, ref, dom, cod, off)
    or assume(False)."""
    n = len(wires)
    opts = []
    ar = {'box': ((1, 1), (0, 1), (1, 0), (2, 1), (1, 2)), 'dag': ((1, 1),
          (1, 2), (0, 1)), 'rot': ((1, 1), (2, 1), (0, 2)), 'cup': ((2, 0),),
          'cap': ((0, 2),), 'swap': ((2, 2),),
          'spider': ((1, 2), (2, 1), (0, 1), (1, 0), (1, 1))}[k]
    for i, o in ar:
        for off in range(n - i + 1):
            if n - i + o > maxw:
                continue
            w = wires[off:off + i]
            if k in ('cup', 'spider') and len(set(w)) > 1:
                continue
            opts.append((i, o, off))
    if not opts:
        ctx.assume(False)
    i, o, off = ctx.choose(p, opts)
    w = list(wires[off:off + i])
    if k == 'box':
        cod = dims(ctx, p + 'o', o)
        b, a = tbox(ctx, p, w, cod)
    elif k == 'dag':
        cod = dims(ctx, p + 'o', o)
        b, a = tbox(ctx, p, cod, w)
        b, a = b.dagger(), R.dag(a, o)
    elif k == 'rot':
        cod = dims(ctx, p + 'o', o)
        b, a = tbox(ctx, p, w[::-1], cod[::-1])
        b, a = b.r, R.rot(a, i)
    elif k == 'cup':
        cod, b, a = [], Cup(Dim(w[0]), Dim(w[0])), R.delta(w[0], 2)
    elif k == 'cap':
        d = dims(ctx, p + 'd', 1)[0]
        cod, b, a = [d, d], Cap(Dim(d), Dim(d)), R.delta(d, 2)
    elif k == 'swap':
        cod = w[::-1]
        b, a = Swap(Dim(w[0]), Dim(w[1])), R.perm(w, [1, 0])
    else:
        d = w[0] if w else dims(ctx, p + 'd', 1)[0]
        cod = [d] * o
        b, a = Spider(Dim(d), i, o), R.delta(d, i + o)
    return b, a, i, cod, off


def tdiag(ctx, p, wires, kinds, maxw):
    d, m, ni = Id(Dim(*wires)), R.eye(wires), len(wires)
    cur = list(wires)
    for j, k in enumerate(kinds):
        b, a, i, cod, off = step(ctx, f'{p}{j}', k, cur, maxw)
        L, Rr = cur[:off], cur[off + i:]
        d = d >> Id(Dim(*L)) @ b @ Id(Dim(*Rr))
        m = R.then(m, ni, R.layer(L, a, i, Rr), len(cur))
        cur = L + cod + Rr
    return d, m, cur


K = ('box', 'dag', 'rot', 'cup', 'cap', 'swap', 'spider')


def possible(w, kinds, maxw):
    ar = {'box': ((1, 1), (0, 1), (1, 0), (2, 1), (1, 2)), 'dag': ((1, 1),
          (1, 2), (0, 1)), 'rot': ((1, 1), (2, 1), (0, 2)), 'cup': ((2, 0),),
          'cap': ((0, 2),), 'swap': ((2, 2),),
          'spider': ((1, 2), (2, 1), (0, 1), (1, 0), (1, 1))}
    ws = {w}
    for k in kinds:
        ws = {x - i + o for x in ws for i, o in ar[k]
              if i <= x and x - i + o <= maxw}
    return bool(ws)


def seqs(n, kinds=K, maxw=3, ws=(0, 1, 2)):
    return [dict(w=w, kinds=s, maxw=maxw)
            for s in itertools.product(kinds, repeat=n)
            for w in ws if possible(w, s, maxw)]


@SUITE.case(quick=lambda: seqs(1) + seqs(2)
            + seqs(3, ('box', 'rot', 'cup', 'cap'), ws=(1,)),
            thorough=lambda: seqs(1, maxw=4, ws=(0, 1, 2, 3))
            + seqs(2, maxw=4, ws=(0, 1, 2, 3)) + seqs(3, maxw=3),
            max_witness=3)
def layers(ctx, w, kinds, maxw):
    with fixed_dims(2 if len(kinds) > 2 else None):
        ws = dims(ctx, 'w', w)
        d, m, cur = tdiag(ctx, 'l', ws, kinds, maxw)
    ctx.check(d.dom.dim == tuple(ws) and d.cod.dim == tuple(cur), 'shape')
    ev(ctx, d, m, 'eval')


@SUITE.case(quick=lambda: seqs(1, maxw=2, ws=(0, 1, 2))
            + seqs(2, ('box', 'dag', 'rot', 'cup', 'swap'), maxw=2,
                   ws=(1, 2)),
            thorough=lambda: seqs(1) + seqs(2), max_witness=3)
def combinators(ctx, w, kinds, maxw):
    """Dagger, adjoints, tensor and composition of diagrams."""
    ws = [2, 3][:w] if 'cup' not in kinds and 'spider' not in kinds \
        else [2] * w
    with fixed_dims(2 if len(kinds) > 1 else None):
        d, m, cur = tdiag(ctx, 'l', ws, kinds, maxw)
    ni, no = len(ws), len(cur)
    ev(ctx, d.dagger(), R.dag(m, ni), 'dagger')
    ev(ctx, d.l, R.rot(m, ni), 'left adjoint')
    ev(ctx, d.r, R.rot(m, ni), 'right adjoint')
    ev(ctx, d.r.dagger().l, R.dag(m, ni), 'adjoint of dagger')
    g, b = tbox(ctx, 'g', [3], [2])
    ev(ctx, d @ g, R.par(m, ni, b, 1), 'tensor')
    ev(ctx, g @ d, R.par(b, 1, m, ni), 'tensor left')
    h, c = tbox(ctx, 'h', cur, [2])
    ev(ctx, d >> h, R.then(m, ni, c, no), 'then')
    ev(ctx, d >> d.dagger(), R.then(m, ni, R.dag(m, ni), no), 'then dagger')


def dimsets(n):
    return [dict(ds=ds) for k in range(n + 1)
            for ds in itertools.product((2, 3), repeat=k)]


@SUITE.case(quick=lambda: dimsets(2), thorough=lambda: dimsets(3))
def structure(ctx, ds):
    """Cups, caps, swaps, permutations and snakes on any dimensions."""
    D = Dim(*ds)
    n = len(ds)
    rd = list(ds)[::-1]
    ev(ctx, Diagram.cups(D, D.r), R.cup(ds), 'cups')
    ev(ctx, Diagram.cups(D.l, D), R.cup(rd), 'cups l')
    ev(ctx, Diagram.caps(D, D.l), R.cup(ds), 'caps')
    f, a = tbox(ctx, 'f', [2], list(ds))
    snake = (f.to_diagram() @ Id(Dim(1)) >> Id(D) @ Diagram.caps(D.r, D)
             >> Diagram.cups(D, D.r) @ Id(D))
    ev(ctx, snake, a, 'snake')
    ev(ctx, snake.remove_snakes(), a, 'straightened')
    tr = f >> Diagram.caps(D, D.l) @ Id(D) >> Id(D) @ Diagram.cups(D.l, D)
    ev(ctx, tr, a, 'snake 2')
    if n:
        loop = Diagram.caps(D, D.l) >> Diagram.cups(D, D.r)
        ev(ctx, loop, np.asarray(int(np.prod(ds))), 'loop')
    e2 = [2, 3]
    for other in ([], [2], [3, 2]):
        ev(ctx, Diagram.swap(D, Dim(*other)), R.perm(
            list(ds) + other, [*range(n, n + len(other)), *range(n)]),
           'swap')
    for p in itertools.permutations(range(n)):
        ev(ctx, Diagram.permutation(D, p), R.perm(ds, p), 'permutation')
        ev(ctx, f.to_diagram().permuted(p),
           R.then(a, 1, R.perm(ds, p), n), 'permuted')


@SUITE.case(quick=[dict(i=i, o=o, k=k) for i in range(3) for o in range(3)
                   for k in (1, 2)],
            thorough=[dict(i=i, o=o, k=k) for i in range(4)
                      for o in range(4) for k in (1, 2)])
def spiders(ctx, i, o, k):
    ds = dims(ctx, 'd', k)
    s = Spider(Dim(*ds), i, o)
    a = None
    for d in ds:
        x = R.delta(d, i + o)
        a = x if a is None else R.par(a, a_in, x, i)
        a_in = i if a is x else a_in + i
    # factor-major -> leg-major
    order = [f * i + l for l in range(i) for f in range(k)]
    order += [k * i + f * o + l for l in range(o) for f in range(k)]
    a = a.transpose(order) if a.ndim else a
    ev(ctx, s, a, 'spider')
    ev(ctx, s.dagger(), R.dag(a, i * k), 'dagger')
    if i:
        f, b = tbox(ctx, 'f', [], ds * i)
        ev(ctx, f >> s.to_diagram() if hasattr(s, 'to_diagram') else f >> s,
           R.then(b, 0, a, i * k), 'applied')


@SUITE.case(quick=lambda: seqs(2, ('box', 'cup', 'cap'), ws=(0, 1, 2))
            + seqs(3, ('box', 'cap', 'cup'), ws=(1,)),
            thorough=lambda: seqs(2) + seqs(3, ('box', 'cap', 'cup',
                                                'swap')),
            max_witness=3)
def normal_forms(ctx, w, kinds, maxw):
    """Rewriting to normal form does not change the value."""
    with fixed_dims(2):
        d, m, cur = tdiag(ctx, 'l', [2] * w, kinds, maxw)
    ev(ctx, d.remove_snakes(), m, 'remove_snakes')
    try:
        e = d.normal_form()
    except NotImplementedError:
        return
    ev(ctx, e, m, 'normal form')


@SUITE.case(quick=[dict(i=i, o=o, ops=p) for i in range(3) for o in range(3)
                   if 1 <= i + o <= 3 for p in ('', 'D', 'r', 'rD', 'Dl',
                                                'rr')])
def lambdify(ctx, i, o, ops):
    """Evaluating with bound symbols is evaluating the bound diagram."""
    di, do = dims(ctx, 'i', i), dims(ctx, 'o', o)
    g, b = tbox(ctx, 'g', [2], [2])
    size = int(np.prod(di + do))
    sym = Symbol('f', int(np.prod(di or [1])), int(np.prod(do or [1])))
    other = Symbol('x', 2, 2)
    f = Box('f', Dim(*di), Dim(*do), sym)
    x, _, ni, no = apply_ops(f, np.zeros(di + do), i, o, ops)
    val = carray(ctx, 'v', (size,))
    _, a, _, _ = apply_ops(Box('f', Dim(*di), Dim(*do), val),
                           val.reshape(di + do), i, o, ops)
    d = x @ g
    ctx.check(d.free_symbols == {sym}, 'free symbols')
    for syms in ([sym], [sym, other], [other, sym]):
        e = d.lambdify(*syms)(*[val if s == sym else carray(
            ctx, 'o', (4,)) for s in syms])
        ctx.check(not e.free_symbols, 'bound')
        ev(ctx, e, R.par(a, ni, b, 1), 'bound value')
    ctx.check(d.free_symbols == {sym}, 'original untouched')
