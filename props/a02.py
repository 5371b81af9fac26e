"""A02: tensor ansaetze map diagrams to tensor diagrams of the right shape,
with decompositions into symbolic pieces."""
import itertools

import numpy as np

from props import numref as R
from props.a01 import FORMS, sentence, WORDS
from vsym.case import Suite
from vsym.lq import mk
from vsym.poly import arr_eq, carray

from lambeq.ansatz import MPSAnsatz, SpiderAnsatz, TensorAnsatz
from lambeq.backend import grammar as g
from lambeq.backend import tensor as t
from lambeq.backend.grammar import Box, Cap, Cup, Spider, Swap, Ty, Word
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Dim

SUITE = Suite(
    'A02',
    bounds='tensor, matrix-product and spider ansaetze on boxes with up to '
    '2 inputs and 5 outputs (7 for the matrix-product decomposition, '
    'thorough) with every winding number in -2..2, dimensions 1-3 and '
    'products of two, bond dimensions 1-3, maximum orders 2-5, both '
    'uncurrying sides, every entry of every piece symbolic; sentences of '
    'up to 3 words with cups, caps, swaps, spiders, daggers and adjoint '
    'words; any two boxes with any order of application',
    assumptions=['exact arithmetic', 'atomic type names without "_", "@" '
                 'or "."'],
    outside='sharing of the pieces of a split box between boxes of the same '
    'name; initialisation of weights')

N, S = Ty('n'), Ty('s')
SIZES = [(2,), (3,), (), (2, 3)]


def mk_ansatz(kind, ob, bond=2, order=3, left=True):
    if kind == 'tensor':
        return TensorAnsatz(ob)
    if kind == 'mps':
        return MPSAnsatz(ob, bond_dim=bond, max_order=order,
                         uncurry_left=left)
    return SpiderAnsatz(ob, max_order=order, uncurry_left=left)


def dims(ty, size):
    """The dimensions of a type; adjoints reverse the factors."""
    out = []
    for x in ty:
        d = list(size[x.name])
        out += d[::-1] if x.z % 2 else d
    return out


class Values:
    """Symbolic arrays for symbols."""

    def __init__(self, ctx):
        self.ctx, self.v = ctx, {}

    def __getitem__(self, s):
        if s.name not in self.v:
            self.v[s.name] = (s.size, carray(
                self.ctx, f't{len(self.v)}', (s.size,)))
        n, a = self.v[s.name]
        self.ctx.check(n == s.size, 'one size per parameter name')
        return a


def meaning(ctx, d, vals):
    d = d.to_diagram()
    cur = list(d.dom)
    for layer in d.layers:
        left, b, right = layer.unpack()
        ctx.check(cur == [*left, *b.dom, *right], 'layer boundary')
        cur = [*left, *b.cod, *right]
    ctx.check(cur == list(d.cod), 'codomain')
    syms = sorted(d.free_symbols, key=lambda s: s.name)
    names = [s.name for s in syms]
    ctx.check(len(set(names)) == len(names), 'names of parameters')
    e = d.lambdify(*syms)(*[vals[s] for s in syms]) if syms else d
    r = e.eval(dtype=complex)
    return np.asarray(r)


def flow(b, size):
    """Directed input and output size of a box."""
    i = o = 1
    for side, ty in ((0, b.dom), (1, b.cod)):
        for x in ty:
            n = int(np.prod(size[x.name] or [1]))
            if (x.z % 2) == side:
                i *= n
            else:
                o *= n
    return i, o


def sizes(ctx, opts=SIZES):
    return {'n': ctx.choose('qn', opts), 's': ctx.choose('qs', opts)}


def shape_case(ctx, i, o, zr=2):
    dom = [Ty(ctx.choose(f'd{k}', 'ns'), z=ctx.small(f'dz{k}', -zr, zr))
           for k in range(i)]
    cod = [Ty(ctx.choose(f'c{k}', 'ns'), z=ctx.small(f'cz{k}', -zr, zr))
           for k in range(o)]
    return Box('w', mk(dom), mk(cod))


@SUITE.case(quick=[dict(i=i, o=o) for i in range(3) for o in range(3)
                   if i + o <= 3],
            thorough=[dict(i=i, o=o) for i in range(3) for o in range(4)
                      if i + o <= 4])
def box(ctx, i, o):
    """One tensor per box, of the shape of its types."""
    size = sizes(ctx, SIZES if i + o <= 2 else SIZES[:1] + SIZES[3:])
    b = shape_case(ctx, i, o, 2 if i + o <= 2 else 1)
    a = mk_ansatz('tensor', {N: Dim(*size['n']), S: Dim(*size['s'])})
    if ctx.bool('history'):
        a(Box('w', N, N))
        a(b.dagger())
    d = a(b).to_diagram()
    ctx.check(list(d.dom.dim) == dims(b.dom, size)
              and list(d.cod.dim) == dims(b.cod, size), 'shape')
    ctx.check(len(d.boxes) == 1, 'one box')
    s = d.boxes[0].data
    ctx.check(isinstance(s, Symbol) and s.scale == 1, 'one symbol')
    n = int(np.prod([*d.dom.dim, *d.cod.dim, 1]))
    ctx.check(s.size == n, 'size of the parameter')
    ctx.check((s.directed_dom, s.directed_cod) == flow(b, size),
              'direction of the parameter')
    ctx.check('w' in s.name, 'name derived from the box')
    ctx.check(d.free_symbols == {s}, 'free symbols')
    e = a(b).to_diagram()
    ctx.check(e.boxes[0].data == s, 'the same symbol again')


@SUITE.case(quick=lambda: [dict(i=i) for i in range(2)],
            thorough=lambda: [dict(i=i, rich=True)
                              for i in range(len(WORDS))])
def sharing(ctx, i, rich=False):
    """Boxes share a parameter exactly when they are the same box."""
    from props.a01 import some_box
    size = {'n': (2,), 's': ctx.choose('qs', [(2,), (3,)])}
    ob = {N: Dim(*size['n']), S: Dim(*size['s'])}
    a = mk_ansatz('tensor', ob)
    x = some_box(ctx, 'x', [WORDS[i]], rich)
    y = some_box(ctx, 'y', WORDS if rich else WORDS[:4], rich)
    fx, fy = a(x).free_symbols, a(y).free_symbols
    same = x.name == y.name and x.dom == y.dom and x.cod == y.cod
    ctx.check(len(fx) == 1 == len(fy), 'one parameter')
    ctx.check((set(fx) == set(fy)) if same else
              {s.name for s in fx} != {s.name for s in fy}, 'sharing')
    e = mk_ansatz('tensor', ob)
    gy, gx = e(y).free_symbols, e(x).free_symbols
    ctx.check(gx == fx and gy == fy, 'independent of the order')


# ---- decompositions

def mps_ref(ctx, cod, size, arrays, bond, step):
    """Contract arrays[i] over (bond, factors, bond)."""
    acc = None
    starts = [*range(0, len(cod), step)]
    ctx.check(len(arrays) == len(starts), 'number of pieces')
    for i, st in enumerate(starts):
        ds = dims(cod[st:st + step], size)
        shape = ([bond] if i else []) + ds + \
            ([bond] if i < len(starts) - 1 else [])
        a = arrays[i]
        ctx.check(a.size == int(np.prod(shape or [1])), 'size of a piece')
        a = a.reshape(shape)
        acc = a if acc is None else np.tensordot(
            acc, a, axes=([acc.ndim - 1], [0]))
    return acc


def spider_ref(ctx, cod, size, arrays, step):
    acc = None
    starts = [*range(0, len(cod) - 1, step)]
    ctx.check(len(arrays) == len(starts), 'number of pieces')
    for i, st in enumerate(starts):
        tys = cod[st:st + step + 1]
        ds = dims(tys, size)
        a = arrays[i]
        ctx.check(a.size == int(np.prod(ds or [1])), 'size of a piece')
        a = a.reshape(ds)
        if acc is None:
            acc = a
        else:
            k = len(dims(tys[:1], size))
            # shared factor: entrywise product along its axes
            m = acc.ndim
            sh = acc.shape + (1,) * (a.ndim - k)
            sh2 = (1,) * (m - k) + a.shape
            acc = np.asarray(acc.reshape(sh) * a.reshape(sh2))
    return acc


def cases(thorough):
    out = []
    for kind in ('mps', 'spider'):
        for i in range(3):
            for o in range(1, 6 if not thorough else 7):
                for order in (2, 3, 4, 5):
                    if kind == 'mps' and order < 3:
                        continue
                    if i + o > (5 if not thorough else 7 if kind == 'mps'
                                else 6):
                        continue
                    if not thorough and i and i + o > 4 and order == 3:
                        continue
                    out.append(dict(kind=kind, i=i, o=o, order=order))
    return out


@SUITE.case(quick=lambda: cases(False), thorough=lambda: cases(True))
def split(ctx, kind, i, o, order):
    """The pieces of a large box: their number, sizes, order and what they
    are contracted to."""
    tot = i + o
    size = sizes(ctx, SIZES if tot <= 2 else [(2,), (3,), ()]
                 if tot <= 3 else [(2,), ()])
    if tot > 4:
        ctx.assume(size['n'] == (2,))
    bond = ctx.small('bond', 1 if tot < 5 else 2, 3 if tot <= 3 else 2) \
        if kind == 'mps' else 0
    left = bool(ctx.bool('left')) if i else True
    b = plain(ctx, i, o)
    ob = {N: Dim(*size['n']), S: Dim(*size['s'])}
    a = mk_ansatz(kind, ob, bond, order, left)
    if ctx.bool('history'):
        a(Word('w', N @ S @ N))
    d = a(b).to_diagram()
    ctx.check(list(d.dom.dim) == dims(b.dom, size)
              and list(d.cod.dim) == dims(b.cod, size), 'shape')
    sp = a.split_functor(b).to_diagram()
    ctx.check(sp.dom == b.dom and sp.cod == b.cod, 'grammatical type')
    words = [x for x in sp.boxes if not isinstance(x, (Cup, Cap, Spider,
                                                       Swap))]
    ctx.check(all(len(x.dom) + len(x.cod) <= order for x in words),
              'maximum order')
    ctx.check(all('w' in x.name for x in words), 'names of the pieces')
    syms = [x.data for x in d.boxes if isinstance(x.data, Symbol)]
    ctx.check(len(syms) == len(words), 'one symbol per piece')
    ctx.check(len({s.name for s in syms}) == len(syms), 'own symbols')
    fl = dict(size)
    if kind == 'mps':
        fl['B'] = (bond,) if bond > 1 else ()
    for x, s in zip(words, syms):
        ctx.check((s.directed_dom, s.directed_cod) == flow(x, fl),
                  'direction of a piece')
    vals = Values(ctx)
    arrays = [vals[s] for s in syms]
    if tot <= order:
        ctx.check(len(arrays) == 1, 'small boxes are not split')
        want = arrays[0].reshape(dims(b.dom, size) + dims(b.cod, size))
    else:
        full = b.cod if not i else (b.dom.r @ b.cod if left
                                    else b.cod @ b.dom.l)
        if kind == 'mps':
            want = mps_ref(ctx, full, size, arrays, bond, order - 2)
        else:
            want = spider_ref(ctx, full, size, arrays, order - 1)
        # bend the inputs back
        ds, cs = dims(b.dom, size), dims(b.cod, size)
        n, m = len(ds), len(cs)
        if left:
            want = want.reshape(ds[::-1] + cs).transpose(
                [*reversed(range(n)), *range(n, n + m)])
        else:
            want = want.reshape(cs + ds[::-1]).transpose(
                [*reversed(range(m, m + n)), *range(m)])
    arr_eq(ctx, meaning(ctx, d, vals), want, 'contraction')


@SUITE.case(quick=lambda: [dict(kind=k, o=o) for k in ('mps', 'spider')
                           for o in (6, 7, 8, 9)],
            thorough=lambda: [dict(kind=k, o=o) for k in ('mps', 'spider')
                              for o in (10, 11, 12)])
def long(ctx, kind, o):
    """Many wires, all of different types: every wire leaves the piece it
    belongs to, in order, whatever the order of the tensors."""
    i = ctx.small('inputs', 0, 2)
    left = bool(ctx.bool('left')) if i else True
    order = ctx.small('order', 3 if kind == 'mps' else 2, o)
    bond = ctx.small('bond', 1, 3) if kind == 'mps' else 2
    size = ctx.small('size', 1, 3)
    tys = [Ty(f'{k}') for k in 'cdefghijklmn'[:o + i]]
    zs = [ctx.choose(f'z{k}', [0, 1, -1]) if k < 2 else 0
          for k in range(len(tys))]
    tys = [t.rotate(z) for t, z in zip(tys, zs)]
    ob = {t.unwind(): Dim(size + k % 3) for k, t in enumerate(tys)}
    a = mk_ansatz(kind, ob, bond, order, left)
    b = Box('w', mk(tys[o:]), mk(tys[:o]))
    d = a(b).to_diagram()
    ctx.check(d.dom == Dim(*[x for t in tys[o:] for x in ob[t.unwind()].dim])
              and d.cod == Dim(*[x for t in tys[:o]
                                 for x in ob[t.unwind()].dim]), 'shape')
    sp = a.split_functor(b).to_diagram()
    ctx.check(sp.dom == b.dom and sp.cod == b.cod, 'grammatical type')
    words = [x for x in sp.boxes if not isinstance(x, (Cup, Cap, Spider,
                                                       Swap))]
    ctx.check(all(len(x.dom) + len(x.cod) <= order for x in words),
              'maximum order')
    ctx.check(len({(x.name, str(x.dom), str(x.cod)) for x in words})
              == len(words), 'own symbols')
    if o + i > order:
        step = order - 2 if kind == 'mps' else order - 1
        n = o + i - (kind == 'spider')
        ctx.check(len(words) == -(-n // step), 'number of pieces')
        bonds = sum(1 for x in words for t in x.cod if t.unwind() == Ty('B'))
        ctx.check(bonds == (2 * len(words) - 2 if kind == 'mps' else 0),
                  'bonds')
    syms = [x.data for x in d.boxes if isinstance(x.data, Symbol)]
    ctx.check(len(syms) == len(words), 'one symbol per piece')
    for x, s in zip(words, syms):
        dd = [bond if t.unwind() == Ty('B') else ob[t.unwind()].product
              for t in (*x.dom, *x.cod)]
        ctx.check(s.size == int(np.prod(dd or [1])), 'size of a piece')


def plain(ctx, i, o):
    """Types of a box: names and windings along a pattern."""
    pat = ctx.choose('pattern', ['n.r s n.l', 'n', 'n s', 's n.l n',
                                 'n.rr n.l'])
    atoms = {'n': N, 's': S, 'n.r': N.r, 'n.l': N.l, 'n.rr': N.r.r}
    seq = [atoms[x] for x in pat.split()]
    tys = [seq[k % len(seq)] for k in range(i + o)]
    return Box('w', mk(tys[o:]), mk(tys[:o]))


def wired(ctx, kind, form):
    if form != 'spider':
        return sentence(ctx, form)
    return Word('a', N) @ Word('b', N) >> Spider(N, 2, 1) >> Spider(N, 1, 2) \
        @ Spider(S, 0, 1)


def ref_meaning(ctx, a, d, size, vals):
    d = d.to_diagram()
    ws = dims(d.dom, size)
    ni = len(ws)
    m, cur = R.eye(ws), list(ws)
    for layer in d.layers:
        left, b, right = layer.unpack()
        L, Rr = dims(left, size), dims(right, size)
        i, o = dims(b.dom, size), dims(b.cod, size)
        if isinstance(b, Swap):
            k, l = len(dims(b.left, size)), len(dims(b.right, size))
            arr = R.perm(i, [*range(k, k + l), *range(k)])
        elif isinstance(b, (Cup, Cap)):
            arr = R.cup(dims(b.left, size))
        elif isinstance(b, Spider):
            f = dims(b.type, size)
            p, q = b.n_legs_in, b.n_legs_out
            arr = np.asarray(1)
            for x in f:
                arr = np.multiply.outer(arr, R.delta(x, p + q))
            k = len(f)
            arr = np.asarray(arr).transpose(
                [c * (p + q) + leg for leg in range(p + q)
                 for c in range(k)])
        else:
            x, z = b, getattr(b, 'z', 0)
            dag = isinstance(x, g.Daggered)
            if dag:
                x, z = x.box, x.box.z
            x = x.rotate(-z)
            arr = meaning(ctx, a(x), vals)
            n = len(dims(x.dom, size))
            if z % 2:
                arr = R.rot(arr, n)
            if dag:
                arr = R.dag(arr, n)
        m = R.then(m, ni, R.layer(L, arr, len(i), Rr), len(cur))
        cur = L + o + Rr
    return m


@SUITE.case(quick=lambda: [dict(kind=k, form=f)
                           for k in ('tensor', 'mps', 'spider')
                           for f in FORMS + ['spider']],
            thorough=lambda: [dict(kind=k, form=f, rich=True)
                              for k in ('tensor', 'mps', 'spider')
                              for f in FORMS + ['spider']])
def diagram(ctx, kind, form, rich=False):
    """Sentences: the converted words are contracted by the grammar."""
    size = sizes(ctx, SIZES if form not in ('svo', 'box') or rich and
                 form == 'box' else [(2,), (3,), ()])
    order = ctx.small('order', 3 if kind == 'mps' else 2, 3) \
        if kind != 'tensor' else 3
    d = wired(ctx, kind, form).to_diagram()
    ob = {N: Dim(*size['n']), S: Dim(*size['s'])}
    a = mk_ansatz(kind, ob, 2, order)
    e = a(d)
    ctx.check(list(e.dom.dim) == dims(d.dom, size)
              and list(e.cod.dim) == dims(d.cod, size), 'type')
    vals = Values(ctx)
    want = ref_meaning(ctx, mk_ansatz(kind, ob, 2, order), d, size, vals)
    arr_eq(ctx, meaning(ctx, e, vals), want, 'meaning of the sentence')


@SUITE.case(quick=[dict(kind=k) for k in ('tensor', 'mps', 'spider')])
def refused(ctx, kind):
    """Frames, orders that are too small, and clashes with the bond."""
    ob = {N: Dim(2), S: Dim(2)}
    a = mk_ansatz(kind, ob)
    f = g.Frame('f', N, S, components=[Word('w', N)])
    d = ctx.choose('d', [
        f, f.to_diagram(), f.dagger(), Word('a', N) >> f,
        Word('a', N) @ Word('b', S) >> f @ S, f >> Box('g', S, N)])

    def raises(err, fn):
        try:
            fn()
        except err:
            return True
        return False
    ctx.check(raises(RuntimeError, lambda: a(d)), 'frames are refused')
    if kind == 'tensor':
        return
    lo = 3 if kind == 'mps' else 2
    o = ctx.small('order', 0, 5)
    ctx.check(raises(ValueError, lambda: mk_ansatz(kind, ob, 2, o))
              == (o < lo), 'maximum order')
    if kind == 'mps':
        ctx.check(raises(ValueError, lambda: mk_ansatz(
            kind, {**ob, MPSAnsatz.BOND_TYPE: Dim(2)})), 'bond type')
        ctx.check(set(ob) == {N, S}, 'object map untouched')
