"""U04: frames, their components and functors on them."""
from vsym.case import Suite
from vsym.core import And
from vsym.lq import aneq, atoms, deq, mk, teq, wt
from vsym.lq import satom as lq_satom, sty as lq_sty

from lambeq.backend import grammar as g
from lambeq.backend.grammar import (Box, Cap, Cup, DaggeredFrame, Diagram,
                                    Frame, Functor, Id, Swap, Ty, Word)

SUITE = Suite(
    'U04',
    bounds='frames with up to 3 components, each a box, daggered box, word, '
    'diagram of up to 2 layers, frame or daggered frame, nested up to 3 deep '
    '(also through diagrams); symbolic names, types and winding numbers; '
    'rotations by -3 to 3; functors into the grammar category with symbolic '
    'images of length 0 to 2',
    assumptions=['the user functor maps a frame to the frame of the mapped '
                 'types and components (or to a box), as documented'],
    outside='more components and deeper nesting; drawing of frames')

# shapes: a leaf kind or (frame kind, [shapes])
LEAVES = ('box', 'dag', 'word', 'two', 'id', 'cup')


class Pool:
    """Few symbolic atoms shared by all types of a frame."""

    def __init__(self, ctx):
        self.ctx, self.k = ctx, 0
        self.names = [ctx.name('p'), ctx.name('q')]

    def atom(self, p, zlo, zhi):
        self.k += 1
        z = 0
        if zlo < zhi:
            z = self.ctx.int('pz', -1, 1) if self.k == 1 else self.k % 3 - 1
        return Ty(self.names[self.k % 2], z=z)


def comp(ctx, p, shape, pool=None):
    """A component of the given shape."""
    if pool:
        def satom(_, p, zlo, zhi):
            return pool.atom(p, zlo, zhi)

        def sty(_, p, n, zlo, zhi):
            return mk([pool.atom(p, zlo, zhi) for _ in range(n)])
    else:
        satom, sty = lq_satom, lq_sty
    if isinstance(shape, tuple):
        kind, parts = shape
        f = Frame(ctx.name(p), sty(ctx, p + 'd', 1, -1, 1),
                  sty(ctx, p + 'c', 1 if kind != 'ff' else 2, 0, 0),
                  ctx.int(p + 'z', -1, 1) if kind == 'fz' else 0,
                  [comp(ctx, f'{p}{i}', s, pool) for i, s in enumerate(parts)])
        if kind == 'dagger':
            return f.dagger()
        if kind == 'diag':      # a frame inside a diagram
            b = Box(ctx.name(p + 'b'), f.cod, Ty())
            return f.to_diagram() >> b.to_diagram()
        return f
    a = satom(ctx, p + 'a', -1, 1)
    if shape == 'box':
        return Box(ctx.name(p), a, sty(ctx, p + 'c', 2, 0, 0))
    if shape == 'dag':
        return Box(ctx.name(p), a, sty(ctx, p + 'c', 2, 0, 0)).dagger()
    if shape == 'word':
        return Word(ctx.name(p), a)
    if shape == 'id':
        return Id(a)
    if shape == 'cup':
        return Cup(a, a.r)
    b = Box(ctx.name(p), a, sty(ctx, p + 'c', 2, 0, 0))
    x, y = atoms(b.cod)
    return b >> Swap(x, y).to_diagram()


def depth(shape):
    if isinstance(shape, tuple):
        return 1 + max([depth(s) for s in shape[1]] + [0])
    return 0


SHAPES = [
    ('f', []), ('f', ['box']), ('ff', ['box', 'two']),
    ('fz', ['word', 'dag', 'id']), ('dagger', ['box', 'two']),
    ('fz', [('f', ['box', 'word']), 'cup']),
    ('f', [('dagger', ['box', 'two']), 'two']),
    ('dagger', [('f', ['dag', 'box']), 'id']),
    ('f', ['box', ('diag', ['box', 'two'])]),
    ('dagger', [('dagger', ['box']), ('fz', ['two'])]),
    ('f', [('f', []), 'box']),
]
DEEP = [
    ('f', [('f', [('f', ['box', 'word']), 'two']), 'dag']),
    ('f', [('diag', [('diag', ['box', 'word'])]), 'box']),
    ('dagger', [('fz', [('dagger', ['box', 'two'])]), ('f', ['word'])]),
    ('fz', ['box', 'two', 'dag', 'word']),
    ('fz', [('fz', [('fz', ['box'])])]),
    ('dagger', [('diag', ['dag', 'two']), 'cup', 'id']),
]


def src(f):
    """(undaggered frame, daggered?)"""
    if isinstance(f, DaggeredFrame):
        return f.frame, True
    return f, False


def turn(ctx, f, r, z, msg):
    """r is f rotated by z."""
    f0, dag = src(f)
    r0, dag2 = src(r)
    ctx.check(dag == dag2, msg + ': daggered')
    ctx.check(And(teq(r.dom, f.dom.rotate(z)), teq(r.cod, f.cod.rotate(z)),
                  r.z == f.z + z, r.name == f.name), msg + ': boundary')
    want = f.components[::-1] if z % 2 else f.components
    ctx.check(len(r.components) == len(want), msg + ': number of components')
    for x, y in zip(want, r.components):
        if isinstance(x, Frame):
            turn(ctx, x, y, z, msg)
        else:
            ctx.check(aneq(y, x.rotate(z)), msg + ': components')


@SUITE.case(quick=[dict(shape=s, z=z) for s in SHAPES for z in (0, 1, 2, -1)],
            thorough=[dict(shape=s, z=z) for s in SHAPES + DEEP
                      for z in range(-3, 4)])
def rotate(ctx, shape, z):
    f = comp(ctx, 'f', shape)
    turn(ctx, f, f.rotate(z), z, 'rotate')
    ctx.check(aneq(f.rotate(z).rotate(-z), f), 'rotating back')
    ctx.check(aneq(f.rotate(z).rotate(1), f.rotate(z + 1)),
              'rotations add up')
    ctx.check(aneq(f.l.r, f), 'left then right adjoint')
    u = f.unwind()
    ctx.check(u.z == 0, 'unwind')


@SUITE.case(quick=[dict(shape=s) for s in SHAPES],
            thorough=[dict(shape=s) for s in SHAPES + DEEP])
def dagger(ctx, shape):
    f = comp(ctx, 'f', shape)
    d = f.dagger()
    ctx.check(aneq(d.dagger(), f), 'involution')
    ctx.check(And(teq(d.dom, f.cod), teq(d.cod, f.dom), d.z == f.z),
              'dagger boundary')
    ctx.check(len(d.components) == len(f.components), 'dagger components')
    for x, y in zip(f.components, d.components):
        ctx.check(aneq(y, x.dagger()), 'dagger components')
    ctx.check(aneq(f.dagger().l, f.l.dagger()), 'dagger and adjoint')
    ctx.check(aneq(f.dagger().rotate(2), f.rotate(2).dagger()),
              'dagger and adjoint')


@SUITE.case(quick=[dict(shape=s) for s in SHAPES],
            thorough=[dict(shape=s) for s in SHAPES + DEEP])
def counts(ctx, shape):
    f = comp(ctx, 'f', shape)
    for x in (f, f.dagger(), f.rotate(1), f.rotate(-2)):
        ctx.check(x.frame_type == len(shape[1]), 'number of holes')
        ctx.check(x.frame_order == depth(shape), 'nesting level')
        ctx.check(x.to_diagram().has_frames, 'has frames')
        d = x @ Box('b', Ty(), f.dom)
        ctx.check(d.has_frames and d.dagger().has_frames
                  and d.rotate(1).has_frames, 'has frames')
        ctx.check(wt(d), 'well typed')
        e = (Id(f.dom) @ x.to_diagram() >> Box('e', f.dom @ x.cod, f.dom))
        ctx.check(And(wt(e), wt(e.dagger()), wt(e.rotate(1))), 'well typed')
        ctx.check(deq(e.dagger().dagger(), e), 'double dagger')
    ctx.check(not Box('b', f.dom, f.cod).to_diagram().has_frames,
              'has frames')


class Ren:
    """Functor: names of types and boxes are replaced by symbolic values."""

    def __init__(self, ctx, lens, frames='frame'):
        self.ctx, self.lens, self.k = ctx, lens, 0
        self.obs, self.frames = [], frames

    def ob(self, _, ty):
        a, = atoms(ty)
        for n, im in self.obs:
            if n == a.name:
                break
        else:
            k = len(self.obs)
            n_im = self.lens[k % len(self.lens)]
            im = lq_sty(self.ctx, f'im{k}', n_im, 0, 0)
            self.obs.append((a.name, im))
        return im.rotate(a.z) if len(atoms(im)) else im

    def ar(self, F, b):
        if isinstance(b, Frame):
            self.ctx.check(type(b) is Frame and b.z == 0,
                           'only plain frames reach the user function')
            if self.frames == 'box':
                return Box('B' + b.name, F(b.dom), F(b.cod))
            return Frame('F' + b.name, F(b.dom), F(b.cod), 0,
                         [F(c) for c in b.components])
        self.ctx.check(type(b) in (Box, Word) and b.z == 0,
                       'only plain boxes reach the user function')
        if isinstance(b, Word):
            return Word('W' + b.name, F(b.cod))
        return Box('B' + b.name, F(b.dom), F(b.cod))

    def functor(self):
        return Functor(g.grammar, ob=self.ob, ar=self.ar)


def image(F, m, x):
    """Reference image of a box, frame or diagram."""
    if isinstance(x, Frame):
        f, dag = src(x)
        z = f.z
        f = f.rotate(-z)
        if m.frames == 'box':
            r = Box('B' + f.name, F(f.dom), F(f.cod)).rotate(z)
        else:
            r = Frame('F' + f.name, F(f.dom), F(f.cod), 0,
                      [image(F, m, c) for c in f.components]).rotate(z)
        return r.dagger() if dag else r
    if isinstance(x, g.Daggered):
        return image(F, m, x.box).dagger()
    if isinstance(x, Word) and type(x) is Word:
        return Word('W' + x.name, F(x.cod.rotate(-x.z))).rotate(x.z)
    if type(x) is Box:
        return Box('B' + x.name, F(x.dom.rotate(-x.z)),
                   F(x.cod.rotate(-x.z))).rotate(x.z)
    if isinstance(x, Swap):
        return Diagram.swap(F(x.left), F(x.right))
    if isinstance(x, Cup):
        return Diagram.cups(F(x.left), F(x.right), bool(x.z))
    d = Id(F(x.dom))
    for l in x.layers:
        left, b, right = l.unpack()
        d = d >> (Id(F(left)) @ image(F, m, b).to_diagram() @ Id(F(right)))
    return d


@SUITE.case(quick=[dict(shape=s, lens=(1, 2, 0, 1), frames='frame')
                   for s in SHAPES]
            + [dict(shape=s, lens=(2, 1), frames='box') for s in SHAPES[:5]],
            thorough=[dict(shape=s, lens=l, frames=f)
                      for s in SHAPES + DEEP for l in ((1, 2, 0), (2,))
                      for f in ('frame', 'box')])
def functor(ctx, shape, lens, frames):
    """The user function acts on every nested component."""
    f = comp(ctx, 'f', shape, Pool(ctx))
    m = Ren(ctx, lens, frames)
    F = m.functor()
    for _ in range(2):
        r = F(f)
        ctx.check(And(teq(r.dom, F(f.dom)), teq(r.cod, F(f.cod))),
                  'image boundary')
        ctx.check(aneq(r, image(F, m, f)), 'image')
    ctx.check(aneq(F(f.dagger()), F(f).dagger()), 'image of the dagger')
    for z in (1, 2, -1):
        ctx.check(aneq(F(f.rotate(z)), F(f).rotate(z)),
                  'image of the adjoint')
    d = f.to_diagram() >> Box(ctx.name('last'), f.cod, Ty())
    ctx.check(deq(F(d), F(f) >> F(d.boxes[-1])), 'image of a composite')
    ctx.check(wt(F(d)), 'well typed')


@SUITE.case(quick=[dict(shape=s) for s in SHAPES],
            thorough=[dict(shape=s) for s in SHAPES + DEEP])
def identity(ctx, shape):
    f = comp(ctx, 'f', shape)
    F = Functor(g.grammar, ob=lambda _, t: t, ar=lambda _, b: b)
    ctx.check(aneq(F(f), f), 'identity functor')
    d = f @ Box('b', Ty(), f.dom)
    ctx.check(deq(F(d), d), 'identity functor')
    ctx.check(deq(F(d.dagger()), d.dagger()), 'identity functor')
