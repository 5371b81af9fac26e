"""G04: functors preserve types and structure; history independence."""
from vsym.case import Suite
from vsym.core import And, Iff, Not, SymName
from vsym.lq import (aeq, atoms, beq, box_wf, deq, mk, satom, sdiag, sty, teq,
                     wiring, wt)

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Daggered, Diagram, \
    Functor, Id, Spider, Swap, Ty, Word, grammar

SUITE = Suite(
    'G04',
    bounds='diagrams of up to 2 (quick) / 3 (thorough) layers on up to 3 '
    'wires over all kinds of boxes, functors whose object images have 0 to 2 '
    'factors with symbolic names and winding numbers (every function from '
    'atomic types to such types), box images of symbolic names, optionally '
    'of a wrong type; histories of up to 3 applications of one functor',
    assumptions=['names are opaque', 'the object and arrow mappings are '
                 'functions (same argument, same result)'],
    outside='images of more than two factors, larger diagrams; functors into '
    'other categories are covered by the ansatz properties')


class Maps:
    """A lazily chosen but functional object map and arrow map."""

    def __init__(self, ctx, lens, tag='', ill=None, zlo=-1, zhi=1):
        self.ctx, self.lens, self.tag = ctx, lens, tag
        self.obs, self.ars = [], []
        self.ill = ill
        self.z = (zlo, zhi)

    def ob(self, F, ty):
        for n, im in self.obs:
            if n == ty.name:
                return im
        k = len(self.obs)
        n = self.ctx.choose(f'{self.tag}ob{k}.len', self.lens)
        im = sty(self.ctx, f'{self.tag}ob{k}.', n, *self.z)
        self.obs.append((ty.name, im))
        return im

    def ar(self, F, box):
        for b, im in self.ars:
            if type(b) is type(box) and beq(b, box):
                return im
        dom, cod = F(box.dom), F(box.cod)
        k = len(self.ars)
        if self.ill:
            dom, cod = self.ill(self.ctx, k, dom, cod)
        im = Box(self.ctx.name(f'{self.tag}ar{k}'), dom, cod)
        self.ars.append((box, im))
        return im

    def functor(self):
        return Functor(grammar, self.ob, self.ar)

    # reference
    def img(self, ty):
        parts = []
        for a in atoms(ty):
            im = self.ob(None, Ty(a.name))
            obs = atoms(im)
            z = a.z
            obs = obs[::-1] if z % 2 == 1 else obs
            parts += [Ty(o.name, z=o.z + z) for o in obs]
        return mk(parts)


LENS = (2, 0, 1)


@SUITE.case(quick=[dict(n=n, z=z) for n in range(3) for z in (-1, 0, 1)],
            thorough=[dict(n=n, z=z) for n in range(4)
                      for z in (-2, -1, 0, 1, 2)])
def objects(ctx, n, z):
    m = Maps(ctx, LENS if n < 2 else (2, 0))
    F = m.functor()
    a, b = sty(ctx, 'a', n, -1, 1), satom(ctx, 'b', 0, 1)
    if z:                           # a different history
        F(a.rotate(z)), F(b.l)
    ctx.check(teq(F(a), m.img(a)), 'image of a type')
    ctx.check(teq(F(a @ b), F(a) @ F(b)), 'tensor')
    ctx.check(teq(F(a.rotate(z)), F(a).rotate(z)), 'adjoints')
    ctx.check(teq(F(Ty()), Ty()), 'unit')
    ctx.check(teq(F(a), m.img(a)), 'second application')
    ctx.check(deq(F(Id(a)), Id(m.img(a))), 'identity')


def one(ctx, kind, zs=(0,), ar=(1, 1)):
    """One box of the given kind."""
    if kind in ('box', 'daggered'):
        n, m = ar
        b = Box(ctx.name('f'), sty(ctx, 'a', n, -1, 1),
                sty(ctx, 'c', m, 0, 1), z=ctx.choose('bz', zs))
        return b.dagger() if kind == 'daggered' else b
    if kind == 'word':
        return Word(ctx.name('f'), sty(ctx, 'c', ctx.small('n', 1, 2), -1,
                                       1), z=ctx.choose('bz', zs))
    x = satom(ctx, 'a', -1, 1)
    if kind == 'swap':
        return Swap(x, satom(ctx, 'b', -1, 1))
    if kind == 'spider':
        i, o = ctx.choose('legs', [(1, 2), (2, 1), (0, 1), (1, 0), (2, 2)])
        return Spider(x, i, o)
    rev = ctx.choose('rev', [False, True])
    if kind == 'cup':
        return Cup(x, x.l if rev else x.r, rev)
    return Cap(x, x.r if rev else x.l, rev)


KINDS = ('box', 'daggered', 'word', 'swap', 'spider', 'cup', 'cap')


def seq(ctx, d, e, msg):
    """Equal diagrams, up to the order of independent wires."""
    ctx.check(And(teq(d.dom, e.dom), teq(d.cod, e.cod)), msg + ' boundary')
    def key(b):
        return type(b).__name__
    if deq(d, e):
        return
    ctx.check(all(type(b) in (Swap, Cup, Cap, Spider) for b in d.boxes),
              msg + ' structure')
    ctx.check(wiring(d, spiders=True) == wiring(e, spiders=True),
              msg + ' wiring')


def _kinds(zs):
    out = []
    for k in KINDS:
        for bz, z in zs:
            if k in ('box', 'daggered', 'word'):
                out += [dict(kind=k, ar=ar, bz=bz, z=z) for ar in
                        ((0, 1), (1, 1), (2, 1), (1, 0))
                        if k != 'word' or ar == (0, 1)]
            elif bz == 0:
                out.append(dict(kind=k, ar=None, bz=0, z=z))
    return out


@SUITE.case(quick=_kinds([(0, 1), (0, -1), (1, 1), (-1, 2)]),
            thorough=_kinds([(b, z) for b in (-2, -1, 0, 1, 2)
                             for z in (-2, -1, 1, 2)]), max_witness=10)
def boxes(ctx, kind, ar, bz, z):
    """Every kind of box, any winding, any image length."""
    m = Maps(ctx, LENS if ar != (2, 1) else (2,), zlo=0, zhi=0)
    F = m.functor()
    b = one(ctx, kind, zs=(bz,), ar=ar)
    if (bz + z) % 2:                # a different history
        F(b.l.to_diagram())
        F(b.dom), F(b.dagger())
    for _ in range(2):
        d = F(b).to_diagram()
        ctx.check(And(teq(d.dom, m.img(b.dom)), teq(d.cod, m.img(b.cod))),
                  'image boundary')
        ctx.check(wt(d), 'well typed')
    # structural boxes go to the structural diagrams
    if kind == 'swap':
        ctx.check(deq(d, Diagram.swap(F(b.left), F(b.right))), 'swap')
    if kind == 'cup':
        ctx.check(deq(d, Diagram.cups(F(b.left), F(b.right), bool(b.z))),
                  'cup')
    if kind == 'cap':
        ctx.check(deq(d, Diagram.caps(F(b.left), F(b.right), bool(b.z))),
                  'cap')
    if kind == 'spider':
        ctx.check(deq(d, Spider(F(b.type), b.n_legs_in, b.n_legs_out)),
                  'spider')
    e = F(b.dagger()).to_diagram()
    ctx.check(wt(e), 'dagger well typed')
    seq(ctx, e, d.dagger(), 'dagger')
    r = F(b.rotate(z)).to_diagram()
    ctx.check(wt(r), 'adjoint well typed')
    seq(ctx, r, d.rotate(z), 'adjoint')


K5 = ('box', 'dag', 'cap', 'swap', 'cup', 'spider')
W = {'box': 0, 'dag': 0, 'cap': 0, 'swap': 2, 'cup': 2, 'spider': 1}


@SUITE.case(quick=[dict(n=max(W[a], 1), a=a, b=b) for a in K5 for b in K5
                   if not (a == 'cup' and b in ('swap', 'cup', 'spider'))],
            thorough=[dict(n=n, a=a, b=b) for a in K5 for b in K5
                      for n in (1, 2) if n >= W[a]], max_witness=10)
def diagrams(ctx, n, a, b):
    m = Maps(ctx, (2,), zlo=0, zhi=0)
    F = m.functor()

    def lay(p, dom, kind):
        w = len(atoms(dom))
        return sdiag(ctx, p, dom, 1, maxw=max(2, w), zlo=0, zhi=0,
                     kinds=('box' if kind == 'dag' else kind,),
                     arity=((1, 1),) if w > 1 else ((1, 1), (0, 1)))
    d = lay('d', sty(ctx, 'd.d', n, 0, 0 if n > 1 and 'cup' not in (a, b) else 1), a)
    e = lay('e', d.cod, b)
    d = d.dagger().dagger() if a != 'dag' else _dag(d)
    e = e if b != 'dag' else _dag(e)
    h = d >> e
    Fh = F(h)
    ctx.check(wt(Fh), 'well typed')
    ctx.check(And(teq(Fh.dom, m.img(h.dom)), teq(Fh.cod, m.img(h.cod))),
              'boundary')
    Fd, Fe = F(d), F(e)
    ctx.check(deq(Fh, Fd >> Fe), 'composition')
    ctx.check(deq(F(d @ e), Fd @ Fe), 'tensor')
    seq2(ctx, F(h.r), Fh.r, 'adjoint')
    seq2(ctx, F(h.dagger()), Fh.dagger(), 'dagger')
    ctx.check(deq(F(h), Fh), 'repeatable')
    G = Maps.functor(m)
    ctx.check(deq(G(h), Fh), 'history independent')


def _dag(d):
    """The same diagram with every box replaced by a daggered box."""
    return Diagram(d.dom, d.cod, [
        g.Layer(left=l.left, box=Box(l.box.name, l.box.cod, l.box.dom
                                     ).dagger(), right=l.right)
        if type(l.box) is Box else l for l in d.layers])


def seq2(ctx, d, e, msg):
    ctx.check(And(teq(d.dom, e.dom), teq(d.cod, e.cod), wt(d)),
              msg + ' boundary')
    keys = {}

    def key(b):
        for i, x in enumerate(keys.setdefault('l', [])):
            if type(x) is type(b) and beq(x, b):
                return i
        keys['l'].append(b)
        return len(keys['l']) - 1
    ctx.check(wiring(d, key, True) == wiring(e, key, True), msg)


@SUITE.case(quick=[dict(kind=k, h=h, ar=ar) for k in ('box', 'word', 'daggered')
                   for h in range(3) for ar in ((0, 1), (1, 1), (1, 0))
                   if k != 'word' or ar == (0, 1)])
def ill_typed(ctx, kind, h, ar):
    """A box image of the wrong type is refused on every application."""
    state = {}

    def ill(ctx, k, dom, cod):
        if 'im' not in state:
            state['im'] = (sty(ctx, 'id', ctx.small('id.n', 0, 2), -1, 1),
                           sty(ctx, 'ic', ctx.small('ic.n', 0, 2), -1, 1))
            state['ok'] = And(teq(state['im'][0], dom),
                              teq(state['im'][1], cod))
        return state['im']
    m = Maps(ctx, (1,), ill=ill, zlo=0, zhi=0)
    F = m.functor()
    b = one(ctx, kind, ar=ar)

    def apply(x):
        try:
            F(x)
            return True
        except TypeError:
            return False
    seqs = [[b, b, b.to_diagram()], [b.to_diagram(), b.to_diagram(), b],
            [b.l, b, b.l]]
    for x in seqs[h]:
        ok = apply(x)
        ctx.check(Iff(ok, state['ok']), 'type check of the image')


@SUITE.case(quick=[dict(k1=a, k2=b) for a in ('box', 'word', 'daggered')
                   for b in ('box', 'word', 'daggered')], max_witness=20)
def two_boxes(ctx, k1, k2):
    """Images of different boxes do not leak into each other through the
    cache, whatever their names, types and windings."""
    def mkb(p, kind):
        z = ctx.int(p + 'z', 0, 1)
        if kind == 'word':
            return Word(ctx.name(p + 'f'), satom(ctx, p + 'c', 0, 1), z=z)
        b = Box(ctx.name(p + 'f'), satom(ctx, p + 'a', 0, 0)
                if ctx.choose(p + 'n', [True, False]) else Ty(),
                satom(ctx, p + 'c', 0, 1), z=z)
        return b.dagger() if kind == 'daggered' else b
    x, y = mkb('x', k1), mkb('y', k2)
    m = Maps(ctx, (1,), zlo=0, zhi=0)
    F, G = m.functor(), m.functor()
    a = F(x)
    b = F(y)
    c = G(y)
    ctx.check(deq(b, c), 'history independent')
    ctx.check(deq(F(x), a), 'repeatable')
    ctx.check(And(teq(b.dom, m.img(y.dom)), teq(b.cod, m.img(y.cod))),
              'boundary')
    d = F(y.to_diagram() @ x.to_diagram())
    ctx.check(deq(d, b @ a), 'tensor of boxes')
