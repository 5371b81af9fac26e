"""G02: diagram combinators build well-typed diagrams."""
from vsym.case import Suite
from vsym.core import And, Iff, Not
from vsym.lq import (aeq, aneq, atoms, beq, deq, mk, satom, sdiag, sty, teq,
                     wf_ty, wt)

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Id, Spider, Swap, \
    Ty, Word

SUITE = Suite(
    'G02',
    bounds='diagrams of up to 2 (quick) / 3 (thorough) layers per operand on '
    'up to 4 wires, layers drawn from boxes (arities up to 2), daggered '
    'boxes, words, swaps, cups, caps (both orientations) and spiders at '
    'every offset; all names symbolic, winding numbers symbolic in [-1,1], '
    'rotation amounts symbolic in [-3,3]',
    assumptions=['type and box names are opaque: only their equality pattern '
                 'is explored'],
    outside='larger diagrams; equality of diagrams up to interchange')

KINDS = ('box', 'swap', 'cup', 'cap', 'spider', 'word')


def ref_rot(ty, z, odd):
    obs = atoms(ty)
    obs = obs[::-1] if odd else obs
    return mk([Ty(o.name, z=o.z + z) for o in obs])


def D(ctx, p, n, k, maxw=4, **kw):
    return sdiag(ctx, p, sty(ctx, p + '.d', n, -1, 1), k, maxw=maxw, **kw)


def layers_eq(d, layers):
    """d has exactly these (left, box, right) layers."""
    if len(d.layers) != len(layers):
        return False
    cs = []
    for l, (a, b, c) in zip(d.layers, layers):
        x, y, z = l.unpack()
        cs += [teq(x, a), beq(y, b), teq(z, c)]
    return And(*cs)


def cat(*tys):
    return mk([a for t in tys for a in atoms(t)])


NK = [dict(n=n, k=k) for n in range(4) for k in range(3)]
NKT = NK + [dict(n=n, k=3) for n in range(3)]


@SUITE.case(quick=[dict(n=n, k=k, j=j) for n in range(3) for k in range(2)
                   for j in range(2)],
            thorough=[dict(n=n, k=k, j=j) for n in range(4) for k in range(3)
                      for j in range(3) if k + j < 4])
def then(ctx, n, k, j):
    """d >> e for arbitrary d and e: accepted iff the boundaries agree."""
    d = D(ctx, 'd', n, k, maxw=3, daggers=True)
    m = ctx.choose('m', sorted({len(atoms(d.cod)),
                                max(0, len(atoms(d.cod)) - 1)}))
    e = D(ctx, 'e', m, j, maxw=3, kinds=('box', 'swap', 'cap', 'spider'),
          arity=((1, 1), (2, 1), (0, 1)))
    ok = teq(d.cod, e.dom)
    try:
        f = d >> e
    except ValueError:
        ctx.check(Not(ok), 'refused although the boundaries agree')
        return
    ctx.check(ok, 'accepted although the boundaries differ')
    ctx.check(And(teq(f.dom, d.dom), teq(f.cod, e.cod)), 'boundary')
    ctx.check(layers_eq(f, [l.unpack() for l in [*d.layers, *e.layers]]),
              'layers')
    ctx.check(wt(f), 'well typed')
    ctx.check(deq(d.then(e, e.id(e.cod)), f), 'n-ary')
    ctx.check(And(deq(d.id(d.dom) >> d, d), deq(d >> d.id(d.cod), d),
                  deq(d.then(), d)), 'units')


@SUITE.case(quick=[dict(n=n, k=k) for n in range(2) for k in range(2)],
            thorough=[dict(n=n, k=k) for n in range(3) for k in range(3)])
def then_many(ctx, n, k):
    """n-ary composition with one mismatch anywhere is refused."""
    a = D(ctx, 'a', n, k, maxw=2, kinds=('box', 'cap'))
    x = Box(ctx.name('f'), a.cod, satom(ctx, 'x', -1, 1))
    y = Box(ctx.name('g'), satom(ctx, 'y', -1, 1), satom(ctx, 'z', -1, 1))
    w = Box(ctx.name('h'), satom(ctx, 'v', -1, 1), Ty())
    ok = And(teq(x.cod, y.dom), teq(y.cod, w.dom))
    try:
        f = a.then(x, y, w)
    except ValueError:
        ctx.check(Not(ok), 'refused although the boundaries agree')
        return
    ctx.check(ok, 'accepted although the boundaries differ')
    ctx.check(And(wt(f), deq(f, (a >> x) >> (y >> w)),
                  deq(f, a >> (x >> (y >> w)))), 'associative')


@SUITE.case(quick=[dict(n=n, k=k, m=m, j=j) for n in range(3)
                   for k in range(2) for m in range(3) for j in range(2)],
            thorough=[dict(n=n, k=k, m=m, j=j) for n in range(3)
                      for k in range(3) for m in range(3) for j in range(3)
                      if k + j < 4])
def tensor(ctx, n, k, m, j):
    d = D(ctx, 'd', n, k, maxw=3, daggers=True)
    e = D(ctx, 'e', m, j, maxw=3, kinds=('box', 'swap', 'cup', 'spider'))
    f = d @ e
    ctx.check(And(teq(f.dom, cat(d.dom, e.dom)),
                  teq(f.cod, cat(d.cod, e.cod))), 'boundary')
    ctx.check(wt(f), 'well typed')
    want = [(a, b, cat(c, e.dom)) for a, b, c in
            (l.unpack() for l in d.layers)]
    want += [(cat(d.cod, a), b, c) for a, b, c in
             (l.unpack() for l in e.layers)]
    ctx.check(layers_eq(f, want), 'layers')
    ctx.check(And(deq(d @ Id(), d), deq(Id() @ d, d), deq(d @ Ty(), d),
                  deq(Ty() @ d, d)), 'unit')
    t = satom(ctx, 't', -1, 1)
    ctx.check(deq((d @ t) @ e, d @ (t @ e)), 'associative')
    ctx.check(deq(d.tensor(t, e), d @ t @ e), 'n-ary')
    ctx.check(deq(d.tensor(e, t), d @ e @ t), 'n-ary')


@SUITE.case(quick=[dict(n=n, k=k) for n in range(4) for k in range(3)
                   if k < 2 or n < 2], thorough=NKT)
def dagger_rotate(ctx, n, k):
    w = 4 if k < 2 else 3
    if n > w:
        n = w
    d = D(ctx, 'd', n, k, maxw=w, daggers=True)
    ctx.check(wt(d), 'generator')
    e = d.dagger()
    ctx.check(And(teq(e.dom, d.cod), teq(e.cod, d.dom)), 'dagger boundary')
    ctx.check(wt(e), 'dagger well typed')
    ctx.check(deq(e.dagger(), d), 'dagger involution')
    ctx.check(And(len(e.boxes) == len(d.boxes),
                  *[beq(x, y.dagger()) for x, y in
                    zip(e.boxes, reversed(d.boxes))]), 'dagger boxes')
    z = ctx.int('z', -3, 3)
    odd = bool(z % 2 == 1)
    r = d.rotate(z)
    ctx.check(And(teq(r.dom, ref_rot(d.dom, z, odd)),
                  teq(r.cod, ref_rot(d.cod, z, odd))), 'adjoint boundary')
    ctx.check(wt(r), 'adjoint well typed')
    ctx.check(deq(r.rotate(-z), d), 'adjoint inverse')
    ctx.check(And(deq(d.l.r, d), deq(d.r.l, d)), 'l and r inverse')
    ctx.check(deq(d.rotate(z + 1), r.r), 'rotations add')
    ctx.check(deq(r.dagger(), d.dagger().rotate(z)), 'dagger of adjoint')


@SUITE.case(quick=[dict(k=k, n=n) for k in range(3) for n in range(2)
                   if k < 2 or n < 1],
            thorough=[dict(k=k, n=n) for k in range(4) for n in range(2)
                      if k < 3 or n < 1])
def slicing(ctx, k, n):
    d = D(ctx, 'd', n, k, maxw=2, kinds=('box', 'cap'), daggers=False,
          arity=((0, 1), (1, 1), (1, 0)))
    k = len(d.layers)
    i = ctx.choose('i', [None, *range(-k - 1, k + 2)])
    j = ctx.choose('j', [None, *range(-k - 1, k + 2)])
    e = d[i:j]
    ctx.check(wt(e), 'slice well typed')
    ctx.check(layers_eq(e, [l.unpack() for l in d.layers[i:j]]), 'layers')
    lo, hi, _ = slice(i, j).indices(k)
    if lo <= hi:
        ctx.check(deq(d[:lo] >> e >> d[hi:], d), 'slices recompose')
    r = d[i:j:-1]
    ctx.check(wt(r), 'reverse slice well typed')
    ctx.check(layers_eq(r, [l.dagger().unpack() for l in d.layers[i:j:-1]]),
              'reverse layers')
    ctx.check(deq(d[::-1], d.dagger()), 'reversal is the dagger')


@SUITE.case(quick=[dict(k=k, n=n) for k in range(3) for n in range(2)],
            thorough=[dict(k=k, n=n) for k in range(4) for n in range(3)])
def indexing(ctx, k, n):
    d = D(ctx, 'd', n, k, maxw=2, kinds=('box', 'cap', 'swap'))
    k = len(d.layers)
    m = ctx.small('m', -k - 1, k)
    try:
        x = d[m]
        ctx.check(-k <= m < k and layers_eq(x, [d.layers[m].unpack()]),
                  'layer')
        ctx.check(wt(x), 'layer well typed')
    except IndexError:
        ctx.check(not -k <= m < k, 'index error only out of range')
    ctx.check(len(d) == k and And(*[
        And(teq(a.dom, cat(*b.unpack()[:1], b.box.dom, b.right)),
            teq(a.cod, cat(b.left, b.box.cod, b.right)))
        for a, b in zip(d, d.layers)]), 'iteration')
    ctx.check(d.offsets == [len(atoms(l.left)) for l in d.layers]
              and len(d.boxes) == k
              and And(*[beq(b, l.box) for b, l in zip(d.boxes, d.layers)]),
              'boxes and offsets')


@SUITE.case(quick=[dict(n=n, m=m) for n in range(4) for m in range(3)],
            thorough=[dict(n=n, m=m) for n in range(5) for m in range(4)])
def whisker(ctx, n, m):
    """then_at, transpose, curry, fa/ba/fc/bc/fx/bx."""
    d = Id(sty(ctx, 'a', n, -1, 1))
    o = ctx.small('o', 0, n)
    a = ctx.small('w', 0, n - o)
    f = Box(ctx.name('f'), mk(atoms(d.dom)[o:o + a]), sty(ctx, 'c', m, -1, 1))
    e = d.then_at(f, o)
    x = atoms(d.dom)
    ctx.check(wt(e), 'then_at well typed')
    ctx.check(layers_eq(e, [(mk(x[:o]), f, mk(x[o + a:]))]), 'then_at')
    b = Box(ctx.name('b'), d.dom, f.cod).to_diagram()
    for left in (True, False):
        t = b.transpose(left)
        ctx.check(wt(t), 'transpose well typed')
        s = -1 if left else 1
        ctx.check(And(teq(t.dom, ref_rot(b.cod, s, True)),
                      teq(t.cod, ref_rot(b.dom, s, True))),
                  'transpose boundary')
        k = ctx.small(f'k{left}', 1, max(1, n))
        if n:
            c = b.curry(k, left)
            ctx.check(wt(c), 'curry well typed')
            if left:
                ctx.check(And(teq(c.dom, mk(x[:n - k])),
                              teq(c.cod, cat(b.cod, ref_rot(mk(x[n - k:]),
                                                            -1, True)))),
                          'curry boundary')
            else:
                ctx.check(And(teq(c.dom, mk(x[k:])),
                              teq(c.cod, cat(ref_rot(mk(x[:k]), 1, True),
                                             b.cod))), 'curry boundary')


@SUITE.case(quick=[dict(n=n, m=m, k=k) for n in range(3) for m in range(3)
                   for k in range(3)])
def combinators(ctx, n, m, k):
    L, M, R = (sty(ctx, p, i, -1, 1) for p, i in zip('LMR', (n, m, k)))
    for name, d, dom, cod in [
            ('fa', Diagram.fa(L, R), L @ R.l @ R, L),
            ('ba', Diagram.ba(L, R), L @ L.r @ R, R),
            ('fc', Diagram.fc(L, M, R), L @ M.l @ M @ R.l, L @ R.l),
            ('bc', Diagram.bc(L, M, R), L.r @ M @ M.r @ R, L.r @ R),
            ('fx', Diagram.fx(L, M, R), L @ M.l @ R.r @ M, R.r @ L),
            ('bx', Diagram.bx(L, M, R), M @ L.l @ M.r @ R, R @ L.l)]:
        ctx.check(wt(d), name + ' well typed')
        ctx.check(And(teq(d.dom, dom), teq(d.cod, cod)), name)


@SUITE.case(quick=[dict(n=n, m=m, z=z) for n in range(3) for m in range(3)
                   for z in (-2, -1, 0, 1, 2)])
def boxes(ctx, n, m, z):
    """Boxes, words and their daggers as operands; equality."""
    f = Box(ctx.name('f'), sty(ctx, 'a', n, -1, 1), sty(ctx, 'b', m, -1, 1),
            z=ctx.int('fz', -1, 1))
    h = Box(ctx.name('g'), f.cod, f.dom, z=ctx.int('gz', -1, 1))
    w = Word(ctx.name('w'), f.dom, z=ctx.int('wz', -1, 1))
    for b in (f, h, w):
        d = b.to_diagram()
        ctx.check(layers_eq(d, [(Ty(), b, Ty())]), 'to_diagram')
        ctx.check(And(wt(b), teq(d.dom, b.dom), teq(d.cod, b.cod)),
                  'boundary')
        ctx.check(beq(b.dagger().dagger(), b), 'dagger involution')
        r = b.rotate(z)
        ctx.check(And(teq(r.dom, ref_rot(b.dom, z, z % 2)),
                      teq(r.cod, ref_rot(b.cod, z, z % 2)), r.z == b.z + z,
                      r.name == b.name, type(r) is type(b)), 'rotate')
        ctx.check(And(beq(r.rotate(-z), b), beq(b.l.r, b), beq(b.r.l, b)),
                  'inverse')
        ctx.check(beq(b.dagger().rotate(z), r.dagger()), 'dagger of adjoint')
        ctx.check(b.unwind().z == 0, 'unwind')
    ctx.check(And(wt(w >> f), wt(f >> h), wt(f @ h), wt(f >> f.dagger())),
              'operators')
    ctx.check(deq(f @ h, f.to_diagram() @ h.to_diagram()), 'tensor')
    ctx.check(deq(f @ f.dom, f.to_diagram() @ Id(f.dom)), 'whisker')
    ctx.check(deq(f.dom @ f, Id(f.dom) @ f.to_diagram()), 'whisker')
    ctx.check(Iff(bool(f == h), beq(f, h)), 'equality')
    ctx.check(Iff(bool(f.to_diagram() == h.to_diagram()), beq(f, h)),
              'diagram equality')
    ctx.check((f == f.dagger()) is False and (f.dagger() == f.dagger()),
              'a box is not its dagger')


@SUITE.case(quick=[dict(n=n, w=w) for n in range(4) for w in range(4)])
def is_pregroup(ctx, n, w):
    """is_pregroup holds exactly for words side by side, then cups/swaps."""
    d = D(ctx, 'd', 0, w, maxw=3, kinds=('word', 'box', 'swap', 'cup'),
          arity=((0, 1), (1, 1)))
    ok, words = True, True
    for l in d.layers:
        if words and type(l.box) is Word:
            ok = ok and not atoms(l.right)
        else:
            words = False
            ok = ok and type(l.box) in (Cup, Swap)
    ctx.check(bool(d.is_pregroup) == ok, 'is_pregroup')
    e = D(ctx, 'e', n, 0)
    ctx.check(bool(e.is_pregroup) == (n == 0), 'identity')
