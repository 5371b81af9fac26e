"""G05: normal forms keep type, boxes and wiring."""
import itertools

from vsym.case import Suite
from vsym.core import And, Implies, Not
from vsym.lq import (aeq, atoms, beq, deq, mk, satom, sdiag, sty, teq,
                     wiring, wt)

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Id, Layer, \
    Swap, Ty, Word
from lambeq.backend import snake_removal as sr

SUITE = Suite(
    'G05',
    bounds='diagrams of up to 3 (quick) / 4 (thorough) layers on up to 4 '
    'wires, every sequence of boxes (arities 0 to 2), words, cups, caps '
    '(both orientations) and swaps at every offset; type names and winding '
    'numbers symbolic; snakes with up to 2 obstructing boxes on each side; '
    'interchange of every pair of positions',
    assumptions=['boxes of one diagram carry distinct names (so that wiring '
                 'can be compared box by box)'],
    outside='larger diagrams')


def name_boxes(d):
    """Give every non-structural box its own name."""
    out = []
    for i, l in enumerate(d.layers):
        b = l.box
        if type(b) is Box:
            b = Box(f'b{i}', b.dom, b.cod)
        elif type(b) is Word:
            b = Word(f'b{i}', b.cod)
        out.append(Layer(left=l.left, box=b, right=l.right))
    return Diagram(d.dom, d.cod, out)


def build(ctx, n, kinds, zlo=0, zhi=1):
    maxw = width(kinds)
    ar = AR if len(kinds) < 3 else AR[:2]
    d = Id(sty(ctx, 'd', n, zlo, zhi))
    for i, k in enumerate(kinds):
        e = sdiag(ctx, f'l{i}', d.cod, 1, kinds=(k,), maxw=maxw, arity=ar,
                  zlo=zlo, zhi=zhi)
        if not e.layers:
            ctx.assume(False)
        d = Diagram(d.dom, e.cod, [*d.layers, *e.layers])
    return name_boxes(d)


def same_meaning(ctx, d, e, msg):
    ctx.check(And(teq(d.dom, e.dom), teq(d.cod, e.cod)), msg + ': boundary')
    ctx.check(wt(e), msg + ': well typed')
    ctx.check(wiring(d) == wiring(e), msg + ': wiring')
    a = {b.name: b for b in d.boxes if type(b) in (Box, Word)}
    bs = [b for b in e.boxes if type(b) in (Box, Word)]
    ctx.check(len(bs) == len(a) and And(*[
        b.name in a and type(b) is type(a[b.name]) and beq(b, a[b.name])
        for b in bs]), msg + ': boxes')


def blocked(d, i):
    """Layers i and i+1 cannot slide past each other."""
    o0, o1 = d.offsets[i], d.offsets[i + 1]
    c0, d1 = len(atoms(d.boxes[i].cod)), len(atoms(d.boxes[i + 1].dom))
    return o0 < o1 + d1 and o1 < o0 + c0


K = ('box', 'cap', 'cup', 'swap')


def width(kinds):
    return 4 if len(kinds) < 3 or 'box' not in kinds else 3


AR = ((1, 1), (0, 1), (1, 0), (2, 1))


def possible(w, kinds):
    ws = {w}
    ar = AR if len(kinds) < 3 else AR[:2]
    for k in kinds:
        io = {'box': ar, 'cup': ((2, 0),), 'cap': ((0, 2),),
              'swap': ((2, 2),)}[k]
        ws = {x - a + b for x in ws for a, b in io
              if x >= a and x - a + b <= width(kinds)}
    return bool(ws)


def seqs(n, kinds=K):
    return [dict(n=w, kinds=s) for s in itertools.product(kinds, repeat=n)
            for w in (0, 1, 2) if possible(w, s)]


@SUITE.case(quick=lambda: seqs(1) + seqs(2), thorough=lambda: seqs(1)
            + seqs(2) + seqs(3), max_witness=10)
def interchange(ctx, n, kinds):
    d = build(ctx, n, kinds)
    k = len(d.layers)
    i, j = ctx.small('i', -1, k), ctx.small('j', -1, k)
    left = ctx.choose('left', [False, True])
    legal = 0 <= i < k and 0 <= j < k
    try:
        e = sr.interchange(d, i, j, left)
    except IndexError:
        ctx.check(not legal, 'legal positions refused')
        return
    except sr.InterchangerError:
        ctx.check(abs(i - j) != 1 or blocked(d, min(i, j)),
                  'refused although the boxes can slide')
        return
    ctx.check(legal, 'illegal positions accepted')
    same_meaning(ctx, d, e, 'interchange')
    if i != j:
        want = list(d.boxes)
        want.insert(j, want.pop(i))
        ctx.check(And(*[beq(a, b) for a, b in zip(e.boxes, want)]), 'order')
    else:
        ctx.check(deq(d, e), 'no move')


@SUITE.case(quick=lambda: seqs(1) + seqs(2) + seqs(3, ('box', 'cap', 'cup')),
            thorough=lambda: seqs(1) + seqs(2) + seqs(3)
            + seqs(4, ('box', 'cap', 'cup')), max_witness=6)
def normal_form(ctx, n, kinds):
    d = build(ctx, n, kinds)
    left = ctx.choose('left', [False, True])
    r = d.remove_snakes(left=left)
    same_meaning(ctx, d, r, 'remove_snakes')
    ctx.check(deq(r.remove_snakes(left=left), r), 'remove_snakes twice')
    try:
        e = d.normal_form(left=left)
    except NotImplementedError:
        ctx.check(True, 'disconnected diagrams may be refused')
        return
    same_meaning(ctx, d, e, 'normal_form')
    ctx.check(deq(e.normal_form(left=left), e), 'idempotent')


def obstruct(ctx, p, side, kind):
    """A box beside the snake."""
    if kind == 'state':
        return Box(p, Ty(), satom(ctx, p + 'c', 0, 0))
    return Box(p, satom(ctx, p + 'a', 0, 0), satom(ctx, p + 'c', 0, 0))


@SUITE.case(quick=[dict(o=o, left=l) for o in
                   ((), ('L',), ('R',), ('L', 'R'), ('R', 'L'), ('L', 'L'),
                    ('R', 'R')) for l in (False, True)],
            thorough=[dict(o=o, left=l) for k in range(4) for o in
                      itertools.product('LR', repeat=k)
                      for l in (False, True)], max_witness=10)
def snakes(ctx, o, left):
    """A snake with boxes on either side is straightened."""
    x = satom(ctx, 'x', -1, 1)
    side = ctx.choose('side', ['left', 'right'])
    rev = ctx.choose('rev', [False, True])
    # wire x enters, goes up and down, leaves as x
    if side == 'left':          # Id @ Cap >> Cup @ Id
        y = x.l if rev else x.r
        cap, cup = Cap(y, x, rev), Cup(x, y, rev)
    else:                       # Cap @ Id >> Id @ Cup
        y = x.r if rev else x.l
        cap, cup = Cap(x, y, rev), Cup(y, x, rev)
    L, R = Ty(), Ty()
    f = Box('before', Ty(), x)
    d = f.to_diagram()
    boxes = []
    kinds = [ctx.choose(f'k{i}', ['state', 'map']) for i in range(len(o))]
    # wires for maps present from the start
    bs = [obstruct(ctx, f'o{i}', s, k) for i, (s, k) in
          enumerate(zip(o, kinds))]
    lefts = [b for s, b in zip(o, bs) if s == 'L']
    rights = [b for s, b in zip(o, bs) if s == 'R']
    lt = Ty().tensor([b.dom for b in lefts]) if lefts else Ty()
    rt = Ty().tensor([b.dom for b in rights]) if rights else Ty()
    d = Id(lt) @ d @ Id(rt)
    core = x @ y @ x if side == 'left' else x @ y @ x
    d = d >> Id(lt) @ (Id(x) @ cap if side == 'left' else cap @ Id(x)) \
        @ Id(rt)
    lcur = [b.dom for b in lefts]
    rcur = [b.dom for b in rights]
    li = ri = 0

    def cat(ts):
        return Ty().tensor(ts) if ts else Ty()
    for s, b in zip(o, bs):
        if s == 'L':
            d = d >> (Id(cat(lcur[:li])) @ b @ Id(cat(lcur[li + 1:]))
                      @ Id(core) @ Id(cat(rcur)))
            lcur[li] = b.cod
            li += 1
        else:
            d = d >> (Id(cat(lcur)) @ Id(core) @ Id(cat(rcur[:ri])) @ b
                      @ Id(cat(rcur[ri + 1:])))
            rcur[ri] = b.cod
            ri += 1
    d = d >> (Id(cat(lcur)) @ (cup @ Id(x) if side == 'left'
                               else Id(x) @ cup) @ Id(cat(rcur)))
    ctx.check(wt(d), 'generator')
    r = d.remove_snakes(left=left)
    ctx.check(all(type(b) is Box for b in r.boxes), 'snake removed')
    same_meaning(ctx, d, r, 'snake')
    if not o:
        ctx.check(deq(r, f), 'a bare snake is the identity')


@SUITE.case(quick=[dict(w=1, c=0), dict(w=2, c=0), dict(w=2, c=1),
                   dict(w=2, c=2)],
            thorough=[dict(w=1, c=0), dict(w=2, c=0), dict(w=2, c=1),
                      dict(w=2, c=2), dict(w=3, c=1), dict(w=3, c=2)],
            max_witness=10)
def pregroup_normal_form(ctx, w, c):
    d = Id()
    for i in range(w):
        d = d @ Word(f'b{i}', sty(ctx, f'w{i}', ctx.small(f'n{i}', 1, 2), 0,
                                  1))
    n = len(atoms(d.cod))
    for i in range(c):
        e = sdiag(ctx, f'l{i}', d.cod, 1, maxw=4,
                  kinds=('cup', 'swap', 'cap'), zlo=0, zhi=1)
        d = Diagram(d.dom, e.cod, [*d.layers, *e.layers])
    try:
        e = d.pregroup_normal_form()
    except NotImplementedError:
        ctx.check(True, 'disconnected diagrams may be refused')
        return
    same_meaning(ctx, d, e, 'pregroup normal form')
    if all(type(b) is not Cap for b in d.boxes):
        ctx.check(bool(e.is_pregroup), 'still a pregroup diagram')
