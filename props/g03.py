"""G03: permutations, swaps, cups, caps and spiders wire what they say."""
from vsym.case import Suite
from vsym.core import And, Iff, Not
from vsym.lq import aeq, atoms, mk, satom, sty, teq, wiring, wt

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Id, Spider, Swap, \
    Ty, Word

SUITE = Suite(
    'G03',
    bounds='permutations of up to 4 (quick) / 5 (thorough) wires with every '
    'entry symbolic over the legal range and one beyond on each side; swaps, '
    'cups, caps over types of up to 3 / 4 factors each, spiders with up to '
    '3 legs each side over types of up to 3 factors; all factor names and '
    'winding numbers symbolic',
    assumptions=['type names are opaque: only their equality pattern is '
                 'explored'],
    outside='wider types, more legs')


def io(*groups):
    return frozenset(frozenset(x) for x in groups)


def wires_only(ctx, d, kinds):
    ctx.check(all(type(b) in kinds for b in d.boxes), 'only wires')


PQ = [dict(n=n, m=m) for n in range(4) for m in range(n + 2)] + [
    dict(n=4, m=4)]


@SUITE.case(quick=PQ, thorough=PQ + [dict(n=4, m=3), dict(n=4, m=5),
                                     dict(n=5, m=5)])
def permutation(ctx, n, m):
    """Any list of m entries against a type with n factors."""
    dom = sty(ctx, 't', n, -1, 1)
    p = [ctx.int(f'p{i}', -1 if n < 4 else 0, n if n < 4 else n - 1)
         for i in range(m)]
    ok = sorted(map(int, p)) == list(range(n))
    try:
        d = Diagram.permutation(dom, p)
    except ValueError:
        ctx.check(not ok, 'permutation refused')
        return
    ctx.check(ok, 'not a permutation but accepted')
    p = [int(x) for x in p]
    ctx.check(wt(d), 'well typed')
    wires_only(ctx, d, (Swap,))
    ctx.check(And(teq(d.dom, dom),
                  teq(d.cod, mk([atoms(dom)[i] for i in p]))), 'boundary')
    ctx.check(wiring(d) == (io(*[{('in', p[i]), ('out', i)}
                                 for i in range(n)]), frozenset(), 0),
              'wiring')
    f = Box(ctx.name('f'), Ty(), dom)
    e = f.to_diagram().permuted(p)
    ctx.check(wt(e), 'permuted well typed')
    ctx.check(wiring(e, key=lambda b: 'f')[0] == io(
        *[{('f', 'o', p[i]), ('out', i)} for i in range(n)]), 'permuted')


LR = [dict(n=n, m=m) for n in range(4) for m in range(4)]
LRT = [dict(n=n, m=m) for n in range(5) for m in range(5)]


@SUITE.case(quick=LR, thorough=LRT)
def swap(ctx, n, m):
    a, b = sty(ctx, 'a', n, -1, 1), sty(ctx, 'b', m, -1, 1)
    for d in (Diagram.swap(a, b), Swap(a, b)):
        d = d.to_diagram()
        ctx.check(wt(d), 'well typed')
        wires_only(ctx, d, (Swap,))
        ctx.check(And(teq(d.dom, a @ b), teq(d.cod, b @ a)), 'boundary')
        ctx.check(wiring(d)[0] == io(
            *[{('in', i), ('out', m + i)} for i in range(n)],
            *[{('in', n + j), ('out', j)} for j in range(m)]), 'wiring')
    e = Swap(a, b).dagger()
    ctx.check(And(wt(e), teq(e.dom, b @ a), teq(e.cod, a @ b)), 'dagger')


@SUITE.case(quick=LR, thorough=LRT)
def cups_caps(ctx, n, m):
    """Accepted iff adjoint, in the stated orientation; nested wires."""
    left, right = sty(ctx, 'a', n, -2, 2), sty(ctx, 'b', m, -2, 2)
    rev = ctx.choose('rev', [False, True])
    x, y = atoms(left), atoms(right)[::-1]
    for kind, make in (('cup', Diagram.cups), ('cap', Diagram.caps),
                       ('cup', Cup), ('cap', Cap)):
        # a cup (l, r) needs r = l.r, a cap needs r = l.l; reversed: opposite
        s = 1 if (kind == 'cup') != rev else -1
        ok = And(n == m, *[And(p.name == q.name, q.z == p.z + s)
                           for p, q in zip(x, y)])
        try:
            d = make(left, right, rev).to_diagram()
        except ValueError:
            ctx.check(Not(ok), f'{kind} refused')
            continue
        ctx.check(ok, f'{kind} of non-adjoint types accepted')
        ctx.check(wt(d), f'{kind} well typed')
        wires_only(ctx, d, (Cup, Cap))
        z = left @ right
        ctx.check(And(teq(d.dom, z if kind == 'cup' else Ty()),
                      teq(d.cod, Ty() if kind == 'cup' else z)),
                  f'{kind} boundary')
        p = 'in' if kind == 'cup' else 'out'
        ctx.check(wiring(d)[0] == io(*[{(p, i), (p, 2 * n - 1 - i)}
                                       for i in range(n)]),
                  f'{kind} wiring')
        e = d.dagger()
        ctx.check(And(wt(e), teq(e.dom, d.cod), teq(e.cod, d.dom)),
                  'dagger')


@SUITE.case(quick=[dict(n=n) for n in range(4)])
def cup_cap_constructors(ctx, n):
    t = sty(ctx, 'a', n, -1, 1)
    rev = ctx.choose('rev', [False, True])
    cs = [Cup.to_right(t, rev), Cap.to_right(t, rev)]
    ctx.check(And(teq(cs[0].dom, t @ (t.l if rev else t.r)),
                  teq(cs[1].cod, t @ (t.r if rev else t.l)),
                  *[wt(c) for c in cs]), 'to_right')
    cs = [Cup.to_left(t, rev), Cap.to_left(t, rev)]
    ctx.check(And(teq(cs[0].dom, (t.r if rev else t.l) @ t),
                  teq(cs[1].cod, (t.l if rev else t.r) @ t),
                  *[wt(c) for c in cs]), 'to_left')


@SUITE.case(quick=[dict(n=n, a=a, b=b) for n in range(4) for a in range(4)
                   for b in range(4)])
def spider(ctx, n, a, b):
    t = sty(ctx, 't', n, -1, 1)
    d = Spider(t, a, b).to_diagram()
    ctx.check(wt(d), 'well typed')
    wires_only(ctx, d, (Spider, Swap))
    ctx.check(And(teq(d.dom, mk(atoms(t) * a)),
                  teq(d.cod, mk(atoms(t) * b))), 'boundary')
    ctx.check(sum(type(x) is Spider for x in d.boxes) == n, 'one per factor')
    ctx.check(wiring(d, spiders=True)[0] == io(
        *[{('in', i + k * n) for k in range(a)}
          | {('out', i + k * n) for k in range(b)} for i in range(n)
          if a + b]), 'wiring')
    e = d.dagger()
    ctx.check(And(wt(e), teq(e.dom, d.cod), teq(e.cod, d.dom)), 'dagger')
    r = d.rotate(1)
    ctx.check(And(wt(r), teq(r.dom, d.dom.r), teq(r.cod, d.cod.r)), 'adjoint')


@SUITE.case(quick=[dict(w=2, c=1), dict(w=2, c=2), dict(w=3, c=2)],
            thorough=[dict(w=2, c=2), dict(w=3, c=2), dict(w=3, c=3)])
def create_pregroup(ctx, w, c):
    """Planar cups at the stated wire positions, in any legal order."""
    ws = [Word(ctx.name(f'w{i}'), sty(ctx, f't{i}', ctx.small(f'n{i}', 0, 3),
                                      -1, 1)) for i in range(w)]
    flat = [a for x in ws for a in atoms(x.cod)]
    n = len(flat)
    alive = list(range(n))
    morphs = []
    for k in range(c):
        if len(alive) < 2:
            break
        i = ctx.choose(f'c{k}', range(len(alive) - 1))
        a, b = alive[i], alive[i + 1]
        ctx.assume(And(flat[a].name == flat[b].name,
                       flat[b].z == flat[a].z + 1))
        morphs.append((Cup, a, b))
        del alive[i:i + 2]
    d = Diagram.create_pregroup_diagram(ws, morphs)
    ctx.check(wt(d), 'well typed')
    ctx.check(bool(d.is_pregroup), 'is a pregroup diagram')
    ctx.check(teq(d.cod, mk([flat[i] for i in alive])), 'output')
    ids = {id(x): i for i, x in enumerate(ws)}
    port = [(ids[id(x)], 'o', j) for x in ws
            for j in range(len(atoms(x.cod)))]
    want = [{port[a], port[b]} for _, a, b in morphs]
    want += [{port[i], ('out', k)} for k, i in enumerate(alive)]
    ctx.check(wiring(d, key=lambda b: ids[id(b)])[0] == io(*want), 'wiring')


@SUITE.case(quick=[dict(n=n, k=k) for n in (2, 3) for k in (1, 2)],
            thorough=[dict(n=n, k=k) for n in (2, 3, 4) for k in (1, 2, 3)])
def create_pregroup_swaps(ctx, n, k):
    """Swaps of adjacent wires listed by their current position."""
    ws = [Word(ctx.name(f'w{i}'), satom(ctx, f't{i}', -1, 1))
          for i in range(n)]
    ms = []
    for i in range(k):
        p = ctx.small(f's{i}', 0, n - 2)
        ms.append((Swap, p, p + 1))
    # only the first swap's types are those of the words in general
    try:
        d = Diagram.create_pregroup_diagram(ws, ms)
    except ValueError:
        ctx.check(k > 1, 'a single swap is accepted')
        return
    ctx.check(wt(d), 'well typed')
    pos = list(range(n))
    for _, p, q in ms:
        pos[p], pos[q] = pos[q], pos[p]
    ids = {id(x): i for i, x in enumerate(ws)}
    ctx.check(wiring(d, key=lambda b: ids[id(b)])[0] == io(
        *[{(pos[j], 'o', 0), ('out', j)} for j in range(n)]), 'wiring')
