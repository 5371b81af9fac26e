"""U05: the layouts behind drawings follow the diagram."""
import itertools

from vsym.case import Suite
from vsym.core import And
from vsym.lq import aeq, atoms, beq, mk, sdiag, sty

from lambeq.backend.drawing.drawable import DrawableDiagram, \
    DrawablePregroup, PregroupError, WireEndpointType as W
from lambeq.backend.grammar import Cap, Cup, Id, Swap, Word

SUITE = Suite(
    'U05',
    bounds='diagrams of up to 3 (quick) / 4 (thorough) layers of boxes '
    '(arities 0 to 3), words, cups, caps, swaps and spiders at every offset, '
    'on up to 4 wires, foliated or not; pregroup diagrams of up to 3 / 4 '
    'words (caps included) with up to 4 / 6 wires followed by up to 3 / 5 '
    'cups and swaps; symbolic names and winding numbers; every scale and '
    'padding (symbolic reals, scale positive)',
    assumptions=['exact arithmetic for scaling and padding'],
    outside='rendering by matplotlib and TikZ; frames')

EPS = 1e-6
LOW = 1e-3


def out_of(dr):
    return {a: b for a, b in dr.wires}


def structure(ctx, dr, d):
    """Boxes and wires of the layout are those of the diagram; returns the
    row of open endpoints before each box."""
    e = dr.wire_endpoints
    kind = [x.kind for x in e]
    ctx.check(len(dr.boxes) == len(d.boxes) and And(*[
        beq(x.obj, b) for x, b in zip(dr.boxes, d.boxes)]), 'boxes')
    go = out_of(dr)
    ctx.check(len(go) == len(dr.wires) == len(set(go.values())),
              'one wire per endpoint')
    ctx.check(all(kind[a] in (W.INPUT, W.COD) and kind[b] in (W.DOM, W.OUTPUT)
                  for a, b in go.items()), 'wires go from outputs to inputs')
    ctx.check(2 * len(go) == len(e), 'no loose endpoint')
    ins = sorted([i for i, k in enumerate(kind) if k == W.INPUT],
                 key=lambda i: e[i].x)
    outs = sorted([i for i, k in enumerate(kind) if k == W.OUTPUT],
                  key=lambda i: e[i].x)
    scan = ins
    rows = [scan]
    tys = list(atoms(d.dom))
    ctx.check(len(ins) == len(tys), 'inputs')
    good = [aeq(atoms(e[i].obj)[0], t) for i, t in zip(ins, tys)]
    for x, b, off in zip(dr.boxes, d.boxes, d.offsets):
        n, m = len(atoms(b.dom)), len(atoms(b.cod))
        ctx.check(len(x.dom_wires) == n and len(x.cod_wires) == m, 'ports')
        ctx.check([go.get(i) for i in scan[off:off + n]] == x.dom_wires,
                  'wires into a box')
        ctx.check(all(kind[i] == W.DOM for i in x.dom_wires)
                  and all(kind[i] == W.COD for i in x.cod_wires), 'kinds')
        for i, t in zip(x.dom_wires + x.cod_wires,
                        list(atoms(b.dom)) + list(atoms(b.cod))):
            good.append(aeq(atoms(e[i].obj)[0], t))
        scan = scan[:off] + x.cod_wires + scan[off + n:]
        rows.append(scan)
    ctx.check([go.get(i) for i in scan] == outs, 'wires to the outputs')
    good += [aeq(atoms(e[i].obj)[0], t) for i, t in zip(outs, atoms(d.cod))]
    ctx.check(And(*good), 'types of the wires')
    return rows


def geometry(ctx, dr, d, rows, foliated):
    e = dr.wire_endpoints
    for r in rows:
        ctx.check(all(e[a].x < e[b].x - LOW for a, b in zip(r, r[1:])),
                  'open wires keep their order and do not coincide')
    for a, b in dr.wires:
        ctx.check(abs(e[a].x - e[b].x) < EPS, 'wires are vertical')
        ctx.check(e[a].y > e[b].y + LOW, 'wires go down')
    ext = []
    for x in dr.boxes:
        for i in x.dom_wires:
            ctx.check(e[i].y > x.y, 'inputs enter from above')
        for i in x.cod_wires:
            ctx.check(e[i].y < x.y, 'outputs leave below')
        xs = [e[i].x for i in x.dom_wires + x.cod_wires] or [x.x]
        ys = [e[i].y for i in x.dom_wires + x.cod_wires] or [x.y]
        ext.append((min(xs + [x.x]), max(xs + [x.x]), min(ys + [x.y]),
                    max(ys + [x.y])))
    for i, j in itertools.combinations(range(len(ext)), 2):
        a, b = ext[i], ext[j]
        apart = a[1] < b[0] - LOW or b[1] < a[0] - LOW
        ctx.check(apart or b[3] < a[2] - LOW, 'boxes do not overlap, and '
                  'are in order')
        if foliated:
            ctx.check(b[3] < a[2] - LOW, 'one box per layer')
    for (a, b) in dr.wires:
        for x, (l, r, lo, hi) in zip(dr.boxes, ext):
            if a in x.cod_wires or b in x.dom_wires:
                continue
            ctx.check(not (l - LOW < e[a].x < r + LOW
                           and e[b].y < hi and lo < e[a].y),
                      'wires do not run through boxes')


KINDS = ('box', 'word', 'cup', 'cap', 'swap', 'spider')
AR = ((1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (0, 3), (2, 2), (0, 0))


FEW = ((1, 1), (0, 1), (2, 1), (1, 2), (0, 0))


def layouts(k):
    return [dict(n=n, k=j, fol=f) for j in range(1, k + 1)
            for n in (0, 1, 2, 3) for f in (False, True)]


def make(ctx, n, k, kinds=KINDS, arity=AR):
    d = sdiag(ctx, 'd', sty(ctx, 't', n, 0, 0), k, kinds=kinds, maxw=4,
              zlo=-1, zhi=1, arity=arity)
    ctx.assume(len(d.layers) > 0)
    return d


@SUITE.case(quick=layouts(2), thorough=layouts(3), max_witness=4)
def layout(ctx, n, k, fol):
    d = make(ctx, n, k)
    dr = DrawableDiagram.from_diagram(d, fol)
    geometry(ctx, dr, d, structure(ctx, dr, d), fol)


@SUITE.case(quick=[dict(n=n, k=3, fol=f) for n in (0, 1, 2)
                   for f in (False, True)],
            thorough=[dict(n=n, k=4, fol=f) for n in (0, 1, 2)
                      for f in (False, True)], max_witness=4)
def deep(ctx, n, k, fol):
    """More layers, of boxes only."""
    d = make(ctx, n, k, ('box',), FEW)
    dr = DrawableDiagram.from_diagram(d, fol)
    geometry(ctx, dr, d, structure(ctx, dr, d), fol)


@SUITE.case(quick=[dict(n=n, k=2, fol=False) for n in (0, 1, 2)],
            thorough=[dict(n=n, k=3, fol=f) for n in (0, 1, 2)
                      for f in (False, True)], max_witness=4)
def scaled(ctx, n, k, fol):
    """Any scale and padding keeps the order of everything."""
    d = make(ctx, n, k, ('box', 'cup', 'cap'), FEW)
    dr = DrawableDiagram.from_diagram(d, fol)
    rows = structure(ctx, dr, d)
    sx, sy = ctx.real('sx'), ctx.real('sy')
    px, py = ctx.real('px'), ctx.real('py')
    ctx.assume(And(sx > 0, sy > 0))
    old = [(b.x, b.y) for b in dr.boxes + dr.wire_endpoints]
    dr.scale_and_pad((sx, sy), (px, py))
    now = [(b.x, b.y) for b in dr.boxes + dr.wire_endpoints]
    ctx.check(structure(ctx, dr, d) == rows, 'same structure')
    x0, y0 = min(x for x, _ in old), min(y for _, y in old)
    ctx.check(And(*[a == x0 + (x - x0) * sx + px
                    for (x, _), (a, _) in zip(old, now)]), 'columns')
    nb = len(dr.boxes)
    free = [nb + i for i, e in enumerate(dr.wire_endpoints)
            if e.kind in (W.INPUT, W.OUTPUT)]
    ctx.check(And(*[now[i][1] == y0 + (old[i][1] - y0) * sy + py
                    for i in [*range(nb), *free]]), 'rows')
    ctx.check(And(*[now[nb + a][1] > now[nb + b][1] for a, b in dr.wires]),
              'wires go down')
    ctx.check(And(*[dr.wire_endpoints[i].y - b.y == (1 - 2 * j) * sy / 4
                    for b in dr.boxes for j, ws in enumerate(
                        (b.dom_wires, b.cod_wires)) for i in ws]),
              'wires end at the boxes')


def words(ctx, sizes):
    d = Id()
    for i, n in enumerate(sizes):
        if n == -2:
            t = sty(ctx, f'w{i}', 1, -1, 1)
            d = d @ (Cap(t, t.r, True) if ctx.bool(f'cap{i}')
                     else Cap(t, t.l))
        else:
            d = d @ Word(ctx.name(f'n{i}'), sty(ctx, f'w{i}', n, -1, 1))
    return d


PRE = ('cup', 'swap')
SIZES = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (1, 3, 1), (-2, 1),
         (1, -2), (0, 2)]


@SUITE.case(quick=[dict(sizes=s, k=k) for s in SIZES for k in (0, 1, 2)
                   if not k or s != (1,)]
            + [dict(sizes=s, k=3) for s in SIZES[1:6]],
            thorough=[dict(sizes=s, k=k)
                      for s in SIZES + [(2, 2, 2), (1, 3, 1, 1)]
                      for k in range(5) if not k or s != (1,)], max_witness=4)
def pregroup(ctx, sizes, k):
    """Words on a line, cups and swaps below what they join."""
    d = words(ctx, sizes)
    nw = len(d.layers)
    if k:
        e = sdiag(ctx, 'p', d.cod, k, kinds=PRE, maxw=6, zlo=-1, zhi=1)
        ctx.assume(len(e.layers) > 0)
        d = d >> e
    dr = DrawablePregroup.from_diagram(d)
    rows = structure(ctx, dr, d)
    e = dr.wire_endpoints
    for r in rows[nw:]:
        ctx.check(all(e[a].x < e[b].x - LOW for a, b in zip(r, r[1:])),
                  'open wires keep their order and do not coincide')
    for a, b in dr.wires:
        ctx.check(abs(e[a].x - e[b].x) < EPS, 'wires are vertical')
        ctx.check(e[a].y > e[b].y + LOW, 'wires go down')
    ws, rest = dr.boxes[:nw], dr.boxes[nw:]
    ctx.check(len({x.y for x in ws}) <= 1, 'words on one line')
    ctx.check(all(a.x < b.x - LOW for a, b in zip(ws, ws[1:])),
              'words in order')
    for x in ws:
        ctx.check(all(e[i].y > x.y for i in x.cod_wires), 'words end')
    ext = []
    for x in rest:
        l, r = [e[i].x for i in x.dom_wires]
        ctx.check(l < x.x < r, 'in the middle of what it joins')
        ctx.check(all(e[i].y > x.y + LOW for i in x.dom_wires), 'from above')
        ctx.check(all(abs(e[i].y - x.y) < EPS for i in x.cod_wires), 'below')
        ctx.check([e[i].x for i in x.cod_wires] in ([], [l, r]), 'columns')
        ext.append((l, r, x.y, e[x.dom_wires[0]].y))
    for a, b in itertools.combinations(ext, 2):
        apart = a[1] < b[0] - LOW or b[1] < a[0] - LOW
        ctx.check(apart or b[3] < a[2] - LOW, 'cups and swaps do not overlap')
    for (a, b) in dr.wires:
        for x, (l, r, lo, hi) in zip(rest, ext):
            if a in x.cod_wires or b in x.dom_wires:
                continue
            ctx.check(not (l - LOW < e[a].x < r + LOW
                           and e[b].y < hi and lo < e[a].y),
                      'wires do not run through cups and swaps')


@SUITE.case(quick=[dict(sizes=s, k=k) for s in SIZES[:6] for k in (1, 2)],
            thorough=[dict(sizes=s, k=k) for s in SIZES for k in (1, 2, 3)],
            max_witness=4)
def refused(ctx, sizes, k):
    """What is not of pregroup form is not drawn as if it were."""
    d = words(ctx, sizes)
    e = sdiag(ctx, 'p', d.cod, k, kinds=('cup', 'swap', 'box', 'word',
                                         'spider'), maxw=4, zlo=-1, zhi=1,
              arity=((1, 1), (2, 1), (2, 2), (0, 1)))
    ctx.assume(len(e.layers) > 0)
    d = d >> e
    good, seen = True, False
    for l in d.layers:
        if isinstance(l.box, (Cup, Swap)):
            seen = True
        elif seen or atoms(l.box.dom) or atoms(l.right):
            good = False
    try:
        dr = DrawablePregroup.from_diagram(d)
    except (PregroupError, IndexError):
        ctx.check(not good, 'pregroup diagram refused')
        return
    ctx.check(good, 'not a pregroup diagram')
    ctx.check(len(dr.boxes) == len(d.boxes), 'boxes')
