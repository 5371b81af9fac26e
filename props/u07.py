"""U07: drawings show every box, wire and label where the layout puts it."""
import contextlib
import io
import re
from collections import Counter

from vsym.case import Suite
from vsym.core import And

from lambeq.backend import quantum as q
from lambeq.backend.drawing import drawing
from lambeq.backend.drawing.drawable import DrawableDiagram, \
    DrawablePregroup, WireEndpointType as W
from lambeq.backend.drawing.drawing_backend import DrawingBackend
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Id, Spider, \
    Swap, Ty, Word

SUITE = Suite(
    'U07',
    bounds='diagrams of up to 2 layers (thorough: 3 for drawing calls) of '
    'boxes, words, cups, caps, swaps and spiders at every offset on up to 3 wires; '
    'circuits of up to 2 gates on up to 4 qubits, with controlled gates '
    'nested twice at every distance up to 2, under three scales and two '
    'paddings; every scale and padding (symbolic reals, scale positive) of '
    'the drawing calls for diagrams; labels, padding and style options of '
    'the TikZ output; equations of up to 3 diagrams',
    assumptions=['exact arithmetic for scaling and padding'],
    stubs=['size of dots'],
    outside='what TeX and matplotlib do with the drawing calls; colours; '
    'frames; names of TikZ styles of spiders')

N = Ty('n')


class Recorder(DrawingBackend):
    """Keeps all drawing calls."""

    def __init__(self):
        self.text, self.nodes, self.polys, self.wires = [], [], [], []
        self.spiders, self.out = 0, 0
        self.max_width = 0

    def draw_text(self, text, x, y, **params):
        self.text.append((text, x, y))

    def draw_node(self, x, y, **params):
        self.nodes.append((x, y, params))

    def draw_polygon(self, *points, color='white'):
        self.polys.append([tuple(p) for p in points])

    def draw_wire(self, source, target, bend_out=False, bend_in=False,
                  is_leg=False, style=None, color_id=0, **params):
        self.wires.append((tuple(source), tuple(target)))

    def draw_spiders(self, drawable, **params):
        self.spiders += 1

    def output(self, path=None, show=True, **params):
        self.out += 1


def small(ctx, n, k):
    """A diagram of k layers on n wires."""
    d = Id(N ** n)
    boxes = [Box('f', N, N), Box('g', N @ N, N), Box('h', N, N @ N),
             Box('x', Ty(), Ty()), Word('w', N), Box('e', N, Ty()),
             Cup(N, N.r), Cap(N, N.l), Swap(N, N), Spider(N, 1, 2),
             Spider(N, 2, 1), Box('d', N, N).dagger(),
             Box('c', N, N).rotate(2)]
    boxes = [b if not isinstance(b, Cup) else Cup(N, N.r) for b in boxes]
    for i in range(k):
        w = len(d.cod)
        opts = [(b, o) for b in boxes for o in range(w - len(b.dom) + 1)
                if w - len(b.dom) + len(b.cod) <= 3
                and list(d.cod)[o:o + len(b.dom)] == list(b.dom)]
        b, o = ctx.choose(f'layer{i}', opts)
        t = list(d.cod)
        d = d >> (Id(ty(t[:o])) @ b @ Id(ty(t[o + len(b.dom):])))
    return d


def ty(ts):
    r = Ty()
    for t in ts:
        r = r @ t
    return r


GATES = [q.H, q.X, q.Rz(0.25), q.CX, q.CZ, q.CRx(0.5), q.SWAP,
         q.Controlled(q.Z, 2), q.Controlled(q.X, -1), q.Controlled(q.X, 2),
         q.Controlled(q.H, -2), q.Controlled(q.CX), q.Controlled(q.CZ, -1),
         q.Controlled(q.Controlled(q.Z, -1), 1),
         q.Controlled(q.Controlled(q.X, -1), -1),
         q.Controlled(q.Controlled(q.Y, 1), 2), q.Controlled(q.CZ, -2),
         q.Controlled(q.CX, 2), q.Controlled(q.CX, -2)]


def circuit(ctx, n, k):
    d = q.Id(q.qubit ** n)
    gates = GATES + [q.Ket(0), q.Ket(0, 1), q.Bra(1), q.Bra(0, 0),
                     q.Discard(), q.Measure()]
    for i in range(k):
        t = list(d.cod)
        opts = [(b, o) for b in gates
                for o in range(len(t) - len(b.dom) + 1)
                if len(t) - len(b.dom) + len(b.cod) <= 4
                and t[o:o + len(b.dom)] == list(b.dom)]
        if not opts:
            break
        b, o = ctx.choose(f'gate{i}', opts)
        d = (d >> (q.Id(qty(t[:o])) @ b @ q.Id(qty(t[o + len(b.dom):]))))
    return d


def qty(ts):
    r = q.Ty()
    for t in ts:
        r = r @ t
    return r


@contextlib.contextmanager
def plain_dots():
    """Dots of fixed size (the size is the root of the extent)."""
    def most(*a, **kw):
        vals = a[0] if len(a) == 1 else a
        if all(type(v) in (int, float) for v in vals):
            return max(*a, **kw)
        return 1.
    old = getattr(drawing, 'sqrt', None)
    drawing.sqrt = lambda v: 1.
    drawing.max = most
    try:
        yield
    finally:
        drawing.sqrt = old
        del drawing.max


def plain(b):
    return not isinstance(b, (Cup, Cap, Swap, Spider))


def ports(dr, b):
    return [dr.wire_endpoints[i] for i in b.dom_wires + b.cod_wires]


def same(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def wires_drawn(ctx, dr, wires, extra=()):
    """Each wire of the layout is drawn, at its ends."""
    want = [(dr.wire_endpoints[a].coordinates, dr.wire_endpoints[b].coordinates)
            for a, b in dr.wires]
    got = wires[len(wires) - len(want):]
    ctx.check(len(got) == len(want), 'all wires are drawn')
    ctx.check(And(*[And(same(a[0], b[0]), same(a[1], b[1]))
                    for a, b in zip(got, want)]), 'wires')


def labels(dr):
    return Counter(str(dr.wire_endpoints[a].obj) for a, _ in dr.wires)


def covers(ctx, poly, xs, y, what):
    """The box covers these columns, and no space beside them."""
    left = [p[0] for p in poly]
    ctx.check(And(*[p <= x for x in xs for p in [min2(left)]],
                  *[max2(left) >= x for x in xs]), f'{what} covers its wires')
    ctx.check(And(*[And(p[1] - y <= 0.55, y - p[1] <= 0.55) for p in poly]),
              f'{what} is at its height')


def min2(xs):
    r = xs[0]
    for x in xs[1:]:
        r = x if x < r else r
    return r


def max2(xs):
    r = xs[0]
    for x in xs[1:]:
        r = x if x > r else r
    return r


def scale(ctx):
    s = ctx.real('sx'), ctx.real('sy')
    ctx.assume(And(s[0] > 0, s[1] > 0))
    return s, (ctx.real('px'), ctx.real('py'))


@SUITE.case(quick=[dict(n=n, k=k) for n in range(3) for k in (1, 2)],
            thorough=[dict(n=n, k=k) for n in range(4) for k in (1, 2)]
            + [dict(n=n, k=3) for n in (0, 1)], max_witness=4)
def boxes(ctx, n, k):
    """Every box, wire and label is drawn once, where it belongs."""
    d = small(ctx, n, k)
    dr = DrawableDiagram.from_diagram(d)
    sc, pad = scale(ctx)
    r = Recorder()
    tl, bl = ctx.choose('labels', [(True, True), (False, True),
                                   (True, False)])
    with plain_dots():
        drawing.draw(d, backend=r, drawable=dr, scale=sc, pad=pad,
                     draw_type_labels=tl, draw_box_labels=bl)
    nodes = [b for b in dr.boxes if plain(b.obj)]
    ctx.check(len(r.polys) == len(nodes) and r.spiders == 1 and r.out == 1,
              'every box is drawn')
    for b, p in zip(nodes, r.polys):
        covers(ctx, p, [e.x for e in ports(dr, b)] + [b.x], b.y, 'box')
    texts = r.text
    if bl:
        ctx.check([t[0] for t in texts[:len(nodes)]]
                  == [b.obj.name for b in nodes], 'names')
        ctx.check(And(*[And(t[1] == b.x, t[2] == b.y)
                        for t, b in zip(texts, nodes)]), 'names in boxes')
        texts = texts[len(nodes):]
    ctx.check(Counter(t[0] for t in texts)
              == (labels(dr) if tl else Counter()), 'types')
    wires_drawn(ctx, dr, r.wires)


def inner(b):
    """Controls and targets of a controlled gate, by wire."""
    n = len(b.dom)
    wires, controls = list(range(n)), []
    while isinstance(b, q.Controlled):
        c = len(b.controlled.dom)
        if b.distance > 0:
            controls.append(wires[0])
            wires = wires[b.distance:b.distance + c]
        else:
            controls.append(wires[-1])
            wires = wires[:c]
        b = b.controlled
    return controls, wires, b


@SUITE.case(quick=[dict(n=n, k=1) for n in range(5)]
            + [dict(n=n, k=2) for n in (1, 2)],
            thorough=[dict(n=n, k=k) for n in range(5) for k in (1, 2)],
            max_witness=4)
def circuits(ctx, n, k):
    """Gates are drawn on their qubits: controls as dots on the control
    wires, the gate on its own wires."""
    d = circuit(ctx, n, k)
    dr = DrawableDiagram.from_diagram(d)
    ctx.assume(len(dr.boxes) > 0)
    sc = ctx.choose('scale', [(1, 1), (2, 1.5), (.5, 3)])
    pad = ctx.choose('pad', [(0, 0), (.5, 1)])
    r = Recorder()
    drawing.draw(d, backend=r, drawable=dr, scale=sc, pad=pad)
    wires_drawn(ctx, dr, r.wires)
    polys, dots = list(r.polys), list(r.nodes)
    names = [t[0] for t in r.text]
    for b in dr.boxes:
        if isinstance(b.obj, (q.Discard, Swap)):
            continue
        if not isinstance(b.obj, q.Controlled):
            p = polys.pop(0)
            covers(ctx, p, [e.x for e in ports(dr, b)], b.y, 'gate')
            if not isinstance(b.obj, q.Measure):
                ctx.check(b.obj.name in names, 'name')
            continue
        controls, targets, g = inner(b.obj)
        xs = [dr.wire_endpoints[i].x for i in b.dom_wires]
        mid = b.y
        n_dots = len(controls) + (2 if g == q.X else 0)
        now, dots = dots[:n_dots], dots[n_dots:]
        black = [p for p in now if p[2].get('color') == 'black']
        other = [p for p in now if p[2].get('color') != 'black']
        ctx.check(len(black) == len(controls), 'controls')
        ctx.check(And(*[And(p[0] == xs[c], p[1] == mid)
                        for p, c in zip(black, controls)]),
                  'dots on the control wires')
        if g == q.X:
            ctx.check(len(other) == 2 and And(*[
                And(p[0] == xs[targets[0]], p[1] == mid) for p in other]),
                'cross on the target')
        else:
            p = polys.pop(0)
            covers(ctx, p, [xs[t] for t in targets], mid, 'target')
            ctx.check(g.name in names, 'name of the target')
            for i, x in enumerate(xs):
                if i not in targets:
                    ctx.check(x < min(a[0] for a in p)
                              or x > max(a[0] for a in p), 'only its wires')
    ctx.check(not polys and not dots, 'nothing else is drawn')


# ---- TikZ -------------------------------------------------------------------

NODE = re.compile(r'\\node \[(.*)\] \((\d+)\) at \((\S+), (\S+)\) \{(.*)\};')
EDGE = re.compile(r'\\draw \[(.*)\] (\(.*\));')
OPT = re.compile(
    r'(in|out)=-?\d+|-|->|(draw|fill)=\{rgb,255: red,\d+; green,\d+; '
    r'blue,\d+\}|line width=[\d.]+pt|looseness=[\d.]+|scale=[\d.]+'
    r'|style=\w+|circle|plus|anchor=west|right|fill=black|black|white')

# the arrow of a measurement
ARROW = re.compile(r'->looseness=[\d.]+')


def split(opts):
    return [o for o in re.split(r', (?![^{]*\})', opts) if o]


def parse(ctx, text):
    nodes, edges = {}, []
    for line in text.splitlines():
        m = NODE.fullmatch(line)
        if m:
            ctx.check(m[2] not in nodes, 'one node per number')
            nodes[m[2]] = (float(m[3]), float(m[4]), m[5], split(m[1]))
            continue
        m = EDGE.fullmatch(line)
        if m:
            ends = re.findall(r'\((\d+)\.center\)', m[2])
            ctx.check(m[2] == ' to '.join(f'({e}.center)' for e in ends),
                      'path')
            edges.append((ends, split(m[1])))
    for _, _, _, o in nodes.values():
        ctx.check(all(OPT.fullmatch(x) for x in o), 'options of a node')
    for ends, o in edges:
        o = [x for x in o if not OPT.fullmatch(x)]
        ctx.check_known('U07-arrow-style', And(
            len(ends) == 2, all(ARROW.fullmatch(x) for x in o)), not o,
            'options of a path')
        ctx.check(all(e in nodes for e in ends), 'path between nodes')
        # the centre of shifted text is not where the text was put
        ctx.check(all('right' not in nodes[e][3] for e in ends),
                  'path between plain nodes')
    return nodes, edges


def tikz(ctx, d, dr, draw, extra=0, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        draw(d, to_tikz=True, **kw)
    nodes, edges = parse(ctx, out.getvalue())
    at = {}
    paths = Counter()
    for ends, o in edges:
        paths[tuple(nodes[e][:2] for e in ends)] += 1
    for a, b in dr.wires:
        e = dr.wire_endpoints
        ctx.check(paths[(e[a].coordinates, e[b].coordinates)] >= 1,
                  'every wire is a path')
    for b in dr.boxes:
        if not plain(b.obj):
            for i in b.dom_wires:
                ctx.check(paths[(dr.wire_endpoints[i].coordinates,
                                 b.coordinates)] >= 1, 'legs')
            for i in b.cod_wires:
                ctx.check(paths[(b.coordinates,
                                 dr.wire_endpoints[i].coordinates)] >= 1,
                          'legs')
    styles = {}
    for m in re.finditer(r'\\tikzstyle\{(.*?)\}=\[(.*)\]', out.getvalue()):
        ctx.check(m[1] not in styles, 'one definition per style')
        styles[m[1]] = m[2]
    if kw.get('use_tikzstyles'):
        for ends, o in edges:
            ctx.check(all(x[6:] in styles for x in o if x[:6] == 'style='),
                      'styles are defined')
    return nodes, edges, paths


def curved(ctx, nodes, edges):
    """Only paths that are neither vertical nor horizontal are bent, each
    by its own amount."""
    for ends, o in edges:
        if len(ends) == 2:
            a, b = nodes[ends[0]], nodes[ends[1]]
            ctx.check(any('looseness' in x for x in o)
                      == (a[0] != b[0] and a[1] != b[1] and round(
                          min(abs(a[0] - b[0]), abs(a[1] - b[1]))
                          / ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5
                          * 2.1, 4) != 1), 'bent paths')


@SUITE.case(quick=[dict(n=n, k=k) for n in range(3) for k in (1, 2)],
            thorough=[dict(n=n, k=k) for n in range(4) for k in (1, 2)])
def tikz_boxes(ctx, n, k):
    """The TikZ code has the boxes, wires and labels of the layout."""
    d = small(ctx, n, k)
    dr = DrawableDiagram.from_diagram(d)
    sc = ctx.choose('scale', [(1, 1), (2, 1.5)])
    pad = ctx.choose('pad', [(0, 0), (.5, 1)])
    tp = ctx.choose('textpad', [(.1, .1), (0, 0)])
    st = ctx.choose('styles', [False, True])
    if st and any(isinstance(b, Spider) for b in d.boxes):
        return
    nodes, edges, paths = tikz(ctx, d, dr, drawing.draw, drawable=dr,
                               scale=sc, pad=pad, textpad=tp,
                               use_tikzstyles=st)
    plainb = [b for b in dr.boxes if plain(b.obj)]
    ctx.check(sum(len(e) == 5 for e, _ in edges) == len(plainb), 'boxes')
    ctx.check(sum(len(e) == 2 for e, _ in edges) == len(dr.wires) + sum(
        len(b.dom_wires) + len(b.cod_wires) for b in dr.boxes
        if not plain(b.obj)), 'wires')
    ctx.check(Counter(v[2] for v in nodes.values() if v[2])
              == labels(dr) + Counter(b.obj.name for b in plainb), 'labels')
    ctx.check(all((*b.coordinates, b.obj.name) in {v[:3] for v in
                                                   nodes.values()}
                  for b in plainb), 'names in boxes')
    curved(ctx, nodes, edges)


@SUITE.case(quick=[dict(n=n, k=1) for n in range(5)] + [dict(n=1, k=2)],
            thorough=[dict(n=n, k=k) for n in range(5) for k in (1, 2)])
def tikz_circuits(ctx, n, k):
    """The TikZ code of circuits is well-formed and has all wires."""
    d = circuit(ctx, n, k)
    dr = DrawableDiagram.from_diagram(d)
    sc = ctx.choose('scale', [(1, 1), (2, 1.5)])
    st = ctx.choose('styles', [False, True])
    nodes, edges, _ = tikz(ctx, d, dr, drawing.draw, drawable=dr, scale=sc,
                           use_tikzstyles=st)
    curved(ctx, nodes, edges)


@SUITE.case(quick=[dict(n=n) for n in (1, 2, 3)])
def tikz_pregroup(ctx, n):
    """Pregroup diagrams in TikZ."""
    d = Id()
    for i in range(n):
        d = d @ Word(f'w{i}', ctx.choose(f't{i}', [N, N.r @ N, N @ N]))
    for i in range(2):
        t = list(d.cod)
        opts = [(b(t[o], t[o + 1]), o) for o in range(len(t) - 1)
                for b in (Cup, Swap)
                if b is Swap or t[o].r == t[o + 1]]
        if not opts:
            break
        b, o = ctx.choose(f'c{i}', opts)
        d = d >> (Id(ty(t[:o])) @ b @ Id(ty(t[o + 2:])))
    dr = DrawablePregroup.from_diagram(d)
    dr.scale_and_pad((1, 1), (0, 0))
    nodes, edges, paths = tikz(ctx, d, dr, drawing.draw_pregroup,
                               textpad=ctx.choose('textpad', [(.1, .1),
                                                              (0, 0)]))
    ctx.check(sum(len(e) == 6 for e, _ in edges) == n, 'words')
    ctx.check(Counter(v[2] for v in nodes.values() if v[2])
              == labels(dr) + Counter(f'w{i}' for i in range(n)), 'labels')


@SUITE.case(quick=[dict(n=n) for n in (1, 2, 3)])
def equation(ctx, n):
    """The sides of an equation are drawn side by side."""
    sides = [ctx.choose(f'd{i}', [Box('f', N, N), Box('g', N @ N, N),
                                  Box('w', Ty(), N @ N @ N)])
             for i in range(n)]
    sx = ctx.choose('scale', [1, 2])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        drawing.draw_equation(*[Diagram.id(s.dom) >> s for s in sides],
                              to_tikz=True, scale=(sx, 1), symbol='E')
    nodes, edges = parse(ctx, out.getvalue())
    polys = [[nodes[e][0] for e in ends] for ends, _ in edges
             if len(ends) == 5]
    ctx.check(len(polys) == n, 'all sides')
    marks = sorted(v[0] for v in nodes.values() if v[2] == 'E')
    ctx.check(len(marks) == n - 1, 'symbols')
    for i, p in enumerate(polys):
        ctx.check(i == 0 or min(p) > marks[i - 1], 'right of the symbol')
        ctx.check(i == n - 1 or max(p) < marks[i], 'left of the symbol')
