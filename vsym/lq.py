"""Symbolic lambeq entities and structural oracles over them."""
from __future__ import annotations

from lambeq.backend import grammar as g

from .core import And, Not, Or, Implies, Iff


# ---- types ---------------------------------------------------------------

def atoms(ty):
    """Atomic pieces of a type, read from its public fields."""
    if ty.objects:
        return list(ty.objects)
    return [ty] if ty.name is not None else []


def aeq(a, b):
    return And(a.name == b.name, a.z == b.z)


def teq(a, b):
    """Symbolic equality of two types (no fork)."""
    x, y = atoms(a), atoms(b)
    if len(x) != len(y):
        return False
    return And(*[aeq(p, q) for p, q in zip(x, y)]) if x else True


def wf_ty(ty):
    """Representation invariant of a type."""
    obs = list(ty.objects)
    if len(obs) == 1:
        return False
    if obs and (ty.name is not None):
        return False
    return all(not o.objects and o.name is not None for o in obs)


def satom(ctx, p, zlo=-2, zhi=2, Ty=None):
    Ty = Ty or g.Ty
    if zlo == zhi == 0:
        return Ty(ctx.name(p))
    return Ty(ctx.name(p), z=ctx.int(p + '.z', zlo, zhi))


def mk(parts, Ty=None):
    """Build a type from atomic parts without using the code under test's
    tensor."""
    Ty = Ty or g.Ty
    parts = list(parts)
    if not parts:
        return Ty()
    if len(parts) == 1:
        return parts[0]
    return Ty(objects=parts)


def sty(ctx, p, n, zlo=-2, zhi=2, Ty=None):
    return mk([satom(ctx, f'{p}{i}', zlo, zhi, Ty) for i in range(n)], Ty)


def sty_len(ctx, p, lo, hi, zlo=-2, zhi=2, Ty=None):
    return sty(ctx, p, ctx.small(p + '.len', lo, hi), zlo, zhi, Ty)


# ---- diagrams ------------------------------------------------------------

def beq(a, b):
    """Symbolic structural equality of boxes."""
    if type(a) is not type(b):
        return False
    if isinstance(a, g.DaggeredFrame):
        return beq(a.frame, b.frame)
    if isinstance(a, g.Frame):
        return And(a.name == b.name, teq(a.dom, b.dom), teq(a.cod, b.cod),
                   a.z == b.z, len(a.components) == len(b.components),
                   *[aneq(x, y) for x, y in zip(a.components, b.components)])
    if isinstance(a, g.Daggered):
        return And(beq(a.box, b.box), a.name == b.name, teq(a.dom, b.dom),
                   teq(a.cod, b.cod), a.z == b.z)
    return And(a.name == b.name, teq(a.dom, b.dom), teq(a.cod, b.cod),
               a.z == b.z)


def aneq(x, y):
    if isinstance(x, g.Box) or isinstance(y, g.Box):
        return (isinstance(x, g.Box) and isinstance(y, g.Box)
                and beq(x, y))
    return deq(x, y)


def deq(d, e):
    """Symbolic structural equality of diagrams."""
    d, e = d.to_diagram(), e.to_diagram()
    if len(d.layers) != len(e.layers):
        return False
    cs = [teq(d.dom, e.dom), teq(d.cod, e.cod)]
    for l, m in zip(d.layers, e.layers):
        a, b, c = l.unpack()
        x, y, z = m.unpack()
        cs += [teq(a, x), beq(b, y), teq(c, z)]
    return And(*cs)


def wt(d):
    """Symbolic: the diagram is well typed layer by layer."""
    d = d.to_diagram()
    cs = [wf_ty(d.dom), wf_ty(d.cod)]
    cur = atoms(d.dom)
    for layer in d.layers:
        left, box, right = layer.unpack()
        cs += [wf_ty(left), wf_ty(right), wf_ty(box.dom), wf_ty(box.cod)]
        want = atoms(left) + atoms(box.dom) + atoms(right)
        if len(want) != len(cur):
            return False
        cs += [aeq(x, y) for x, y in zip(cur, want)]
        cs += [box_wf(box)]
        cur = atoms(left) + atoms(box.cod) + atoms(right)
    end = atoms(d.cod)
    if len(end) != len(cur):
        return False
    cs += [aeq(x, y) for x, y in zip(cur, end)]
    return And(*cs)


def box_wf(box):
    """Typing rules of the structural boxes."""
    if isinstance(box, (g.Cup, g.Cap)):
        ty = box.dom if isinstance(box, g.Cup) else box.cod
        other = box.cod if isinstance(box, g.Cup) else box.dom
        a = atoms(ty)
        if len(a) != 2 or atoms(other):
            return False
        dz = a[1].z - a[0].z
        return And(a[0].name == a[1].name, Or(dz == 1, dz == -1),
                   teq(box.left, a[0]), teq(box.right, a[1]))
    if isinstance(box, g.Swap):
        a, b = atoms(box.dom), atoms(box.cod)
        return And(len(a) == 2, len(b) == 2, aeq(a[0], b[1]),
                   aeq(a[1], b[0])) if len(a) == len(b) == 2 else False
    if isinstance(box, g.Spider):
        a = atoms(box.dom) + atoms(box.cod)
        return And(*[aeq(x, box.type) for x in a],
                   len(atoms(box.dom)) == box.n_legs_in,
                   len(atoms(box.cod)) == box.n_legs_out)
    if isinstance(box, g.Daggered):
        return And(teq(box.dom, box.box.cod), teq(box.cod, box.box.dom))
    if isinstance(box, g.Word):
        return not atoms(box.dom)
    return True


KINDS = ('box', 'swap', 'cup', 'cap', 'spider', 'word')


def sdiag(ctx, p, dom, nlayers, kinds=KINDS, maxw=4, zlo=-1, zhi=1,
          cat=g, arity=((1, 1), (0, 1), (1, 0), (2, 1), (1, 2)),
          daggers=False):
    """A symbolic well-typed diagram: shape by solver case split, all names
    and winding numbers symbolic."""
    Ty = cat.Ty
    cur = atoms(dom)
    layers = []
    grammar = cat.grammar if hasattr(cat, 'grammar') else dom.category
    D = grammar.Diagram
    Layer = grammar.Layer
    for i in range(nlayers):
        q = f'{p}.{i}'
        opts = []
        n = len(cur)
        for k in kinds:
            if k == 'box':
                for a, b in arity:
                    if a <= n and n - a + b <= maxw:
                        opts += [(k, a, b, o) for o in range(n - a + 1)]
            elif k == 'word' and n + 1 <= maxw:
                opts += [(k, 0, 1, o) for o in range(n + 1)]
            elif k == 'cap' and n + 2 <= maxw:
                opts += [(k, 0, 2, o) for o in range(n + 1)]
            elif k in ('cup', 'swap') and n >= 2:
                opts += [(k, 2, 0, o) for o in range(n - 1)]
            elif k == 'spider':
                for a, b in ((1, 2), (2, 1), (1, 0), (0, 1), (2, 2)):
                    if a <= n and n - a + b <= maxw:
                        opts += [(k, a, b, o) for o in range(n - a + 1)]
        if not opts:
            break
        k, a, b, o = ctx.choose(q + '.shape', opts)
        ins = cur[o:o + a]
        if k == 'box':
            outs = [satom(ctx, f'{q}.c{j}', zlo, zhi, Ty) for j in range(b)]
            box = D.category.Box(ctx.name(q + '.f'), mk(ins, Ty),
                                 mk(outs, Ty))
            if daggers and ctx.choose(q + '.dag', [False, True]):
                box = D.category.Box(box.name, box.cod, box.dom).dagger()
        elif k == 'word':
            outs = [satom(ctx, f'{q}.c{j}', zlo, zhi, Ty) for j in range(b)]
            box = g.Word(ctx.name(q + '.w'), mk(outs, Ty))
        elif k == 'swap':
            outs = [ins[1], ins[0]]
            box = D.swap(*ins)
        elif k == 'cup':
            rev = ctx.choose(q + '.rev', [False, True])
            x, y = ins
            ctx.assume(And(x.name == y.name,
                           (x.z == y.z + 1) if rev else (x.z == y.z - 1)))
            outs = []
            box = D.cups(x, y, rev)
        elif k == 'cap':
            rev = ctx.choose(q + '.rev', [False, True])
            x = satom(ctx, f'{q}.c', zlo, zhi, Ty)
            y = Ty(x.name, z=x.z + 1 if rev else x.z - 1)
            outs = [x, y]
            box = D.caps(x, y, rev)
        elif k == 'spider':
            ty = ins[0] if ins else satom(ctx, f'{q}.c', zlo, zhi, Ty)
            for t in ins[1:]:
                ctx.assume(aeq(t, ty))
            outs = [ty] * b
            box = D.special_boxes['spider'](ty, a, b)
        left, right = cur[:o], cur[o + a:]
        layers.append(Layer(left=mk(left, Ty), box=box, right=mk(right, Ty)))
        cur = left + outs + right
    return D(dom=dom, cod=mk(cur, Ty), layers=layers)


# ---- wiring oracle -------------------------------------------------------

def wiring(d, key=None, spiders=False):
    """Connectivity of a diagram: which ports are joined by a wire.

    Cups, caps and swaps (and spiders when `spiders` is set) are wires,
    every other box is a node identified by `key(box)`. Returns a frozenset of
    frozensets of ports, plus the number of closed loops."""
    d = d.to_diagram()
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    def union(x, y):
        x, y = find(x), find(y)
        if x == y:
            return False
        parent[x] = y
        return True

    loops = 0
    ports = {}
    scan = []
    for i in range(len(atoms(d.dom))):
        w = ('w', 'in', i)
        ports.setdefault(('in', i), []).append(w)
        scan.append(w)
    nodes = []
    count = {}
    for li, layer in enumerate(d.layers):
        left, box, right = layer.unpack()
        o = len(atoms(left))
        a, b = len(atoms(box.dom)), len(atoms(box.cod))
        ins = scan[o:o + a]
        if isinstance(box, g.Swap):
            outs = [ins[1], ins[0]]
        elif isinstance(box, g.Cup):
            if not union(ins[0], ins[1]):
                loops += 1
            outs = []
        elif isinstance(box, g.Cap):
            w = ('w', li)
            find(w)
            outs = [w, w]
        elif spiders and isinstance(box, g.Spider):
            w = ('w', li)
            find(w)
            for x in ins:
                union(x, w)
            outs = [w] * b
        else:
            k = key(box) if key else box.name
            count[k] = count.get(k, 0) + 1
            k = (k, count[k]) if count[k] > 1 else k
            nodes.append(k)
            for i, w in enumerate(ins):
                ports.setdefault((k, 'i', i), []).append(w)
            outs = []
            for i in range(b):
                w = ('w', li, i)
                find(w)
                ports.setdefault((k, 'o', i), []).append(w)
                outs.append(w)
        scan[o:o + a] = outs
    for i, w in enumerate(scan):
        ports.setdefault(('out', i), []).append(w)
    classes = {}
    for p, ws in ports.items():
        for w in ws:
            classes.setdefault(find(w), set()).add(p)
    return (frozenset(frozenset(c) for c in classes.values()),
            frozenset(nodes), loops)
