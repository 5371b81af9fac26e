"""R02: diagram rewriters."""
import itertools

from vsym.case import Suite
from vsym.core import And, Or
from vsym.lq import aeq, atoms, deq, mk, satom, teq, wt

from lambeq.backend import grammar as g
from lambeq.backend.grammar import Box, Cap, Cup, Daggered, Diagram, Id, \
    Spider, Swap, Ty, Word
from lambeq.rewrite import RemoveCupsRewriter, RemoveSwapsRewriter, \
    UnifyCodomainRewriter

SUITE = Suite(
    'R02',
    bounds='removing cups: diagrams of 1-4 words of up to 4 outputs (6 '
    'wires, 7 thorough) followed by up to 3 cups, swaps, spiders and boxes at '
    'every offset, with open wires on either side, atomic names and '
    'windings symbolic (cups in both orientations); removing swaps: every '
    'pregroup diagram of 1-4 words on up to 6 wires (8 thorough) with up '
    'to 5 cups and swaps; unifying codomains: all diagrams and types of up '
    'to 3 factors',
    outside='diagrams with cups and caps of composite type written as one '
    'box')


# ---- wiring with bent boxes

def legs(b):
    """Ports of a box in the order (inputs, outputs), named by the box as
    written before it was daggered and rotated; and whether it is
    conjugated."""
    dag = isinstance(b, Daggered)
    u = b.box if dag else b
    z = u.z
    ni, no = len(atoms(u.dom)), len(atoms(u.cod))
    ins = [('i', k) for k in range(ni)]
    outs = [('o', k) for k in range(no)]
    if z % 2:
        ins, outs = ins[::-1], outs[::-1]
    conj = dag != bool(z % 2)
    if dag:
        ins, outs = outs, ins
    return ins, outs, conj


def net(d):
    """Classes of joined ports; number of loops; boxes with their
    conjugation."""
    d = d.to_diagram()
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            x = parent[x]
        return x

    loops, scan, ports, boxes, cnt = 0, [], [], [], {}
    for i in range(len(atoms(d.dom))):
        scan.append(('in', i))
        ports.append((('in', i), ('in', i)))
    for li, layer in enumerate(d.layers):
        left, b, right = layer.unpack()
        o, a, c = len(atoms(left)), len(atoms(b.dom)), len(atoms(b.cod))
        ins = scan[o:o + a]
        if isinstance(b, Swap):
            outs = ins[::-1]
        elif isinstance(b, Cup):
            x, y = find(ins[0]), find(ins[1])
            loops += x == y
            parent[x] = y
            outs = []
        elif isinstance(b, Cap):
            outs = [(li,)] * 2
        elif isinstance(b, Spider) or (isinstance(b, Daggered)
                                       and isinstance(b.box, Spider)):
            w = (li,)
            for x in ins:
                parent[find(x)] = find(w)
            outs = [w] * c
        else:
            i_, o_, conj = legs(b)
            nm = (b.box if isinstance(b, Daggered) else b).name
            cnt[nm] = cnt.get(nm, 0) + 1
            k = (nm, cnt[nm])
            boxes.append((k, conj))
            ports += [((k, p), w) for p, w in zip(i_, ins)]
            outs = [(li, j) for j in range(c)]
            ports += [((k, p), w) for p, w in zip(o_, outs)]
        scan[o:o + a] = outs
    ports += [(('out', i), w) for i, w in enumerate(scan)]
    cl = {}
    for p, w in ports:
        cl.setdefault(find(w), []).append(p)
    return (sorted(sorted(map(str, c)) for c in cl.values()),
            sorted(boxes), loops)


def words_of(ctx, lens):
    ws, cur = [], []
    for i, n in enumerate(lens):
        t = [satom(ctx, f'w{i}.{k}', -1, 1) for k in range(n)]
        ws.append(Word(f'w{i}', mk(t)))
        cur += t
    return ws, cur


def ident(a):
    return Id(mk(a))


def then(ctx, d, cur, ops):
    """Append the given kinds of boxes at chosen offsets."""
    for j, k in enumerate(ops):
        need = {'cup': 2, 'swap': 2, 'box': 1, 'spider': 1, 'merge': 2,
                'word': 0}[k]
        if len(cur) < need:
            ctx.assume(False)
        o = ctx.small(f'o{j}', 0, len(cur) - need)
        if k == 'cup':
            x, y = cur[o:o + 2]
            rev = bool(ctx.bool(f'rev{j}'))
            ctx.assume(And(x.name == y.name, x.z == y.z + 1 if rev
                           else x.z == y.z - 1))
            b, out = Diagram.cups(x, y, rev), []
        elif k == 'swap':
            x, y = cur[o:o + 2]
            b, out = Diagram.swap(x, y), [y, x]
        elif k == 'box':
            out = [satom(ctx, f'f{j}', -1, 1)]
            b = Box(f'f{j}', cur[o], mk(out))
        elif k == 'word':
            out = [satom(ctx, f'f{j}', -1, 1)]
            b = Word(f'f{j}', mk(out))
        elif k == 'merge':
            x, y = cur[o:o + 2]
            ctx.assume(aeq(x, y))
            b, out = Spider(x, 2, 1), [x]
        else:
            b, out = Spider(cur[o], 1, 2), [cur[o]] * 2
        d = d >> ident(cur[:o]) @ b @ ident(cur[o + need:])
        cur = cur[:o] + out + cur[o + need:]
    return d, cur


def compositions(total, parts, hi):
    if parts == 0:
        return [()] if total == 0 else []
    return [(k, *r) for k in range(1, hi + 1) if k <= total
            for r in compositions(total - k, parts - 1, hi)]


def lens(maxw, parts, hi=4):
    return [c for p in parts for t in range(p, maxw + 1)
            for c in compositions(t, p, hi)]


OPS2 = [s for k in (1, 2) for s in itertools.product(
    ('cup', 'swap', 'box'), repeat=k) if 'cup' in s]
OPS3 = [('cup',) * 3, ('cup', 'cup', 'swap'), ('swap', 'cup', 'cup'),
        ('cup', 'swap', 'cup'), ('spider', 'cup', 'cup'),
        ('word', 'cup', 'cup'), ('cup', 'word', 'cup'),
        ('merge', 'cup'), ('cup', 'box', 'cup')]


def fits(n, ops):
    for k in ops:
        i, o = {'cup': (2, 0), 'swap': (2, 2), 'box': (1, 1),
                'spider': (1, 2), 'merge': (2, 1), 'word': (0, 1)}[k]
        if n < i:
            return False
        n += o - i
    return True


def cup_cases(thorough):
    out = []
    for l in lens(6 if not thorough else 7, (1, 2, 3, 4)):
        n = sum(l)
        for ops in OPS2 + OPS3:
            k = ops.count('cup')
            if n > 4 and not thorough and k < len(ops):
                continue
            if not fits(n, ops):
                continue
            if n > 5 and k < 3 and not thorough:
                continue
            out.append(dict(l=l, ops=ops))
    return out


@SUITE.case(quick=lambda: cup_cases(False), thorough=lambda: cup_cases(True))
def remove_cups(ctx, l, ops):
    """The same boxes joined in the same way, with the same outer type."""
    ws, cur = words_of(ctx, l)
    d = Id()
    for w in ws:
        d = d @ w
    d, cur = then(ctx, d, cur, ops)
    before = net(d)
    r = RemoveCupsRewriter()(d)
    ctx.check(And(wt(r), teq(r.dom, d.dom), teq(r.cod, d.cod)), 'type')
    after = net(r)
    ctx.check(before[1] == after[1], f'boxes {before[1]} {after[1]}')
    ctx.check(before[0] == after[0] and before[2] == after[2],
              f'wiring {before[0]} {after[0]}')
    nb = sum(isinstance(b, Cup) for b in d.boxes)
    na = sum(isinstance(b, Cup) for b in r.boxes)
    ctx.check(na <= nb, 'more cups than before')
    single = {f"(('w{i}', 1), ('o', 0))" for i, n in enumerate(l) if n == 1}
    if set(ops) == {'cup'}:
        # a cup one side of which is a word of its own is always removed
        joined = [c for c in before[0] if len(c) == 2
                  and not any('out' in p for p in c)]
        must = [c for c in joined if set(c) & single]
        ctx.check(na <= nb - len(must), 'cups left')


@SUITE.case(quick=[dict(l=l, ops=o) for l in ((1, 2), (2, 1), (1, 3, 1))
                   for o in (('cup',), ('cup', 'cup'))])
def open_wires(ctx, l, ops):
    """Open wires beside and between the words are left alone."""
    ws, cur = words_of(ctx, l)
    a, b = satom(ctx, 'a', -1, 1), satom(ctx, 'b', -1, 1)
    side = ctx.choose('side', ['left', 'right', 'both', 'boxed'])
    d = Id()
    for w in ws:
        d = d @ w
    if side in ('left', 'both'):
        d, cur = Id(a) @ d, [a, *cur]
    if side in ('right', 'both'):
        d, cur = d @ Id(b), [*cur, b]
    if side == 'boxed':
        cur = [b, *cur]
        d = Box('f', mk([a]), b) >> Id(b) @ Id().tensor(*ws)
    d, cur = then(ctx, d, cur, ops)
    before = net(d)
    r = RemoveCupsRewriter()(d)
    ctx.check(And(wt(r), teq(r.dom, d.dom), teq(r.cod, d.cod)), 'type')
    after = net(r)
    ctx.check(before == after, f'wiring {before} {after}')


# ---- swaps

def swap_ref(words, ops, types):
    """Types at the positions of the text after exchanging them along the
    swaps; cups as pairs of positions; open positions."""
    types = list(types)
    scan = list(range(len(types)))
    cups = []
    for k, o in ops:
        if k == 'swap':
            i, j = scan[o], scan[o + 1]
            types[i], types[j] = types[j], types[i]
        else:
            cups.append((scan[o], scan[o + 1]))
            del scan[o:o + 2]
    return types, cups, scan


def seqs(n, k):
    """Sequences of cups and swaps on n wires."""
    if k == 0:
        return [()]
    out = [()]
    if n >= 2:
        for o in range(n - 1):
            out += [(('swap', o), *r) for r in seqs(n, k - 1)]
            out += [(('cup', o), *r) for r in seqs(n - 2, k - 1)]
    return out


def swap_cases(thorough):
    out = []
    for l in lens(5 if not thorough else 6, (1, 2, 3, 4)):
        for ops in itertools.chain.from_iterable(
                itertools.product(('cup', 'swap'), repeat=k)
                for k in range(5 if thorough else 4)):
            if fits(sum(l), ops):
                out.append(dict(l=l, ops=ops))
    for l in ((4, 2), (2, 4), (1, 4, 1), (6,), (1, 6), (3, 3), (2, 2, 2),
              (1, 4, 2), (4, 4), (6, 2), (1, 4, 1, 2)):
        for ops in (('cup',) * 3, ('cup',) * 2, ('swap', 'cup', 'cup', 'cup'),
                    ('cup',) * 4):
            if 'swap' in ops and not thorough and l not in ((4, 2), (6,)):
                continue
            if fits(sum(l), ops):
                out.append(dict(l=l, ops=ops))
    return out


@SUITE.case(quick=lambda: swap_cases(False),
            thorough=lambda: swap_cases(True), max_witness=3)
def remove_swaps(ctx, l, ops):
    """No swaps and no word wired to itself are left; the words (merged where
    nothing is left of one) read the same, and the cups join the same
    types."""
    ws, types = words_of(ctx, l)
    d = Id()
    for w in ws:
        d = d @ w
    cur, done = list(types), []
    for j, k in enumerate(ops):
        if len(cur) < 2:
            ctx.assume(False)
        o = ctx.small(f'o{j}', 0, len(cur) - 2)
        x, y = cur[o:o + 2]
        if k == 'cup':
            ctx.assume(And(x.name == y.name, Or(x.z == y.z - 1,
                                                x.z == y.z + 1)))
            b = Cup(x, y, is_reversed=True) if bool(x.z == y.z + 1) \
                else Cup(x, y)
            out = []
        else:
            b, out = Swap(x, y), [y, x]
        done.append((k, o))
        d = d >> ident(cur[:o]) @ b @ ident(cur[o + 2:])
        cur = cur[:o] + out + cur[o + 2:]
    tys, cups, left = swap_ref(ws, done, types)
    # positions of each word
    start = [sum(l[:i]) for i in range(len(l))]
    word = [i for i, n in enumerate(l) for _ in range(n)]
    own = [c for c in cups if word[c[0]] == word[c[1]]]
    gone = {p for c in own for p in c}
    keep = [[p for p in range(start[i], start[i] + l[i]) if p not in gone]
            for i in range(len(l))]
    r = RemoveSwapsRewriter()(d)
    ctx.check(And(wt(r), teq(r.dom, Ty()), teq(r.cod, d.cod)), 'type')
    ctx.check(r.is_pregroup, 'pregroup form')
    ctx.check(not any(isinstance(b, Swap) for b in r.boxes), 'swaps left')
    rw = [b for b in r.boxes if isinstance(b, Word)]
    ctx.check(' '.join(b.name for b in rw) == ' '.join(w.name for w in ws),
              'text')
    ctx.check(teq(mk([x for b in rw for x in atoms(b.cod)]),
                  mk([tys[p] for k in keep for p in k])),
              'types of the words')
    full = [i for i, k in enumerate(keep) if k] or [len(l) - 1]
    ctx.check(len(rw) == len(full), 'words left')
    for b, i in zip(rw, full):
        ctx.check(len(atoms(b.cod)) == len(keep[i])
                  and f'w{i}' in b.name.split(), 'types of a word')
    # connections
    pos = {p: q for q, p in enumerate(p for k in keep for p in k)}
    scan = list(range(len(pos)))
    got = []
    for layer in r.layers:
        lft, b, _ = layer.unpack()
        if isinstance(b, Cup):
            o = len(atoms(lft))
            got.append((scan[o], scan[o + 1]))
            del scan[o:o + 2]
    ctx.check(sorted(got) == sorted((pos[a], pos[b]) for a, b in cups
                                    if (a, b) not in own), 'connections')
    ctx.check(scan == [pos[p] for p in left], 'open wires')


@SUITE.case(quick=[{}])
def not_pregroup(ctx):
    """Diagrams outside the supported form are refused or rewritten
    correctly."""
    n, s = Ty('n'), Ty('s')
    a, v, b = Word('a', n), Word('v', n.r @ s @ n.l), Word('b', n)
    d = ctx.choose('d', [
        a @ v >> Cup(n, n.r) @ s @ n.l >> s @ n.l @ b >> s @ Cup(n.l, n),
        a @ v >> Cup(n, n.r) @ Swap(s, n.l) >> n.l @ s @ b,
        v @ b >> n.r @ s @ Cup(n.l, n) >> a @ n.r @ s >> Cup(n, n.r) @ s,
        v @ b >> n.r @ Swap(s, n.l) @ n >> a @ n.r @ n.l @ s @ n
        >> Cup(n, n.r) @ n.l @ s @ n,
        b >> Box('f', n, s), Box('f', Ty(), n @ n) >> Swap(n, n),
        Id(n), Id(n) @ a >> Swap(n, n)])
    d = d.to_diagram()
    try:
        r = RemoveSwapsRewriter()(d)
    except ValueError:
        ctx.check(not d.is_pregroup, 'pregroup diagram refused')
        return
    ctx.check(And(wt(r), teq(r.dom, d.dom), teq(r.cod, d.cod)), 'type')
    ctx.check(not any(isinstance(x, Swap) for x in r.boxes), 'swaps left')
    txt = [x.name for x in d.normal_form().boxes if isinstance(x, Word)]
    ctx.check(' '.join(x.name for x in r.boxes if isinstance(x, Word))
              == ' '.join(txt), 'text')


# ---- codomains

@SUITE.case(quick=[dict(c=c, o=o, n=n) for c in range(3) for o in range(3)
                   for n in range(3)],
            thorough=[dict(c=c, o=o, n=n) for c in range(4)
                      for o in range(4) for n in range(4)])
def unify(ctx, c, o, n):
    """Only diagrams of another codomain get one more box."""
    cod = mk([satom(ctx, f'c{i}', -1, 1) for i in range(c)])
    out = mk([satom(ctx, f'o{i}', -1, 1) for i in range(o)])
    d = Word('w', cod).to_diagram()
    if n:
        d = d @ Word('v', Ty()) if n == 1 else \
            Box('f', mk([satom(ctx, 'd', -1, 1)]), Ty()) @ d
    rw = UnifyCodomainRewriter(out)
    r = rw(d)
    ctx.check(And(wt(r), teq(r.dom, d.dom), teq(r.cod, out)), 'type')
    if bool(teq(cod, out)):
        ctx.check(r is d, 'unchanged')
    else:
        ctx.check(deq(r[:len(d.layers)], d), 'original diagram kept')
        ctx.check(len(r.layers) == len(d.layers) + 1, 'one more box')
    many = rw([d, r, [d]])
    ctx.check(And(deq(many[0], r), deq(many[1], r), deq(many[2][0], r),
                  len(many) == 3), 'lists')
    ctx.check(UnifyCodomainRewriter().output_type == Ty('s'),
              'default codomain')
