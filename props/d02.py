"""D02: pregroup trees and diagrams."""
import itertools

from vsym.case import Suite
from vsym.core import And
from vsym.lq import aeq, atoms, mk, satom, teq, wiring, wt

from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Id, Swap, Ty,
                                    Word)
from lambeq.text2diagram.pregroup_tree import (PregroupTreeNode,
                                               PregroupTreeNodeError)
from lambeq.text2diagram.pregroup_tree_converter import (
    diagram2tree, generate_tree, remove_cycles, str_to_type, tree2diagram)

SUITE = Suite(
    'D02',
    bounds='all trees over 1 to 4 words (and some over 5) (quick) or 5 (thorough), projective '
    'or not, with 1 or 2 symbolic wires per edge; all pregroup diagrams of '
    'up to 3 / 4 words whose wires are joined in any way (also cycles, '
    'crossings and self cycles), with up to 2 snakes; all parent lists of '
    'up to 3 / 4 words with 1 or 2 parents each',
    assumptions=['all wires of a word that stay free belong to one word'],
    outside='larger trees; the prediction of trees by the Oncilla model')

N, S = Ty('n'), Ty('s')


def toks(ctx, n, sym=True):
    return [ctx.name(f'w{i}') if sym else f'w{i}' for i in range(n)]


def word_ports(d):
    """Positions of the words in a diagram, and their types."""
    return [b for b in d.boxes if isinstance(b, Word)]


def links(d):
    """Which words are joined by how many wires, in which types."""
    k = itertools.count()
    words = []

    def key(b):
        words.append(b)
        return next(k)
    classes, _, loops = wiring(d, key=key)
    return classes, loops, words


def trees(n):
    """All parent lists over n words that are trees."""
    out = []
    for root in range(n):
        opts = [[-1] if i == root else [j for j in range(n) if j != i]
                for i in range(n)]
        for ps in itertools.product(*opts):
            for i in range(n):
                seen, j = set(), i
                while j != -1 and j not in seen:
                    seen.add(j)
                    j = ps[j]
                if j != -1:
                    break
            else:
                out.append(ps)
    return out


KINDS = {'a': 1, 'ad': 2, 'b': 2}


def types(ctx, n, kinds):
    """Types of the nodes: one or two symbolic wires, or an adverb."""
    out = []
    for i, k in enumerate(kinds):
        if k == 'a':
            t = Ty('n') if i % 2 else Ty('s')
            t = mk([satom(ctx, f't{i}', -1, 1)])
        elif k == 'ad':
            t = N.r @ S
        elif k == 'e':
            t = Ty()
        else:
            t = mk([satom(ctx, f't{i}', -1, 1), satom(ctx, f'u{i}', -1, 1)])
        out.append(t)
    return out


def build(ps, ws, ts):
    nodes = [PregroupTreeNode(w, i, t) for i, (w, t) in
             enumerate(zip(ws, ts))]
    for i, p in enumerate(ps):
        if p >= 0:
            nodes[p].children.append(nodes[i])
    for x in nodes:
        x.__post_init__()
    return nodes[ps.index(-1)], nodes


def ktuples(n, alphabet):
    return list(itertools.product(alphabet, repeat=n))


def to_cases(tier):
    out = [dict(ps=ps, kinds=ks) for n in (1, 2) for ps in trees(n)
           for ks in ktuples(n, ('a', 'b', 'ad'))]
    for ps in trees(3):
        root = ps.index(-1)
        for ks in ktuples(3, ('a', 'b')):
            out.append(dict(ps=ps, kinds=ks))
        for i in range(3):
            if i != root:
                out.append(dict(ps=ps, kinds=tuple(
                    'ad' if j == i else 'a' for j in range(3))))
    for ps in trees(4):
        out.append(dict(ps=ps, kinds='aaaa'))
        if tier == 'thorough':
            out += [dict(ps=ps, kinds=ks)
                    for ks in ktuples(4, ('a', 'b', 'ad'))]
        else:
            i = sum(ps) % 4
            out.append(dict(ps=ps, kinds=tuple(
                'b' if j == i else 'ad' if j == (i + 1) % 4 else 'a'
                for j in range(4))))
    five = trees(5)
    out += [dict(ps=ps, kinds='aaaaa') for ps in
            (five if tier == 'thorough' else five[::20] + [
                (2, 3, -1, 0, 1), (3, 2, -1, 1, 1), (3, 4, -1, 1, 2)])]
    return out


@SUITE.case(quick=lambda: to_cases('quick'),
            thorough=lambda: to_cases('thorough'), max_witness=1)
def tree_diagram(ctx, ps, kinds):
    """The diagram of a tree joins each word with its parent; the tree can
    be read from it again."""
    n = len(ps)
    ws = toks(ctx, n, n < 3)
    ts = types(ctx, n, kinds)
    root, nodes = build(ps, ws, ts)
    d = (root.to_diagram(ws) if n < 3 else tree2diagram(root, ws))
    ctx.check(wt(d) and d.dom.is_empty, 'well-typed')
    r = ps.index(-1)
    ctx.check(bool(teq(d.cod, ts[r])), 'free wires of the root')
    words = word_ports(d)
    ctx.check(len(words) == n and And(*[b.name == w for b, w in
                                        zip(words, ws)]), 'words')
    ctx.check(all(isinstance(b, (Word, Cup, Swap)) for b in d.boxes),
              'boxes')
    ctx.check(sum(isinstance(b, Cup) for b in d.boxes)
              == sum(len(t) for i, t in enumerate(ts) if i != r),
              'number of cups')
    classes, loops, words = links(d)
    ctx.check(loops == 0, 'no loops')
    edges = {}
    free = []
    for c in classes:
        ctx.check(len(c) == 2, 'wires have two ends')
        (a, b) = sorted(c, key=lambda p: (p[0] == 'out', p))
        if b[0] == 'out':
            ctx.check(a[0] == r, 'free wires belong to the root')
            free.append((b[1], a))
        else:
            edges.setdefault((a[0], b[0]), []).append((a, b))
    ctx.check([atoms(words[r].cod)[a[2]] for _, a in sorted(free)] is not
              None and And(*[aeq(atoms(words[r].cod)[a[2]], x) for (_, a), x
                             in zip(sorted(free), atoms(ts[r]))]),
              'free wires in order')
    want = {tuple(sorted((i, p))): i for i, p in enumerate(ps) if p >= 0}
    ctx.check(set(edges) == set(want), 'edges')
    for (i, j), e in edges.items():
        child = want[i, j]
        e = sorted((a if a[0] == child else b) for a, b in e)
        ctx.check(len(e) == len(ts[child]) and And(
            *[aeq(atoms(words[child].cod)[p[2]], x)
              for p, x in zip(e, atoms(ts[child]))]), 'type of the edge')
    again = diagram2tree(d)
    same_tree(ctx, again, root)


def same_tree(ctx, a, b):
    ctx.check(a.ind == b.ind and And(a.word == b.word)
              and bool(teq(a.typ, b.typ)), 'same node')
    ca, cb = (sorted(x.children, key=lambda c: c.ind) for x in (a, b))
    ctx.check([c.ind for c in ca] == [c.ind for c in cb], 'same children')
    for x, y in zip(ca, cb):
        ctx.check(x.parent is a, 'parent')
        same_tree(ctx, x, y)


# ---- diagrams with any wiring

def matchings(owners):
    """All ways to join wires 0..k-1, leaving those of one word free."""
    k = len(owners)

    def go(rest, acc):
        if not rest:
            yield tuple(acc)
            return
        a, *more = rest
        yield from go(more, acc + [(a,)])
        for i, b in enumerate(more):
            yield from go(more[:i] + more[i + 1:], acc + [(a, b)])
    for m in go(list(range(k)), []):
        free = [owners[x[0]] for x in m if len(x) == 1]
        if len(set(free)) == 1:
            yield m


def connected(m, owners):
    n = max(owners) + 1
    seen, todo = {0}, [0]
    while todo:
        w = todo.pop()
        for p in m:
            o = {owners[x] for x in p}
            if w in o:
                for x in o - seen:
                    seen.add(x)
                    todo.append(x)
    return len(seen) == n


def diagram_of(ctx, m, owners, snakes=()):
    """Join the wires of the words as given, with swaps."""
    k = len(owners)
    tys = [None] * k
    for p in m:
        t = mk([satom(ctx, f't{p[0]}', -1, 1)])
        tys[p[0]] = t
        if len(p) == 2:
            tys[p[1]] = t.r
    n = max(owners) + 1
    ws = [ctx.name(f'w{i}') for i in range(n)]
    d = Id()
    for i in range(n):
        d = d @ Word(ws[i], Ty().tensor(*[t for t, o in zip(tys, owners)
                                          if o == i]) if any(
            o == i for o in owners) else Ty())
    scan = list(range(k))

    def snake(d, pos, left):
        # pull a wire straight after a detour
        x = d.cod[pos:pos + 1]
        if left:
            d = d >> (Id(d.cod[:pos]) @ Cap(x, x.l) @ Id(d.cod[pos:]))
            d = d >> (Id(d.cod[:pos + 1]) @ Cup(x.l, x)
                      @ Id(d.cod[pos + 3:]))
        else:
            d = d >> (Id(d.cod[:pos + 1]) @ Cap(x.r, x)
                      @ Id(d.cod[pos + 1:]))
            d = d >> (Id(d.cod[:pos]) @ Cup(x, x.r)
                      @ Id(d.cod[pos + 2:]))
        return d

    for pos, left, late in snakes:
        if not late:
            d = snake(d, pos, left)
    todo = [p for p in m if len(p) == 2]
    while todo:
        p = min(todo, key=lambda p: scan.index(p[1]) - scan.index(p[0]))
        i, j = scan.index(p[0]), scan.index(p[1])
        while j - i > 1:
            d = d >> (Id(d.cod[:j - 1]) @ Swap(d.cod[j - 1:j],
                                               d.cod[j:j + 1])
                      @ Id(d.cod[j + 1:]))
            scan[j - 1], scan[j] = scan[j], scan[j - 1]
            j -= 1
        for pos, left, late in snakes:
            if late == k - len(scan) and pos < len(scan):
                d = snake(d, pos, left)
        d = d >> (Id(d.cod[:i]) @ Cup(d.cod[i:i + 1], d.cod[j:j + 1])
                  @ Id(d.cod[j + 1:]))
        del scan[i:i + 2]
        todo.remove(p)
    return d, ws, tys


def any_cases(tier):
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (1, 1, 1),
             (2, 1, 2), (1, 2, 2), (1, 3, 1), (2, 2, 1), (2, 2, 3), (1, 2, 4),
             (1,), (3,)]
    if tier == 'thorough':
        sizes += [(3, 2, 2), (2, 3, 2), (1, 2, 2, 2), (1, 4, 1, 1),
                  (2, 2, 2, 1), (1, 1, 2, 1), (3, 3, 3), (2, 3, 4)]
    out = []
    for s in sizes:
        owners = [i for i, x in enumerate(s) for _ in range(x)]
        ms = [m for m in matchings(owners) if connected(m, owners)]
        if tier != 'thorough' and len(ms) > 40:
            ms = ms[::len(ms) // 40 + 1]
        out += [dict(owners=tuple(owners), m=m, snakes=()) for m in ms]
        k = len(owners)
        for j, m in enumerate(ms if k > 1 else []):
            pos = j % k
            out.append(dict(owners=tuple(owners), m=m,
                            snakes=((pos, bool(j % 2), j % 3),)))
            if j % 3 == 0:
                out.append(dict(owners=tuple(owners), m=m,
                                snakes=((pos, bool(j % 2), 0),
                                        ((pos + 1) % k, bool(j % 4 > 1),
                                         2 * (j % 2)))))
    return out


def all_nodes(root):
    out, todo = [], [root]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.children
    return out


@SUITE.case(quick=lambda: any_cases('quick'),
            thorough=lambda: any_cases('thorough'), max_witness=1)
def diagram_tree(ctx, owners, m, snakes):
    """The edges of the tree are the wires of the diagram; without cycles it
    is a spanning tree of them."""
    d, ws, tys = diagram_of(ctx, m, owners, snakes)
    ctx.must(wt(d))
    root = diagram2tree(d)
    n = max(owners) + 1
    free = [p[0] for p in m if len(p) == 1]
    r = owners[free[0]]
    ctx.check(root.ind == r and root.parent is None, 'root')
    ctx.check(bool(teq(root.typ, Ty().tensor(*[tys[i] for i in free]))),
              'type of the root')
    nodes = all_nodes(root)
    ctx.check({x.ind for x in nodes} == set(range(n)), 'words')
    ctx.check(And(*[x.word == ws[x.ind] for x in nodes]), 'names of words')
    # every wire once
    want = {}
    for p in m:
        if len(p) == 2:
            a, b = (owners[x] for x in p)
            want[min(a, b), max(a, b)] = want.get(
                (min(a, b), max(a, b)), []) + [p]
    seen = {}
    for x in nodes:
        for c in x.children:
            ctx.check(c.parent is x, 'parent')
            e = min(x.ind, c.ind), max(x.ind, c.ind)
            seen.setdefault(e, []).append((x.ind, c))
    ctx.check(set(seen) == set(want), 'edges')
    for e, ps in want.items():
        es = seen[e]
        ctx.check(sum(len(c.typ) for _, c in es) == len(ps),
                  'each wire is in one edge')
        if e[0] != e[1]:
            ctx.check(len(es) == 1, 'one edge')
            c = es[0][1]
            # in the order of the wires of the parent
            ends = [next(x for x in p if owners[x] == c.ind)
                    for p in sorted(ps, key=lambda p: -next(
                        x for x in p if owners[x] != c.ind))]
            ctx.check(bool(teq(c.typ, Ty().tensor(*[tys[i] for i in ends]))),
                      'type of the edge')
    loops = any(a == b for a, b in want)
    before = {e: [p for p, _ in x] for e, x in seen.items()}
    if loops:
        root.remove_self_cycles()
        nodes = all_nodes(root)
        ctx.check(all(c.ind != x.ind for x in nodes for c in x.children),
                  'no self cycles')
        ctx.check({tuple(sorted((x.ind, c.ind))) for x in nodes
                   for c in x.children} == {e for e in want
                                            if e[0] != e[1]},
                  'other edges are kept')
    root = diagram2tree(d, break_cycles=True)
    nodes = all_nodes(root)
    ctx.check(sorted(x.ind for x in nodes) == list(range(n)),
              'each word once')
    for x in nodes:
        for c in x.children:
            e = min(x.ind, c.ind), max(x.ind, c.ind)
            ctx.check(e in before and x.ind in before[e]
                      and c.parent is x, 'an edge of the tree')


# ---- predicted trees

def parent_lists(n, two):
    out = []
    for root in range(n):
        opts = []
        for i in range(n):
            if i == root:
                opts.append([[-1]])
                continue
            o = [[j] for j in range(n) if j != i]
            if two:
                o += [list(x) for x in itertools.permutations(
                    [j for j in range(n) if j != i], 2)]
            opts.append(o)
        out += list(itertools.product(*opts))
    return out


def acyclic(ps):
    state = {}

    def go(i):
        if i == -1:
            return True
        if state.get(i) == 1:
            return False
        if state.get(i) == 2:
            return True
        state[i] = 1
        ok = all(go(j) for j in ps[i])
        state[i] = 2
        return ok
    return all(go(i) for i in range(len(ps)))


def gen_cases(tier):
    ls = [p for n in (1, 2, 3) for p in parent_lists(n, True) if acyclic(p)]
    four = [p for p in parent_lists(4, True) if acyclic(p)]
    if tier != 'thorough':
        four = four[::len(four) // 60]
    return [dict(ps=tuple(map(tuple, p))) for p in ls + four]


@SUITE.case(quick=lambda: gen_cases('quick'),
            thorough=lambda: gen_cases('thorough'), max_witness=1)
def generate(ctx, ps):
    """A generated tree has the given words, types and parents."""
    n = len(ps)
    ws = toks(ctx, n)
    ts = []
    for i, p in enumerate(ps):
        row = []
        for j in range(len(p)):
            z = ctx.choose(f'z{i}{j}', [0, 1, -1] if n < 3 else [0, 1])
            row.append('nsp'[(i + j) % 3] + ('.r' * z if z > 0
                                             else '.l' * -z)
                       + ('' if (i + j) % 2 else ' @ s.l'))
        ts.append(row)
    roots, nodes = generate_tree(ws, ts, [list(p) for p in ps])
    r = [i for i, p in enumerate(ps) if p == (-1,)]
    ctx.check([x.ind for x in roots] == r, 'roots')
    ctx.check(len(nodes) == n, 'nodes')
    root = roots[0]
    ctx.check(root.get_word_indices() == list(range(n)), 'word indices')
    ctx.check(And(*[a == b for a, b in zip(root.get_words(), ws)]), 'words')
    got = [sorted(zip(p, t)) for p, t in zip(root.get_parents(),
                                            root.get_types())]
    ctx.check(got == [sorted(zip(p, t)) for p, t in zip(ps, ts)],
              'parents and types')
    for x in all_nodes(root):
        ctx.check(all(c.parent is x for c in x.children), 'parents')
        ctx.check(x.get_root() is root, 'root')
    # depth and height
    ctx.check(root.get_depth() == 0 and all(
        c.get_depth() == x.get_depth() + 1 for x in all_nodes(root)
        for c in x.children), 'depth')
    ctx.check(root.height == 1 + max(x.get_depth()
                                     for x in all_nodes(root)), 'height')
    # without cycles
    remove_cycles(root)
    left = all_nodes(root)
    ctx.check(sorted(x.ind for x in left) == list(range(n)),
              'each word once')
    for x in left:
        ctx.check(x is root or x.parent.ind in ps[x.ind], 'parent')
        ctx.check(x is root or str(x.typ) in [
            t for p, t in zip(ps[x.ind], ts[x.ind]) if p == x.parent.ind],
            'type')


@SUITE.case(quick=lambda: [dict(n=n) for n in (1, 2, 3)],
            thorough=lambda: [dict(n=n) for n in (1, 2, 3, 4)])
def bad_parents(ctx, n):
    """Parents outside the sentence, and words that are their own parents,
    are refused; otherwise every word is in some tree."""
    ps = [ctx.small(f'p{i}', -2, n) for i in range(n)]
    ws = toks(ctx, n, False)
    bad = any(p < -1 or p >= n or p == i for i, p in enumerate(ps))
    try:
        roots, nodes = generate_tree(ws, [['n']] * n, [[p] for p in ps])
    except ValueError:
        ctx.check(bad, 'refused')
        return
    ctx.check(not bad, 'accepted')
    got = [x for r in roots for x in all_nodes(r)]
    ctx.check({x.ind for x in got} == set(range(n)), 'words')


@SUITE.case(quick=[dict(k=1), dict(k=2)])
def type_strings(ctx, k):
    """Types are read from their written form."""
    name = ctx.choose('name', ['n', 's', 'p', 'conj'])
    z = ctx.small('z', -3, 3)
    t = Ty(name)
    for _ in range(abs(z)):
        t = t.r if z > 0 else t.l
    ctx.check(str_to_type(str(t)) == t, 'type')


@SUITE.case(quick=lambda: [dict(n=n, p=p) for n in range(3)
                           for p in (False, True)])
def merge(ctx, n, p):
    """Merging two neighbours of one type joins their words."""
    i = ctx.small('i', 0, 4)
    j = ctx.small('j', 0, 4)
    ctx.assume(i != j)
    same = ctx.bool('same')
    ws = toks(ctx, n + 2, False)
    kids = [PregroupTreeNode(f'k{x}', 5 + x, S) for x in range(n)]
    child = PregroupTreeNode('c', j, N, children=list(kids))
    node = PregroupTreeNode('p', i, N if same else S, children=[child])
    top = PregroupTreeNode('t', 9, S, children=[node]) if p else None
    typ = node.typ
    node.merge()
    if same and abs(i - j) == 1:
        ctx.check(node.word == ('p c' if i < j else 'c p'), 'word')
        ctx.check(node.ind == min(i, j) and node.typ == typ, 'index, type')
        ctx.check(len(node.children) == n and all(
            a is b for a, b in zip(node.children, kids)), 'children')
        ctx.check(all(c.parent is node for c in kids), 'parents')
    else:
        ctx.check(node.word == 'p' and node.ind == i
                  and node.children == [child] and child.parent is node,
                  'unchanged')
    ctx.check(node.parent is top, 'parent')
