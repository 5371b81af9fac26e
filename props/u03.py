"""U03: discourse circuits."""
import itertools
from types import SimpleNamespace

from vsym.case import Suite
from vsym.core import And, Or
from vsym.lq import atoms

from lambeq.backend.grammar import Box, Diagram, Frame, Id, Spider, Swap, Ty
from lambeq.experimental.discocirc import CoreferenceResolver, \
    DisCoCircReader, MaverickCoreferenceResolver, TreeRewriter, \
    TreeRewriteRule
from lambeq.text2diagram import OncillaParser
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode

SUITE = Suite(
    'U03',
    bounds='trees of 1 to 4 (quick) / 5 (thorough) words over sentences, '
    'nouns, modified nouns, and clauses missing a subject or an object; any '
    'one noun pruned (symbolic index); texts of 1 to 3 / 4 short sentences '
    'with every coreference partition and repeated words; spans of up to 3 '
    'tokens for coreference heads',
    assumptions=['parser and coreference model replaced by stubs that '
                 'return any tree / any clusters'],
    outside='larger trees; the statistical models themselves')

n, s = Ty('n'), Ty('s')
VP, OBJ, TV = n.r @ s, s @ n.l, n.r @ s @ n.l


class Parser(OncillaParser):
    def __init__(self, trees=None):
        self.trees = trees

    def _sentence2pregrouptree(self, sentence, tokenised, break_cycles):
        return self.trees[sentence[-1]]


class Coref(CoreferenceResolver):
    def __init__(self, out=None):
        self.out = out

    def tokenise_and_coref(self, text):
        return self.out


def reader(trees=None, coref=None):
    return DisCoCircReader(parser=Parser(trees), coref_resolver=Coref(coref))


# ---- trees ---------------------------------------------------------------

def shapes(k):
    """Ordered forests with k nodes (nested tuples)."""
    if k == 0:
        yield ()
        return
    for a in range(1, k + 1):
        for sub in shapes(a - 1):
            for rest in shapes(k - a):
                yield (sub,) + rest


def tree(ctx, shape, typ, counter, kinds):
    i = counter[0]
    counter[0] += 1
    ch = []
    for c in shape:
        opts = kinds if c else [n]
        t = ctx.choose(f't{counter[0]}', opts)
        ch.append(tree(ctx, c, t, counter, kinds))
    return PregroupTreeNode(f'w{i}', i, typ, children=ch)


def is_noun(t):
    return t.typ == n and not t.children


def missing(t):
    return sum(a.z != 0 for a in atoms(t.typ))


def walk(t):
    yield t
    for c in t.children:
        yield from walk(c)


# ---- what a sentence's circuit must do -----------------------------------

def leaves(t, pruned):
    return [x.ind for x in walk(t) if is_noun(x) and x.ind not in pruned]


def trace(ctx, d, labels, msg):
    """Follow the wires through a circuit: [(name, wires)] per box."""
    scan = list(labels)
    out = []
    for l in d.to_diagram().layers:
        o = len(atoms(l.left))
        b = l.box
        k, m = len(atoms(b.dom)), len(atoms(b.cod))
        ws = scan[o:o + k]
        if isinstance(b, Swap):
            new = ws[::-1]
        elif isinstance(b, Spider):
            ctx.check(len(set(ws)) == 1, msg + ': only copies of one noun '
                      'are merged')
            new = ws[:1] * m
        elif k == 0:
            ctx.check(m == 1, msg + ': noun state')
            new = [('state', b.name)]
        else:
            ctx.check(k == m, msg + ': a box keeps its wires')
            out.append((b, tuple(ws)))
            new = ws
        scan[o:o + k] = new
    return out, scan


def nouns_of(t, pruned, prev=None):
    """Nouns a node acts on, in order, and the noun its clause is about.

    A clause that misses an argument takes the last noun mentioned before it
    under the same head."""
    if is_noun(t):
        return ([] if t.ind in pruned else [t.ind],
                prev if t.ind in pruned else t.ind)
    out = []
    cur = prev
    if missing(t) and (prev is not None or not pruned):
        out.append(prev)
    for c in t.children:
        ns, cand = nouns_of(c, pruned, cur)
        out += [x for x in ns if x not in out]
        if c.typ == n:
            cur = cand
    return out, cur


def acts(t, pruned, prev=None, out=None):
    """Per non-noun word the nouns it acts on."""
    out = {} if out is None else out
    if is_noun(t):
        return out
    out[t.ind] = nouns_of(t, pruned, prev)[0]
    cur = prev
    for c in t.children:
        acts(c, pruned, cur, out)
        if c.typ == n:
            cur = nouns_of(c, pruned, cur)[1]
    return out


def base_name(name):
    return name.split('$')[0]


def pruned_set(ctx, t, p='pr'):
    """A symbolic pruned index, and (after the run) its value."""
    return [ctx.int(p, -1, sum(1 for _ in walk(t)))]


def settle(ctx, pr, t):
    """Which nouns of the tree are pruned, by case split."""
    return [x.ind for x in walk(t)
            if is_noun(x) and any(bool(x.ind == p) for p in pr)]


def frame_words(d):
    out = []
    for b in d.to_diagram().boxes:
        out.append(b)
        if isinstance(b, Frame):
            for c in b.components:
                out += frame_words(c)
    return out


def trees(k, kinds=('n', 'vp', 'obj', 's')):
    return [dict(shape=sh, kinds=kinds) for j in range(2, k + 1)
            for sh in shapes(j - 1)]


BIG = [dict(shape=sh, kinds=k) for sh in [
    ((), ((),), ((),)), (((),), (), ((),)), ((((),), ()),)]
    for k in [('vp', 's')]]
BIG += [dict(shape=((), ((), ((),))), kinds=('obj', 'vp'))]

KIND = {'n': n, 'vp': VP, 'obj': OBJ, 's': s, 'tv': TV}


def shaped(ctx, shape, kinds):
    root = ctx.choose('root', [s, n])
    return tree(ctx, shape, root, [0], [KIND[k] for k in kinds])


@SUITE.case(quick=trees(4) + BIG, thorough=trees(5) + BIG)
def frames(ctx, shape, kinds):
    t = shaped(ctx, shape, kinds)
    pr = pruned_set(ctx, t)
    d, nouns, ids = reader()._tree2frames_rec(t, pr)
    pruned = settle(ctx, pr, t)
    want = leaves(t, pruned)
    ctx.check(list(ids) == want, 'each noun once, in order')
    ctx.check([b.name for b in nouns] == [f'w{i}' for i in want]
              and all(b.dom == Ty() and b.cod == n for b in nouns),
              'noun boxes')
    ctx.check(d.dom == n ** len(want) and d.cod == n ** len(want),
              'boundary: one wire per noun')

    def rec(d, t):
        here = leaves(t, pruned)
        k = len(here) + missing(t)
        bs = d.to_diagram().boxes
        if is_noun(t) or not k:
            ctx.check(not bs, 'nothing to act on')
            return
        ctx.check(len(bs) == 1 and bs[0].name == t.word, 'head word')
        b = bs[0]
        ctx.check(b.dom == n ** k and b.cod == n ** k,
                  'a word acts on one noun wire per argument')
        subs = [c for c in t.children if not is_noun(c)
                and (leaves(c, pruned) or missing(c))]
        comps = b.components if isinstance(b, Frame) else []
        ctx.check(len(comps) == len(subs), 'one component per argument '
                  'that is not a noun')
        for c, x in zip(comps, subs):
            rec(c, x)
    rec(d, t)


@SUITE.case(quick=trees(4) + BIG, thorough=trees(5) + BIG)
def sandwiches(ctx, shape, kinds):
    t = shaped(ctx, shape, kinds)
    pr = ctx.choose('pruning', [(), 'one'])
    pr = pruned_set(ctx, t) if pr else []
    labels = ctx.choose('labels', [True, False])
    d, nouns, ids, _ = reader()._tree2sandwiches_rec(
        t, None, pr, labels)
    pruned = settle(ctx, pr, t) or (['?'] if pr else [])
    want = nouns_of(t, pruned)[0]
    ctx.check(list(ids) == want, 'nouns')
    ctx.check([b.name for b in nouns] == [
        '' if i is None else f'w{i}' for i in want], 'noun boxes')
    ctx.check(d.dom == n ** len(want) and d.cod == n ** len(want),
              'boundary: one wire per noun')
    got, end = trace(ctx, d, want, 'sandwich')
    ctx.check(end == want, 'wires come back in order')
    act = acts(t, pruned)
    for x in walk(t):
        if is_noun(x):
            continue
        mine = [(b, ws) for b, ws in got if base_name(b.name) == x.word]
        args = act[x.ind]
        live = [c for c in x.children if not is_noun(c) and act[c.ind]]
        ctx.check(len(mine) == (len(live) + 1 if args else 0),
                  'a word occurs before, between and after its arguments')
        ctx.check(all(list(ws) == args for _, ws in mine),
                  'a word acts on the wires of its arguments')
        names = [b.name for b, _ in mine]
        if mine:
            lab = [''] if not live else ['$_{top}$'] + [
                f'$_{{{i + 1}}}$' for i in range(len(live) - 1)
            ] + ['$_{bottom}$']
            ctx.check(names == [x.word + (l if labels else '')
                                for l in lab], 'labels')
    ctx.check(all(any(base_name(b.name) == x.word for x in walk(t)
                      if not is_noun(x)) for b, _ in got),
              'no other boxes')


# ---- texts ---------------------------------------------------------------

# (tokens, tree): N<k> stands for the k-th noun of the sentence, V for its
# own words; the tree lists (index, type, children)
TEMPLATES = {
    'iv': (['N', 'sleeps'], (1, s, [(0, n, [])])),
    'tv': (['N', 'sees', 'N'], (1, s, [(0, n, []), (2, n, [])])),
    'adv': (['N', 'really', 'likes', 'N'],
            (1, s, [(0, n, []), (2, VP, [(3, n, [])])])),
    'det': (['the', 'N', 'runs'], (2, s, [(0, n, [(1, n, [])])])),
    'adj': (['N', 'eats', 'red', 'N'],
            (1, s, [(0, n, []), (2, n, [(3, n, [])])])),
    'rel': (['N', 'that', 'N', 'likes', 'sleeps'],
            (4, s, [(1, n, [(0, n, []), (3, OBJ, [(2, n, [])])])])),
    'aux': (['N', 'has', 'jumped'], (1, s, [(0, n, []), (2, VP, [])])),
    'np': (['big', 'N'], (0, n, [(1, n, [])])),
    'order': (['N', 'gives', 'N', 'N'],
              (1, s, [(0, n, []), (3, n, []), (2, n, [])])),
}


def build_tree(spec, toks, idx):
    i, typ, ch = spec
    return PregroupTreeNode(toks[i], idx[i], typ, children=[
        build_tree(c, toks, idx) for c in ch])


def partitions(xs):
    if not xs:
        yield []
        return
    *head, last = xs
    for p in partitions(head):
        for i in range(len(p)):
            yield p[:i] + [p[i] + [last]] + p[i + 1:]
        yield p + [[last]]


def text(ctx, kinds, pool=('a', 'b', 'c')):
    """Sentences, the trees the parser returns for them, and coreferences."""
    sents, ts, mentions = [], [], []
    drop = ctx.choose('dropped token', [None, 'kept index', 'own index'])
    for i, k in enumerate(kinds):
        toks, spec = TEMPLATES[k]
        toks = list(toks)
        for j, w in enumerate(toks):
            if w == 'N':
                mentions.append((i, j))
                toks[j] = ctx.choose(f'noun{i}.{j}', pool)
            elif w not in ('the', 'has'):
                toks[j] = f'{w}{i}'
        idx = list(range(len(toks)))
        if drop:
            toks = ['"'] + toks
            spec = shift(spec)
            mentions = [(x, y + 1) if x == i else (x, y)
                        for x, y in mentions]
            idx = [0] + ([x + 1 for x in idx] if drop == 'kept index'
                         else idx)
        t = build_tree(spec, toks, idx)
        sents.append(toks + [f'.{i}'])
        ts.append(t)
    part = ctx.choose('coreference', list(partitions(mentions)))
    corefs = [[[j for i, j in e if i == x] for x in range(len(kinds))]
              for e in part if len(e) > 1]
    corefs += [[[j] if x == i else [] for x in range(len(kinds))]
               for i, j in mentions]
    entity = {m: e for e, ms in enumerate(part) for m in ms}
    return sents, ts, corefs, entity, part


def shift(spec):
    i, t, ch = spec
    return (i + 1, t, [shift(c) for c in ch])


def oracle(t, words, sandwich, pruned):
    """What each word of a sentence acts on (mention indices), in order."""
    ns = nouns_of(t, pruned or ())[0] if sandwich else leaves(t, pruned)
    return ns


def reindexed(t, idx):
    return PregroupTreeNode(t.word, idx[t.word, t.ind], t.typ,
                            children=[reindexed(c, idx) for c in t.children])


def token_tree(spec, toks):
    """The same tree with token positions (and rewritten words)."""
    i, typ, ch = spec
    return PregroupTreeNode(toks[i], i, typ,
                            children=[token_tree(c, toks) for c in ch])


def rewritten(t):
    """Determiners and auxiliaries with one argument of their own type are
    absorbed into it."""
    if (len(t.children) == 1 and t.children[0].typ == t.typ
            and (t.word, t.typ) in (('the', n), ('has', VP))):
        return rewritten(t.children[0])
    t.children = [rewritten(c) for c in t.children]
    return t


def check_text(ctx, kinds, sandwich, prune=(), freq=1, **kw):
    sents, ts, corefs, entity, part = text(ctx, kinds, **kw)
    r = reader({x[-1]: t for x, t in zip(sents, ts)}, (sents, corefs))
    if prune:
        prune = [ctx.choose('pruned noun', prune)]
    gone = {e for e, ms in enumerate(part)
            if len(ms) < freq or any(sents[i][j] in prune for i, j in ms)}
    d = r.text2circuit('', sandwich=sandwich, pruned_nouns=prune,
                       min_noun_freq=freq)
    first = len(sents[0]) - 1 - len(TEMPLATES[kinds[0]][0])
    live = [e for e in range(len(part)) if e not in gone]
    missing_ = []
    want = []
    states = []
    copies = 0
    for i, k in enumerate(kinds):
        spec = TEMPLATES[k][1]
        for _ in range(first):
            spec = shift(spec)
        t = rewritten(token_tree(spec, sents[i]))
        pruned = [j for (x, j), e in entity.items() if x == i and e in gone]
        ns = nouns_of(t, pruned)[0] if sandwich else leaves(t, pruned)
        for x in ns:
            e = entity[i, x] if x is not None else ('missing', i)
            if e not in states:
                states.append(e)
        copies += len(ns) - len({
            entity[i, x] if x is not None else None for x in ns})
        act = acts(t, pruned)
        for x in walk(t):
            if is_noun(x):
                continue
            args = act[x.ind] if sandwich else leaves(x, pruned)
            live_ch = [c for c in x.children if not is_noun(c)
                       and act[c.ind]]
            if not sandwich and x is not t:
                continue        # inside the frame of the head
            if args:
                args = [entity[i, y] if y is not None else ('missing', i)
                        for y in args]
                want += [(x.word, tuple(args))] * (
                    len(live_ch) + 1 if sandwich else 1)
    ctx.check(d.dom == Ty() and d.cod == n ** len(states),
              'one wire per noun of the text')
    bs = d.boxes[:len(states)]
    ctx.check(all(b.dom == Ty() and b.cod == n for b in bs), 'noun states')
    for e, b in zip(states, bs):
        names = [sents[i][j] for i, j in part[e]] if isinstance(e, int) \
            else ['']
        ctx.check(b.name in names, 'a noun wire carries its noun')
    rest = Diagram(dom=n ** len(states), cod=d.cod,
                   layers=d.layers[len(states):])
    got, end = trace(ctx, rest, states, 'text')
    ctx.check(end == states, 'wires come back in order')
    ctx.check(all(sum(max(0, f(b) - 1) for b in rest.boxes
                      if isinstance(b, Spider)) == copies
                  for f in (lambda b: len(b.dom), lambda b: len(b.cod))),
              'nouns are copied as often as a sentence repeats them')
    got = [(base_name(b.name), ws) for b, ws in got]
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)),
              'every word acts on the wires of its arguments, as often as '
              'it should')


def texts(m, keys=TEMPLATES):
    return [k for j in range(1, m + 1)
            for k in itertools.product(keys, repeat=j)]


@SUITE.case(quick=[dict(kinds=k, sandwich=x) for k in texts(1) + texts(
    2, ('iv', 'tv', 'rel', 'det'))[4:] + [('iv', 'iv', 'tv')]
    for x in (False, True)],
            thorough=[dict(kinds=k, sandwich=x) for k in texts(2)
                      + list(itertools.product(('iv', 'tv', 'rel'),
                                               repeat=3))
                      for x in (False, True)])
def texts_to_circuits(ctx, kinds, sandwich):
    check_text(ctx, kinds, sandwich, pool=('a', 'b'))


@SUITE.case(quick=[dict(kinds=k, sandwich=x) for k in texts(1) + texts(
    2, ('iv', 'tv', 'det'))[3:] for x in (False, True)],
            thorough=[dict(kinds=k, sandwich=x) for k in texts(2)
                      for x in (False, True)])
def pruned_nouns(ctx, kinds, sandwich):
    """Pruned nouns lose their state and wire."""
    check_text(ctx, kinds, sandwich, prune=('a', 'b'), pool=('a', 'b'))


@SUITE.case(quick=[dict(kinds=k, freq=f, sandwich=x) for k in texts(
    2, ('iv', 'tv', 'det')) for x in (False, True) for f in (2,)],
            thorough=[dict(kinds=k, freq=f, sandwich=x) for k in texts(2)
                      for x in (False, True) for f in (2, 3)])
def rare_nouns(ctx, kinds, freq, sandwich):
    """Nouns mentioned too rarely lose their state and wire."""
    check_text(ctx, kinds, sandwich, freq=freq, pool=('a', 'b', 'c'))


# ---- rewriting trees -----------------------------------------------------

def show(t):
    return (t.word, t.ind, tuple(show(c) for c in t.children))


def types_of(t):
    return [x.typ for x in walk(t)]


def merged(t, typ, words, depth, join):
    """Specification: in every maximal chain of nodes that match and whose
    only child has their type, the lowest `depth` ones join the child."""
    def match(x):
        return (typ is None or x.typ == typ) and len(x.children) == 1 \
            and x.children[0].typ == x.typ \
            and (words is None or x.word.lower() in words)
    chain = []
    cur = t
    while match(cur):
        chain.append(cur)
        cur = cur.children[0]
    word, ind = cur.word, cur.ind
    out_ch = tuple(merged(c, typ, words, depth, join) for c in cur.children)
    k = len(chain) if depth is None else min(depth, len(chain))
    for x in reversed(chain[len(chain) - k:]):
        word = {'merge': f'{x.word} {word}', 'first': x.word,
                'last': word}[join]
    res = (word, ind, out_ch)
    for x in reversed(chain[:len(chain) - k]):
        res = (x.word, x.ind, (res,))
    return res


@SUITE.case(quick=[dict(shape=sh, join=j) for k in range(1, 5)
                   for sh in shapes(k - 1)
                   for j in ('merge', 'first', 'last')],
            thorough=[dict(shape=sh, join=j) for k in range(1, 7)
                      for sh in shapes(k - 1)
                      for j in ('merge', 'first', 'last')])
def rewriting(ctx, shape, join):
    typ = ctx.choose('match type', [None, n])
    words = ctx.choose('match words', [None, {'the', 'a'}])
    depth = ctx.choose('depth', [None, 0, 1, 2])
    count = itertools.count()

    def mktree(sh):
        i = next(count)
        return PregroupTreeNode(
            ctx.choose(f'w{i}', ['The', 'cat'] if words else [f'x{i}']), i,
            ctx.choose(f't{i}', [n, s]), children=[mktree(c) for c in sh])
    t = mktree(shape)
    want = merged(t, typ, words, depth, join)
    before = show(t)
    r = TreeRewriter([TreeRewriteRule(typ, words, depth, join)])(t)
    ctx.check(show(r) == want, 'rewritten tree')
    ctx.check(r.typ == t.typ, 'type of the root')
    ctx.check(show(t) == before, 'the original tree is kept')


@SUITE.case(quick=[{}])
def default_rules(ctx):
    """Determiners and auxiliaries disappear into what they modify, other
    words stay."""
    w = ctx.choose('word', ['the', 'The', 'an', 'has', 'did', 'red', 'not'])
    ty = ctx.choose('type', [n, VP, s])
    k = ctx.choose('children', [1, 2])
    ch = [PregroupTreeNode('c', 1, ctx.choose('child type', [n, VP, s]))]
    ch += [PregroupTreeNode('e', 2, n)] * (k - 1)
    t = PregroupTreeNode(w, 0, ty, children=ch)
    r = TreeRewriter(None)(t)
    absorbed = k == 1 and ch[0].typ == ty and (
        (w.lower(), ty) in [('the', n), ('an', n)]
        or (w, ty) in [('has', VP), ('did', VP)])
    ctx.check(show(r) == (('c', 1, ()) if absorbed else show(t)),
              'default rules')


# ---- coreference ---------------------------------------------------------

class Sent(list):
    start = end = 0


@SUITE.case(quick=[dict(lens=l) for l in ((3,), (2, 2), (1, 3))],
            thorough=[dict(lens=l) for l in ((4,), (2, 2), (3, 2),
                                             (1, 2, 1))])
def heads(ctx, lens):
    """The token that stands for a span of the coreference model: the last
    proper noun, else the last noun or pronoun, else the first token."""
    toks, sents = [], []
    for k in lens:
        st = Sent()
        st.start = len(toks)
        for _ in range(k):
            i = len(toks)
            tok = SimpleNamespace(i=i, pos_=ctx.choose(
                f'pos{i}', ['NOUN', 'PROPN', 'PRON', 'VERB']))
            toks.append(tok)
            st.append(tok)
        st.end = len(toks)
        sents.append(st)
    spans = [(a, b) for st in sents for a in range(st.start, st.end)
             for b in range(a, st.end)]
    one = ctx.choose('span', spans)
    two = ctx.choose('span2', [None] + [x for x in spans
                                        if x[0] == x[1]][-2:])
    cluster = [one] + ([two] if two else [])
    r = MaverickCoreferenceResolver.__new__(MaverickCoreferenceResolver)
    r.nlp = lambda text: SimpleNamespace(sents=sents)
    r.model = SimpleNamespace(predict=lambda x: {
        'clusters_token_offsets': [cluster]})
    words, corefs = r.tokenise_and_coref('x')
    ctx.check([len(x) for x in words] == list(lens), 'sentences')

    def head(a, b):
        for cls in (('PROPN',), ('NOUN', 'PRON')):
            c = [i for i in range(a, b + 1) if toks[i].pos_ in cls]
            if c:
                return c[-1]
        return a
    want = [[] for _ in lens]
    for a, b in cluster:
        h = head(a, b)
        k = next(i for i, st in enumerate(sents) if st.start <= h < st.end)
        want[k].append(h - sents[k].start)
    ctx.check(corefs[0] == want, 'heads of the spans')
    d = r.dict_from_corefs(corefs)
    flat = [(i, j) for i, x in enumerate(want) for j in x]
    ctx.check(all(d[m] == flat[0] for m in flat), 'first mention')
    for st_i, st in enumerate(sents):
        for j, tok in enumerate(st):
            m = (st_i, j)
            if tok.pos_ != 'VERB' and m not in flat:
                ctx.check(d.get(m) == m, 'every noun is an entity')
            elif m not in flat:
                ctx.check(m not in d, 'only nouns are entities')
