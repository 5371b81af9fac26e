"""D03: batches of sentences and CCGBank files."""
import itertools
import os
import re
import shutil
import tempfile
import types

from vsym.case import Suite
from vsym.core import And
from vsym.strs import instrumented, sstr
from vsym.symre import Pattern

from lambeq.backend.grammar import Word
from lambeq.text2diagram import ccgbank_parser as real
from lambeq.text2diagram.ccg_parser import CCGParser
from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccg_type import CCGType
from lambeq.text2diagram.model_based_reader.oncilla_parser import (
    OncillaParseError, OncillaParser)

SUITE = Suite(
    'D03',
    bounds='derivations of 1 to 4 words in all the bracketings listed, with '
    'symbolic characters in the words (also in the bracket escapes) and '
    'symbolic node flags, every choice of leaf categories and of one '
    'corruption; batches of up to 3 (quick) / 4 (thorough) entries with every combination of '
    'sound and failing ones; files of up to 3 entries; Oncilla on up to 3 '
    'words with arbitrary predicted parents',
    assumptions=['fields of a derivation contain no spaces',
                 'predicted parents contain no cycles through several '
                 'words (the parser repairs those as it sees fit)'],
    stubs=['the Oncilla model: predicts arbitrary parents',
           'corpus files are written to a scratch folder'],
    outside='longer derivations and batches; the neural models; progress '
    'bars')

MOD = 'lambeq.text2diagram.ccgbank_parser'
T = CCGType


def api(ctx):
    if not ctx.symbolic:
        return real
    m = instrumented(MOD)
    for holder in (m, m.CCGBankParser):
        for n, r in list(vars(holder).items()):
            if isinstance(r, re.Pattern):
                setattr(holder, n, Pattern(r.pattern, r.flags & ~32))
    return m


N, NP, S, PP = T.NOUN, T.NOUN_PHRASE, T.SENTENCE, T.PREPOSITIONAL_PHRASE
CATS = {
    'N': N, 'NP': NP, 'S[dcl]': S, 'PP': PP, 'conj': T.CONJUNCTION,
    ',': T.PUNCTUATION, 'LRB': T.PUNCTUATION, 'N/N': N.over(N),
    'NP[nb]/N': NP.over(N), 'S[dcl]\\NP': S.under(NP),
    '(S[b]\\NP)/NP': S.under(NP).over(NP),
    '((S[b]\\NP)/NP)/': S.under(NP).over(NP),
    'S/(S\\NP)': S.over(S.under(NP)), 'NP\\NP': NP.under(NP),
}
# (category, children) or a leaf category
SHAPES = {
    'leaf': 'N',
    'unary': ('NP', ['N']),
    'det': ('NP', ['NP[nb]/N', 'N']),
    'iv': ('S[dcl]', ['NP', 'S[dcl]\\NP']),
    'tv': ('S[dcl]', ['NP', ('S[dcl]\\NP', ['(S[b]\\NP)/NP', 'NP'])]),
    'typo': ('S[dcl]\\NP', ['((S[b]\\NP)/NP)/', 'NP']),
    'raised': ('S[dcl]', [('S/(S\\NP)', ['NP']), 'S[dcl]\\NP']),
    'punct': ('NP', [('NP', ['N']), ',']),
    'conj': ('NP', ['NP', ('NP\\NP', ['conj', 'NP'])]),
    'lrb': ('N', ['LRB', ('N', ['N/N', 'N'])]),
    'chain': ('S[dcl]', [('NP', [('N', ['N/N', ('N', ['N/N', 'N'])])]),
                         'S[dcl]\\NP']),
    'left': ('S[dcl]', [('NP', [('NP', ['N']), 'NP\\NP']),
                        'S[dcl]\\NP']),
}


def write(shape, words, flag=None, at=None):
    """AUTO text of a derivation; `flag` replaces the flag of node `at`."""
    k = itertools.count()

    def go(s):
        i = next(k)
        fl = flag if i == at else None
        if isinstance(s, str):
            w = next(words)
            return ('(<' + ('L' if fl is None else fl) + f' {s} P1 P2 ' + w
                    + f' {s}>)')
        cat, kids = s
        out = ('(<' + ('T' if fl is None else fl)
               + f' {cat} 0 {len(kids)}> ')
        for c in kids:
            out = out + go(c) + ' '
        return out + ')'
    return go(shape)


def leaves(s):
    return [s] if isinstance(s, str) else sum(map(leaves, s[1]), [])


def size(s):
    return 1 if isinstance(s, str) else 1 + sum(map(size, s[1]))


ESC = {'-LRB-': '(', '-RRB-': ')', '-LCB-': '{', '-RCB-': '}'}


def agrees(ctx, tree, shape, words):
    """The tree is the one the text was written from."""
    if isinstance(shape, str):
        ctx.check(tree.biclosed_type == CATS[shape], 'leaf category')
        ctx.check(tree.rule == CCGRule.LEXICAL and not tree.children, 'leaf')
        ctx.check(tree.text == next(words), 'word')
        return
    cat, kids = shape
    ctx.check(tree.biclosed_type == CATS[cat], 'category')
    ctx.check(len(tree.children) == len(kids), 'number of children')
    for t, s in zip(tree.children, kids):
        agrees(ctx, t, s, words)
    ctx.check(tree.rule == CCGRule.infer_rule(
        [t.biclosed_type for t in tree.children], CATS[cat]), 'rule')


@SUITE.case(quick=lambda: [dict(shape=s, esc=e) for s in SHAPES
                           for e in (False, True)])
def derivation(ctx, shape, esc):
    """A derivation is read as it was written."""
    m = api(ctx)
    sh = SHAPES[shape]
    n = len(leaves(sh))
    ws = []
    for i in range(n):
        if esc and i == n - 1:
            w = '-' + sstr(ctx, 'e', 2, 'LRC') + 'B-'
        else:
            w = sstr(ctx, f'w{i}', 2, 'a-<>(') if not esc and i == n - 1 \
                and shape != 'chain' else f'v{i}'
        ws.append(w)
    parser = m.CCGBankParser('')
    text = write(sh, iter(ws))
    tree = parser.sentence2tree(text)
    want = []
    for w in ws:
        out = w
        for k, v in ESC.items():
            if len(w) == 5 and w == k:
                out = v
        want.append(out)
    agrees(ctx, tree, sh, iter(want))


@SUITE.case(quick=lambda: [dict(shape=s, at=i) for s in
                           ('leaf', 'unary', 'tv', 'conj')
                           for i in range(size(SHAPES[s]))])
def flags(ctx, shape, at):
    """Only the flags L (leaf) and T (tree) in their places are read."""
    m = api(ctx)
    sh = SHAPES[shape]
    ws = [f'v{i}' for i in range(len(leaves(sh)))]
    f = sstr(ctx, 'f', 1, 'LTNl ')
    text = write(sh, iter(ws), f, at)

    def kind(s, k=itertools.count()):
        out = [isinstance(s, str)]
        if not out[0]:
            for c in s[1]:
                out += kind(c)
        return out
    good = 'L' if kind(sh)[at] else 'T'
    parser = m.CCGBankParser('')
    try:
        tree = parser.sentence2tree(text)
    except m.CCGBankParseError:
        ctx.check(not (f == good), 'refused')
        ctx.check(parser.sentence2tree(text, suppress_exceptions=True)
                  is None, 'None when suppressed')
        return
    ctx.check(f == good, 'accepted')
    agrees(ctx, tree, sh, iter(ws))


def corrupt(text, how):
    return {
        'ok': text,
        'cut': text[:-1].rstrip(),
        'cut2': text[:len(text) // 2],
        'extra': text + ' x',
        'extra2': text + ' ' + text,
        'paren': text + ')',
        'empty': '',
        'cat': text.replace('NP', 'Q'),
        'field': text.replace('P1 ', ''),
        'lead': 'x' + text,
        'slash': text.replace('NP', 'NP/'),
    }[how]


HOW = ['ok', 'cut', 'cut2', 'extra', 'extra2', 'paren', 'empty', 'cat',
       'field', 'lead', 'slash']


@SUITE.case(quick=lambda: [dict(n=n, shapes=s) for n, s in
                           ((1, ('iv',)), (1, ('conj',)), (2, ('iv', 'det')),
                            (2, ('tv', 'raised')))],
            thorough=lambda: [dict(n=3, shapes=('iv', 'det', 'tv')),
                              dict(n=3, shapes=('raised', 'det', 'conj'))])
def texts(ctx, n, shapes):
    """One tree per text in its place; a text that is not exactly one
    derivation is refused."""
    m = api(ctx)
    kinds = [ctx.choose(f'k{i}', HOW) for i in range(n)]
    suppress = ctx.choose('suppress', [False, True])
    ws = [[f'a{i}{j}' for j in range(len(leaves(SHAPES[s])))]
          for i, s in enumerate(shapes)]
    txt = [corrupt(write(SHAPES[s], iter(w)), k)
           for s, w, k in zip(shapes, ws, kinds)]
    parser = m.CCGBankParser('')
    bad = [k != 'ok' for k in kinds]
    try:
        out = parser.sentences2trees(txt, suppress_exceptions=suppress)
    except m.CCGBankParseError:
        ctx.check(any(bad) and not suppress, 'error only for bad texts')
        return
    ctx.check(suppress or not any(bad), 'bad text reported')
    ctx.check(len(out) == n, 'one result per text')
    for t, s, w, b in zip(out, shapes, ws, bad):
        if b:
            ctx.check(t is None, 'no tree for a bad text')
        else:
            agrees(ctx, t, SHAPES[s], iter(w))


# ---- corpus files ----------------------------------------------------------

FSHAPES = ['iv', 'tv', 'det']


@SUITE.case(quick=lambda: [dict(n=n, files=f) for n, f in
                           ((1, 1), (2, 1), (2, 2))],
            thorough=lambda: [dict(n=3, files=f) for f in (1, 2, 3)])
def section(ctx, n, files):
    """A section gives each identifier its own tree and diagram."""
    P = real.CCGBankParser
    kinds = [ctx.choose(f'k{i}', ['ok', 'extra', 'cut', 'id'])
             for i in range(n)]
    suppress = ctx.choose('suppress', [False, True])
    sec = ctx.choose('section', [0, 7, 12])
    entries = []
    for i, k in enumerate(kinds):
        sh = SHAPES[FSHAPES[i]]
        ws = [f'a{i}{j}' for j in range(len(leaves(sh)))]
        text = write(sh, iter(ws))
        head = f'ID=wsj.{i} PARSER=GOLD' if k != 'id' else f'NO=wsj.{i}'
        entries.append((i, k, sh, ws, head,
                        corrupt(text, k if k != 'id' else 'ok')))
    root = tempfile.mkdtemp(prefix='d03_')
    try:
        folder = os.path.join(root, 'data', 'AUTO', f'{sec:02}')
        os.makedirs(folder)
        for f in reversed(range(files)):
            with open(os.path.join(folder, f'wsj_{f}.auto'), 'w') as h:
                for e in entries[f::files] if files > 1 else entries:
                    h.write(e[4] + '\n' + e[5] + '\n')
        order = [e for f in range(files) for e in entries[f::files]]
        p = P(root)
        bad = [k != 'ok' for k in kinds]
        try:
            trees = p.section2trees(sec, suppress_exceptions=suppress)
        except real.CCGBankParseError:
            ctx.check(any(bad) and not suppress, 'error only for bad files')
            return
        ctx.check(suppress or not any(bad), 'bad entry reported')
        want = [e for e in order if e[1] != 'id']
        ctx.check(list(trees) == [f'wsj.{e[0]}' for e in want],
                  'identifiers in order')
        diags = p.section2diagrams(sec, suppress_exceptions=suppress)
        ctx.check(list(diags) == list(trees), 'diagrams')
        for e in want:
            t, d = trees[f'wsj.{e[0]}'], diags[f'wsj.{e[0]}']
            if e[1] != 'ok':
                ctx.check(t is None and d is None, 'failed entry')
                continue
            agrees(ctx, t, e[2], iter(e[3]))
            ctx.check([b.name for b in d.boxes if isinstance(b, Word)]
                      == e[3], 'words')
            ctx.check(d == t.to_diagram(), 'diagram of the tree')
    finally:
        shutil.rmtree(root)


# ---- the generic batch of diagrams -----------------------------------------

class Boom(Exception):
    pass


@SUITE.case(quick=lambda: [dict(n=n) for n in (0, 1, 2, 3)])
def diagrams(ctx, n):
    """Parsers turn the trees of a batch into diagrams one by one."""
    kinds = [ctx.choose(f'k{i}', ['ok', 'none', 'fail']) for i in range(n)]
    suppress = ctx.choose('suppress', [False, True])
    tok = ctx.choose('tokenised', [False, True])
    planar = ctx.choose('planar', [False, True])
    collapse = ctx.choose('collapse', [False, True])
    seen = []

    class Tree:
        def __init__(self, i, k):
            self.i, self.k = i, k

        def to_diagram(self, planar=False, collapse_noun_phrases=True):
            if self.k == 'fail':
                raise Boom
            return ('diagram', self.i, planar, collapse_noun_phrases)

    class P(CCGParser):
        def sentences2trees(self, sentences, tokenised=False,
                            suppress_exceptions=False, verbose=None):
            seen.append((list(sentences), tokenised, suppress_exceptions))
            return [None if by[str(s)][1] == 'none' else Tree(*by[str(s)])
                    for s in sentences]
    sents = [[f'a{i}', 'b'] if tok else f'a{i} b' for i in range(n)]
    by = {str(s): (i, k) for i, (s, k) in enumerate(zip(sents, kinds))}
    p = P(verbose='suppress')
    kw = dict(tokenised=tok, planar=planar, collapse_noun_phrases=collapse,
              suppress_exceptions=suppress)

    def ref(i):
        return ('diagram', i, planar, collapse) if kinds[i] == 'ok' else None
    fail = 'fail' in kinds and not suppress
    try:
        out = p.sentences2diagrams(sents, **kw)
    except Boom:
        ctx.check(fail, 'error only when not suppressed')
    else:
        ctx.check(not fail, 'error reported')
        ctx.check(out == [ref(i) for i in range(n)], 'in order')
    ctx.check(seen == [(sents, tok, suppress)], 'sentences passed on')
    for i, s in enumerate(sents):
        try:
            one = p.sentence2diagram(s, **kw)
        except Boom:
            ctx.check(kinds[i] == 'fail' and not suppress, 'one: error')
        else:
            ctx.check(one == ref(i), 'one sentence')
        try:
            p.sentence2diagram(s, **{**kw, 'tokenised': not tok})
        except ValueError:
            pass
        else:
            ctx.check(False, 'wrong kind of sentence refused')


# ---- Oncilla ---------------------------------------------------------------

def oncilla(table, log):
    p = object.__new__(OncillaParser)
    p.verbose = 'suppress'
    p.tokenizer = None

    def pred(sent, tokenizer):
        log.append(list(sent))
        parents = table[sent[0]]
        if parents is None:
            raise Boom
        return types.SimpleNamespace(
            words=list(sent), parents=[[x] for x in parents],
            types=[['s'] if x == -1 else ['n'] for x in parents])
    p.model = types.SimpleNamespace(_sentence2pred=pred)
    return p


def is_tree(ps):
    """Whether the parents form one tree over all words."""
    return list(ps).count(-1) == 1 and acyclic(ps)


def acyclic(ps):
    n = len(ps)
    for i in range(n):
        k = 0
        while i != -1 and k <= n:
            i, k = ps[i], k + 1
        if i != -1:
            return False
    return True


@SUITE.case(quick=lambda: [dict(n=1, k=1), dict(n=1, k=2), dict(n=2, k=1),
                           dict(n=2, k=2), dict(n=3, k=1)],
            thorough=lambda: [dict(n=1, k=3), dict(n=1, k=4),
                              dict(n=4, k=1), dict(n=3, k=2)])
def oncilla_batch(ctx, n, k):
    """Each sentence of a batch gets the diagram of its predicted tree."""
    suppress = ctx.choose('suppress', [False, True])
    tok = ctx.choose('tokenised', [False, True])
    table, sents, good, full = {}, [], [], []
    for i in range(n):
        kind = ctx.choose(f'k{i}', ['tree', 'dot', 'fail', 'empty'])
        words = [f'a{i}{j}' for j in range(k)]
        ps = None
        if kind in ('tree', 'dot'):
            ps = [ctx.small(f'p{i}{j}', -1, k - 1) for j in range(k)]
            if any(p == j for j, p in enumerate(ps)):
                good.append(False)
            else:
                ps = [int(p) for p in ps]
                # cycles of predicted parents are repaired: no tree is
                # prescribed for them
                ctx.assume(acyclic(ps))
                good.append(is_tree(ps))
        else:
            good.append(False)
        table[words[0]] = ps
        w = words + (['.'] if kind == 'dot' else [])
        w = [] if kind == 'empty' else w
        full.append(words)
        sents.append(w if tok else ' '.join(w))
    log = []
    p = oncilla(table, log)
    given = [list(s) if tok else s for s in sents]
    try:
        out = p.sentences2diagrams(sents, tokenised=tok,
                                   suppress_exceptions=suppress)
    except (OncillaParseError, ValueError):
        ctx.check(not suppress and not all(good), 'error only for failures')
        return
    ctx.check(suppress or all(good), 'failure reported')
    ctx.check(sents == given, 'sentences left alone')
    ctx.check(len(out) == n, 'one result per sentence')
    for i, (d, g) in enumerate(zip(out, good)):
        if not g:
            ctx.check(d is None, 'no diagram for a failed sentence')
            continue
        ctx.check([b.name for b in d.boxes if isinstance(b, Word)]
                  == full[i], 'words of the sentence')
        if not any(s in ('', []) for s in [sents[i]]):
            one = p.sentence2diagram(sents[i], tokenised=tok)
            ctx.check(one == d, 'one sentence')
    ctx.check(And(True))
