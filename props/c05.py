"""C05: the chart parser and the pruning of supertags."""
import itertools
import types

from vsym.case import Suite
from vsym.core import And, Iff, Implies, Not, Or

from props.c01 import ref_ty, same

from lambeq.bobcat import parser as bp
from lambeq.bobcat import tagger as bt
from lambeq.bobcat.grammar import Grammar
from lambeq.bobcat.lexicon import Category
from lambeq.bobcat.parser import (Cell, Chart, ChartParser, ParseResult,
                                  Sentence, Supertag)
from lambeq.bobcat.tree import Lexical, ParseTree, Rule
from lambeq.text2diagram.model_based_reader.bobcat_parser import (
    BobcatParseError, BobcatParser)

SUITE = Suite(
    'C05',
    bounds='cells: up to 4 (quick) / 5 (thorough) trees in 1 or 2 batches '
    'with symbolic scores, categories and beam; parses of 1 to 3 words '
    'with up to 2 supertags each over grammars with application, '
    'composition, type raising, type changing, conjunction; symbolic '
    'supertag and span scores, presence of span scores, tag weight, beam '
    'and root categories; tagger output with up to 3 tags, symbolic '
    'log-probabilities and thresholds',
    assumptions=['the neural tagger supplies arbitrary scores',
                 'log-probabilities are real numbers'],
    stubs=['torch topk: returns the (symbolic) scores in descending order'],
    outside='longer sentences, larger grammars (the chart recursion is the '
    'same for every span)')


# ---- cells -----------------------------------------------------------------

def node(cat, score):
    return ParseTree(Rule.L, cat, None, None, [], [], {}, score)


@SUITE.case(quick=lambda: [dict(batches=b, beam=k) for b in
                           ((1,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1),
                            (2, 2))
                           for k in (1, 2, 3)],
            thorough=lambda: [dict(batches=b, beam=k) for b in
                              ((4,), (2, 2), (1, 3), (3, 1), (1, 1, 1, 1),
                               (1, 1, 2))
                              for k in (1, 2, 3, 4)])
def cell(ctx, batches, beam):
    """A cell holds the best tree of each category, best first, cut at the
    beam (ties at the cut are kept)."""
    n = sum(batches)
    trees = [node(ctx.name(f'c{i}'), ctx.real(f's{i}', -8, 0))
             for i in range(n)]
    chart = Chart(beam)
    i = 0
    for b in batches:
        chart.add(0, 1, list(trees[i:i + b]))
        i += b
    kept = chart[0, 1]
    ids = [next(j for j, t in enumerate(trees) if t is k) for k in kept]
    ctx.check(len(set(ids)) == len(ids), 'no tree twice')
    for a, b in zip(kept, kept[1:]):
        ctx.check(a.score >= b.score, 'best first')
    for a, b in itertools.combinations(kept, 2):
        ctx.check(Not(a.cat == b.cat), 'one tree per category')
    for j, t in enumerate(trees):
        rep = Or(*[And(k.cat == t.cat, k.score >= t.score) for k in kept])
        full = len(kept) >= beam and kept[-1].score > t.score
        ctx.check(Or(rep, full), 'a tree is dropped only for a better one '
                  'of its category or at the end of the beam')
    for j, k in enumerate(kept):
        if j >= beam:
            ctx.check(k.score == kept[beam - 1].score, 'beyond the beam')
    m = chart.min_score(0, 1)
    if len(kept) >= beam:
        ctx.check(m <= kept[beam - 1].score, 'minimal score')
    else:
        ctx.check(m == -float('inf'), 'minimal score')
    ctx.check(chart.min_score(0, 2) == -float('inf'), 'empty cell')


# ---- parsing ---------------------------------------------------------------

MARK = {
    'N': 'N{_}', 'NP': 'NP{_}',
    'S[dcl]': 'S[dcl]{_}',
    'NP/N': '(NP{Y}/N{Y}<1>){_}',
    'S[dcl]\\NP': '(S[dcl]{_}\\NP{Y}<1>){_}',
    '(S[dcl]\\NP)/NP': '((S[dcl]{_}\\NP{Y}<1>){_}/NP{Z}<2>){_}',
    'NP\\NP': '(NP{Y}\\NP{Y}<1>){_}',
    'conj': 'conj{_}', ',': ',{_}',
}
TR = [('NP', '(S[X]{Y}/(S[X]{Y}\\NP{_}){Y}){Y}', '+')]
TC = [(1, 'N', None, 'NP', False)]
BIN = [('NP', 'S[dcl]\\NP'), ('(S[dcl]\\NP)/NP', 'NP'), ('NP/N', 'N'),
       ('S[X]/(S[X]\\NP)', 'S[dcl]\\NP'),
       ('S[X]/(S[X]\\NP)', '(S[dcl]\\NP)/NP'), ('S[dcl]/NP', 'NP'),
       ('conj', 'NP'), (',', 'NP'), ('NP', 'NP\\NP'), ('NP', ','),
       ('S[dcl]', ',')]
CATS = ['NP', 'N', 'S[dcl]', 'S[dcl]\\NP', 'NP[conj]', 'NP::N',
        'S[X]/(S[X]\\NP)::NP', 'S[X]/(S[X]\\NP)::NP::N', 'S[dcl]/NP',
        'NP\\NP']
SENT = {
    'iv': [['NP', 'N'], ['S[dcl]\\NP']],
    'iv2': [['N'], ['S[dcl]\\NP', 'N']],
    'noun': [['N', 'NP']],
    'det': [['NP/N', 'NP'], ['N']],
    'tv': [['NP'], ['(S[dcl]\\NP)/NP'], ['NP']],
    'tvn': [['N'], ['(S[dcl]\\NP)/NP'], ['N']],
    'tvd': [['NP'], ['(S[dcl]\\NP)/NP', 'S[dcl]\\NP'], ['NP']],
    'conj': [['NP'], ['conj'], ['NP']],
    'comma': [['NP'], ['S[dcl]\\NP'], [',']],
    'comma2': [['NP'], [','], ['NP', 'N']],
    'dv': [['NP/N'], ['N'], ['S[dcl]\\NP']],
}


def chain(cat_str):
    if cat_str.endswith('[conj]') and '::' not in cat_str:
        b = cat_str[:-6]
        return ('conj', [Category.parse(f'({b}\\{b})')])
    cs = [Category.parse(c) for c in cat_str.split('::')]
    return ('unary' if len(cs) > 1 else 'binary', cs)


def ident(kind, cats, table):
    for i, c in enumerate(table):
        k, cs = chain(c)
        if k == kind and cs == cats:
            return i
    return None


def shape(t):
    """(rule, category, children) with words, to compare trees."""
    return (t.rule, str(t.cat), t.word if t.is_leaf else None,
            tuple(shape(c) for c in (t.left, t.right) if c is not None))


def words_of(t):
    if t.is_leaf:
        return [(t.word, str(t.cat))]
    return sum((words_of(c) for c in (t.left, t.right)
                if c is not None), [])


def unary_parts(t):
    """(chain of categories, base tree) of a chain of unary rules."""
    cats = [t.cat]
    while t.left is not None and t.right is None:
        t = t.left
        cats.append(t.cat)
    return cats, t


@SUITE.case(quick=lambda: [dict(sent=s, beam=b, roots=r, span=p)
                           for s in SENT for b in (1, 2, 10)
                           for r, p in ((None, 'all'), ('S', 'some'))
                           if not (b == 10 and r)
                           and not (s in ('comma2', 'tvd') and r)]

            + [dict(sent=s, beam=2, roots=r, span=p)
               for s in ('iv', 'noun', 'comma', 'tv')
               for r, p in (('NP', 'some'), ('S[dcl]', 'gaps'))],
            thorough=lambda: [dict(sent=s, beam=b, roots=r, span=p)
                              for s in SENT for b in (1, 2, 3, 10)
                              for r in (None, 'S', 'NP')
                              for p in ('all', 'some', 'gaps')
                              if not (s in ('comma2', 'tvd')
                                      and (p == 'gaps' or b == 10))])
def parse(ctx, sent, beam, roots, span):
    """Every cell of the chart holds the best derivations from the cells
    below it; the result is the top cell."""
    tags = SENT[sent]
    n = len(tags)
    words = [f'w{i}' for i in range(n)]
    miss_cat, miss_span = 0.01, 0.05
    P = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS,
                    None, False, 10 ** 6, beam, ctx.real('w', 0, 2),
                    miss_cat, miss_span)
    P.set_root_cats(None if roots is None else
                    [Category.parse(roots)])
    sup = [[Supertag(c, ctx.real(f'p{i}{j}', -8, 0))
            for j, c in enumerate(cs)] for i, cs in enumerate(tags)]
    spans = {}
    for i in range(n):
        for j in range(i, n):
            if span == 'gaps' and ctx.choose(f'gap{i}{j}', [False, True]):
                continue
            ids = {'all': range(len(CATS)), 'some': (0, 2, 3),
                   'gaps': (0, 2)}[span]
            if span == 'all' and j > i:
                # one common symbolic score: enough to order derivations
                k = ctx.real(f'x{i}{j}', -8, 0)
                spans[i, j] = {c: (k if c in (0, 2, 8) else -1.0 - c)
                               for c in ids}
            elif i == j:
                spans[i, j] = {c: -0.5 - c for c in ids}
            else:
                spans[i, j] = {c: ctx.real(f'x{i}{j}{c}', -8, 0)
                               for c in ids}
    res = P(Sentence(words, sup, spans))
    chart = res.chart
    mc, ms = P.missing_cat_score, P.missing_span_score

    def sc(i, j, cid):
        if cid is None:
            return mc
        return spans[i, j].get(cid, ms)

    def root_ok(t):
        return roots is None or Category.parse(roots).matches(t.cat)

    def ungraded(i, j):
        """Candidate (tree, score) of a span from the cells below it."""
        top = j - i == n - 1
        out = []
        if i == j:
            base = []
            for s in sup[i]:
                t = Lexical(P.categories[s.category], words[i], i + 1)
                base.append((t, P.input_tag_score_weight * s.probability))
            out += base
            if (i, i) in spans and n > 1:
                out += unary(base, i, j)
        elif (i, j) in spans:
            for m in range(i + 1, j + 1):
                if (i, m - 1) not in chart.chart \
                        or (m, j) not in chart.chart:
                    continue
                for a in chart[i, m - 1]:
                    for b in chart[m, j]:
                        base = []
                        for t in P.rules.combine(a, b):
                            kind = ('conj' if t.rule == Rule.CONJ
                                    else 'binary')
                            s = (a.score + b.score
                                 + sc(i, j, ident(kind, [t.cat], CATS)))
                            base.append((t, s))
                        out += base
                        if not top:
                            out += unary(base, i, j)
        return [(t, s) for t, s in out if not top or root_ok(t)]

    def unary(base, i, j):
        out, tc = [], []
        low = {id(t): (t.left.score + t.right.score if t.right is not None
                       else s) for t, s in base}
        for u in P.rules.type_change([t for t, _ in base]):
            s = low[id(u.left)] + sc(i, j, ident(
                'unary', [u.cat, u.left.cat], CATS))
            tc.append((u, s))
        for u in P.rules.type_raise([t for t, _ in base + tc]):
            cats, b = unary_parts(u)
            s = low[id(b)] + sc(i, j, ident('unary', cats, CATS))
            out.append((u, s))
        return tc + out

    for i in range(n):
        for j in range(i, n):
            cands = ungraded(i, j)
            kept = chart[i, j] if (i, j) in chart.chart else []
            ctx.check((not kept) == (not cands), 'cell filled')
            for t in kept:
                sh = shape(t)
                ctx.check(Or(*[t.score == s for c, s in cands
                               if shape(c) == sh]),
                          'a derivation with its score')
                ctx.check([w for w, _ in words_of(t)] == words[i:j + 1],
                          'exactly the words of the span')
                ctx.check(all(c in tags[int(w[1:])]
                              for w, c in words_of(t)), 'supplied supertags')
            for a, b in zip(kept, kept[1:]):
                ctx.check(a.score >= b.score, 'best first')
            for a, b in itertools.combinations(kept, 2):
                ctx.check(a.cat != b.cat, 'one per category')
            for c, s in cands:
                rep = Or(*[k.score >= s for k in kept if k.cat == c.cat])
                full = len(kept) >= beam and kept[-1].score > s
                ctx.check(Or(rep, full), 'best derivation kept')
    root = chart[0, n - 1] if (0, n - 1) in chart.chart else []
    ctx.check(list(res.root) == list(root) and len(res) == len(root)
              and bool(res) == bool(root), 'results')
    if root:
        ctx.check(res[0] is root[0] and res.words == words, 'best parse')
        ctx.check(res.deps() == res.deps(root[0])
                  == root[0].deps_and_tags, 'dependencies of the best parse')
        ctx.check(res.deps()[1] == [
            c.replace('[X]', '') for _, c in words_of(root[0])],
            'supertags of the best parse')
    elif all((i, i) in chart.chart for i in range(n)):
        # without a parse, fragments covering the sentence are used
        deps, got = res.deps()
        ctx.check(len(got) == n, 'one supertag per word')
        ctx.check(all(g in tags[i] for i, g in enumerate(got)),
                  'supplied supertags')
        ctx.check(all(d.head.word in words and d.filler.word in words
                      for d in deps), 'dependencies')
        big = max(j - i for i, j in chart.chart)
        best = [t for (i, j), c in chart.chart.items() if j - i == big
                for t in c.trees]
        ctx.check(Or(*[And(set(map(id, t.deps_and_tags[0]))
                           <= set(map(id, deps)),
                           *[t.score >= u.score for u in best])
                       for t in best]), 'best longest fragment')


WIDE = {
    'N': 'N{_}', 'NP': 'NP{_}', 'PP': 'PP{_}',
    'NP/N': '(NP{Y}/N{Y}<1>){_}', 'PP/N': '(PP{Y}/N{Y}<1>){_}',
    'N/PP': '(N{Y}/PP{Z}<1>){_}', 'N/N': '(N{Y}/N{Y}<1>){_}',
}
WBIN = [('NP/N', 'N'), ('PP/N', 'N'), ('NP/N', 'N/PP'), ('PP/N', 'N/PP'),
        ('N/N', 'N')]


@SUITE.case(quick=lambda: [dict(beam=b, known=k, mc=c, ms=s)
                           for b in (1, 2)
                           for k in (('NP', 'NP/PP'), ('PP',),
                                     ('NP', 'PP/PP', 'N'))
                           for c, s in ((1.0, 0.001), (0.001, 1.0),
                                        (0.0, 0.2), (0.2, 0.0))
                           if not (0.0 in (c, s) and b == 1)],
            thorough=lambda: [dict(beam=3, known=k, mc=c, ms=s)
                              for k in (('NP', 'NP/PP'), ('PP',))
                              for c, s in ((1.0, 0.001), (0.001, 1.0))])
def wide(ctx, beam, known, mc, ms):
    """The beam of a span keeps the best of all combinations, whatever the
    default scores of unknown categories and of unscored ones are."""
    import math
    left, right = ['NP/N', 'PP/N'], ['N', 'N/PP']
    P = ChartParser(Grammar(dict(WIDE), WBIN, [], []), list(known), None,
                    False, 10 ** 6, beam, 1.0, mc, ms)
    inf = -float('inf')
    mc, ms = (math.log(x) if x else inf for x in (mc, ms))
    sup = [[Supertag(c, ctx.real(f'p{i}{j}', -8, 0))
            for j, c in enumerate(cs)] for i, cs in enumerate((left, right))]
    spans = {(0, 0): {}, (1, 1): {},
             (0, 1): {i: ctx.real(f'x{i}', -8, 0)
                      for i in range(len(known))
                      if ctx.choose(f'has{i}', [True, False])}}
    res = P(Sentence(['a', 'b'], sup, spans))
    kept_l = res.chart[0, 0]
    kept_r = res.chart[1, 1]
    cands = []
    for a in kept_l:
        for b in kept_r:
            c = str(a.cat).split('/')[0].lstrip('(')
            if '/' in str(b.cat):
                c = f'{c}/PP'
            if c in known:
                s = spans[0, 1].get(known.index(c), ms)
            else:
                s = mc
            cands.append((c, a.score + b.score + s))
    kept = list(res.root)
    if inf not in (mc, ms):
        ctx.check(len(kept) >= min(beam, len(cands)), 'a full beam')
    for t in kept:
        ctx.check(Or(*[t.score == s for c, s in cands
                       if c == str(t.cat).strip('()')]), 'score')
    for c, s in cands:
        rep = Or(*[t.score >= s for t in kept if str(t.cat).strip('()') == c])
        full = len(kept) >= beam and kept[-1].score > s
        ctx.check(Or(rep, full), 'best derivation kept')
    for a, b in zip(kept, kept[1:]):
        ctx.check(a.score >= b.score, 'best first')


@SUITE.case(quick=lambda: [dict(s=s) for s in ('iv', 'tv', 'dv')])
def missing(ctx, s):
    """A sentence one of whose words has no supertag has no parse."""
    tags = [list(t) for t in SENT[s]]
    hole = ctx.small('hole', 0, len(tags) - 1)
    tags[hole] = []
    n = len(tags)
    P = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS, None, False,
                    1000, 5, 1.0, 0.01, 0.05)
    sup = [[Supertag(c, ctx.real(f'p{i}{j}', -8, 0))
            for j, c in enumerate(cs)] for i, cs in enumerate(tags)]
    res = P(Sentence([f'w{i}' for i in range(n)], sup,
                     {(i, j): {0: -1.0} for i in range(n)
                      for j in range(i, n)}))
    ctx.check(len(res) == 0 and not res, 'no parse of part of the sentence')


@SUITE.case(quick=lambda: [dict(s=s) for s in ('iv', 'tv', 'comma')])
def limit(ctx, s):
    """The limit on the number of trees only drops whole parses."""
    tags = SENT[s]
    n = len(tags)
    lim = ctx.int('limit', 0, 12)
    P = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS, None, False,
                    lim, 5, 1.0, 0.01, 0.05)
    Q = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS, None, False,
                    1000, 5, 1.0, 0.01, 0.05)
    sup = [[Supertag(c, -1.0 - j) for j, c in enumerate(cs)]
           for cs in tags]
    spans = {(i, j): {0: -1.0} for i in range(n) for j in range(i, n)}
    words = [f'w{i}' for i in range(n)]
    a, b = P(Sentence(words, sup, spans)), Q(Sentence(words, sup, spans))
    ctx.check([shape(t) for t in a.root] in ([], [shape(t) for t in b.root]),
              'same parses or none')
    ctx.check(Implies(lim >= b.chart.parse_tree_count,
                      len(a.root) == len(b.root)), 'limit not reached')


@SUITE.case(quick=lambda: [dict(k=k) for k in (0, 1, 2)])
def roots(ctx, k):
    pats = ['S', 'S[dcl]', 'NP', 'N'][k:k + 2]
    P = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS, None, False,
                    1000, 5, 1.0, 0.01, 0.05)
    for p in pats:
        Category.parse(p)
    P.set_root_cats(pats)
    ts = [node(Category.parse(c), ctx.real(f's{i}', -5, 0))
          for i, c in enumerate(['S[dcl]', 'NP', 'N', 'S[q]', 'S[dcl]\\NP'])]
    pick = [t for i, t in enumerate(ts) if ctx.bool(f'in{i}')]
    got = P.filter_root(pick)
    want = [t for t in pick
            if any(str(t.cat) == p or (p == 'S' and str(t.cat)[:2] == 'S['
                                       and t.cat.atomic) for p in pats)]
    ctx.check(len(got) == len(want)
              and all(a is b for a, b in zip(got, want)), 'allowed roots')
    P.set_root_cats(None)
    ctx.check(P.filter_root(pick) == pick, 'no restriction')
    try:
        P.set_root_cats(['FOO'])
        ctx.fail('unknown root category accepted')
    except ValueError:
        pass
    try:
        Sentence(['a'], [], {})
        ctx.fail('words without supertags accepted')
    except ValueError:
        pass


# ---- tagger output -----------------------------------------------------------

class Scores:
    def __init__(self, rows):
        self.rows = rows

    def size(self, i):
        return len(self.rows[0][0])

    def log_softmax(self, d):
        return self

    def topk(self, k):
        srt = [[sorted(enumerate(r), key=lambda x: -x[1])[:k] for r in s]
               for s in self.rows]
        return types.SimpleNamespace(
            values=[Rows([[v for _, v in r] for r in s]) for s in srt],
            indices=[Rows([[i for i, _ in r] for r in s]) for s in srt])


class Rows(list):
    def __getitem__(self, i):
        return Rows(list.__getitem__(self, i))

    def tolist(self):
        return list(self)


@SUITE.case(quick=lambda: [dict(n=n, k=k, strat=s, th=t)
                           for n in (1, 2) for k in (0, 1, 2)
                           for s in ('relative', 'absolute')
                           for t in (0, 0.5, 1) if n * (k + 1) < 5])
def supertags(ctx, n, k, strat, th):
    """The tagger keeps the k best tags above the threshold, best first,
    and attributes the span scores to their spans."""
    import math
    nt, nc = (3, 2) if n == 1 else (2, 2)
    spans = [(s, e) for e in range(n) for s in reversed(range(e + 1))]
    tag = [[ctx.real(f't{i}{j}', -5, 0) for j in range(nt)]
           for i in range(n)]
    spn = [[ctx.real(f's{i}{j}', -5, 0) if i < 2 else -1.0 * j - 1
            for j in range(nc)] for i in range(len(spans))]
    for r in tag + spn:
        for a, b in itertools.combinations(r, 2):
            ctx.assume(Not(a == b))

    class Model:
        device = 'cpu'
        config = types.SimpleNamespace(tags=list('abc')[:nt],
                                       cats=list('xy'))

        def __call__(self, **kw):
            pad = [[-1.0] * nt], [[-1.0] * nc]
            return types.SimpleNamespace(
                tag_logits=Scores([tag + pad[0]]),
                span_logits=Scores([spn + pad[1]]))
    T = bt.Tagger(Model(), None, 1, k, th, strat, k, th, strat)
    T.prepare_inputs = lambda inputs, word_mask: {}
    words = [f'w{i}' for i in range(n)]
    if n == 2:
        bt.SPAN_MEMO.clear()
    out = T([words], verbose='suppress')
    ctx.check(len(out.sentences) == 1
              and out.sentences[0].words == words, 'sentences')
    sent = out.sentences[0]

    def want(row, skip0):
        order = sorted(enumerate(row), key=lambda x: -x[1])
        order = order[:k] if k else order
        best = order[0][1]
        if th == 0:
            keep = order
        else:
            lim = math.log(th) + (best if strat == 'relative' else 0)
            keep = [(i, v) for i, v in order if v >= lim]
        return [(i, v) for i, v in keep if i or not skip0]

    def same(a, b):
        return len(a) == len(b) and And(*[
            And(i == j, u == v) for (i, u), (j, v) in zip(a, b)])
    ctx.check(len(sent.tags) == n, 'one list of tags per word')
    for got, row in zip(sent.tags, tag):
        ctx.check(same(got, want(row, False)), 'tags')
    exp = [(s, e, want(row, True)) for (s, e), row in zip(spans, spn)]
    exp = [x for x in exp if x[2]]
    ctx.check(len(exp) == len(sent.spans)
              and all((a[0], a[1]) == (b[0], b[1])
                      for a, b in zip(exp, sent.spans)), 'spans')
    for a, b in zip(exp, sent.spans):
        ctx.check(same(a[2], b[2]), 'span scores')
    p = BobcatParser._prepare_sentence(sent, out.tags)
    ctx.check(p.words == words, 'words')
    for got, row in zip(p.input_supertags, tag):
        ws = want(row, False)
        ctx.check(len(got) == len(ws) and And(*[
            And(g.category == out.tags[i], g.probability == v)
            for g, (i, v) in zip(got, ws)]), 'supertags handed over')
    ctx.check(set(p.span_scores) == {(a, b) for a, b, _ in exp}, 'spans')
    for a, b, r in exp:
        ctx.check(same(sorted(p.span_scores[a, b].items()), sorted(r)),
                  'span scores handed over')


@SUITE.case(quick=lambda: [dict()])
def span_order(ctx):
    """Span numbering is a bijection, whatever was asked before."""
    i, a, b = (ctx.small('i', 0, 40), ctx.choose('a', [0, 1, 3, 6]),
               ctx.choose('b', [0, 2, 5]))
    bt.SPAN_MEMO.clear()
    first = bt.get_chart_spans(a)
    s, e = bt.idx2span(i)
    ctx.check(0 <= s <= e and bt.span2idx(s, e) == i, 'index of the span')
    ctx.check(bt.get_chart_spans(b) == [
        (x, y) for y in range(b) for x in reversed(range(y + 1))],
        'spans of a sentence')
    ctx.check(first == [(x, y) for y in range(a)
                        for x in reversed(range(y + 1))], 'spans')
    ctx.check(bt.chart_size(b) == len(bt.get_chart_spans(b)), 'size')


# ---- the lambeq parser around it ------------------------------------------

def ccg_ref(c):
    if c.atomic:
        return {'N': 'n', 'NP': 'n.p', 'S': 's', 'PP': 'p.p',
                'conj': 'conj'}.get(str(c.atom), 'punc')
    return (ccg_ref(c.result), c.dir, ccg_ref(c.argument))


@SUITE.case(quick=lambda: [dict(s=s) for s in
                           ('iv', 'det', 'tv', 'conj', 'comma', 'comma2')])
def ccgtree(ctx, s):
    """The chart's tree becomes the same CCG tree."""
    tags = SENT[s]
    n = len(tags)
    P = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS, None, False,
                    1000, 5, 1.0, 0.01, 0.05)
    sup = [[Supertag(c, ctx.real(f'p{i}{j}', -8, 0))
            for j, c in enumerate(cs)] for i, cs in enumerate(tags)]
    res = P(Sentence([f'w{i}' for i in range(n)], sup,
                     {(i, j): {0: -1.0} for i in range(n)
                      for j in range(i, n)}))

    def cmp(t, c):
        kids = [x for x in (t.left, t.right) if x is not None]
        rule = {'ADJ_CONJ': 'FA'}.get(t.rule.name, t.rule.name)
        want = ccg_ref(t.cat)

        def eq(ct, r):
            if isinstance(r, tuple):
                return (ct.is_complex and ct.direction == r[1]
                        and eq(ct.result, r[0]) and eq(ct.argument, r[2]))
            return ct.is_atomic and ct.name == r
        return (c.rule.value == rule and len(c.children) == len(kids)
                and eq(c.biclosed_type, NAMES(want))
                and (c.text == t.word if t.is_leaf else True)
                and all(cmp(a, b) for a, b in zip(kids, c.children)))

    def NAMES(r):
        if isinstance(r, tuple):
            return (NAMES(r[0]), r[1], NAMES(r[2]))
        from lambeq.text2diagram.ccg_type import CCGType as T
        return {'n': T.NOUN, 'n.p': T.NOUN_PHRASE, 's': T.SENTENCE,
                'p.p': T.PREPOSITIONAL_PHRASE, 'conj': T.CONJUNCTION,
                'punc': T.PUNCTUATION}[r].name
    for t in res.root:
        ctx.check(cmp(t, BobcatParser._build_ccgtree(t)), 'CCG tree')
    ctx.check(True)


@SUITE.case(quick=lambda: [dict(n=n) for n in (1, 2, 3)])
def batches(ctx, n):
    """One result per sentence, in order; failures are None or raise."""
    kinds = [ctx.choose(f'k{i}', ['ok', 'fail', 'empty']) for i in range(n)]
    suppress = ctx.choose('suppress', [True, False])
    B = object.__new__(BobcatParser)
    B.verbose = 'suppress'
    P = ChartParser(Grammar(dict(MARK), BIN, TC, TR), CATS, None, False,
                    1000, 5, 1.0, 0.01, 0.05)

    def tagger(sents, verbose):
        out = [bt.TaggerOutputSentence(
            list(s), [[(0, -1.0)]] * len(s),
            [(0, 0, [(1, -1.0)])]) for s in sents]
        return bt.TaggerOutput(tags=['NP'], cats=CATS, sentences=out)
    B.tagger, B.parser = tagger, P
    sents = [{'ok': [f'a{i}'], 'fail': [f'a{i}', 'b'], 'empty': []}[k]
             for i, k in enumerate(kinds)]
    bad = any(k != 'ok' for k in kinds)
    try:
        out = B.sentences2trees(sents, tokenised=True,
                                suppress_exceptions=suppress)
    except (ValueError, BobcatParseError):
        ctx.check(bad and not suppress, 'failure only for bad sentences')
        return
    ctx.check(suppress or not bad, 'failure reported')
    ctx.check(len(out) == n, 'one result per sentence')
    for i, (k, t) in enumerate(zip(kinds, out)):
        ctx.check((t is None) == (k != 'ok')
                  and (t is None or t.text == f'a{i}'), 'in order')
