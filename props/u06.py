"""U06: the command line applies the given, stored and default options."""
import argparse
import contextlib
import io
import os
import pickle
import shutil
import sys
import tempfile

import yaml

from vsym.case import Suite

import lambeq
from lambeq import cli
from lambeq.backend.grammar import Cup, Diagram, Id, Swap, Ty, Word
from lambeq.backend.tensor import Dim

SUITE = Suite(
    'U06',
    bounds='every pair of two options, each given on the command line, '
    'stored in a file, both or neither, with two values each; all settings '
    'of the validated options; pipelines over up to 3 sentences with '
    'symbolic sizes of the ansatz; up to 12 pictures',
    stubs=['parsers: return given diagrams', 'drawing: records its options',
           'files are written to a scratch folder'],
    outside='the parsers behind the command line; the tokeniser; the text '
    'of error messages and of the help')

ANSATZ = dict(dim_n=2, dim_s=2, n_layers=2, n_single_qubit_params=3,
              bond_dim=3, max_order=3)
# option: (values, arguments for a value, value when nothing is given)
OPTS = {
    'mode': (['ccg', 'pregroups'], lambda v: ['-m', v], 'string-diagram'),
    'output_format': (['pickle', 'text-ascii'], lambda v: ['-f', v],
                      'text-unicode'),
    'image_format': (['pdf', 'svg'], lambda v: ['-g', v], 'png'),
    'reader': (['cups', 'tree'], lambda v: ['-r', v], None),
    'parser': (['bobcat', 'oncilla'], lambda v: ['-p', v], None),
    'root_categories': ([['S'], ['NP', 'S[dcl]']], lambda v: ['-c', *v],
                        None),
    'rewrite_rules': ([['determiner'], ['curry', 'auxiliary']],
                      lambda v: ['-w', *v], None),
    'ansatz': (['iqp', 'mps'], lambda v: ['-a', v], None),
    'ansatz_options': ([{**ANSATZ, 'dim_s': 5}, {**ANSATZ, 'n_layers': 1,
                                                 'bond_dim': 7}],
                       lambda v: ['-n', *(f'{k}={x}' for k, x in v.items()
                                          if ANSATZ[k] != x)], None),
    'output_options': ([{'fontsize': 9}, {'fig_width': 4, 'fig_height': 3}],
                       lambda v: ['-u', *(f'{k}={x}' for k, x in v.items())],
                       {}),
    'output_file': (['a.txt', 'b.txt'], lambda v: ['-o', v], None),
    'input_file': (['in.txt', 'in2.txt'], lambda v: ['-i', v], None),
    'tokenise': ([True], lambda v: ['-t'], False),
    'split_sentences': ([True], lambda v: ['-s'], False),
}
PAIRS = [(a, b) for i, a in enumerate(OPTS) for b in list(OPTS)[i + 1:]]


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def effective(argv):
    """The options that reach the pipeline."""
    got = []

    class Module:
        def __call__(self, cl_args, data=None):
            got.append(dict(vars(cl_args)))
    with patched(cli, FileReaderModule=Module, ParserModule=Module,
                 RewriterModule=Module, AnsatzModule=Module,
                 DiagramSaveModule=Module, CCGTreeSaveModule=Module,
                 validate_args=lambda a: None), \
            patched(sys, argv=['lambeq', *argv]):
        cli.main()
    assert len(got) == 5
    return got[0], all(g == got[0] for g in got)


@SUITE.case(quick=lambda: [dict(a=a, b=b) for a, b in PAIRS])
def options(ctx, a, b):
    """What is given goes before what is stored, and that before the
    defaults; storing and loading the options keeps them."""
    argv, stored, want = [], {}, {}
    tail = []
    for o in (a, b):
        vals, args, default = OPTS[o]
        g = ctx.choose(f'given_{o}', [None] + vals)
        s = ctx.choose(f'stored_{o}', [None] + vals)
        if g is not None:
            (tail if isinstance(g, (list, dict)) else argv).extend(args(g))
            want[o] = g
        elif s is not None:
            want[o] = s
        else:
            want[o] = default
        if s is not None:
            stored[o] = s
    argv += tail
    folder = tempfile.mkdtemp(prefix='u06_')
    try:
        if stored:
            f = os.path.join(folder, 'load.yaml')
            with open(f, 'w') as h:
                yaml.dump(stored, h)
            argv += ['-l', f]
        out = os.path.join(folder, 'out.yaml')
        got, same = effective(argv)
        ctx.check(same, 'all modules see the same options')
        ok(ctx, got, want)
        for o, (_, _, default) in OPTS.items():
            if o not in (a, b):
                ok(ctx, got, {o: default})
        got2, _ = effective(argv + ['-y', out])
        back, _ = effective(['-l', out])
        for o in OPTS:
            ctx.check(back[o] == got2[o] == got[o], f'stored: {o}')
    finally:
        shutil.rmtree(folder)


def ok(ctx, got, want):
    for o, w in want.items():
        if o == 'ansatz_options' and w is None:
            w = ANSATZ
        ctx.check(got[o] == w, f'option {o}')


@SUITE.case(quick=lambda: [dict(k=k) for k in ANSATZ])
def key_values(ctx, k):
    """Lists of key=value options are read with their types, and filled up
    with their defaults."""
    v = ctx.small('v', 0, 12)
    kind = ctx.choose('kind', ['ok', 'text', 'key', 'none'])
    p = cli.prepare_parser()
    argv = ['-n', {'ok': f'{k}={v}', 'text': f'{k}=x{v}',
                   'key': f'{k}x={v}'}.get(kind)] if kind != 'none' else []
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            got = p.parse_args(argv).ansatz_options
    except SystemExit:
        ctx.check(kind in ('text', 'key'), 'refused')
        return
    ctx.check(kind in ('ok', 'none'), 'accepted')
    if kind == 'ok':
        ctx.check(got == {**ANSATZ, k: v}, 'values')


@SUITE.case(quick=lambda: [dict(mode=m, fmt=f) for m in
                           ('string-diagram', 'pregroups', 'ccg')
                           for f in ('json', 'pickle', 'text-unicode',
                                     'text-ascii', 'image')])
def valid(ctx, mode, fmt):
    """Contradictory options are refused, all others accepted."""
    c = {}
    c['input_sentence'] = ctx.choose('sentence', ['', 'a b'])
    c['input_file'] = ctx.choose('input', [None, 'f'])
    c['output_file'], c['output_dir'] = ctx.choose(
        'out', [(None, None), ('f', None), (None, 'd')])
    c['parser'], c['reader'] = ctx.choose(
        'parser', [(None, None), ('bobcat', None), ('oncilla', None),
                   (None, 'cups'), (None, 'tree'), ('bobcat', 'cups')])
    c['output_options'] = ctx.choose('opts', [{}, {'fontsize': 3}])
    c['ansatz'] = ctx.choose('ansatz', [None, 'iqp'])
    c['rewrite_rules'] = ctx.choose('rules', [None, ['curry']])
    text = fmt in ('text-unicode', 'text-ascii')
    bad = [c['input_sentence'] != '' and c['input_file'] is not None,
           c['output_file'] is None and c['output_dir'] is None and not text,
           c['parser'] is not None and c['reader'] is not None,
           bool(c['output_options']) and fmt != 'image',
           c['output_dir'] is not None and fmt != 'image']
    if mode == 'ccg':
        bad += [c['ansatz'] is not None, c['reader'] is not None,
                c['rewrite_rules'] is not None, fmt == 'image',
                c['parser'] == 'oncilla']
    elif text or fmt == 'json':
        bad += [c['ansatz'] is not None, c['rewrite_rules'] is not None,
                c['reader'] == 'tree']
    try:
        cli.validate_args(argparse.Namespace(
            mode=mode, output_format=fmt, **c))
    except ValueError:
        ctx.check(any(bad), 'refused')
        return
    ctx.check(not any(bad), 'accepted')


# ---- the pipeline ----------------------------------------------------------

N, S = Ty('n'), Ty('s')


def sentence(i):
    return (Word(f'a{i}', N) @ Word(f'v{i}', N.r @ S @ N.l)
            @ Word('the', N @ N.l) @ Word(f'b{i}', N)
            >> Cup(N, N.r) @ Id(S) @ Cup(N.l, N) @ Cup(N.l, N))


def run(argv, parser=None):
    out = io.StringIO()
    with patched(sys, argv=['lambeq', *argv], stdout=out), \
            patched(cli, AVAILABLE_PARSERS={'bobcat': parser}):
        cli.main()
    return out.getvalue()


@SUITE.case(quick=lambda: [dict(n=n, src=s) for n in (1, 2, 3)
                           for s in ('arg', 'file', 'reader')])
def pipeline(ctx, n, src):
    """Every sentence is parsed, rewritten and given to the ansatz with the
    chosen options, in order."""
    lost = [src != 'reader' and ctx.choose(f'none{i}', [False, True])
            for i in range(n)] if n < 3 else [False] * n
    rules = ctx.choose('rules', [None, ['determiner'],
                                 ['determiner', 'curry']])
    which = ctx.choose('ansatz', [None, 'iqp', 'tensor', 'spider', 'mps'])
    dims = [ctx.small('dn', 1, 2), ctx.small('ds', 1, 2)]
    x = ctx.small('x', 1, 2)
    cats = ctx.choose('cats', [None, ['S']]) if n == 1 else None
    lines = [f's {i} x' for i in range(n)]
    seen = []
    byline = {s: None if k else sentence(i)
              for i, (s, k) in enumerate(zip(lines, lost))}

    class Parser:
        def __init__(self, **kw):
            seen.append(kw)

        def sentences2diagrams(self, sentences, tokenised=False, **kw):
            seen.append((list(sentences), tokenised))
            return [byline[s] for s in sentences]
    folder = tempfile.mkdtemp(prefix='u06_')
    try:
        f = os.path.join(folder, 'out.pkl')
        argv = ['-f', 'pickle', '-o', f]
        if rules:
            argv += ['-w', *rules]
        if cats:
            argv += ['-c', *cats]
        extra = {}
        if which:
            extra = {'iqp': {'n_layers': x}, 'tensor': {},
                     'spider': {'max_order': x + 1},
                     'mps': {'bond_dim': x, 'max_order': 3}}[which]
            argv += ['-a', which, '-n', f'dim_n={dims[0]}',
                     f'dim_s={dims[1]}',
                     *(f'{k}={v}' for k, v in extra.items())]
        text = '\n'.join(lines)
        if src == 'file':
            g = os.path.join(folder, 'in.txt')
            with open(g, 'w') as h:
                h.write(text + '\n')
            argv += ['-i', g]
        elif src == 'reader':
            argv = ['-r', 'cups', text] + argv
        else:
            argv = [text] + argv
        run(argv, Parser)
        with open(f, 'rb') as h:
            got = pickle.load(h)
    finally:
        shutil.rmtree(folder)
    if src == 'reader':
        want = lambeq.cups_reader.sentences2diagrams(lines)
        ctx.check(not seen, 'no parser used')
    else:
        want = [sentence(i) for i in range(n) if not lost[i]]
        ctx.check(seen == [dict(root_cats=cats), (lines, False)],
                  'sentences parsed')
    if rules:
        rw = lambeq.Rewriter(rules)
        want = [rw(d).normal_form() for d in want]
    if which:
        A = lambeq.AtomicType
        if which == 'iqp':
            ans = lambeq.IQPAnsatz(
                {A.NOUN: dims[0], A.SENTENCE: dims[1]}, n_layers=x,
                n_single_qubit_params=3)
        else:
            ob = {A.NOUN: Dim(dims[0] if dims[0] > 0 else 1),
                  A.SENTENCE: Dim(dims[1])}
            ans = {'tensor': lambda: lambeq.TensorAnsatz(ob),
                   'spider': lambda: lambeq.SpiderAnsatz(ob, max_order=x + 1),
                   'mps': lambda: lambeq.MPSAnsatz(ob, bond_dim=x,
                                                   max_order=3)}[which]()
        want = [ans(d) for d in want]
    ctx.check(got == want, 'results')


class Tok:
    def split_sentences(self, text):
        return [t + '.' for t in text.split('.')]

    def tokenise_sentences(self, sentences):
        return [s.split() for s in sentences]


@SUITE.case(quick=lambda: [dict(n=n, mode=m) for n in range(1, 4)
                           for m in ('string-diagram', 'pregroups', 'ccg')])
def modes(ctx, n, mode):
    """Every mode gives what it promises for every sentence that has a
    parse, in order; sentences are split and tokenised on demand."""
    lost = [ctx.choose(f'lost{i}', [False, True]) for i in range(n)]
    split, tok = [ctx.choose(x, [False, True]) for x in ('split', 'tok')]
    given = ctx.choose('parser', [None, 'bobcat'])
    seen = []

    class Parser:
        def __init__(self, **kw):
            self.kw = kw

        def result(self, sentences, tokenised, make):
            seen.append((self.kw, sentences, tokenised))
            return [None if lost[i] else make(i) for i in range(n)]

        def sentences2diagrams(self, sentences, tokenised=False):
            return self.result(sentences, tokenised, phrase)

        def sentences2trees(self, sentences, tokenised=False):
            return self.result(sentences, tokenised, Unary)
    text = ('.' if split else '\n').join(f'w{i} x' for i in range(n))
    want = [f'w{i} x.' if split else f'w{i} x' for i in range(n)]
    if tok:
        want = [s.split() for s in want]
    with patched(cli, AVAILABLE_PARSERS={'bobcat': Parser},
                 SpacyTokeniser=Tok):
        got = cli.ParserModule()(argparse.Namespace(
            mode=mode, reader=None, parser=given, root_categories=['S'],
            split_sentences=split, tokenise=tok), text)
    ctx.check(len(seen) == 1 and seen[0][1:] == (want, tok), 'sentences')
    if given is None:
        ctx.check(seen[0][0] == {'root_cats': ['S']}, 'root categories')
    kept = [i for i in range(n) if not lost[i]]
    if mode == 'ccg':
        ctx.check(got == [f't{i}' for i in kept], 'trees')
    elif mode == 'string-diagram':
        ctx.check(got == [phrase(i) for i in kept], 'diagrams')
    else:
        ctx.check(len(got) == len(kept), 'one for each')
        for g, i in zip(got, kept):
            ctx.check(g.is_pregroup, 'pregroup form')
            ctx.check(g == lambeq.RemoveSwapsRewriter()(
                phrase(i).pregroup_normal_form()), 'same meaning')
            ctx.check(not any(isinstance(b, Swap) for b in g.boxes),
                      'no swaps')


def phrase(i):
    if i == 1:
        return (Word('a1', N.r @ S) @ Word('z1', N)
                >> Diagram.swap(N.r @ S, N) >> Cup(N, N.r) @ Id(S))
    return (Word(f'z{i}', N) >> Id(N)
            @ Word(f'a{i}', N.r @ S) >> Cup(N, N.r) @ Id(S))


class Unary:
    def __init__(self, i):
        self.i = i

    def without_trivial_unary_rules(self):
        return f't{self.i}'


class Drawn:
    """A diagram that records how it is drawn."""
    is_pregroup = True

    def __init__(self, i, log, normal=True):
        self.i, self.log, self.normal = i, log, normal

    def normal_form(self):
        if not self.normal:
            raise NotImplementedError
        return Drawn(('nf', self.i), self.log)

    def draw(self, **kw):
        self.log.append((self.i, kw))

    def render_as_str(self, use_ascii):
        return f'<{self.i} {use_ascii}>'


@SUITE.case(quick=lambda: [dict(n=n, folder=f) for n in
                           (0, 1, 2, 3, 9, 10, 12)
                           for f in ((True, False) if n < 3 else (True,))])
def pictures(ctx, n, folder):
    """Every diagram gets its own picture, numbered in order."""
    size = ctx.choose('size', [{}, {'fig_width': 4, 'fig_height': 7},
                               {'fig_width': 4}])
    font = ctx.choose('font', [None, 8])
    fmt = ctx.choose('format', ['png', 'svg'])
    normal = ctx.choose('normal', [True, False])
    log = []
    tmp = tempfile.mkdtemp(prefix='u06_')
    try:
        d = os.path.join(tmp, 'x', 'y')
        opts = {**size, **({} if font is None else {'fontsize': font})}
        args = argparse.Namespace(
            output_format='image', image_format=fmt, output_options=opts,
            output_dir=d if folder else None,
            output_file=None if folder else os.path.join(tmp, 'p'))
        try:
            cli.DiagramSaveModule()(args, [Drawn(i, log, normal)
                                           for i in range(n)])
        except ValueError:
            ctx.check(n > 1 and not folder, 'several pictures in one file')
            ctx.check(not log, 'nothing drawn')
            return
        ctx.check(folder or n < 2, 'one picture per file')
        ctx.check([i for i, _ in log] == [('nf', i) if normal else i
                                          for i in range(n)], 'in order')
        names = [k['path'] for _, k in log]
        ctx.check(len(set(names)) == n and sorted(names) == names,
                  'names in order')
        for i, (_, k) in enumerate(log):
            want = {}
            if len(size) == 2 and n == 1:
                want['figsize'] = (4, 7)
            if font is not None:
                want['fontsize'] = font
            path = k.pop('path')
            ctx.check(k == want, 'options')
            ctx.check(path == (os.path.join(
                d, f'diagram_{str(i + 1).zfill(len(str(n)))}.{fmt}')
                if folder else os.path.join(tmp, f'p.{fmt}')), 'path')
        ctx.check(not folder or os.path.isdir(d), 'folder')
    finally:
        shutil.rmtree(tmp)


@SUITE.case(quick=lambda: [dict(n=n, tree=t) for n in range(4)
                           for t in (False, True)])
def texts(ctx, n, tree):
    """Text and pickle output contain every result in order."""
    fmt = ctx.choose('format', ['text-ascii', 'text-unicode', 'pickle'])
    to_file = fmt == 'pickle' or ctx.choose('file', [True, False])
    tmp = tempfile.mkdtemp(prefix='u06_')
    try:
        f = os.path.join(tmp, 'o')
        args = argparse.Namespace(output_format=fmt, output_dir=None,
                                  output_file=f if to_file else None)
        data = list(range(n)) if fmt == 'pickle' else [
            Tree(i) if tree else Drawn(i, []) for i in range(n)]
        out = io.StringIO()
        with patched(sys, stdout=out):
            (cli.CCGTreeSaveModule if tree
             else cli.DiagramSaveModule)()(args, data)
        if fmt == 'pickle':
            with open(f, 'rb') as h:
                ctx.check(pickle.load(h) == data, 'pickle')
            return
        got = open(f).read() if to_file else out.getvalue()
        want = '\n'.join(f'<{i} {fmt == "text-ascii"}>' for i in range(n))
        ctx.check(got == want + ('' if to_file else '\n'), 'text')
    finally:
        shutil.rmtree(tmp)


class Tree:
    def __init__(self, i):
        self.i = i

    def deriv(self, use_ascii=False):
        return f'<{self.i} {use_ascii}>'
