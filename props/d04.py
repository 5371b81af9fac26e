"""D04: decoding of the scores of the Oncilla model."""
import types

import numpy as np
import torch

from vsym.case import Suite
from vsym.core import And, Or

import lambeq.oncilla.parser as mod
from lambeq.oncilla.parser import BertForSentenceToTree

SUITE = Suite(
    'D04',
    bounds='sentences of 1 to 3 (quick) / 4 (thorough) words cut into 1 to 3 '
    'sub-tokens each, with an arbitrary real score for every pair of a '
    'token and a head (also beyond the sentence) and of a token and a type '
    '(2 types)',
    assumptions=['scores are finite real numbers',
                 'the tokenizer keeps at least one token of every word'],
    stubs=['the neural network: returns arbitrary scores',
           'the tokenizer: returns the word of each token',
           'torch tensors of scores: arrays of symbolic numbers'],
    outside='the neural network and its training; longer sentences')

TYPES = ['n', 's']


class Lazy:
    """Result of an argmax, decided when it is used."""

    def __init__(self, row):
        self.row, self.v = row, None

    def __index__(self):
        if self.v is None:
            b = 0
            for j in range(1, len(self.row)):
                if above(self.row[j], self.row[b]):
                    b = j
            self.v = b
        return self.v

    __int__ = __index__

    def __sub__(self, o):
        return int(self) - o

    def __add__(self, o):
        return int(self) + o

    def __eq__(self, o):
        return int(self) == o

    def __hash__(self):
        return hash(int(self))


def above(x, y):
    for v, r in ((x, True), (y, False)):
        if isinstance(v, float) and abs(v) == float('inf'):
            return x != y and (v > 0) == r
    return bool(x > y)


class ST:
    """A tensor of symbolic numbers."""
    dtype = torch.float64
    device = torch.device('cpu')
    __class__ = property(lambda self: torch.Tensor)

    def __init__(self, a):
        self.a = a

    shape = property(lambda self: torch.Size(self.a.shape))

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def clone(self):
        return ST(self.a.copy())

    def detach(self):
        return self

    def to(self, *a, **k):
        return self

    def __getitem__(self, i):
        r = self.a[i]
        return ST(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        self.a[i] = float(v) if isinstance(v, torch.Tensor) and \
            type(v) is not ST else v

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def other(self, o):
        if type(o) is ST:
            return o.a
        if type(o) is torch.Tensor:
            return np.array(o.tolist(), dtype=object)
        return o

    def __sub__(self, o):
        return ST(self.a - self.other(o))

    def __add__(self, o):
        return ST(self.a + self.other(o))

    def tolist(self):
        return self.a.tolist()

    def item(self):
        return int(self.a.item()) if type(self.a.item()) is Lazy \
            else self.a.item()

    def max(self):
        v = list(self.a.ravel())
        return v[int(Lazy(v))]

    def argmax(self, dim=None):
        if dim is None:
            r = np.empty((), dtype=object)
            r[()] = Lazy(list(self.a.ravel()))
            return ST(r)
        a = np.moveaxis(self.a, dim, -1)
        r = np.empty(a.shape[:-1], dtype=object)
        for ix in np.ndindex(*r.shape):
            r[ix] = Lazy(list(a[ix]))
        return ST(r)


class Torch:
    """torch with functions for symbolic tensors."""

    def __getattr__(self, n):
        return getattr(torch, n)

    def argmax(self, x, dim=None, **k):
        return x.argmax(dim) if type(x) is ST else torch.argmax(x, dim, **k)


class TypeNames(dict):
    def __getitem__(self, t):
        return TYPES[int(t)]


class Model(BertForSentenceToTree):
    """The real decoder around arbitrary scores."""

    def __init__(self, types_, heads):
        torch.nn.Module.__init__(self)
        self.scores = (types_, heads)
        self.config = types.SimpleNamespace(
            id2type=TypeNames(enumerate(TYPES)))

    def forward(self, n_tokens=None, word_ids=None, **kw):
        t, h = self.scores
        return Output(t, self.restrict_parent_options(
            h, None, n_tokens, word_ids))


class Output(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)

    type_logits = property(lambda self: self[0])
    parent_logits = property(lambda self: self[1])


class Encoding(dict):
    def word_ids(self):
        return list(self.ids)


def tokenizer(ids):
    def call(sentence, **kw):
        e = Encoding(token_type_ids=torch.zeros(1, len(ids)),
                     input_ids=torch.zeros(1, len(ids), dtype=torch.int64),
                     attention_mask=torch.ones(1, len(ids)))
        e.ids = ids
        return e
    return call


def tensor(ctx, a):
    if ctx.symbolic:
        return ST(a)
    return torch.tensor(np.array(a.tolist(), dtype=float))


@SUITE.case(quick=lambda: [dict(cuts=c) for c in
                           ((1,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1),
                            (1, 2, 1))],
            thorough=lambda: [dict(cuts=c) for c in
                              ((2, 2), (2, 3, 1), (1, 1, 2), (1, 1, 1, 1))])
def decode(ctx, cuts):
    """Each word gets its best admissible type and head; one word is the
    root."""
    n = len(cuts)
    ids = [None, 0] + [w + 1 for w, c in enumerate(cuts)
                       for _ in range(c)] + [None]
    cols = n + 2 if n < 3 else n + 1
    pos = [ids.index(w + 1) for w in range(n)]
    T = np.empty((1, len(ids), 2), dtype=object)
    H = np.empty((1, len(ids), cols), dtype=object)
    for i in range(len(ids)):
        for j in range(2):
            T[0, i, j] = ctx.real(f't{i}_{j}', -9, 9) if i == pos[0] \
                else float(-j)
        for j in range(cols):
            H[0, i, j] = ctx.real(f'h{i}_{j}', -9, 9)
    words = [f'w{i}' for i in range(n)]
    model = Model(tensor(ctx, T), tensor(ctx, H))
    old = mod.torch
    if ctx.symbolic:
        mod.torch = Torch()
    try:
        out = model._sentence2pred(list(words), tokenizer(ids))
    finally:
        mod.torch = old
    ctx.check(list(out.words) == words, 'words')
    ctx.check(len(out.types) == n and len(out.parents) == n,
              'one entry per word')
    t = TYPES.index(out.types[0][0])
    ctx.check(T[0, pos[0], t] >= T[0, pos[0], 1 - t], 'best type')
    ctx.check(all(x == ['n'] for x in out.types[1:]), 'best types')
    ctx.check(all(len(p) == 1 for p in out.parents), 'one head per word')
    ps = [int(p[0]) for p in out.parents]
    ctx.check(all(-1 <= p < n and p != w for w, p in enumerate(ps)),
              'heads within the sentence')
    ctx.check(ps.count(-1) == 1, 'one root')

    def score(w, p):
        return H[0, pos[w], p + 1]

    def best(w, p, among):
        return And(*[score(w, p) >= score(w, q) for q in among if q != w])
    free = And(*[best(w, p, range(-1, n)) for w, p in enumerate(ps)])
    r = ps.index(-1)
    forced = And(*[best(w, p, range(n)) for w, p in enumerate(ps)
                   if w != r],
                 *[score(r, -1) >= score(w, -1) for w in range(n)])
    ctx.check(Or(free, forced), 'best heads, or the best root and the best '
              'other heads')
    # the root is only forced when the best heads have none or several
    roots = [And(*[score(w, -1) > score(w, q) for q in range(n) if q != w])
             for w in range(n)]
    nots = [Or(*[score(w, -1) < score(w, q) for q in range(n) if q != w])
            for w in range(n)]
    for w in range(n):
        single = And(roots[w], *[nots[v] for v in range(n) if v != w])
        ctx.check(Or(free, And(True, neg(single))), 'kept when sound')


def neg(x):
    from vsym.core import Not
    return Not(x)
