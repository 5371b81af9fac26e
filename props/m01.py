"""M01: datasets."""
import itertools
import random

import numpy as np

from vsym.case import Suite
from vsym.core import And, Or

from lambeq.backend.grammar import Box, Diagram, Id, Ty
from lambeq.training import dataset as mod
from lambeq.training.dataset import Dataset, flatten

SUITE = Suite(
    'M01',
    bounds='up to 4 (quick) / 5 (thorough) examples, symbolic targets (numbers '
    'or pairs), every batch size from 0 to one more than the data, every '
    'shuffle, 2 epochs; up to 3 examples with every pattern of repetition; '
    ' nestings of diagrams up to depth 3',
    assumptions=['the dataset is not empty'],
    stubs=['random.shuffle: an arbitrary permutation',
           'numerical backend: arrays of symbolic numbers'],
    outside='more examples; conversion of targets by the array library')


class Backend:
    float32 = float

    @staticmethod
    def array(x, dtype=None):
        return np.array(x, dtype=object)


class Shuffle:
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def __call__(self, x):
        self.n += 1
        for i in reversed(range(1, len(x))):
            j = self.ctx.small(f'shuffle{self.n}-{i}', 0, i)
            x[i], x[j] = x[j], x[i]


class patched:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.old = random.shuffle, mod.get_backend
        random.shuffle = Shuffle(self.ctx)
        mod.get_backend = lambda: Backend

    def __exit__(self, *a):
        random.shuffle, mod.get_backend = self.old


def target(ctx, i, w):
    t = [ctx.real(f'y{i}{j}', -3, 3) for j in range(w)]
    return t if w > 1 else t[0]


def eq(a, b):
    if isinstance(a, (list, tuple, np.ndarray)):
        return len(a) == len(b) and And(*[eq(x, y) for x, y in zip(a, b)])
    return a == b


@SUITE.case(quick=lambda: [dict(n=n, w=w, kind=k) for n in (1, 2, 3, 4)
                           for w in (1, 2) for k in ('list', 'array')
                           if n < 4 or (w == 1 and k == 'list')],
            thorough=lambda: [dict(n=n, w=w, kind=k) for n in (1, 2, 3, 4, 5)
                              for w in (1, 2) for k in ('list', 'array')
                              if n < 5 or (w == 1 and k == 'list')])
def epochs(ctx, n, w, kind):
    """Each epoch has every example once, with its own target."""
    data = [f'd{i}' for i in range(n)]
    targets = [target(ctx, i, w) for i in range(n)]
    ts = targets if kind == 'list' else np.array(targets, dtype=object)
    bs = ctx.small('batch', 0, n + 1)
    shuffle = ctx.choose('shuffle', [True, False])
    with patched(ctx):
        ds = Dataset(data, ts, batch_size=bs, shuffle=shuffle)
        b = bs or n
        ctx.check(len(ds) == n and ds.batches_per_epoch == -(-n // b),
                  'number of batches')
        for epoch in range(2 if n < 4 else 1):
            got = list(ds)
            sizes = [len(x) for x, _ in got]
            want = [b] * (n // b) + ([n % b] if n % b else [])
            ctx.check(sizes == want, 'batch sizes')
            ctx.check(all(len(y) == s for (_, y), s in zip(got, sizes)),
                      'as many targets')
            xs = [d for x, _ in got for d in x]
            ys = [t for _, y in got for t in y]
            ctx.check(sorted(xs) == data, 'every example once')
            for x, y in zip(xs, ys):
                ctx.check(eq(y, targets[data.index(x)]), 'its own target')
            if not shuffle:
                ctx.check(xs == data, 'unshuffled order')
        ctx.check(data == [f'd{i}' for i in range(n)]
                  and ds.data is data, 'data untouched')
        ctx.check(eq(list(ts), targets), 'targets untouched')
        i = ctx.small('i', 0, n - 1)
        x, y = ds[i]
        ctx.check(x == data[i] and eq(list(np.atleast_1d(y)),
                                      list(np.atleast_1d(
                                          np.array(targets[i],
                                                   dtype=object)))),
                  'item')
        j = ctx.small('j', i, n)
        x, y = ds[i:j]
        ctx.check(x == data[i:j] and eq(list(y), targets[i:j]), 'slice')


@SUITE.case(quick=[dict(n=n, kind=k) for n in (2, 3)
                   for k in ('same', 'equal', 'list', 'diagram')])
def repeated(ctx, n, kind):
    """An example may occur several times, with different targets."""
    k = 0
    cls = []
    for i in range(n):
        cls.append(ctx.small(f'c{i}', 0, k))
        k = max(k, cls[-1] + 1)
    make = {'same': lambda c: objs[c], 'equal': lambda c: f'd{c}' + '',
            'list': lambda c: [c],
            'diagram': lambda c: Box(f'd{c}', Ty('n'), Ty('n'))}[kind]
    objs = [object() for _ in range(n)]
    data = [make(c) for c in cls]
    ys = [ctx.real(f'y{i}', -3, 3) for i in range(n)]
    with patched(ctx):
        ds = Dataset(data, ys, batch_size=ctx.small('b', 0, n),
                     shuffle=ctx.choose('shuffle', [True, False]))
        got = list(ds)
    xs = [d for x, _ in got for d in x]
    zs = [t for _, y in got for t in y]
    ctx.check(len(xs) == n and len(zs) == n, 'every example')
    ctx.check(Or(*[And(*[zs[i] == ys[p[i]] for i in range(n)])
                   for p in itertools.permutations(range(n))
                   if all(xs[i] == data[p[i]] for i in range(n))]),
              'its own target')


@SUITE.case(quick=lambda: [dict(n=n, m=m) for n in range(4)
                           for m in range(4) if n != m])
def mismatch(ctx, n, m):
    y = [ctx.real(f'y{i}', 0, 1) for i in range(m)]
    try:
        Dataset(list(range(n)), y, batch_size=ctx.small('b', 0, 3))
        ctx.fail('mismatched data and targets accepted')
    except ValueError:
        ctx.check(True)


@SUITE.case(quick=lambda: [dict(n=n) for n in (1, 2, 3)],
            thorough=lambda: [dict(n=n) for n in (1, 2, 3, 4)])
def interleaved(ctx, n):
    """Two iterations at once do not disturb each other."""
    data = [f'd{i}' for i in range(n)]
    ys = [ctx.real(f'y{i}', -3, 3) for i in range(n)]
    with patched(ctx):
        ds = Dataset(data, ys, batch_size=1,
                     shuffle=ctx.choose('shuffle', [True, False]))
        a, b = iter(ds), iter(ds)
        out = {0: [], 1: []}
        left = [n, n]
        for k in range(2 * n):
            w = ctx.choose(f'k{k}', [i for i in (0, 1) if left[i]])
            left[w] -= 1
            out[w].append(next((a, b)[w]))
        for o in out.values():
            ctx.check(sorted(x[0] for x, _ in o) == data, 'all examples')
            for x, y in o:
                ctx.check(y[0] == ys[data.index(x[0])], 'own target')


@SUITE.case(quick=[dict(depth=d) for d in (1, 2)],
            thorough=[dict(depth=d) for d in (1, 2, 3)])
def nested(ctx, depth):
    """flatten gives every diagram in order."""
    count = [0]

    def gen(p, d):
        k = ctx.choose(p, ['diagram', 'list', 'dict', 'tuple', 'gen']
                       if d else ['diagram', 'none'])
        if k == 'none':
            return [], []
        if k == 'diagram':
            count[0] += 1
            x = Box(f'b{count[0]}', Ty('n'), Ty('n'))
            x = x.to_diagram() >> Id(Ty('n'))
            return x, [x]
        kids = [gen(f'{p}{i}', d - 1) for i in range(2 if d > 1 else 1)]
        flat = sum((f for _, f in kids), [])
        ks = [c for c, _ in kids]
        if k == 'list':
            return ks, flat
        if k == 'tuple':
            return tuple(ks), flat
        if k == 'dict':
            return {i: c for i, c in enumerate(ks)}, flat
        return (c for c in ks), flat
    x, flat = gen('k', depth)
    got = list(flatten([x]))
    ctx.check(len(got) == len(flat)
              and all(a is b for a, b in zip(got, flat)), 'flattened')
