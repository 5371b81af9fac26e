"""M04: loss functions."""
import numpy as np
import z3

from vsym.case import Suite
from vsym.core import And, Implies, SymReal, cur, nterm, wrap

from lambeq.training import loss as mod
from lambeq.training.loss import (BinaryCrossEntropyLoss, CrossEntropyLoss,
                                  MSELoss)

SUITE = Suite(
    'M04',
    bounds='batches of 1 to 3 (quick) / 4 (thorough) with 1 to 3 classes, symbolic '
    'probabilities in [0, 1] (not necessarily normalised), targets and '
    'smoothing constant',
    assumptions=['log is an uninterpreted function with log(1) = 0 and the '
                 'sign it has below and above 1'],
    stubs=['numpy.log on symbolic numbers'],
    outside='rounding; the jax variant runs the same formulas on another '
    'array library')

LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
NOTE = {}


def log(x):
    """The logarithm of a symbolic number, which must be positive."""
    if not isinstance(x, SymReal) and type(x) is not SymReal:
        import math
        return math.log(x) if x > 0 else float('-inf')
    ctx = cur()
    ctx.check(x > 0, 'logarithm of a positive number')
    t = nterm(x)
    y = LOG(t)
    ctx.add(z3.And(z3.Implies(t <= 1, y <= 0), z3.Implies(t >= 1, y >= 0),
                   z3.Implies(t == 1, y == 0)))
    return wrap(y)


SymReal.log = log


def arr(x):
    return np.array(x, dtype=object)


class symbolic_float:
    """`float(x)` keeps symbolic numbers."""

    def __enter__(self):
        mod.float = lambda x: x if type(x) is SymReal else float(x)

    def __exit__(self, *a):
        del mod.float


def close(ctx, a, b):
    if ctx.symbolic:
        return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(b))


def num(ctx, xs):
    return arr(xs) if ctx.symbolic else np.array(xs, dtype=float)


def ce_ref(ctx, p, y, eps):
    n = len(p)
    total = 0
    for r, t in zip(p, y):
        norm = sum((v + eps for v in r), 0)
        for v, k in zip(r, t):
            total = total + k * log((v + eps) / norm)
    return -total / n


SIZES = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3)]


@SUITE.case(quick=lambda: [dict(n=n, c=c, cls=k) for n, c in SIZES
                           for k in ('ce', 'bce') if k == 'ce' or c == 2],
            thorough=lambda: [dict(n=n, c=c, cls=k) for n in (1, 2, 3, 4)
                              for c in (1, 2, 3) for k in ('ce', 'bce')
                              if k == 'ce' or c == 2])
def cross_entropy(ctx, n, c, cls):
    p = [[ctx.real(f'p{i}{j}', 0, 1) for j in range(c)] for i in range(n)]
    y = [[ctx.real(f'y{i}{j}', 0, 1) for j in range(c)] for i in range(n)]
    eps = ctx.choose('eps', [1e-9, 0.25])
    L = CrossEntropyLoss(epsilon=eps) if cls == 'ce' \
        else BinaryCrossEntropyLoss(epsilon=eps)
    got = L(num(ctx, p), num(ctx, y))
    ctx.check(close(ctx, got, ce_ref(ctx, p, y, eps)), 'cross-entropy')
    ctx.check(got >= 0 if ctx.symbolic else got >= -1e-9, 'not negative')


@SUITE.case(quick=lambda: [dict(n=n) for n in (1, 2, 3)],
            thorough=lambda: [dict(n=n) for n in (1, 2, 3, 4)])
def sparse(ctx, n):
    p = [ctx.real(f'p{i}', 0, 1) for i in range(n)]
    y = [ctx.real(f'y{i}', 0, 1) for i in range(n)]
    eps = ctx.choose('eps', [1e-9, 0.25])
    got = BinaryCrossEntropyLoss(sparse=True, epsilon=eps)(
        num(ctx, p), num(ctx, y))
    want = ce_ref(ctx, [[1 - v, v] for v in p], [[1 - v, v] for v in y], eps)
    ctx.check(close(ctx, got, want), 'binary cross-entropy')


@SUITE.case(quick=lambda: [dict(shape=s) for s in
                           ((1,), (3,), (1, 2), (2, 2), (2, 3), (2, 1, 2))])
def mse(ctx, shape):
    k = int(np.prod(shape))
    p = [ctx.real(f'p{i}', -5, 5) for i in range(k)]
    y = [ctx.real(f'y{i}', -5, 5) for i in range(k)]
    with symbolic_float():
        got = MSELoss()(num(ctx, p).reshape(shape), num(ctx, y).reshape(shape))
    want = sum(((a - b) * (a - b) for a, b in zip(p, y)), 0) / k
    ctx.check(close(ctx, got, want), 'mean of the squared errors')


@SUITE.case(quick=lambda: [dict(cls=k) for k in ('ce', 'bce', 'sparse',
                                                 'mse')])
def shapes(ctx, cls):
    """Different shapes are refused."""
    dims = [(1, 2), (2, 2), (2, 1), (3, 2), (1, 1)] if cls in (
        'ce', 'bce') else [(1,), (2,), (3,)] if cls == 'sparse' else [
        (1,), (2,), (1, 2), (2, 1), (2, 2), (1, 1)]
    a, b = ctx.choose('a', dims), ctx.choose('b', dims)
    if a == b:
        ctx.check(True)
        return
    x = num(ctx, [ctx.real(f'x{i}', 0, 1)
                  for i in range(int(np.prod(a)))]).reshape(a)
    y = num(ctx, [ctx.real(f'y{i}', 0, 1)
                  for i in range(int(np.prod(b)))]).reshape(b)
    L = {'ce': CrossEntropyLoss, 'bce': BinaryCrossEntropyLoss,
         'sparse': lambda: BinaryCrossEntropyLoss(sparse=True),
         'mse': MSELoss}[cls]()
    try:
        with symbolic_float():
            L(x, y)
        ctx.fail('arrays of different shapes accepted')
    except ValueError:
        ctx.check(True)
