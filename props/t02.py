"""T02: dimensions behave like products of spaces."""
import itertools

from vsym.case import Suite
from vsym.core import And, Iff, Not, SymInt, Or

from lambeq.backend import tensor as t
from lambeq.backend.tensor import Box, Cap, Cup, Diagram, Dim, Id, Spider, \
    Swap

SUITE = Suite(
    'T02',
    bounds='dimensions with up to 3 (quick) / 4 (thorough) entries, every '
    'entry a symbolic integer from 0 to 4 (trivial entries included); '
    'compositions of diagrams with up to 2 wires on each boundary',
    assumptions=['dimensions are decimal names: each entry is enumerated by '
                 'the solver, since the code stores it as text'],
    outside='dimensions above 4, more factors')


def ints(ctx, p, n, lo=0, hi=4):
    ctx.opaque_fmt = False
    return [ctx.int(f'{p}{i}', lo, hi) for i in range(n)]


def norm(xs):
    return tuple(int(x) for x in xs if int(x) > 1)


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


@SUITE.case(quick=[dict(n=n) for n in range(4)],
            thorough=[dict(n=n) for n in range(5)])
def construct(ctx, n):
    xs = ints(ctx, 'x', n)
    d = Dim(*xs)
    want = norm(xs)
    ctx.check(d.dim == want, f'dim {d.dim} {want}')
    ctx.check(d.product == prod(want), 'product')
    ctx.check(len(d) == len(want), 'length')
    ctx.check([x.dim for x in d] == [(w,) for w in want], 'factors')
    ctx.check(d.is_empty == (not want) and d.is_atomic == (len(want) == 1)
              and d.is_complex == (len(want) > 1), 'kind')
    ctx.check(d == Dim(*want) and hash(d) == hash(Dim(*want)), 'trivial')
    ctx.check(d == Dim().tensor(*[Dim(x) for x in xs]) if xs else d == Dim(),
              'product of factors')
    for x in (d.l, d.r, d.rotate(3), d.rotate(-1)):
        ctx.check(x.dim == want[::-1], 'adjoint reverses')
        ctx.check(x == Dim(*want[::-1]), 'adjoint equality')
    for x in (d.l.r, d.r.l, d.l.l, d.rotate(2), d.rotate(0)):
        ctx.check(x == d and x.dim == want, 'double adjoint')


@SUITE.case(quick=[dict(n=n, m=m) for n in range(3) for m in range(3)],
            thorough=[dict(n=n, m=m) for n in range(4) for m in range(4)
                      if n + m <= 5])
def product(ctx, n, m):
    xs, ys = ints(ctx, 'x', n), ints(ctx, 'y', m)
    a, b = Dim(*xs), Dim(*ys)
    p, q = norm(xs), norm(ys)
    c = a @ b
    ctx.check(c.dim == p + q, 'tensor')
    ctx.check(c.product == a.product * b.product, 'product')
    ctx.check((a == b) == (p == q), 'equality')
    ctx.check(a != b or hash(a) == hash(b), 'hash')
    ctx.check((a @ b).l == b.l @ a.l and (a @ b).r == b.r @ a.r, 'adjoint')
    ctx.check(a @ Dim(1) == a and Dim(1) @ a == a, 'unit')
    ctx.check((a @ b) @ a == a @ (b @ a), 'associative')
    ctx.check((a << b).dim == p + q[::-1], 'over')
    ctx.check((a >> b).dim == p[::-1] + q, 'under')
    for i in range(len(p) + 1):
        ctx.check(c[:i].dim == p[:i] and c[i:].dim == (p + q)[i:], 'slice')
    ctx.check((a ** 2).dim == p + p and (a ** 0).dim == (), 'power')


@SUITE.case(quick=[dict(n=n, m=m) for n in range(3) for m in range(3)])
def typing(ctx, n, m):
    """Diagrams over dimensions are type checked by those rules."""
    xs, ys = ints(ctx, 'x', n, 1, 3), ints(ctx, 'y', m, 1, 3)
    a, b = Dim(*xs), Dim(*ys)
    p, q = norm(xs), norm(ys)
    f, g = Box('f', Dim(2), a), Box('g', b, Dim(2))
    try:
        d = f >> g
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == (p == q), 'composition')
    if ok:
        ctx.check(d.dom == Dim(2) and d.cod == Dim(2), 'boundary')
        ctx.check((d.dagger().dom, d.l.dom) == (Dim(2), Dim(2)), 'boundary')
    e = f @ g
    ctx.check(e.dom.dim == (2,) + q and e.cod.dim == p + (2,), 'tensor')
    for cls in (Cup, Cap):
        try:
            c = cls(a, b)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (p == q[::-1]), f'{cls.__name__} types')
        if ok:
            w = c.dom if cls is Cup else c.cod
            ctx.check(w.dim == p + q, 'cup wires')
    s = Swap(a, b)
    ctx.check(s.dom.dim == p + q and s.cod.dim == q + p, 'swap')
    for i, o in ((0, 1), (2, 1), (1, 3)):
        s = Spider(a, i, o)
        ctx.check(s.dom.dim == p * i and s.cod.dim == p * o, 'spider')
    i = Id(a)
    ctx.check(i.dom.dim == p and i.is_id, 'identity')
