"""G01: algebra of grammar types."""
from vsym.case import Suite
from vsym.core import And, Iff, Implies, Not, Or
from vsym.lq import atoms, mk, sty, teq, wf_ty

from lambeq.backend.grammar import Ty

SUITE = Suite(
    'G01',
    bounds='types of up to 3 (quick) / 4 (thorough) atomic factors per '
    'operand, all atom names symbolic (any equality pattern), winding '
    'numbers symbolic in [-3,3], rotation amounts symbolic in [-4,4], '
    'indices symbolic over the whole legal range and one beyond',
    assumptions=['atom names are opaque strings: only their equality '
                 'pattern is explored'],
    outside='longer types, winding numbers beyond the stated range')

L2 = [dict(n=i, m=j) for i in range(4) for j in range(4)]
L2T = [dict(n=i, m=j) for i in range(5) for j in range(5)]
L3 = [dict(n=i, m=j, k=l) for i in range(3) for j in range(3)
      for l in range(3)]
L3T = [dict(n=i, m=j, k=l) for i in range(4) for j in range(4)
       for l in range(4)]
L1 = [dict(n=i) for i in range(4)]
L1T = [dict(n=i) for i in range(6)]


def T(ctx, p, n):
    return sty(ctx, p, n, -3, 3)


def cat(*tys):
    return mk([a for t in tys for a in atoms(t)])


def ref_rot(ty, z, odd):
    obs = atoms(ty)
    obs = obs[::-1] if odd else obs
    return mk([Ty(o.name, z=o.z + z) for o in obs])


@SUITE.case(quick=L3, thorough=L3T)
def monoid(ctx, n, m, k):
    a, b, c = T(ctx, 'a', n), T(ctx, 'b', m), T(ctx, 'c', k)
    ctx.check(teq((a @ b) @ c, a @ (b @ c)), 'associativity')
    ctx.check(teq(a @ b, cat(a, b)), 'tensor concatenates')
    ctx.check(teq(a.tensor(b, c), cat(a, b, c)), 'n-ary tensor')
    ctx.check(teq(a.tensor([b, c]), cat(a, b, c)), 'iterable tensor')
    ctx.check(And(teq(a @ Ty(), a), teq(Ty() @ a, a)), 'unit')
    ctx.check(And(wf_ty(a @ b), wf_ty(a @ b @ c)), 'representation')
    ctx.check(teq(a >> b, cat(ref_rot(a, 1, True), b)), 'a >> b = a.r @ b')
    ctx.check(teq(a << b, cat(a, ref_rot(b, -1, True))), 'a << b = a @ b.l')


@SUITE.case(quick=L2, thorough=L2T)
def adjoints(ctx, n, m):
    a, b = T(ctx, 'a', n), T(ctx, 'b', m)
    ctx.check(teq(a.l.r, a), 'a.l.r = a')
    ctx.check(teq(a.r.l, a), 'a.r.l = a')
    ctx.check(teq((a @ b).l, cat(b.l, a.l)), '(a@b).l = b.l @ a.l')
    ctx.check(teq((a @ b).r, cat(b.r, a.r)), '(a@b).r = b.r @ a.r')
    ctx.check(teq(a.l, ref_rot(a, -1, True)), 'left adjoint')
    ctx.check(teq(a.r, ref_rot(a, 1, True)), 'right adjoint')
    z, y = ctx.int('z', -4, 4), ctx.int('y', -4, 4)
    r = a.rotate(z)
    ctx.check(teq(r, ref_rot(a, z, bool(z % 2 == 1))), 'rotation')
    ctx.check(teq(r.rotate(-z), a), 'rotation inverse')
    ctx.check(teq(r.rotate(y), a.rotate(z + y)), 'rotation additive')
    ctx.check(wf_ty(r), 'representation')
    if n == 1:
        ctx.check(a.unwind().z == 0, 'unwind')
        ctx.check(teq(a.unwind().rotate(a.z), a), 'unwind inverse')


@SUITE.case(quick=L1, thorough=L1T)
def indexing(ctx, n):
    a = T(ctx, 'a', n)
    obs = atoms(a)
    ctx.check(len(a) == n, 'length')
    ctx.check(And(*[teq(x, y) for x, y in zip(list(a), obs)],
                  len(list(a)) == n), 'iteration')
    i = ctx.small('i', -n - 1, n)
    try:
        x = a[i]
        ctx.check(And(-n <= i < n, teq(x, obs[i]) if -n <= i < n else False),
                  'indexing')
    except IndexError:
        ctx.check(not -n <= i < n, 'index error only out of range')
    k = ctx.small('k', 0, n)
    ctx.check(teq(a[:k] @ a[k:], a), 'split')
    ctx.check(And(a.is_empty == (n == 0), a.is_atomic == (n == 1),
                  a.is_complex == (n > 1)), 'kind')


@SUITE.case(quick=L1, thorough=L1T)
def slicing(ctx, n):
    a = T(ctx, 'a', n)
    obs = atoms(a)
    lo = ctx.choose('lo', [None, *range(-n - 1, n + 2)])
    hi = ctx.choose('hi', [None, *range(-n - 1, n + 2)])
    s = slice(lo, hi, ctx.choose('step', [None, 1, 2, -1]))
    ctx.check(teq(a[s], mk(obs[s])), 'slicing')
    ctx.check(wf_ty(a[s]), 'representation of slice')


@SUITE.case(quick=[dict(n=i, m=j) for i in range(4) for j in range(3)],
            thorough=L2T)
def edit(ctx, n, m):
    a, b = T(ctx, 'a', n), T(ctx, 'b', m)
    i = ctx.small('i', -1, n + 1)
    x, y = atoms(a), atoms(b)
    if 0 <= i <= n:
        ctx.check(teq(a.insert(b, i), mk(x[:i] + y + x[i:])), 'insert')
        ctx.check(wf_ty(a.insert(b, i)), 'representation')
    elif i > n:
        try:
            a.insert(b, i)
            ctx.fail('insert out of range accepted')
        except IndexError:
            ctx.check(True, 'insert out of range')
    if 0 <= i < n:
        ctx.check(teq(a.replace(b, i), mk(x[:i] + y + x[i + 1:])), 'replace')
        ctx.check(wf_ty(a.replace(b, i)), 'representation')
    elif i > n or i < 0:
        try:
            a.replace(b, i)
            ctx.fail('replace out of range accepted')
        except IndexError:
            ctx.check(True, 'replace out of range')


@SUITE.case(quick=L1, thorough=L1T)
def power_count(ctx, n):
    a = T(ctx, 'a', n)
    t = ctx.small('t', 0, 3)
    ctx.check(teq(a ** t, mk(atoms(a) * t)), 'power')
    c = T(ctx, 'c', 1)
    cnt = a.count(c)
    ref = 0
    for o in atoms(a):
        ref += 1 if And(o.name == c.name, o.z == c.z) else 0
    ctx.check(cnt == ref, 'count')


@SUITE.case(quick=L2, thorough=L2T)
def equality(ctx, n, m):
    a, b = T(ctx, 'a', n), T(ctx, 'b', m)
    e = bool(a == b)
    ctx.check(Iff(e, teq(a, b)), 'equality is factor-wise')
    ctx.check((a != b) == (not e), 'inequality')
    ctx.check(Iff(bool(b == a), e), 'symmetric')
    ctx.check(bool(a == a) and bool(a == cat(a)), 'reflexive')
    ctx.check(Iff(bool(a.l == b.l), e), 'adjoint injective')
    # used as dictionary keys: equal types find each other, different do not
    d = {a: 1}
    ctx.check((b in d) == e, 'dict lookup')
    ctx.check(len({a, b}) == (1 if e else 2), 'set')


@SUITE.case(quick=[dict(n=i, m=j) for i in range(3) for j in range(3)],
            thorough=[dict(n=i, m=j) for i in range(4) for j in range(4)],
            max_values=80)
def hashing(ctx, n, m):
    """Equal types have equal hashes and equal strings (real strings: names
    and windings are split into concrete values by the solver)."""
    ctx.opaque_fmt = False
    a, b = sty(ctx, 'a', n, -1, 1), sty(ctx, 'b', m, -1, 1)
    if ctx.symbolic:
        from props.util import real_names
        a, b = real_names(ctx, a, b)
    if a == b:
        ctx.check(hash(a) == hash(b), 'hash')
        ctx.check(repr(a) == repr(b) and str(a) == str(b), 'repr')
    else:
        ctx.check(repr(a) != repr(b) and str(a) != str(b), 'repr injective')
