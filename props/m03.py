"""M03: gradient-free optimisers."""
import math
from fractions import Fraction
import warnings

import numpy as np
import z3

from vsym.case import Suite
from vsym import poly
from vsym.core import And, Or, SymReal, nterm

from lambeq.backend.quantum import Diagram, Id, Ket, Rx, qubit
from lambeq.backend.symbol import Symbol
from lambeq.training import nelder_mead_optimizer as nm
from lambeq.training import rotosolve_optimizer as rs
from lambeq.training import spsa_optimizer as sp
from lambeq.training.nelder_mead_optimizer import NelderMeadOptimizer
from lambeq.training.rotosolve_optimizer import RotosolveOptimizer
from lambeq.training.spsa_optimizer import SPSAOptimizer

warnings.filterwarnings('ignore')

SUITE = Suite(
    'M03',
    bounds='1 or 2 (quick) / up to 3 (thorough) parameters, 1 to 3 steps, '
    'symbolic weights, loss values, gains a and c, every perturbation, '
    'bounds, batches with some of the symbols, one save and restore',
    assumptions=['the loss is a number; for Rotosolve a sinusoid of each '
                 'parameter with period 1', 'no two Nelder-Mead vertices tie '
                 'in loss'],
    stubs=['the loss is an unknown function of the weights',
           'numpy.random.choice: any signs', 'numpy.arctan2: the angle of '
           'the given vector'],
    outside='rounding; convergence; Nelder-Mead sets the weights of symbols '
    'that are not in the batch to zero, as its tests require')

SYMS = [Symbol(c) for c in 'abc']


def diagram(used):
    d = Ket(0).to_diagram() if hasattr(Ket(0), 'to_diagram') else Ket(0)
    for s in used:
        d = d >> Rx(s)
    return d


class Model:
    def __init__(self, weights, n):
        self.weights, self.symbols = weights, SYMS[:n]
        self.calls = []

    def __call__(self, diagrams):
        self.calls.append(diagrams)
        return np.array(self.weights, dtype=self.weights.dtype, copy=True)


def arr(ctx, xs):
    return np.array(xs, dtype=object if ctx.symbolic else float)


def const(ctx, x):
    """An exact number: float arithmetic on it does not round."""
    return SymReal(z3.RealVal(Fraction(x))) if ctx.symbolic else float(x)


def close(ctx, a, b):
    """Equal up to rounding."""
    if not ctx.symbolic:
        return abs(a - b) <= 1e-7 * (1 + abs(b))
    d = z3.simplify(nterm(a) - nterm(b), som=True)
    if z3.is_rational_value(d) or z3.is_int_value(d):
        return abs(Fraction(str(d.as_fraction() if z3.is_rational_value(d)
                                else d.as_long()))) < Fraction(1, 10**9)
    d = SymReal(d)
    return And(d < 1e-9, d > -1e-9)


def veq(ctx, a, b):
    return len(a) == len(b) and And(*[close(ctx, x, y)
                                      for x, y in zip(a, b)])


class Loss:
    """An unknown function of the weights."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, w, y=None):
        w = list(np.atleast_1d(w))
        r = self.ctx.real(f'L{len(self.calls)}', -4, 4)
        self.calls.append((w, r))
        if self.ctx.symbolic:
            f = z3.Function('loss', *[z3.RealSort()] * (len(w) + 1))
            self.ctx.add(f(*[z3.ToReal(t) if t.is_int() else t
                             for t in map(nterm, w)]) == r.t)
        return r

    def at(self, v):
        """The loss that was computed at this point."""
        for eq in (lambda ctx, a, b: And(*[x == y for x, y in zip(a, b)]),
                   veq):
            for w, r in reversed(self.calls):
                same = eq(self.ctx, w, v)
                if same is True or (same is not False
                                    and self.ctx.must(same)):
                    return r
        return self(v)


class Float(float):
    def __new__(cls, x):
        return x if type(x) is SymReal else float(x)


class patched:
    """Symbolic numbers pass through float(), inf tests and the random
    signs."""

    def __init__(self, ctx, mod):
        self.ctx, self.mod, self.n = ctx, mod, 0

    def choice(self, options, size=None):
        self.n += 1
        options = list(options)
        self.signs = [self.ctx.choose(f'delta{self.n}-{i}', options)
                      for i in range(size)]
        return np.array(self.signs)

    def __enter__(self):
        if self.ctx.symbolic:
            self.mod.float = Float
        self.old = np.random.choice, sp.SPSAOptimizer._warn_if_nan_or_inf
        np.random.choice = self.choice
        if self.ctx.symbolic:
            sp.SPSAOptimizer._warn_if_nan_or_inf = lambda self, x: None
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            del self.mod.float
        np.random.choice, sp.SPSAOptimizer._warn_if_nan_or_inf = self.old


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def box(ctx, b, n):
    """Lower and upper bound, and the argument for the optimiser."""
    if BOUNDS[b] is None:
        return None, None
    lo_hi = [const(ctx, x) for x in BOUNDS[b]]
    return lo_hi, arr(ctx, [lo_hi] * n)


BOUNDS = {'none': None, 'unit': (0, 1), 'narrow': (0.25, 0.5),
          'fixed': (0.5, 0.5)}


@SUITE.case(quick=lambda: [dict(n=n, b=b, steps=s, back=k)
                           for n in (1, 2) for b in BOUNDS
                           for s, k in ((1, 1), (2, 1), (1, 2))
                           if n == 1 or (s == k == 1 and b in ('none', 'unit'))],
            thorough=lambda: [dict(n=n, b=b, steps=s, back=k)
                              for n in (1, 2, 3) for b in BOUNDS
                              for s, k in ((1, 1), (2, 1), (1, 2), (3, 1))
                              if n == 1 or (n == 2 and s * k <= 2)
                              or (s == k == 1 and b in ('none', 'unit'))])
def spsa(ctx, n, b, steps, back):
    """Weights move along the estimated gradient, with decaying gains."""
    lo_hi, bounds = box(ctx, b, n)
    w = [ctx.real(f'w{i}', 0, 1) for i in range(n)]
    a, c, A = ctx.choose('hyper', [(0.5, 0.125, 2.5), (0.05, 0.75, 0),
                                   (1.5, 0.4, 10)][:3 if n == 1 else 1])
    restore = ctx.choose('restore', [True, False]) if steps > 1 else False
    used = [i for i in range(n) if ctx.choose(f'used{i}', [True, False])]
    batch = ([diagram([SYMS[i] for i in used])], None)
    eff = used or list(range(n))
    model = Model(arr(ctx, w), n)
    L = Loss(ctx)
    hyper = {'a': a, 'c': c, 'A': A}

    def make():
        o = SPSAOptimizer(model=model, loss_fn=L, hyperparams=dict(hyper),
                          bounds=bounds)
        if ctx.symbolic:
            o.gradient = np.array([0] * n, dtype=object)
        return o
    proj = (lambda x: x) if lo_hi is None else (lambda x: clip(x, *lo_hi))
    ref = list(w)
    with patched(ctx, sp) as p:
        opt = make()
        for k in range(1, steps + 1):
            ak = a / (k + A) ** 0.602
            ck = c / k ** 0.101
            grad = [0] * n
            for j in range(back):
                before = list(model.weights)
                got = opt.backward(batch)
                ctx.check(veq(ctx, list(model.weights), before),
                          'weights restored after backward')
                d = p.signs
                plus = [proj(x + ck * s) for x, s in zip(ref, d)]
                minus = [proj(x - ck * s) for x, s in zip(ref, d)]
                l0, l1 = L.at(plus), L.at(minus)
                ctx.check(close(ctx, got, (l0 + l1) / 2), 'loss')
                for i in eff:
                    if lo_hi is None:
                        g = (l0 - l1) / (2 * ck * d[i])
                    else:
                        diff = plus[i] - minus[i]
                        g = (l0 - l1) / diff if diff != 0 else 0
                    grad[i] = grad[i] + g
            opt.step()
            ref = [proj(x - ak * g) for x, g in zip(ref, grad)]
            ctx.check(veq(ctx, list(model.weights), ref), 'step')
            opt.zero_grad()
            if lo_hi is not None:
                ctx.check(And(*[And(x >= lo_hi[0], x <= lo_hi[1])
                                for x in model.weights]), 'within bounds')
            if restore:
                state = dict(opt.state_dict())
                opt = make()
                opt.load_state_dict(state)


def nm_ref(ctx, L, w, bounds, opts, steps):
    """Textbook Nelder-Mead with the documented stopping tolerances."""
    n = len(w)
    proj = (lambda v: v) if bounds is None else (
        lambda v: [clip(x, *bounds) for x in v])
    rho, chi, psi, sigma = 1, 2, 0.5, 0.5
    if opts.get('adaptive'):
        chi, psi, sigma = 1 + 2 / n, 0.75 - 1 / (2 * n), 1 - 1 / n
    if 'initial_simplex' in opts:
        sim = [proj(list(r)) for r in opts['initial_simplex']]
    else:
        w = proj(w)
        sim = [w]
        for k in range(n):
            v = list(w)
            v[k] = 1.05 * v[k] if v[k] != 0 else 0.00025
            sim.append(proj(v))
    pts = [(v, L.at(v)) for v in sim]

    def order(pts):
        out = []
        for p in pts:
            i = len(out)
            while i and p[1] < out[i - 1][1]:
                i -= 1
            out.insert(i, p)
        return out

    def at(t, base, far):
        """base + t (far - base)"""
        v = proj([x + t * (y - x) for x, y in zip(base, far)])
        return v, L.at(v)
    pts = order(pts)
    for _ in range(steps):
        best, worst = pts[0], pts[-1]
        small = And(*[abs(x - y) <= opts['xatol'] for v, _ in pts[1:]
                      for x, y in zip(v, best[0])],
                    *[abs(f - best[1]) <= opts['fatol']
                      for _, f in pts[1:]])
        if not small:
            mid = [sum((v[i] for v, _ in pts[:-1]), 0) / n for i in range(n)]
            xr = at(-rho, mid, worst[0])
            new = None
            if xr[1] < best[1]:
                xe = at(-rho * chi, mid, worst[0])
                new = xe if xe[1] < xr[1] else xr
            elif xr[1] < pts[-2][1]:
                new = xr
            elif xr[1] < worst[1]:
                xc = at(-psi * rho, mid, worst[0])
                if xc[1] <= xr[1]:
                    new = xc
            else:
                xc = at(psi, mid, worst[0])
                if xc[1] < worst[1]:
                    new = xc
            if new is not None:
                pts = pts[:-1] + [new]
            else:
                pts = [best] + [at(sigma, best[0], v) for v, _ in pts[1:]]
            pts = order(pts)
        yield pts


NM = [dict(n=1, steps=s, b=b, opt=o) for b, s in (('none', 2), ('narrow', 2))
      for o in ('default', 'adaptive', 'loose')] + [
    dict(n=2, steps=1, b='none', opt='simplex')]


@SUITE.case(quick=lambda: NM,
            thorough=lambda: [dict(n=1, steps=3, b=b, opt=o)
                              for b in ('none', 'narrow', 'unit')
                              for o in ('default', 'adaptive', 'loose')]
            + [dict(n=2, steps=s, b=b, opt=o) for b in ('none', 'unit')
               for o in ('default', 'adaptive', 'simplex', 'loose')
               for s in (1, 2) if s == 1 or (b, o) in (
                   ('none', 'default'), ('none', 'simplex'))]
            + [dict(n=3, steps=1, b='none', opt='simplex')])
def nelder_mead(ctx, n, steps, b, opt):
    """The simplex moves, and its best vertex becomes the weights."""
    bounds, given = box(ctx, b, n)
    opts = {'xatol': 1e-4, 'fatol': 1e-4}
    if opt == 'adaptive':
        opts['adaptive'] = True
    if opt == 'loose':
        opts['xatol'], opts['fatol'] = 0.125, 1.5
    if opt == 'simplex':
        opts['initial_simplex'] = [[0.5] * n] + [
            [1.0 if i == j else 0.25 for i in range(n)] for j in range(n)]
    w = [ctx.real(f'w{i}', 0, 1) for i in range(n)]
    restore = ctx.choose('restore', [True, False]) if steps > 1 else False
    used = list(range(n)) if steps > 1 or n > 1 else [
        i for i in range(n) if ctx.choose(f'used{i}', [True, False])]
    batch = ([diagram([SYMS[i] for i in used])], None)
    model = Model(arr(ctx, w), n)
    L = Loss(ctx)

    def make():
        hyper = dict(opts)
        o = NelderMeadOptimizer(model=model, loss_fn=L, hyperparams=hyper,
                                bounds=given)
        if ctx.symbolic:
            o.gradient = np.array([0] * n, dtype=object)
            o.fsim = np.array(list(o.fsim), dtype=object)
            o.sim = np.array([[const(ctx, x) if type(x) is float else x
                               for x in r] for r in o.sim.tolist()],
                             dtype=object)
        return o
    with patched(ctx, nm):
        o = make()
        if 'initial_simplex' in opts:
            opts['initial_simplex'] = [[const(ctx, x) for x in r]
                                       for r in opts['initial_simplex']]
        ref = nm_ref(ctx, L, list(w), bounds, opts, steps)
        last = None
        for k in range(steps):
            got = o.backward(batch)
            o.step()
            o.zero_grad()
            pts = next(ref)
            ctx.assume(And(*[abs(p[1] - q[1]) > 1e-6
                             for i, p in enumerate(pts)
                             for q in pts[:i]]))
            ctx.check(close(ctx, got, pts[0][1]), 'best loss')
            ctx.check(veq(ctx, list(model.weights), pts[0][0]),
                      'best vertex')
            if last is not None:
                ctx.check(got <= last, 'the best loss never gets worse')
            last = got
            if bounds is not None:
                ctx.check(And(*[And(x >= bounds[0], x <= bounds[1])
                                for x in model.weights]), 'within bounds')
            if restore:
                state = {q: (np.array(v, copy=True)
                             if isinstance(v, np.ndarray) else v)
                         for q, v in o.state_dict().items()}
                o = make()
                o.load_state_dict(state)


class Sinusoids:
    """c + sum over the parameters of r_i cos 2 pi (w_i - b_i), r_i > 0."""

    def __init__(self, ctx, w):
        self.ctx, self.w, self.n = ctx, list(w), len(w)
        self.r = [poly.centry(ctx, f'r{i}', real=True)
                  for i in range(self.n)]
        self.b = [poly.phase(ctx, f'b{i}') for i in range(self.n)]
        self.c = poly.centry(ctx, 'c', real=True)
        for r, b in zip(self.r, self.b):
            ctx.assume(r > 0)
            ctx.assume(And(b >= 0, b < 1))
        self.k = 0

    def wave(self, i, v):
        t = v - self.b[i]
        if not self.ctx.symbolic:
            return math.cos(2 * math.pi * t)
        return (t * 2 * math.pi).cos()

    def arctan2(self, y, x):
        if not self.ctx.symbolic:
            return math.atan2(y, x)
        self.k += 1
        for i, (w, b, r) in enumerate(zip(self.w, self.b, self.r)):
            for sign in (1, -1):
                for q in range(4):
                    t = (w - b) * sign + q / 4
                    c, s = (t * 2 * math.pi).cos_sin()
                    for m in (2, 1):
                        if not (y - r * m * s).d and not (x - r * m * c).d:
                            n = self.ctx.small(f'turns{self.k}', -5, 5)
                            t = t - n
                            self.ctx.assume(And(t > -0.5, t <= 0.5))
                            return t * 2 * math.pi
        t = poly.phase(self.ctx, f'angle{self.k}')
        self.ctx.assume(And(t > -0.5, t <= 0.5))
        return t * 2 * math.pi

    def __call__(self, w, y=None):
        total = self.c
        for i in range(self.n):
            total = total + self.r[i] * self.wave(i, w[i])
        return total


class angles:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old = np.arctan2
        np.arctan2 = self.f

    def __exit__(self, *a):
        np.arctan2 = self.old


@SUITE.case(quick=lambda: [dict(n=1), dict(n=2)],
            thorough=lambda: [dict(n=1), dict(n=2), dict(n=3)])
def rotosolve(ctx, n):
    """Every parameter is set to the minimiser of its sinusoid."""
    w = [poly.phase(ctx, f'w{i}') for i in range(n)]
    for x in w:
        ctx.assume(And(x > -1.5, x < 1.5))
    L = Sinusoids(ctx, w)
    model = Model(arr(ctx, w), n)
    opt = RotosolveOptimizer(model=model, loss_fn=L)
    with angles(L.arctan2):
        got = opt.backward(([], None))
        opt.step()
        slack = 0 if ctx.symbolic else 1e-9
        ctx.check(And(*[And(x >= -slack, x < 1 + slack)
                        for x in model.weights]),
                  'a phase of less than a turn')
        poly.arr_eq(ctx, got, L(model.weights), 'loss')
        for i in range(n):
            poly.arr_eq(ctx, L.r[i] * L.wave(i, model.weights[i]), -L.r[i],
                        'minimum')


@SUITE.case(quick=[dict()])
def hyperparams(ctx):
    """Missing or mismatched arguments are refused."""
    have = [k for k in ('a', 'c', 'A') if ctx.choose(k, [True, False])]
    nb = ctx.small('bounds', 0, 3)
    hp = {k: 0.5 for k in have} if ctx.choose('given', [True, False]) \
        else None
    model = Model(np.array([0.5, 0.5]), 2)
    kw = dict(bounds=[(0, 1)] * nb) if nb else {}
    good = hp is not None and len(have) == 3 and nb in (0, 2)
    try:
        SPSAOptimizer(model=model, loss_fn=None, hyperparams=hp, **kw)
        ctx.check(good, 'accepted')
    except ValueError:
        ctx.check(not good, 'refused')
    lo, hi = ctx.real('lo', -1, 1), ctx.real('hi', -1, 1)
    n = ctx.small('nm', 1, 3)
    try:
        NelderMeadOptimizer(model=model, loss_fn=None,
                            bounds=arr(ctx, [[lo, hi]] * n))
        ctx.check(And(n == 2, lo <= hi), 'accepted')
    except ValueError:
        ctx.check(Or(n != 2, lo > hi), 'refused')
