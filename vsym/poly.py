"""Exact symbolic numbers for tensor code.

`Poly`: polynomials over the Gaussian rationals in real variables, kept in
normal form modulo the relations s^2 = 1 - c^2 (cosine/sine pairs) and
w^2 = 2 (w = sqrt 2).  `Ang`: rational linear forms in symbolic phases; their
sines and cosines are Polys.  The code under test computes with these objects
inside ordinary (object) numpy arrays; equality of the results is decided by
Z3 over the reals with the same relations asserted (`arr_eq`).
"""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import EngineError, SymBool, _mk_bool

F0, F1 = Fraction(0), Fraction(1)
_ONE = ()


class Space:
    """Variables of one path."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.kind = []          # 'free' | 'c' | 's' | 'w'
        self.term = []
        self.label = []
        self.w = None
        self.phases = []        # (name, D, cvar, svar, pterm)
        self._cs = {}
        self._mt = {(): None}

    def mono_term(self, m):
        t = self._mt.get(m)
        if t is None and m:
            fs = [self.term[v] for v, k in m for _ in range(k)]
            t = self._mt[m] = z3.Product(*fs) if len(fs) > 1 else fs[0]
        return t

    def var(self, kind, term, label):
        self.kind.append(kind)
        self.term.append(term)
        self.label.append(label)
        return len(self.kind) - 1

    def sqrt2(self):
        if self.w is None:
            t = z3.Real('sqrt2')
            self.w = self.var('w', t, 'sqrt2')
            self.ctx.define(z3.And(t * t == 2, t > 0))
        return self.w

    def cos_sin(self, i, n):
        """cos and sin of n times base angle i."""
        if n < 0:
            c, s = self.cos_sin(i, -n)
            return c, -s
        key = (i, n)
        if key not in self._cs:
            if n == 0:
                r = Poly.const(self, 1), Poly.const(self, 0)
            else:
                _, _, cv, sv, _ = self.phases[i]
                c1, s1 = Poly.v(self, cv), Poly.v(self, sv)
                if n == 1:
                    r = c1, s1
                else:
                    c, s = self.cos_sin(i, n - 1)
                    r = c * c1 - s * s1, s * c1 + c * s1
            self._cs[key] = r
        return self._cs[key]


def space():
    ctx = core.cur()
    sp = getattr(ctx, '_space', None)
    if sp is None:
        sp = ctx._space = Space(ctx)
    return sp


def exact(x):
    """Gaussian-rational (re, im) + sqrt2 part of a python number: returns
    ((re, im), (re_w, im_w))."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return (Fraction(int(x)), F0), (F0, F0)
    if isinstance(x, Fraction):
        return (x, F0), (F0, F0)
    if isinstance(x, (float, np.floating)):
        a, b = _exact_real(float(x))
        return (a, F0), (b, F0)
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        a, b = _exact_real(x.real)
        c, d = _exact_real(x.imag)
        return (a, c), (b, d)
    return None


_ER = {}


def _exact_real(x):
    """a + b*sqrt2 for a float."""
    r = _ER.get(x)
    if r is None:
        if x != x or x in (math.inf, -math.inf):
            raise EngineError('non-finite float in exact arithmetic')
        if x == 0:
            r = F0, F0
        else:
            f = Fraction(x).limit_denominator(4096)
            tol = 1e-13 * max(1.0, abs(x))
            if abs(float(f) - x) <= tol:
                r = f, F0
            else:
                g = Fraction(x / math.sqrt(2)).limit_denominator(4096)
                if abs(float(g) * math.sqrt(2) - x) <= tol:
                    r = F0, g
                elif abs(x) < 1e-15:
                    r = F0, F0
                else:
                    r = Fraction(x), F0
        _ER[x] = r
    return r


class Poly:
    __slots__ = ('sp', 'd')
    __array_priority__ = 1000

    def __init__(self, sp, d):
        self.sp = sp
        self.d = d

    # ---- construction
    @staticmethod
    def const(sp, x):
        (a, b), (c, e) = exact(x)
        d = {}
        if a or b:
            d[_ONE] = (a, b)
        if c or e:
            d[((sp.sqrt2(), 1),)] = (c, e)
        return Poly(sp, d)

    @staticmethod
    def v(sp, i):
        return Poly(sp, {((i, 1),): (F1, F0)})

    def _co(self, o):
        if isinstance(o, Poly):
            return o
        if isinstance(o, np.ndarray):
            if o.shape == ():
                return self._co(o.item())
            return None
        if exact_ok(o):
            return Poly.const(self.sp, o)
        return None

    # ---- ring
    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, (a, b) in o.d.items():
            x = d.get(m)
            if x is None:
                d[m] = (a, b)
            else:
                a, b = a + x[0], b + x[1]
                if a or b:
                    d[m] = (a, b)
                else:
                    del d[m]
        return Poly(self.sp, d)

    __radd__ = __add__

    def __neg__(self):
        return Poly(self.sp, {m: (-a, -b) for m, (a, b) in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            a = np.empty((), dtype=object)
            a[()] = self
            return a * o
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not self.d or not o.d:
            return Poly(self.sp, {})
        if len(o.d) == 1 and _ONE in o.d:
            c, e = o.d[_ONE]
            if e == 0:
                if c == 1:
                    return self
                return Poly(self.sp, {m: (a * c, b * c)
                                      for m, (a, b) in self.d.items()})
        out = {}
        for m1, (a, b) in self.d.items():
            for m2, (c, e) in o.d.items():
                re, im = a * c - b * e, a * e + b * c
                for m, q in self._mono(m1, m2):
                    x = out.get(m)
                    r2, i2 = re * q, im * q
                    if x is not None:
                        r2, i2 = r2 + x[0], i2 + x[1]
                    if r2 or i2:
                        out[m] = (r2, i2)
                    else:
                        out.pop(m, None)
        return Poly(self.sp, out)

    __rmul__ = __mul__

    def _mono(self, m1, m2):
        """Product of two monomials as reduced list [(mono, coef)]."""
        if not m1:
            return [(m2, 1)]
        if not m2:
            return [(m1, 1)]
        e = dict(m1)
        red = False
        kind = self.sp.kind
        for v, k in m2:
            e[v] = e.get(v, 0) + k
            if kind[v] in 'sw' and e[v] > 1:
                red = True
        if not red:
            return [(tuple(sorted(e.items())), 1)]
        terms = [(e, 1)]
        for v in list(e):
            if kind[v] == 'w' and e[v] > 1:
                h, r = divmod(e[v], 2)
                for t, _ in terms:
                    t[v] = r
                terms = [(t, q * 2 ** h) for t, q in terms]
            elif kind[v] == 's' and e[v] > 1:
                new = []
                for t, q in terms:
                    h, r = divmod(t[v], 2)
                    # (1 - c^2)^h ; c is variable v-1
                    for j in range(h + 1):
                        t2 = dict(t)
                        t2[v] = r
                        t2[v - 1] = t2.get(v - 1, 0) + 2 * j
                        new.append((t2, q * math.comb(h, j) * (-1) ** j))
                terms = new
        return [(tuple(sorted((v, k) for v, k in t.items() if k)), q)
                for t, q in terms]

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, o):
        return self._co(o) * self.inverse()

    def inverse(self):
        if not self.d:
            raise ZeroDivisionError
        # a + b*sqrt2, Gaussian coefficients
        w = self.sp.w
        ok = {_ONE} | ({((w, 1),)} if w is not None else set())
        if not set(self.d) <= ok:
            raise EngineError('division by a non-constant symbolic number')
        conj = Poly(self.sp, {m: (x if m == _ONE else (-x[0], -x[1]))
                              for m, x in self.d.items()})
        n = (self * conj).d[_ONE]
        q = n[0] * n[0] + n[1] * n[1]
        return conj * Poly(self.sp, {_ONE: (n[0] / q, -n[1] / q)})

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and float(n) == 0.5:
            return self.sqrt()
        if int(n) == n and n >= 0:
            r = Poly.const(self.sp, 1)
            for _ in range(int(n)):
                r = r * self
            return r
        if int(n) == n:
            return self.inverse() ** (-n)
        raise EngineError(f'power {n} of a symbolic number')

    def sqrt(self):
        if set(self.d) <= {_ONE}:
            a, b = self.d.get(_ONE, (F0, F0))
            if b == 0 and a >= 0:
                for f, k in ((a, 0), (a / 2, 1)):
                    r = Fraction(math.isqrt(f.numerator),
                                 math.isqrt(f.denominator))
                    if r * r == f:
                        p = Poly.const(self.sp, r)
                        return p * Poly.v(self.sp, self.sp.sqrt2()) if k \
                            else p
        raise EngineError('sqrt of a symbolic number')

    def conjugate(self):
        return Poly(self.sp, {m: (a, -b) for m, (a, b) in self.d.items()})

    conj = conjugate

    @property
    def real(self):
        return Poly(self.sp, {m: (a, F0) for m, (a, b) in self.d.items()
                              if a})

    @property
    def imag(self):
        return Poly(self.sp, {m: (b, F0) for m, (a, b) in self.d.items()
                              if b})

    # ---- conversion
    def constant(self):
        if not self.d:
            return 0
        w = self.sp.w
        r = 0
        for m, (a, b) in self.d.items():
            if m == _ONE:
                f = 1
            elif w is not None and m == ((w, 1),):
                f = math.sqrt(2)
            else:
                return None
            r += (complex(a, b) if b else float(a)) * f
        return r

    def __float__(self):
        c = self.constant()
        if c is None:
            raise EngineError('float() of a symbolic number')
        return float(c)

    def __complex__(self):
        c = self.constant()
        if c is None:
            raise EngineError('complex() of a symbolic number')
        return complex(c)

    def item(self):
        return self

    def reshape(self, *shape):
        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def __bool__(self):
        return bool(core.Not(self == 0))

    def __hash__(self):
        raise EngineError('hash of symbolic number')

    def terms(self):
        """(re, im) as z3 terms."""
        re, im = [], []
        mono = self.sp.mono_term
        for m, (a, b) in self.d.items():
            t = mono(m)
            if a:
                re.append(_scaled(a, t))
            if b:
                im.append(_scaled(b, t))
        return _sum(re), _sum(im)

    def __eq__(self, o):
        o = self._co(o)
        if o is None:
            return False
        dd = (self - o).d
        if not dd:
            return True
        if set(dd) == {_ONE}:
            return False
        (a, b), (c, e) = self.terms(), o.terms()
        return _mk_bool(z3.And(a == c, b == e))

    def __ne__(self, o):
        return core.Not(self == o)

    def _cmp(self, o, f):
        o = self._co(o)
        if o is None:
            return NotImplemented
        d = self - o
        c = d.constant()
        if c is not None:
            return f(c, 0)
        return _mk_bool(f(d.terms()[0], z3.RealVal(0)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __abs__(self):
        c = self.constant()
        if c is not None:
            return Poly.const(self.sp, abs(c))
        return Abs(self)

    def __repr__(self):
        return '\u2039num\u203a'

    __str__ = __repr__

    def __format__(self, spec):
        return '\u2039num\u203a'

    def show(self):
        return ' + '.join(
            f'({a}{"+%si" % b if b else ""})' + '*'.join(
                self.sp.label[v] + (f'^{k}' if k > 1 else '') for v, k in m)
            for m, (a, b) in self.d.items()) or '0'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (core._unpickle, (core._register(self),))


numbers.Number.register(Poly)


class Abs:
    """The modulus of a symbolic number; only its square is available."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __pow__(self, n):
        if n == 2:
            return self.p * self.p.conjugate()
        raise EngineError(f'power {n} of a modulus')

    def __mul__(self, o):
        if type(o) is Abs:
            return self ** 2 if o is self or o.p is self.p \
                else NotImplemented
        raise EngineError('modulus of a symbolic number')

    def _no(self, *a):
        raise EngineError('modulus of a symbolic number')

    __rmul__ = __add__ = __radd__ = __bool__ = __float__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = _no


def exact_ok(o):
    return (isinstance(o, (int, float, complex, Fraction, np.number,
                           np.bool_))
            and type(o) not in (core.SymInt, core.SymReal, Ang))


_CTX = z3.main_ctx()
_REF = _CTX.ref()
_NUM = {}


def _num(q):
    r = _NUM.get(q)
    if r is None:
        r = _NUM[q] = z3.RealVal(q)
    return r


def _scaled(q, t):
    """q * t (t None for 1)."""
    if t is None:
        return _num(q)
    if q == 1:
        return t
    arr = (z3.Ast * 2)(_num(q).ast, t.ast)
    return z3.ArithRef(z3.Z3_mk_mul(_REF, 2, arr), _CTX)


def _sum(ts):
    if not ts:
        return _num(F0)
    if len(ts) == 1:
        return ts[0]
    arr = (z3.Ast * len(ts))(*[t.ast for t in ts])
    return z3.ArithRef(z3.Z3_mk_add(_REF, len(ts), arr), _CTX)


# --------------------------------------------------------------------------

class Ang:
    """sum_i a_i * phase_i + const, times pi**k (k in 0, 1)."""
    __slots__ = ('sp', 'a', 'c', 'k')
    __array_priority__ = 1001

    def __init__(self, sp, a, c=F0, k=0):
        self.sp, self.a, self.c, self.k = sp, a, c, k

    @property
    def __class__(self):
        return float

    def _is(o):
        return type(o) is Ang

    def _co(self, o):
        if type(o) is Ang:
            return o if o.k == self.k or not (o.a or o.c) else None
        if isinstance(o, np.ndarray) and o.shape == ():
            o = o.item()
        if isinstance(o, Fraction):
            return Ang(self.sp, {}, o, self.k) if self.k == 0 else None
        if isinstance(o, (int, np.integer, float, np.floating)):
            if self.k == 0:
                return Ang(self.sp, {}, Fraction(o).limit_denominator(4096),
                           0)
            f = Fraction(float(o) / math.pi).limit_denominator(4096)
            if abs(float(f) * math.pi - float(o)) < 1e-12:
                return Ang(self.sp, {}, f, 1)
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        a = dict(self.a)
        for i, q in o.a.items():
            a[i] = a.get(i, F0) + q
            if not a[i]:
                del a[i]
        return Ang(self.sp, a, self.c + o.c, self.k)

    __radd__ = __add__

    def __neg__(self):
        return Ang(self.sp, {i: -q for i, q in self.a.items()}, -self.c,
                   self.k)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def _scale(self, q, k=0):
        q = Fraction(q)
        if q == 0:
            return Ang(self.sp, {}, F0, 0)
        return Ang(self.sp, {i: x * q for i, x in self.a.items()},
                   self.c * q, self.k + k)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.shape == ():
            o = o.item()
        if isinstance(o, (complex, np.complexfloating)):
            o = complex(o)
            if o.real:
                raise EngineError('complex multiple of a phase')
            return ImAng(self * o.imag)
        if isinstance(o, (Fraction, int, np.integer)):
            return self._scale(o)
        if type(o) is not Ang and isinstance(o, (float, np.floating)):
            o = float(o)
            f = Fraction(o).limit_denominator(4096)
            if abs(float(f) - o) < 1e-13:
                return self._scale(f)
            f = Fraction(o / math.pi).limit_denominator(4096)
            if abs(float(f) * math.pi - o) < 1e-12:
                return self._scale(f, 1)
            f = Fraction(o * math.pi).limit_denominator(4096)
            if abs(float(f) / math.pi - o) < 1e-12 and self.k:
                return self._scale(f, -1)
            raise EngineError(f'phase times {o}')
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, np.integer, Fraction)):
            return self._scale(F1 / Fraction(o))
        if type(o) is not Ang and isinstance(o, (float, np.floating)):
            return self * (1.0 / float(o))
        return NotImplemented

    def __mod__(self, o):
        o = self._co(o)
        if o is None or o.a or o.c <= 0:
            raise EngineError('phase modulo')
        if not self.a:
            return Ang(self.sp, {}, self.c % o.c, self.k)
        n = core.wrap(z3.ToInt(self.term() / z3.RealVal(o.c))).__index__()
        return self - o._scale(n) if n else self

    def __abs__(self):
        return self if self >= 0 else -self

    def _units(self):
        """integers n_i per base angle and constant in units of pi."""
        if self.k != 1:
            if not self.a and not self.c:
                return {}, F0
            raise EngineError('trigonometric function of a phase which is '
                              'not a multiple of pi')
        out = {}
        for i, q in self.a.items():
            n = q * self.sp.phases[i][1]
            if n.denominator != 1:
                raise EngineError('phase fraction finer than declared')
            out[i] = int(n)
        return out, self.c

    def cos_sin(self):
        ns, c = self._units()
        r = _const_cs(self.sp, c)
        for i, n in ns.items():
            x = self.sp.cos_sin(i, n)
            r = (r[0] * x[0] - r[1] * x[1], r[1] * x[0] + r[0] * x[1])
        return r

    def cos(self):
        return self.cos_sin()[0]

    def sin(self):
        return self.cos_sin()[1]

    def exp(self):
        raise EngineError('real exponential of a phase')

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def term(self):
        t = z3.RealVal(self.c)
        for i, q in self.a.items():
            t = t + z3.RealVal(q) * self.sp.phases[i][4]
        return t

    def _rel(self, o, f):
        o = self._co(o)
        if o is None:
            return NotImplemented
        d = self - o
        if not d.a:
            return f(d.c, 0)
        return _mk_bool(f(d.term(), z3.RealVal(0)))

    def __eq__(self, o):
        r = self._rel(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return core.Not(self == o)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 11

    def __float__(self):
        if not self.a:
            return float(self.c) * math.pi ** self.k
        raise EngineError('float() of a symbolic phase')

    def item(self):
        return self

    def __repr__(self):
        return '\u2039phase\u203a'

    __str__ = __repr__

    def __format__(self, spec):
        return '\u2039phase\u203a'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (core._unpickle, (core._register(self),))


class ImAng:
    """1j * Ang."""
    __slots__ = ('g',)
    __array_priority__ = 1001

    def __init__(self, g):
        self.g = g

    def exp(self):
        c, s = self.g.cos_sin()
        return c + s * 1j

    def __rpow__(self, o):
        if abs(float(o) - math.e) < 1e-14:
            return self.exp()
        raise EngineError('power of a phase')

    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return NotImplemented
        return ImAng(self.g * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return ImAng(self.g / o)

    def __neg__(self):
        return ImAng(-self.g)


def _const_cs(sp, c):
    """cos, sin of c*pi for multiples of 1/4."""
    n = c * 4
    if n.denominator != 1:
        raise EngineError(f'constant angle {c}*pi')
    n = int(n) % 8
    h = Poly.v(sp, sp.sqrt2()) * Fraction(1, 2) if n % 2 else None
    k = {0: (1, 0), 2: (0, 1), 4: (-1, 0), 6: (0, -1)}
    if n in k:
        return tuple(Poly.const(sp, x) for x in k[n])
    sg = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[n]
    return h * sg[0], h * sg[1]


# --------------------------------------------------------------------------
# inputs

def centry(ctx, name, real=False):
    """A symbolic complex (or real) array entry."""
    if not ctx.symbolic:
        x = ctx.real(name)
        return x if real else complex(x, ctx.real(name + '.im'))
    sp = space()
    x = ctx._new(name, 'real', z3.RealSort())
    p = Poly.v(sp, sp.var('free', x, name))
    if not real:
        y = ctx._new(name + '.im', 'real', z3.RealSort())
        p = p + Poly.v(sp, sp.var('free', y, name + '.im')) * 1j
    return p


def carray(ctx, name, shape, real=False):
    n = int(np.prod(shape)) if shape else 1
    flat = [centry(ctx, f'{name}{i}', real) for i in range(n)]
    a = np.empty(n, dtype=object if ctx.symbolic
                 else (float if real else complex))
    for i, x in enumerate(flat):
        a[i] = x
    return a.reshape(shape)


def phase(ctx, name, D=1):
    """A symbolic phase p (in full turns); trigonometric functions of
    multiples of pi*p/D are available."""
    if not ctx.symbolic:
        c = float(ctx.real(name + '.c'))
        s = float(ctx.real(name + '.s'))
        p = float(ctx.real(name))
        if c == 0 and s == 0:
            c = 1.0
        base = D * math.atan2(s, c) / math.pi
        # the representative (mod 2D) closest to the model's value
        k = round((p - base) / (2 * D))
        if base + 2 * D * k == 0 and p != 0:
            k = 1
        return base + 2 * D * k
    sp = space()
    t = ctx._new(name, 'real', z3.RealSort())
    c = ctx._new(name + '.c', 'real', z3.RealSort())
    s = ctx._new(name + '.s', 'real', z3.RealSort())
    n = len(sp.phases)
    ctx.define(z3.And(c * c + s * s == 1, z3.Implies(t == 0, z3.And(c == 1,
                                                                s == 0)),
                   t > -2 * D, t < 2 * D),
        c == z3.RealVal(_PYTH[n % 5][0]), s == z3.RealVal(_PYTH[n % 5][1]))
    for _, D2, cv, sv, t2 in sp.phases:
        if D2 == D:
            ctx.define(z3.Implies(t == t2, z3.And(c == sp.term[cv],
                                               s == sp.term[sv])))
    cv = sp.var('c', c, name + '.c')
    sv = sp.var('s', s, name + '.s')
    sp.phases.append((name, D, cv, sv, t))
    return Ang(sp, {len(sp.phases) - 1: F1})


# --------------------------------------------------------------------------
# deciding equality of arrays

TOL = 1e-7


def arr_eq(ctx, a, b, msg, cplx=True):
    """Check that two arrays (or numbers) are equal, entry by entry."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        if a.size == b.size == 1:
            a, b = a.reshape(()), b.reshape(())
        else:
            ctx.check(False, f'{msg}: shapes {a.shape} and {b.shape}')
            return
    if not ctx.symbolic:
        a = a.astype(complex)
        b = b.astype(complex)
        ok = np.allclose(a, b, atol=TOL, rtol=1e-6)
        ctx.check(bool(ok), f'{msg}: values differ '
                  f'({np.abs(a - b).max() if a.size else 0:.3g})')
        return
    sp = space()
    diffs = []
    const_bad = False
    nrm = []
    for x, y in zip(a.ravel(), b.ravel()):
        x = x if isinstance(x, Poly) else Poly.const(sp, x)
        y = y if isinstance(y, Poly) else Poly.const(sp, y)
        (p, q) = x.terms()
        if x.d == y.d:
            r, t = p, q
        else:
            r, t = y.terms()
            nrm.append((x, y, x - y))
        for u, v in ((p, r), (q, t)):
            if not (z3.is_rational_value(u) and u.eq(v)):
                diffs.append(_ne(u, v))
    if not diffs:
        ctx.check(True, msg)
        return
    if nrm:
        # normal forms differ: look for a concrete point first (the solver
        # confirms it), otherwise leave it to the solver
        sub = _implied(ctx, sp)
        if sub and all(not _subst(sp, d, sub).d for _, _, d in nrm):
            # identical once the equations between phases that the path
            # condition implies (decided by the solver) are used
            ctx.check(True, msg)
            return
        pt = _point(sp, [d for _, _, d in nrm])
        if pt is not None:
            x, y, _ = nrm[pt[1]]
            m = f'{msg}: {x.show()[:200]} != {y.show()[:200]}'
            sub = z3.And(z3.Or(diffs), *pt[0])
            if ctx.pos >= len(ctx.prefix) and ctx.e.check_full(
                    ctx, sub):
                ctx.nchecks += 1
                ctx.e.stats.checks += 1
                raise core.Violation(m, ctx.e._extract(
                    ctx, ctx.e.model))
    ctx.check(_mk_keep(z3.Not(z3.Or(diffs))), msg)


def _implied(ctx, sp):
    """Phases determined by the path condition: {cos variable: (cos, sin)}
    with the cosine and sine of that phase as Polys."""
    if not sp.phases or not ctx.e.solver.assertions():
        return {}
    e = ctx.e
    out = {}
    if not e._check():
        return {}
    m = e.solver.model()
    val = [m.eval(p[4], model_completion=True) for p in sp.phases]

    def holds(i, t, w):
        return z3.is_true(z3.simplify(val[i] == w)) and not e._check(
            sp.phases[i][4] != t)
    zero = z3.RealVal(0)
    for i, (_, D, cv, sv, t) in enumerate(sp.phases):
        if holds(i, zero, zero):
            out[cv] = Poly.const(sp, 1), Poly.const(sp, 0)
            continue
        for j in range(i):
            _, D2, cv2, sv2, t2 = sp.phases[j]
            if D2 != D or cv2 in out:
                continue
            if holds(i, t2, val[j]):
                out[cv] = Poly.v(sp, cv2), Poly.v(sp, sv2)
                break
            if holds(i, -t2, -val[j]):
                out[cv] = Poly.v(sp, cv2), -Poly.v(sp, sv2)
                break
    return out


def _subst(sp, p, sub):
    r = Poly(sp, {})
    for m, q in p.d.items():
        t = Poly(sp, {_ONE: q})
        for v, k in m:
            x = sub[v][0] if v in sub else (
                sub[v - 1][1] if sp.kind[v] == 's' and v - 1 in sub
                else Poly.v(sp, v))
            for _ in range(k):
                t = t * x
        r = r + t
    return r


def _ne(u, v):
    arr = (z3.Ast * 2)(u.ast, v.ast)
    return z3.BoolRef(z3.Z3_mk_distinct(_REF, 2, arr), _CTX)


def _mk_keep(t):
    """Keep the assertion for the solver (no simplification here)."""
    return SymBool(t)


_PYTH = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(5, 13),
         Fraction(12, 13)), (Fraction(-8, 17), Fraction(15, 17)),
         (Fraction(20, 29), Fraction(-21, 29)), (Fraction(-7, 25),
         Fraction(-24, 25))]


def _point(sp, diffs):
    """An exact rational point at which some difference is not zero."""
    for sh in range(4):
        val = {}
        npair = nfree = 0
        for i, k in enumerate(sp.kind):
            if k == 'c':
                c, s = _PYTH[(npair + sh) % len(_PYTH)]
                val[i], val[i + 1] = c, s
                npair += 1
            elif k == 'free':
                val[i] = Fraction((nfree * 3 + sh * 2) % 11 - 4, 2)
                nfree += 1
        for n, d in enumerate(diffs):
            tot = {}
            for m, (a, b) in d.d.items():
                q, wexp = F1, 0
                for v, k in m:
                    if sp.kind[v] == 'w':
                        wexp = k
                    else:
                        q = q * val[v] ** k
                x = tot.get(wexp, (F0, F0))
                tot[wexp] = (x[0] + a * q, x[1] + b * q)
            if any(x[0] or x[1] for x in tot.values()):
                cons = [sp.term[i] == z3.RealVal(v) for i, v in val.items()]
                return cons, n
    return None


def matrix(a, nin):
    """2-d object/complex matrix of an array with `nin` input axes."""
    a = np.asarray(a)
    r = int(np.prod(a.shape[:nin])) if nin else 1
    return a.reshape(r, -1)
