"""Symbolic execution of the real Python code by concolic re-execution.

A *harness* is a Python function ``h(ctx)`` that builds inputs from ``ctx``
(symbolic ints, reals, booleans, names), calls the real lambeq functions on
them and states the property with ``ctx.check``.  The engine runs the harness
once per feasible path: every time the code under test branches on a symbolic
condition, both sides are checked for feasibility with Z3 and the infeasible
one is dropped, the other one is queued.  At each ``ctx.check`` Z3 decides
whether `path condition and not property` is satisfiable; a satisfying
assignment is turned back into ordinary Python values and the same harness is
replayed, with those values, on the real code (``ConcreteCtx``).

Nothing in here knows about lambeq.
"""
from __future__ import annotations

import json
import operator
import os
import time
from fractions import Fraction

import z3

z3.set_param('model.completion', True)

# --------------------------------------------------------------------------
# control flow exceptions: BaseException, so code under test cannot swallow


class PathAbort(BaseException):
    """The current path is infeasible / uninteresting (assume failed)."""


class EngineError(BaseException):
    """Inconclusive: solver unknown, bound exceeded, nondeterminism..."""


class Violation(BaseException):
    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model


_CUR = None     # the active context


def _load_known():
    p = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or not line.startswith('{'):
                continue
            d = json.loads(line)
            if d.get('status') == 'known':
                out[d['id']] = d['what']
    return out


KNOWN = _load_known()


SLOW = float(os.environ.get('VSYM_SLOW', 0))


def cur():
    return _CUR


# --------------------------------------------------------------------------
# symbolic values

def _mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _CUR.branch(self.t)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return _mk_bool(self.t == bterm(o))
        if isinstance(o, int):
            return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f'<SymBool {self.t}>'

    def __reduce__(self):
        return (_unpickle, (_register(self),))


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def And(*xs):
    xs = _flat(xs)
    if any(x is False for x in xs):
        return False
    return _mk_bool(z3.And([bterm(x) for x in xs])) if xs else True


def Or(*xs):
    xs = _flat(xs)
    if any(x is True for x in xs):
        return True
    return _mk_bool(z3.Or([bterm(x) for x in xs])) if xs else False


def Not(x):
    if isinstance(x, SymBool):
        return _mk_bool(z3.Not(x.t))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    return _mk_bool(bterm(a) == bterm(b))


def If(c, a, b):
    """Symbolic if-then-else over numbers."""
    if not isinstance(c, SymBool):
        return a if c else b
    ta, tb = nterm(a), nterm(b)
    if ta.is_real() != tb.is_real():
        ta = z3.ToReal(ta) if ta.is_int() else ta
        tb = z3.ToReal(tb) if tb.is_int() else tb
    t = z3.simplify(z3.If(c.t, ta, tb))
    return wrap(t)


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
            out.extend(_flat(x))
        else:
            out.append(x)
    return out


def wrap(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return SymReal(t)
    if z3.is_bool(t):
        return _mk_bool(t)
    return SymInt(t) if t.is_int() else SymReal(t)


def nterm(x):
    """z3 numeric term of a (symbolic or concrete) number."""
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if type(x) is bool:
        return z3.IntVal(int(x))
    if type(x) is int:
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    import numpy as np
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item()
        return nterm(x)
    if isinstance(x, np.integer):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise _NonFinite(x)
        return z3.RealVal(Fraction(x))
    return None


class _NonFinite(Exception):
    def __init__(self, x):
        self.x = x


def _elementwise(g, arr):
    import numpy as np
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(*arr.shape):
        out[i] = g(arr[i])
    return out if arr.shape else out[()]


def _binop(name, rev=False):
    op = getattr(operator, name)

    def f(self, o):
        if type(o).__name__ == 'ndarray':
            return _elementwise((lambda x: op(x, self)) if rev
                                else (lambda x: op(self, x)), o)
        try:
            t = nterm(o)
        except _NonFinite as e:
            return _nonfinite_arith(name, e.x, rev)
        if t is None:
            return NotImplemented
        a, b = (t, self.t) if rev else (self.t, t)
        if a.is_int() != b.is_int():
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        if name == 'add':
            r = a + b
        elif name == 'sub':
            r = a - b
        elif name == 'mul':
            r = a * b
        elif name == 'truediv':
            if _CUR.branch(b == 0):
                raise ZeroDivisionError('division by zero')
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
            r = a / b
        elif name in ('floordiv', 'mod'):
            if _CUR.branch(b == 0):
                raise ZeroDivisionError('division by zero')
            if a.is_real():
                q = z3.ToReal(z3.ToInt(a / b))
                r = q if name == 'floordiv' else a - q * b
            elif z3.is_int_value(b) and b.as_long() > 0:
                r = a / b if name == 'floordiv' else a % b
            else:
                if _CUR.branch(b > 0):
                    r = a / b if name == 'floordiv' else a % b
                else:
                    q = (-a) / (-b)
                    r = q if name == 'floordiv' else a - q * b
        else:
            raise NotImplementedError(name)
        return wrap(z3.simplify(r))
    return f


def _nonfinite_arith(name, x, rev):
    # symbolic numbers are finite: only sums with an infinity are definite
    if name in ('add', 'sub') and x in (float('inf'), -float('inf')):
        return -x if name == 'sub' and not rev else x
    raise EngineError('arithmetic with non-finite float')


def _cmp(op):
    def f(self, o):
        try:
            t = nterm(o)
        except _NonFinite as e:
            x = e.x
            if x != x:
                return op == 'ne'
            return {'lt': x > 0, 'le': x > 0, 'gt': x < 0, 'ge': x < 0,
                    'eq': False, 'ne': True}[op]
        if t is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        a, b = self.t, t
        if a.is_int() != b.is_int():
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return _mk_bool({'lt': lambda: a < b, 'le': lambda: a <= b,
                         'gt': lambda: a > b, 'ge': lambda: a >= b,
                         'eq': lambda: a == b, 'ne': lambda: a != b}[op]())
    return f


class SymNum:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__ = _binop('add')
    __radd__ = _binop('add', True)
    __sub__ = _binop('sub')
    __rsub__ = _binop('sub', True)
    __truediv__ = _binop('truediv')
    __rtruediv__ = _binop('truediv', True)
    __floordiv__ = _binop('floordiv')
    __rfloordiv__ = _binop('floordiv', True)
    __mod__ = _binop('mod')
    __rmod__ = _binop('mod', True)
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    _mul = _binop('mul')

    def __mul__(self, o):
        if isinstance(o, str) and isinstance(self, SymInt):
            return _CUR.str_repeat(o, self)
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        return self._mul(o)

    __rmul__ = __mul__

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return wrap(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return If(self >= 0, self, -self)

    def __bool__(self):
        return bool(self != 0)

    def __pow__(self, n):
        if isinstance(n, SymNum):
            n = n.__index__()
        if n == int(n) and 0 <= int(n) <= 8:
            r = 1
            for _ in range(int(n)):
                r = r * self
            return r
        raise EngineError(f'unsupported power {n}')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __reduce__(self):
        return (_unpickle, (_register(self),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<{type(self).__name__} {self.t}>'

    def __format__(self, spec):
        return _CUR.fmt(self, spec)

    def __str__(self):
        return _CUR.fmt(self, '')


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return _CUR.concretise(self.t)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __and__(self, o):
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o

    def bit_length(self):
        return self.__index__().bit_length()

    def __lshift__(self, o):
        return self.__index__() << o

    def __rshift__(self, o):
        return self.__index__() >> o


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __hash__(self):
        raise EngineError('hash of symbolic real')

    def __float__(self):
        raise EngineError('float() of symbolic real')

    def __int__(self):
        return wrap(z3.simplify(z3.If(self.t >= 0, z3.ToInt(self.t),
                                      -z3.ToInt(-self.t)))).__index__()

    def item(self):
        return self

    def is_integer(self):
        return _mk_bool(z3.IsInt(self.t))

    def __floor__(self):
        return wrap(z3.simplify(z3.ToInt(self.t)))

    def __ceil__(self):
        return wrap(z3.simplify(-z3.ToInt(-self.t)))

    def __trunc__(self):
        return If(self >= 0, self.__floor__(), self.__ceil__())

    def __round__(self, n=None):
        # round half to even
        if n not in (None, 0):
            raise EngineError('round(x, n) of symbolic real')
        f = z3.ToInt(self.t)
        d = self.t - z3.ToReal(f)
        r = z3.If(d < z3.RealVal('1/2'), f,
                  z3.If(d > z3.RealVal('1/2'), f + 1,
                        z3.If(f % 2 == 0, f, f + 1)))
        return wrap(z3.simplify(r))


class SymName(str):
    """An opaque name: nothing is known about it but which other names it is
    equal to.  Formats to a constant token so that hashes of formatted values
    agree and every dict/set lookup is decided by the symbolic ``__eq__``."""
    TOKEN = '\u2039name\u203a'

    def __new__(cls, t, label, table=None):
        self = str.__new__(cls, cls.TOKEN)
        self.t = t
        self.label = label
        return self

    def __eq__(self, o):
        if isinstance(o, SymName):
            return _mk_bool(self.t == o.t)
        if isinstance(o, str):
            code = _CUR.name_code(o)
            return _mk_bool(self.t == code) if code is not None else False
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return _CUR.name_hash(self)

    def __lt__(self, o):
        if isinstance(o, SymName):
            return _mk_bool(self.t < o.t)
        raise EngineError(f'order of symbolic name against {o!r}')

    def __gt__(self, o):
        if isinstance(o, SymName):
            return _mk_bool(self.t > o.t)
        raise EngineError(f'order of symbolic name against {o!r}')

    def __le__(self, o):
        return Not(self > o)

    def __ge__(self, o):
        return Not(self < o)

    def __format__(self, spec):
        return format(_CUR.fmt(self, ''), spec)

    def __str__(self):
        return self

    def __repr__(self):
        return _CUR.fmt(self, 'r')

    def __add__(self, o):
        return self if o == '' else _CUR.fmt(self, '') + o

    def __radd__(self, o):
        return self if o == '' else o + _CUR.fmt(self, '')

    def __reduce__(self):
        return (_unpickle, (_register(self),))

    def __reduce_ex__(self, p):
        return (_unpickle, (_register(self),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __contains__(self, x):
        raise EngineError('substring test on a symbolic name')


_PICKLE_TABLE = {}


def _register(obj):
    _PICKLE_TABLE[id(obj)] = obj
    return id(obj)


def _unpickle(key):
    return _PICKLE_TABLE[key]


# --------------------------------------------------------------------------
# contexts

class Stats:
    FIELDS = ('paths', 'aborted', 'decisions', 'queries', 'solver_s',
              'checks', 'discharged', 'witnesses', 'concretisations',
              'aborted_nocheck')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class BaseCtx:
    symbolic = False

    def note(self, **kw):
        pass


class SymCtx(BaseCtx):
    """One path of a symbolic run."""
    symbolic = True

    def __init__(self, engine, prefix):
        self.e = engine
        self.prefix = prefix
        self.trace = []          # (cond term, taken bool, forked)
        self.inputs = {}         # name -> (kind, term)
        self.decided = {}        # ast id -> (term, bool)
        self.pos = 0
        self.names_lit = {}
        self.nchecks = 0
        self.reals = []
        self.opaque_fmt = True
        self.fresh_n = 0
        self.name_max = -1
        self.defs = []
        self.hints = []

    # ---- inputs
    def _new(self, name, kind, sort):
        base = name
        k = 1
        while name in self.inputs:
            k += 1
            name = f'{base}#{k}'
        t = z3.Const(name, sort)
        self.inputs[name] = (kind, t)
        return t

    def int(self, name, lo, hi):
        t = self._new(name, 'int', z3.IntSort())
        self.add(z3.And(t >= lo, t <= hi))
        if lo == hi:
            return lo
        if self.e.mode == 'split':
            return self.concretise(t)
        return SymInt(t)

    def real(self, name, lo=None, hi=None):
        t = self._new(name, 'real', z3.RealSort())
        if lo is not None:
            self.add(t >= nterm(lo))
        if hi is not None:
            self.add(t <= nterm(hi))
        return SymReal(t)

    def bool(self, name):
        t = self._new(name, 'bool', z3.BoolSort())
        if self.e.mode == 'split':
            return self.branch(t)
        return SymBool(t)

    def name(self, name):
        """An opaque symbolic string."""
        t = self._new(name, 'name', z3.IntSort())
        self.add(t >= 0)
        if self.e.mode == 'split':
            # restricted growth: every equality pattern exactly once
            self.add(t <= self.name_max + 1)
            v = self.concretise(t)
            self.name_max = max(self.name_max, v)
            return f'nm{v}'
        return SymName(t, name)

    def choose(self, name, options):
        """A solver-driven case split over a finite list of options."""
        options = list(options)
        if len(options) == 1:
            self.inputs[name] = ('int', z3.IntVal(0))
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def small(self, name, lo, hi):
        """A bounded int, concretised by case split."""
        v = self.int(name, lo, hi)
        return v.__index__() if isinstance(v, SymInt) else v

    # ---- names
    def name_code(self, s):
        """Integer code of a literal string compared with symbolic names."""
        if s not in self.names_lit:
            # literals used by code under test: distinct negative codes are
            # unreachable (codes >= 0), i.e. an opaque symbolic name never
            # equals a literal unless registered by the harness.
            return None
        return z3.IntVal(self.names_lit[s])

    def literal_name(self, s):
        if s not in self.names_lit:
            self.names_lit[s] = 1000 + len(self.names_lit)
        return s

    def name_hash(self, n):
        return 7

    def str_repeat(self, s, n):
        if self.opaque_fmt:
            return '' if not s else '\u2039*\u203a'
        return s * n.__index__()

    def fmt(self, v, spec):
        if isinstance(v, SymName):
            return SymName.TOKEN
        if isinstance(v, SymInt) or type(v) is SymInt:
            if self.opaque_fmt:
                return '\u2039int\u203a'
            return format(v.__index__(), spec)
        return '\u2039num\u203a'

    # ---- path condition
    def add(self, t):
        self.e.push_constraint(self, t)

    def define(self, t, *hints):
        """A constraint on fresh variables that always has a solution: it is
        only given to the solver when a violation or witness is sought
        (leaving it out of path feasibility only adds paths). `hints` is a
        typical solution, tried first."""
        self.defs.append(t)
        self.hints.extend(hints)

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.add(bterm(cond))
        if self.pos >= len(self.prefix):
            if not self.e.feasible():
                raise PathAbort()

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = t.get_id()
        if key in self.decided:
            return self.decided[key][1]
        taken = self.e.decide(self, t)
        self.decided[key] = (t, taken)
        nt = z3.simplify(z3.Not(t))
        self.decided[nt.get_id()] = (nt, not taken)
        return taken

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        self.e.stats.concretisations += 1
        if ('v', t.get_id()) in self.decided:
            return self.decided[('v', t.get_id())][1]
        v = self.e.decide_value(self, t)
        self.decided[('v', t.get_id())] = (t, v)
        return v

    # ---- checks
    def check(self, cond, msg='property'):
        self.nchecks += 1
        self.e.check(self, cond, msg)

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b):
        """Exact equality of numbers (tolerance only in concrete mode)."""
        return a == b

    def must(self, cond):
        """Is cond implied by the path condition (decided, no fork)?"""
        return self.e.must(cond)

    def check_known(self, kf, when, cond, msg='property'):
        """`cond` must hold except on the listed known finding `kf`, whose
        specific inputs are described by `when`."""
        if kf not in KNOWN:
            return self.check(cond, msg)
        if self.pos >= len(self.prefix) and kf not in self.e.known:
            w = And(when, Not(cond))
            if w is not False and self.e.check_full(self, bterm(w)):
                self.e.known[kf] = KNOWN[kf]
        self.check(Or(when, cond), msg)


class ConcreteCtx(BaseCtx):
    """Replay with ordinary Python values."""
    symbolic = False

    def __init__(self, values, strict=True):
        self.values = values
        self.used = {}
        self.failures = []
        self.nchecks = 0
        self.opaque_fmt = True
        self.inputs = {}

    def _get(self, name, default):
        base = name
        k = 1
        while name in self.used:
            k += 1
            name = f'{base}#{k}'
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise PathAbort()
        return v

    def real(self, name, lo=None, hi=None):
        v = self._get(name, 0)
        v = float(Fraction(v)) if not isinstance(v, float) else v
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def name(self, name):
        v = self._get(name, 0)
        return v if isinstance(v, str) else f'nm{v}'

    def choose(self, name, options):
        options = list(options)
        v = int(self._get(name, 0))
        return options[v]

    def small(self, name, lo, hi):
        return self.int(name, lo, hi)

    def literal_name(self, s):
        return s

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, msg='property'):
        self.nchecks += 1
        if not cond:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def eq(self, a, b):
        if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        return a == b

    def must(self, cond):
        return bool(cond)

    def check_known(self, kf, when, cond, msg='property'):
        if kf not in KNOWN:
            return self.check(cond, msg)
        self.check(bool(when) or bool(cond), msg)

    def branch(self, t):        # pragma: no cover
        raise EngineError('symbolic value in concrete replay')


# --------------------------------------------------------------------------

class Engine:
    def __init__(self, harness, timeout_ms=60000, max_paths=200000,
                 deadline=None, witness_every=16, max_witness=40,
                 max_values=64, mode='symbolic'):
        self.h = harness
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.witness_every = witness_every
        self.max_witness = max_witness
        self.max_values = max_values
        self.depth = 0            # solver scopes
        self.timeout_ms = timeout_ms
        self.samples = []
        self.violation = None
        self.mode = mode
        self.known = {}

    # ---- solver
    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        dt = time.perf_counter() - t0
        self.stats.solver_s += dt
        self.stats.queries += 1
        if SLOW and dt > SLOW:
            import traceback
            with open('/tmp/slow.log', 'a') as f:
                print(dt, r, [f'{x.name}:{x.lineno}' for x in
                              traceback.extract_stack()[-7:-1]],
                      self.solver.to_smt2()[-3000:], file=f)
        if r == z3.unknown:
            raise EngineError('solver unknown: '
                              + self.solver.reason_unknown())
        return r == z3.sat

    def feasible(self, *a):
        return self._check(*a)

    def check_full(self, ctx, *terms):
        """Satisfiability together with the definitions; the model is left
        in self.model."""
        if not ctx.defs:
            r = self._check(*terms)
            if r:
                self.model = self.solver.model()
            return r
        self.solver.push()
        try:
            self.solver.add(*ctx.defs, *terms)
            if ctx.hints:
                self.solver.push()
                self.solver.add(*ctx.hints)
                try:
                    if self._check():
                        self.model = self.solver.model()
                        return True
                except EngineError:
                    pass
                finally:
                    self.solver.pop()
            try:
                r = self._check()
                if r:
                    self.model = self.solver.model()
                return r
            except EngineError:
                # without the incremental core
                sol = z3.Solver()
                sol.set('timeout', self.timeout_ms)
                sol.add(self.solver.assertions())
                save, self.solver = self.solver, sol
                try:
                    r = self._check()
                    if r:
                        self.model = sol.model()
                    return r
                finally:
                    self.solver = save
        finally:
            self.solver.pop()

    def push_constraint(self, ctx, t):
        if ctx.pos <= self.keep:
            return           # already in the solver from the shared prefix
        self.solver.add(t)

    # A decision is a list [kind, term, choice, alternatives...]
    def decide(self, ctx, t):
        i = ctx.pos
        self.stats.decisions += 1
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        if i < len(ctx.prefix):
            d = ctx.prefix[i]
            if d[0] != 'b' or not d[1].eq(t):
                raise EngineError(f'nondeterministic replay: {d[1]} vs {t}')
            ctx.pos += 1
            ctx.trace.append(d)
            if i >= self.keep:
                self._push_decision(d)
            return d[2]
        # new decision
        can_t = self.feasible(t)
        can_f = self.feasible(z3.Not(t)) if can_t else True
        if can_t and can_f:
            d = ['b', t, True]
            alt = ['b', t, False]
            self.work.append(ctx.trace + [alt])
        else:
            d = ['b', t, can_t]
        ctx.trace = ctx.trace + [d]
        ctx.pos += 1
        self._push_decision(d)
        return d[2]

    def decide_value(self, ctx, t):
        i = ctx.pos
        self.stats.decisions += 1
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time budget exhausted')
        if i < len(ctx.prefix):
            d = ctx.prefix[i]
            if d[0] != 'v' or not d[1].eq(t):
                raise EngineError(f'nondeterministic replay: {d[1]} vs {t}')
            ctx.pos += 1
            ctx.trace.append(d)
            if i >= self.keep:
                self._push_decision(d)
            return d[2]
        vals = []
        self.solver.push()
        try:
            while True:
                if not self.feasible():
                    break
                m = self.solver.model()
                v = m.eval(t, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > self.max_values:
                    raise EngineError(f'too many values for {t}')
                self.solver.add(t != v)
        finally:
            self.solver.pop()
        if not vals:
            raise PathAbort()
        vals.sort()
        for v in vals[1:]:
            self.work.append(ctx.trace + [['v', t, v]])
        d = ['v', t, vals[0]]
        ctx.trace = ctx.trace + [d]
        ctx.pos += 1
        self._push_decision(d)
        return d[2]

    def _push_decision(self, d):
        self.solver.push()
        self.depth += 1
        if d[0] == 'b':
            self.solver.add(d[1] if d[2] else z3.Not(d[1]))
        else:
            self.solver.add(d[1] == d[2])

    def must(self, cond):
        if not isinstance(cond, SymBool):
            return bool(cond)
        return not self.check_full(cur(), z3.Not(cond.t))

    def check(self, ctx, cond, msg):
        self.stats.checks += 1
        if ctx.pos < len(ctx.prefix):
            # prefix replay: this check was discharged on an earlier path
            # under a weaker path condition
            return
        if cond is True:
            self.stats.discharged += 1
            return
        if isinstance(cond, SymBool):
            bad = self.check_full(ctx, z3.Not(cond.t))
        elif cond:
            self.stats.discharged += 1
            return
        else:
            bad = self.check_full(ctx)
        if not bad:
            self.stats.discharged += 1
            return
        raise Violation(msg, self._extract(ctx, self.model))

    def _extract(self, ctx, m):
        vals = {}
        for name, (kind, t) in ctx.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind in ('int', 'name'):
                vals[name] = v.as_long()
            elif kind == 'bool':
                vals[name] = z3.is_true(v)
            else:
                vals[name] = _real_value(v)
        return vals

    # ---- exploration
    def run(self):
        """Explore all paths. Returns None or a Violation (with model)."""
        global _CUR
        self.work = [[]]
        self.keep = -1
        first = True
        prev_trace = []
        while self.work:
            prefix = self.work.pop()
            # Keep the shared part of the solver stack: scope j holds decision
            # j-1 and the constraints added between decisions j-1 and j.
            k = 0
            while (k < len(prefix) and k < len(prev_trace)
                   and prefix[k] is prev_trace[k]):
                k += 1
            while self.depth > k:
                self.solver.pop()
                self.depth -= 1
            self.keep = -1 if first else k
            first = False
            ctx = SymCtx(self, prefix)
            saved = _CUR
            _CUR = ctx
            _PICKLE_TABLE.clear()
            try:
                self.h(ctx)
                if ctx.pos < len(ctx.prefix):
                    raise EngineError('nondeterministic replay: short path')
                self.stats.paths += 1
                if ctx.nchecks == 0:
                    self.stats.aborted_nocheck += 1
                else:
                    self._witness(ctx)
            except PathAbort:
                self.stats.aborted += 1
            except Violation as v:
                self.stats.paths += 1
                return v
            except EngineError:
                raise
            except RecursionError:
                raise EngineError('recursion limit')
            except Exception as ex:
                import traceback
                tb = traceback.format_exc(limit=-6)
                self.stats.paths += 1
                if not self.check_full(ctx):
                    raise EngineError('exception on an infeasible path')
                return Violation(f'unexpected {type(ex).__name__}: {ex}\n'
                                 + tb, self._extract(ctx, self.model))
            finally:
                _CUR = saved
            prev_trace = ctx.trace
            if self.stats.paths + self.stats.aborted > self.max_paths:
                raise EngineError('path bound exceeded')
        return None

    def _witness(self, ctx):
        s = self.stats
        if not (s.paths == 1 or s.paths % self.witness_every == 0):
            return
        if s.witnesses >= self.max_witness:
            return
        if not self.check_full(ctx):
            if ctx.defs:
                return      # a path admitted without the definitions
            raise EngineError('path condition unsatisfiable at path end')
        vals = self._extract(ctx, self.model)
        global _CUR
        saved = _CUR
        ok = replay(self.h, vals)
        _CUR = saved
        s.witnesses += 1
        if len(self.samples) < 2:
            self.samples.append(
                {k: (str(v) if isinstance(v, Fraction) else v)
                 for k, v in list(vals.items())[:24]})
        if ok is not None and ok != 'abort':
            # The symbolic run says the property holds on this path while
            # the concrete run of the same code disagrees.
            self.witness_mismatch = (vals, ok)
            raise Violation('concrete witness of a discharged path fails: '
                            + ok, vals)


def _real_value(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(str(v))


def replay(harness, vals):
    """Run the harness on ordinary values. None = property held, 'abort' =
    the values do not satisfy the assumptions, else the failure message."""
    global _CUR
    saved = _CUR
    ctx = ConcreteCtx(vals)
    _CUR = ctx
    try:
        harness(ctx)
        return None
    except PathAbort:
        return 'abort'
    except Violation as v:
        return v.msg
    except EngineError:
        raise
    except Exception as ex:
        import traceback
        return (f'unexpected {type(ex).__name__}: {ex}\n'
                + traceback.format_exc(limit=-6))
    finally:
        _CUR = saved
