"""Symbolic strings of fixed length, and re-compilation of a module of the
real code with string operators that accept them.

`instrumented(module)` compiles the module's current source after replacing
only the operators that Python dispatches on `str` in C: `x in y`, f-strings,
`str.format`, `str(x)`/`repr(x)` and `str.join`.  Every other line runs as
written."""
from __future__ import annotations

import ast
import importlib
import inspect
import types

from .core import And, Or, Not


class SymStr:
    """A string of known length whose characters may be symbolic.

    Items are ordinary characters or (index term, alphabet) pairs."""

    def __init__(self, items):
        self.items = tuple(items)

    __class__ = property(lambda self: str)

    # ---- characters
    @staticmethod
    def ceq(a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        idx, alpha = a
        if isinstance(b, str):
            return idx == alpha.index(b) if b in alpha else False
        assert b[1] == alpha
        return idx == b[0]

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        return iter([norm([c]) for c in self.items])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return norm(self.items[i])
        return norm([self.items[i]])

    def _items(self, o):
        if type(o) is SymStr:
            return o.items
        return tuple(o)

    def eq(self, o):
        if not isinstance(o, str):
            return False
        o = self._items(o)
        if len(o) != len(self.items):
            return False
        return And(*[self.ceq(a, b) for a, b in zip(self.items, o)])

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return Not(self.eq(o))

    def __hash__(self):
        return hash(self.concrete())

    def __add__(self, o):
        return norm(self.items + self._items(o))

    def __radd__(self, o):
        return norm(self._items(o) + self.items)

    def at(self, i, o):
        """Symbolic: `o` occurs at position i."""
        o = self._items(o)
        if i < 0 or i + len(o) > len(self.items):
            return False
        return And(*[self.ceq(a, b) for a, b in zip(self.items[i:], o)])

    def __contains__(self, o):
        return bool(Or(*[self.at(i, o) for i in
                         range(len(self) - len(o) + 1)]))

    def endswith(self, o, *r):
        if r or isinstance(o, tuple):
            return self.concrete().endswith(o, *r)
        return self.at(len(self) - len(o), o)

    def startswith(self, o, *r):
        if isinstance(o, tuple) or len(r) > 1:
            return self.concrete().startswith(o, *r)
        return self.at(r[0] if r else 0, o)

    def find(self, o, lo=0, hi=None):
        for i in range(lo, (len(self) if hi is None else hi) - len(o) + 1):
            if self.at(i, o):
                return i
        return -1

    def index(self, o, *r):
        i = self.find(o, *r)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rfind(self, o, lo=0, hi=None):
        n = len(self) if hi is None else hi
        for i in reversed(range(lo, n - len(o) + 1)):
            if self.at(i, o):
                return i
        return -1

    def replace(self, old, new, count=-1):
        if not old:
            return self.concrete().replace(old, new, count)
        out, i = '', 0
        while i < len(self):
            if count and self.at(i, old):
                out, i, count = out + new, i + len(old), count - 1
            else:
                out, i = out + self[i:i + 1], i + 1
        return out

    def count(self, o):
        if not o:
            return len(self) + 1
        k = i = 0
        while i < len(self):
            if self.at(i, o):
                k, i = k + 1, i + len(o)
            else:
                i += 1
        return k

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def removesuffix(self, o):
        return self[:len(self) - len(o)] if self.endswith(o) else self

    def removeprefix(self, o):
        return self[len(o):] if self.startswith(o) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and len(sep) != 1 or maxsplit != -1:
            return self.concrete().split(sep, maxsplit)
        out, part = [], []
        for c in self.items:
            alpha = [c] if isinstance(c, str) else c[1]
            seps = [x for x in alpha
                    if (x.isspace() if sep is None else x == sep)]
            if Or(*[self.ceq(c, x) for x in seps]):
                if part or sep is not None:
                    out.append(norm(part))
                part = []
            else:
                part.append(c)
        if part or sep is not None:
            out.append(norm(part))
        return out

    def center(self, width, fill=' '):
        pad = width - len(self)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & width & 1)
        return norm([fill] * left + list(self.items)
                    + [fill] * (pad - left))

    def ljust(self, width, fill=' '):
        return norm(list(self.items) + [fill] * (width - len(self)))

    def rjust(self, width, fill=' '):
        return norm([fill] * (width - len(self)) + list(self.items))

    def rstrip(self, chars=None):
        items = list(self.items)
        while items and (op_in(norm(items[-1:]), chars) if chars else
                         norm(items[-1:]).isspace()):
            items.pop()
        return norm(items)

    def lstrip(self, chars=None):
        items = list(self.items)
        while items and (op_in(norm(items[:1]), chars) if chars else
                         norm(items[:1]).isspace()):
            items.pop(0)
        return norm(items)

    def strip(self, chars=None):
        s = self.rstrip(chars)
        return s.lstrip(chars) if s else s

    def concrete(self):
        """Fork over the values of all characters."""
        out = []
        for c in self.items:
            if not isinstance(c, str):
                idx, alpha = c
                for k, ch in enumerate(alpha):
                    if idx == k:
                        c = ch
                        break
            out.append(c)
        return ''.join(out)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return '<symbolic string>'

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def norm(items):
    if all(isinstance(c, str) for c in items):
        return ''.join(items)
    return SymStr(items)


def sstr(ctx, name, n, alpha):
    """Symbolic string of length n over an alphabet."""
    if not ctx.symbolic:
        return ''.join(alpha[ctx.int(f'{name}{i}', 0, len(alpha) - 1)]
                       for i in range(n))
    out = []
    for i in range(n):
        k = ctx.int(f'{name}{i}', 0, len(alpha) - 1)
        out.append(alpha[k] if type(k) is int else (k, alpha))
    return norm(out)


# ---- operators used by instrumented code ----------------------------------

def op_in(x, y):
    if type(x) is SymStr and type(y) is str:
        if len(x) > len(y):
            return False
        return Or(*[x.eq(y[i:i + len(x)])
                    for i in range(len(y) - len(x) + 1)])
    if type(x) is SymStr and isinstance(y, (list, tuple, set, frozenset)):
        return Or(*[x.eq(z) for z in y])
    return x in y


def op_not_in(x, y):
    return Not(op_in(x, y))


def op_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymStr:
            return x
        if isinstance(x, str):
            return str(x)
        r = type(x).__str__(x) if type(x).__str__ is not object.__str__ \
            else type(x).__repr__(x)
        return r
    return str(*a, **k)


def op_repr(x):
    if type(x) is SymStr:
        return "'" + x + "'"
    if type(x) in (str, int, float, list, tuple, dict) or x is None:
        return repr(x)
    return type(x).__repr__(x)


def op_fstr(*parts):
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            v = op_repr(v) if conv == 'r' else op_str(v) if conv == 's' or (
                not spec) else v
            if spec:
                v = format(v, spec)
            p = v
        out = out + p
    return out


def op_format(obj, *args, **kw):
    if not isinstance(obj, str) or type(obj) is SymStr:
        return obj.format(*args, **kw)
    import string
    out, auto = '', 0
    for lit, name, spec, conv in string.Formatter().parse(obj):
        out = out + lit
        if name is None:
            continue
        if name == '':
            name, auto = str(auto), auto + 1
        if name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            v = ('{' + name + '}').format(*args, **kw)
        out = out + op_fstr((v, conv, spec))
    return out


def op_join(sep, parts):
    if not isinstance(sep, str):
        return sep.join(parts)
    out = ''
    for i, p in enumerate(parts):
        out = out + (sep if i else '') + p
    return out


class _T(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = '_vs_in' if isinstance(n.ops[0], ast.In) else '_vs_not_in'
            return ast.copy_location(
                ast.Call(ast.Name(f, ast.Load()),
                         [n.left, n.comparators[0]], []), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                spec = (ast.Constant('') if spec is None
                        else self.visit(spec))
                parts.append(ast.Tuple(
                    [self.visit(v.value),
                     ast.Constant(chr(v.conversion) if v.conversion > 0
                                  else None), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(
            ast.Call(ast.Name('_vs_fstr', ast.Load()), parts, []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('format', 'join') \
                and not (f.attr == 'join' and len(n.args) != 1):
            return ast.copy_location(
                ast.Call(ast.Name('_vs_' + f.attr, ast.Load()),
                         [f.value, *n.args], n.keywords), n)
        if isinstance(f, ast.Name) and f.id in ('str', 'repr'):
            return ast.copy_location(
                ast.Call(ast.Name('_vs_' + f.id, ast.Load()), n.args,
                         n.keywords), n)
        return n


OPS = {'_vs_in': op_in, '_vs_not_in': op_not_in, '_vs_fstr': op_fstr,
       '_vs_format': op_format, '_vs_join': op_join, '_vs_str': op_str,
       '_vs_repr': op_repr}
_CACHE = {}


def instrumented(modname):
    """The module's current source, recompiled with the operators above."""
    if modname not in _CACHE:
        mod = importlib.import_module(modname)
        src = inspect.getsource(mod)
        tree = ast.fix_missing_locations(_T().visit(ast.parse(src)))
        new = types.ModuleType(modname)
        new.__file__ = mod.__file__
        new.__package__ = mod.__package__
        new.__dict__.update(OPS)
        exec(compile(tree, mod.__file__, 'exec'), new.__dict__)
        _CACHE[modname] = new
    return _CACHE[modname]
