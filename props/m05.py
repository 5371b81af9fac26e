"""M05: models keep weights with their symbols."""
import itertools
import os
import pickle
import shutil
import tempfile
import types
from pathlib import Path

import numpy as np
import torch

from props import q05, q06
from vsym.case import Suite
from vsym.core import And, SymReal
from vsym.poly import arr_eq, carray, phase

import jax
import tensornetwork as tn

from lambeq.backend import numerical_backend as nb
from lambeq.backend import quantum as q
from lambeq.backend import tensor as t
from lambeq.backend.quantum import Bra, Discard, Id, Ket, Measure, qubit
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Dim
from lambeq.training import (CachedTnPathOptimizer, NumpyModel,
                             PennyLaneModel, PytorchModel,
                             PytorchQuantumModel, TketModel)
from lambeq.training import pennylane_model as pm
from lambeq.training import pytorch_model as pyt
from lambeq.training import pytorch_quantum_model as pqm
from lambeq.training import quantum_model as qm
from lambeq.training import tket_model as tk
from lambeq.training.tn_path_optimizer import TnPathOptimizer

SUITE = Suite(
    'M05',
    bounds='lists of 1 or 2 circuits or tensor diagrams with 1 to 3 symbolic '
    'boxes each over up to 3 symbols in any order, scaled symbols and '
    'controlled gates; weights are symbolic phases or arrays; exact, jitted, '
    'tket, PyTorch and PennyLane models; saved and loaded into fresh models',
    assumptions=['exact arithmetic', 'evaluation of concrete circuits is '
                 'right (see Q02, T01)'],
    stubs=['torch and jax are replaced by numpy on symbolic arrays',
           'the tket backend returns the exact outcome of each circuit',
           'normalisation is checked on its own'],
    outside='gradients, random initial weights, other devices')

NAMES = ('b', 'a', 'c')


class AnyType:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Torch(q06.Torch):
    """Stand-in for torch on symbolic arrays."""
    bool = 'bool'

    @staticmethod
    def promote_types(a, b):
        return AnyType()

    @staticmethod
    def stack(xs):
        return np.stack([np.asarray(x, dtype=object) for x in xs])

    @staticmethod
    def abs(a):
        return np.abs(a)

    @staticmethod
    def square(a):
        return a ** 2

    @staticmethod
    def sum(a):
        return np.asarray(a).sum()


class patched:
    """Numpy in place of torch and jax while symbolic."""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        self.save = (jax.jit, jax.numpy, nb.backend, tn.DefaultBackend, pyt.backend,
                     pqm.backend, pyt.torch, pqm.torch)
        if not self.on:
            return
        orig, dflt = nb.backend, tn.DefaultBackend
        jax.jit = lambda f: f
        jax.numpy = types.SimpleNamespace(array=np.array)
        nb.backend = pyt.backend = pqm.backend = lambda n=None: orig('numpy')
        tn.DefaultBackend = lambda n=None: dflt('numpy')
        pyt.torch = pqm.torch = Torch()

    def __exit__(self, *a):
        (jax.jit, jax.numpy, nb.backend, tn.DefaultBackend, pyt.backend,
         pqm.backend, pyt.torch, pqm.torch) = self.save


END = {'open': lambda: Id(qubit ** 3),
       'post': lambda: Bra(0, 0) @ Id(qubit),
       'closed': lambda: Bra(0, 0, 0),
       'discard': lambda: Discard() @ Id(qubit) @ Discard(),
       'measure': lambda: Discard() @ Discard() @ Measure(),
       'bits': lambda: Measure() @ Measure() @ Discard()}


def circuit(boxes, end):
    return Ket(0, 0, 0) >> q05.place(boxes) >> END[end]()


def pair(vs, names, sc, end, vals, ctx):
    sym = circuit([q05.VAR[v][1](q05.scaled(Symbol(n), s))
                   for v, n, s in zip(vs, names, sc)], end)
    con = circuit([q05.VAR[v][1](q05.times(ctx, vals[n], q05.fac(s)))
                   for v, n, s in zip(vs, names, sc)], end)
    return sym, con


def norm(x):
    x = np.abs(x)
    return x / max(1e-9, x.sum()) if x.shape else x


def reference(ctx, con, kind=''):
    """Probabilities, or the doubled result of mixed circuits."""
    if kind == 'tket':
        con = con >> Id().tensor(*[Measure()] * len(con.cod))
    r = np.asarray(con.eval())
    if not con.is_mixed:
        r = np.asarray(np.abs(r) ** 2)
    return r if ctx.symbolic else norm(r)


def no_norm(ctx, model, count):
    def f(x):
        count.append(1)
        return np.asarray(x)
    if ctx.symbolic:
        model._normalise_vector = f


QUICK = [
    (('x',), 'a', ((),)), (('z',), 'b', ((-1,),)), (('cx',), 'a', ((),)),
    (('ccz+',), 'c', ((0.5,),)), (('x', 'y'), 'ba', ((), (2, 0.5))),
    (('x', 'cz-'), 'aa', ((-1,), (0.5,))), (('x+', 'cy+'), 'cb', ((), ())),
    (('x', 'z', 'y'), 'cab', ((), (), ())),
    (('x', 'cxr', 'x'), 'aba', ((), (0.5,), (-1,))),
    (('ccx', 'x'), 'ab', ((), ()))]


def cases(kinds, ends, items=QUICK):
    """Two circuits per list: an item and its neighbour."""
    out = []
    for k in kinds:
        for e in ends:
            for i in range(len(items)):
                out.append(dict(kind=k, end=e,
                                ds=(items[i], items[(i + 3) % len(items)])))
    return out


THOROUGH = QUICK + [
    ((a, b), n, (s, ())) for a in ('x', 'zl', 'cy+', 'ccx')
    for b in ('z', 'x+r', 'cz2') for n in ('ab', 'ba', 'aa')
    for s in ((), (2, 0.5))]


@SUITE.case(quick=lambda: cases(['numpy'], ['post', 'measure', 'bits'])
            + cases(['jit', 'torch'], ['post', 'measure'], QUICK[:7])
            + cases(['tket'], ['post', 'discard'], QUICK[:7])
            + cases(['numpy', 'torch'], ['open', 'closed', 'discard'],
                    QUICK[2:7:2]),
            thorough=lambda: cases(['numpy', 'jit', 'torch'],
                                   list(END), THOROUGH)
            + cases(['tket'], ['post', 'discard'], THOROUGH), max_witness=2)
def circuits(ctx, kind, end, ds):
    """Every circuit is evaluated with each weight for its symbol."""
    vals = {n: phase(ctx, n, D=4) for n in NAMES}
    pairs = [pair(*d, end, vals, ctx) for d in ds]
    syms = [s for s, _ in pairs]
    want = [reference(ctx, c, kind) for _, c in pairs]
    cls, args = {'numpy': (NumpyModel, {}),
                 'jit': (NumpyModel, dict(use_jit=True)),
                 'torch': (PytorchQuantumModel, {}),
                 'tket': (TketModel, dict(backend_config={
                     'backend': Fake(), 'compilation': None, 'shots': 9}))
                 }[kind]
    count = []
    with patched(ctx):
        model = cls.from_diagrams(syms, **args)
        used = sorted({n for d in ds for n in d[1]})
        ctx.check(model.symbols == [Symbol(n) for n in used], 'symbols')
        model.weights = weights(ctx, kind, [vals[n] for n in used])
        no_norm(ctx, model, count)
        before = [repr(d) for d in syms]
        exact = {id(model): [c for _, c in pairs]}
        run = Runner(ctx, model, kind, exact)
        out = run(syms)
        compare(ctx, out, want, 'result')
        if ctx.symbolic:
            ctx.check(len(count) == len(syms), 'normalised once')
        ctx.check([repr(d) for d in syms] == before
                  and all(d.free_symbols for d in syms),
                  'the diagrams are not changed')
        # again, in the other order, and one by one
        compare(ctx, run(syms[::-1]), want[::-1], 'other order')
        compare(ctx, run(syms[1:]), want[1:], 'one')
        # other weights
        new = {n: vals[used[(i + 1) % len(used)]]
               for i, n in enumerate(used)}
        model.weights = weights(ctx, kind, [new[n] for n in used])
        compare(ctx, run(syms[:1]), [reference(
            ctx, pair(*ds[0], end, {**vals, **new}, ctx)[1], kind)],
            'other weights')
        model.weights = weights(ctx, kind, [vals[n] for n in used])
        if kind in ('torch', 'tket'):
            return
        # saved, and loaded into a model with other symbols
        root = tempfile.mkdtemp(prefix='m05-')
        try:
            path = os.path.join(root, 'm.lt')
            model.save(path)
            other = cls.from_diagrams([circuit([q.Rx(Symbol('z')),
                                                q.Rx(Symbol('0'))], end)],
                                      **args)
            other.load(path)
            third = cls.from_checkpoint(path, **args)
        finally:
            shutil.rmtree(root)
        for m in (other, third):
            no_norm(ctx, m, count)
            ctx.check(m.symbols == model.symbols, 'symbols after loading')
            compare(ctx, m(syms), want, 'after loading')


def compare(ctx, got, want, msg):
    if isinstance(got, torch.Tensor):
        got = got.detach().numpy()
    got = np.asarray(got)
    ctx.check(len(got) == len(want), f'{msg}: number of results')
    for g, w in zip(got, want):
        arr_eq(ctx, np.asarray(g), w, msg)


def weights(ctx, kind, ws):
    if ctx.symbolic:
        return np.array(ws, dtype=object)
    if kind == 'torch':
        return torch.nn.Parameter(torch.tensor([float(w) for w in ws],
                                               dtype=torch.float64))
    return np.array(ws, dtype=float)


class Fake:
    def empty_cache(self):
        pass


class Runner:
    """Calls a model; the tket backend is replaced by exact evaluation."""

    def __init__(self, ctx, model, kind, exact):
        self.ctx, self.model, self.kind = ctx, model, kind

    def __call__(self, ds):
        if self.kind != 'tket':
            return self.model(ds)
        ctx = self.ctx

        class Circuit:
            @staticmethod
            def eval(*circs, backend, compilation, shots, seed):
                ctx.check(shots == 9 and compilation is None
                          and isinstance(backend, Fake), 'configuration')
                out = []
                for c in circs:
                    ctx.check(not c.free_symbols, 'no symbols left')
                    ctx.check(all(w == q.bit for w in c.cod)
                              if len(c.cod) else True, 'measured')
                    r = np.asarray(c.eval(mixed=True))
                    out.append(r)
                return out if len(out) > 1 else out[0]
        old = tk.Circuit
        tk.Circuit = Circuit
        try:
            return self.model(ds)
        finally:
            tk.Circuit = old


@SUITE.case(quick=lambda: [dict(shape=s) for s in ((), (1,), (2,), (3,),
                                                   (2, 2))])
def normalise(ctx, shape):
    """Absolute values with sum one; zero vectors and scalars are kept."""
    k = int(np.prod(shape))
    xs = [ctx.real(f'x{i}', -3, 3) for i in range(k)]
    a = np.array(xs, dtype=object if ctx.symbolic else float).reshape(shape)
    r = np.asarray(NumpyModel()._normalise_vector(a))
    ctx.check(r.shape == shape, 'shape')
    ab = [abs(x) for x in xs]
    total = sum(ab, 0)
    if not shape:
        ctx.check(r.item() == ab[0], 'absolute value of a scalar')
        return
    out = list(r.reshape(-1))
    tol = 1e-6
    if total > 1e-6:
        ctx.check(And(*[abs(y * total - x) <= tol for x, y in zip(ab, out)]),
                  'proportional')
        ctx.check(abs(sum(out, 0) - 1) <= tol, 'sum one')
    elif total == 0:
        ctx.check(And(*[y == 0 for y in out]), 'zero vector')


# ---- tensor diagrams and contraction paths

def tbox(name, dom, cod):
    return t.Box(name, Dim(*dom), Dim(*cod), Symbol(
        name, int(np.prod(dom, dtype=int)), int(np.prod(cod, dtype=int))))


def tdiag(shape, f):
    """Diagrams built from named boxes."""
    d = Dim(2)
    e = Dim(3)
    if shape == 'chain':
        return f('b', (2,), (3,)) >> f('a', (3,), (2,))
    if shape == 'sentence':
        return (f('b', (), (2,)) @ f('a', (), (2, 3, 2)) @ f('c', (), (2,))
                >> t.Diagram.cups(d, d) @ t.Id(e) @ t.Diagram.cups(d, d))
    if shape == 'twice':
        return (f('b', (), (2,)) @ f('a', (), (2, 3, 2)) @ f('b', (), (2,))
                >> t.Diagram.cups(d, d) @ t.Id(e) @ t.Diagram.cups(d, d))
    if shape == 'dagger':
        return f('b', (), (2,)) >> f('a', (2,), (3,)) \
            >> f('a', (2,), (3,)).dagger() >> f('c', (2,), (3,))
    if shape == 'rotate':
        return f('b', (), (2,)) @ f('a', (2,), (3,)).r.dagger() \
            >> t.Swap(d, e) if False else (
                f('b', (3,), (2, 3)).r >> t.Swap(e, d))
    if shape == 'spider':
        return (f('b', (), (2,)) @ f('a', (), (2,)) @ f('c', (), (2, 3))
                >> t.Spider(d, 3, 1) @ t.Id(e))
    if shape == 'product':
        return f('b', (), (2,)) @ f('a', (), (3,))
    if shape == 'loop':
        return (f('b', (), (3,)) @ t.Cap(d, d)
                >> t.Id(e) @ f('a', (2,), (2,)) @ t.Id(d)
                >> t.Id(e) @ t.Cup(d, d))
    if shape == 'loops':
        return (t.Cap(d, d) >> f('a', (2,), (2,)) @ t.Id(d)
                >> t.Cup(d, d)) @ (f('b', (), (2,)) >> f('c', (2,), (3,)))
    if shape == 'partial':
        return (t.Id(e) @ t.Cap(d, d) >> f('a', (3, 2), (3, 2)) @ t.Id(d)
                >> t.Id(e) @ t.Cup(d, d))
    if shape == 'swap':
        return f('b', (), (2,)) @ f('a', (), (3,)) >> t.Swap(d, e)
    if shape == 'trace':
        return (f('a', (), (2, 2)) >> t.Cup(d, d)) @ f('b', (), (3,))
    if shape == 'trace1':
        return (f('a', (), (3, 2, 2)) >> t.Id(e) @ t.Cup(d, d)
                >> f('b', (3,), (2,)))
    if shape == 'traces':
        return (f('a', (), (2, 2)) >> t.Cup(d, d)) @ (
            f('b', (), (3, 2, 3)) >> t.Id(e) @ t.Swap(d, e)
            >> t.Cup(e, e) @ t.Id(d))
    if shape == 'trace4':
        return (f('a', (), (2, 2, 2, 2)) >> t.Cup(d, d) @ t.Cup(d, d)) \
            @ f('b', (), (2,))
    if shape == 'sptrace':
        return (f('a', (), (2, 2)) >> t.Spider(d, 2, 1) >> t.Spider(d, 1, 2)
                >> t.Cup(d, d))
    raise KeyError(shape)


SHAPES = ['trace', 'trace1', 'traces', 'trace4', 'sptrace', 'chain', 'sentence', 'twice', 'dagger', 'rotate', 'spider',
          'product', 'loop', 'loops', 'partial', 'swap']


@SUITE.case(quick=lambda: [dict(shape=s, opt=o) for s in SHAPES
                           for o in ('cached', 'plain')], max_witness=2)
def tensors(ctx, shape, opt):
    """Tensor diagrams are contracted with each weight for its symbol."""
    info = {}

    def sym(name, dom, cod):
        info[name] = (dom, cod)
        return tbox(name, dom, cod)
    d = tdiag(shape, sym)
    vals = {n: carray(ctx, n, (int(np.prod(a + b, dtype=int)),), real=True)
            for n, (a, b) in sorted(info.items())}
    con = tdiag(shape, lambda n, a, b: t.Box(n, Dim(*a), Dim(*b), vals[n]))
    want = np.asarray(con.eval(dtype=object) if ctx.symbolic else con.eval())
    opt = CachedTnPathOptimizer() if opt == 'cached' else TnPathOptimizer()
    with patched(ctx):
        model = PytorchModel.from_diagrams([d], tn_path_optimizer=opt)
        ctx.check([s.name for s in model.symbols] == sorted(info), 'symbols')
        model.__dict__['weights'] = [
            vals[s.name] if ctx.symbolic
            else torch.tensor(vals[s.name], dtype=torch.float32)
            for s in model.symbols]
        for k in range(2):
            compare_t(ctx, model([d]), [want], 'result')
        compare_t(ctx, model([d, d]), [want, want], 'two results')
        ctx.check(len(d.free_symbols) == len(info), 'diagram unchanged')


def compare_t(ctx, got, want, msg):
    if isinstance(got, torch.Tensor):
        got = got.detach().numpy()
        ctx.check(got.shape[0] == len(want), msg)
        for g, w in zip(got, want):
            ctx.check(g.shape == w.shape and np.allclose(
                g, w, rtol=1e-3, atol=1e-3 * max(1, np.abs(w).max())), msg)
    else:
        compare(ctx, got, want, msg)


@SUITE.case(quick=lambda: [dict(a=a, b=b) for a, b in itertools.permutations(
    ['sentence', 'twice', 'spider', 'dagger', 'loop', 'swap', 'product'], 2)
    if {a, b} & {'sentence', 'spider', 'product'}],
            max_witness=2)
def paths(ctx, a, b):
    """Remembered contraction paths do not change results, also when they
    are kept in a file or a checkpoint."""
    infos, ds, wants = {}, [], []

    def sym(name, dom, cod):
        infos[name] = (dom, cod)
        return tbox(name, dom, cod)
    for s, p in ((a, 'x'), (b, 'y')):
        ds.append(tdiag(s, lambda n, x, y: sym(p + n, x, y)))
    vals = {n: carray(ctx, n, (int(np.prod(x + y, dtype=int)),), real=True)
            for n, (x, y) in sorted(infos.items())}
    for s, p in ((a, 'x'), (b, 'y')):
        con = tdiag(s, lambda n, x, y: t.Box(n, Dim(*x), Dim(*y),
                                             vals[p + n]))
        wants.append(np.asarray(con.eval(dtype=object) if ctx.symbolic
                                else con.eval()))
    root = tempfile.mkdtemp(prefix='m05-')
    try:
        path = Path(root) / 'sub' / 'paths.pkl'
        first = CachedTnPathOptimizer(save_file=path, save_checkpoints=True)
        with patched(ctx):
            for opt in (first, 'file', 'checkpoint'):
                if opt == 'checkpoint':
                    from lambeq.training.checkpoint import Checkpoint
                    c = first.store_to_checkpoint(Checkpoint())
                    opt = CachedTnPathOptimizer()
                    opt.restore_from_checkpoint(
                        pickle.loads(pickle.dumps(c)))
                    ctx.check(opt.cached_paths == first.cached_paths,
                              'paths in the checkpoint')
                elif opt == 'file':
                    opt = CachedTnPathOptimizer(save_file=path)
                    ctx.check(opt.cached_paths == first.cached_paths,
                              'paths in the file')
                model = PytorchModel.from_diagrams(ds, tn_path_optimizer=opt)
                model.__dict__['weights'] = [
                    vals[s.name] if ctx.symbolic
                    else torch.tensor(vals[s.name], dtype=torch.float32)
                    for s in model.symbols]
                for d, w in zip(ds, wants):
                    compare_t(ctx, model([d]), [w], 'result')
    finally:
        shutil.rmtree(root)


@SUITE.case(quick=lambda: [dict(n=n) for n in (1, 2, 3)])
def initial(ctx, n):
    """Initial weights fit the symbols; unknown symbols are refused."""
    sizes = [(ctx.small(f'd{i}', 1, 3), ctx.small(f'c{i}', 1, 3))
             for i in range(n)]
    boxes = [t.Box('f', Dim(d), Dim(c), Symbol('cab'[i], d, c))
             for i, (d, c) in enumerate(sizes)]
    model = PytorchModel.from_diagrams([b.to_diagram() for b in boxes])
    model.initialise_weights()
    ctx.check(len(model.weights) == n, 'number of weights')
    for s, w in zip(model.symbols, model.weights):
        d, c = sizes['cab'.index(s.name)]
        ctx.check(tuple(w.shape) == (d * c,), 'size')
    root = tempfile.mkdtemp(prefix='m05-')
    try:
        path = os.path.join(root, 'm.lt')
        model.save(path)
        other = PytorchModel.from_checkpoint(path)
        ctx.check(other.symbols == model.symbols
                  and len(other.weights) == n
                  and all(bool((a == b).all()) for a, b in zip(
                      model.weights, other.weights)), 'saved and loaded')
    finally:
        shutil.rmtree(root)
    bad = t.Box('f', Dim(2), Dim(2), Symbol('unknown', 2, 2)).to_diagram()
    try:
        model([bad])
        ctx.fail('a diagram with an unknown symbol was evaluated')
    except KeyError:
        pass
    qmodel = NumpyModel.from_diagrams([circuit([q.Rx(Symbol('a'))], 'post')])
    try:
        qmodel([circuit([q.Rx(Symbol('a'))], 'post')])
        ctx.fail('evaluated without weights')
    except ValueError:
        pass
    qmodel.initialise_weights()
    ctx.check(len(qmodel.weights) == 1, 'one weight')
    try:
        qmodel([circuit([q.Rx(Symbol('b'))], 'post')])
        ctx.fail('a circuit with an unknown symbol was evaluated')
    except KeyError:
        pass


# ---- PennyLane

class Circ:
    """Stand-in for a converted circuit: unknown outcomes."""

    def __init__(self, ctx, name, n):
        self.ctx, self.n = ctx, n
        self.out = [ctx.real(f'{name}{i}', -2, 2) for i in range(n)]
        self.seen = None

    def initialise_concrete_params(self, m):
        self.seen = dict(m)

    def eval(self):
        if self.ctx.symbolic:
            return np.array(self.out, dtype=object)
        return torch.tensor(self.out, dtype=torch.float64)


def near(x, y, tol):
    return abs(x - y) <= tol if tol else x == y


class Abs:
    def __init__(self, a):
        self.a = a


class PTorch(Torch):
    @staticmethod
    def abs(a):
        return Abs(a)

    @staticmethod
    def square(a):
        return a.a ** 2 if isinstance(a, Abs) else a ** 2

    @staticmethod
    def stack(xs):
        class A(np.ndarray):
            def to(self, *a):
                return self

            def squeeze(self, axis=None):
                return super().squeeze(axis) if self.shape[axis] == 1 \
                    else self
        return np.stack(xs).view(A)


@SUITE.case(quick=lambda: [dict(n=n, probs=p, normalize=z) for n in (1, 2, 4)
                           for p in (True, False) for z in (True, False)])
def pennylane_outputs(ctx, n, probs, normalize):
    """Outputs are normalised and in the order of the diagrams."""
    ds = [circuit([q.Rx(Symbol('b')), q.Ry(Symbol('a') * 0.5)], 'post'),
          circuit([q.Rz(Symbol('c'))], 'post')]
    model = PennyLaneModel.from_diagrams(ds, probabilities=probs,
                                         normalize=normalize)
    ctx.check(model.symbols == [Symbol(x) for x in 'abc'], 'symbols')
    model.initialise_weights()
    ctx.check(list(model.symbol_weight_map) == model.symbols
              and all(model.symbol_weight_map[s] is w for s, w in zip(
                  model.symbols, model.weights)), 'weights by symbol')
    cs = [Circ(ctx, f'o{i}', n) for i in range(2)]
    if probs:
        for c in cs:
            ctx.assume(And(*[x >= 0 for x in c.out]))
    tot = [sum((x if probs else x * x for x in c.out), 0) for c in cs]
    for x in tot:
        ctx.assume(x > 1e-3)
    model.circuit_map = dict(zip(ds, cs))
    old = pm.torch
    if ctx.symbolic:
        pm.torch = PTorch()
    try:
        for order in ([0, 1], [1, 0], [1]):
            got = model([ds[i] for i in order])
            if not ctx.symbolic:
                got = got.detach().numpy()
            ctx.check(len(got) == len(order), 'number of results')
            for g, i in zip(got, order):
                ctx.check(cs[i].seen == dict(model.symbol_weight_map),
                          'weights given to the circuit')
                g = list(np.atleast_1d(g))
                w = cs[i].out
                ctx.check(len(g) == len(w), 'size')
                tol = 0 if ctx.symbolic else 1e-5
                if not normalize:
                    ctx.check(And(*[near(x, y, tol)
                                    for x, y in zip(g, w)]), 'kept')
                else:
                    # states are divided by their squared norm, as the
                    # tests of the model require
                    ctx.check(And(*[near(x * tot[i], y, tol)
                                    for x, y in zip(g, w)]), 'normalised')
    finally:
        pm.torch = old


@SUITE.case(quick=lambda: [dict(vs=v, names=n, sc=s, probs=p)
                           for v, n, s in [QUICK[0], QUICK[1], QUICK[4],
                                           QUICK[7]]
                           for p in (True, False)], max_witness=2)
def pennylane_weights(ctx, vs, names, sc, probs):
    """The PennyLane model evaluates each circuit with its weights."""
    vals = {n: phase(ctx, n, D=4) for n in NAMES}
    d, con = pair(vs, names, sc, 'post', vals, ctx)
    want = np.asarray(con.eval())
    if probs:
        want = np.asarray(np.abs(want) ** 2)
    model = PennyLaneModel.from_diagrams([d], probabilities=probs,
                                         normalize=False)
    used = sorted(set(names))
    ctx.check(model.symbols == [Symbol(n) for n in used], 'symbols')
    from lambeq.backend import pennylane as lpl
    old, old2 = lpl.torch, pm.torch
    if ctx.symbolic:
        lpl.torch, pm.torch = q06.Torch(), PTorch()
        for p in model.circuit_map.values():
            p._circuit = q06.simulate(ctx, p._circuit.func, p._n_qubits)
        ws = [vals[n] for n in used]
        model.__dict__['weights'] = [np.array(w, dtype=object) for w in ws]
    else:
        ws = [torch.tensor(float(vals[n]), dtype=torch.float64)
              for n in used]
        model.__dict__['weights'] = ws
    model.symbol_weight_map = dict(zip(model.symbols, ws))
    try:
        got = model([d])
    finally:
        lpl.torch, pm.torch = old, old2
    if not ctx.symbolic:
        got = got.detach().numpy()
    ctx.check(len(got) == 1, 'one result')
    arr_eq(ctx, np.asarray(got)[0], want, 'result')
