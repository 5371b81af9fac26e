"""M02: the trainer."""
import contextlib
import io
import os
import random
import shutil
import tempfile

import numpy as np

from vsym.case import Suite
from vsym.core import And, Or

from lambeq.training import PytorchTrainer, QuantumTrainer
from lambeq.training.checkpoint import Checkpoint
from lambeq.training.dataset import Dataset
from lambeq.training.quantum_model import QuantumModel

SUITE = Suite(
    'M02',
    bounds='up to 3 (quick) / 4 (thorough) epochs of up to 3 batches, symbolic '
    'losses and metrics for every state of the model and every batch, '
    'evaluation every 1 or 2 epochs or steps, early stopping after 1 or 2 '
    'evaluations on the loss or on a metric to be minimised or maximised, '
    'interruption after any epoch, quantum and PyTorch trainers',
    assumptions=['the model and the optimiser keep their own state in what '
                 'they save', 'an interrupted run had not stopped early'],
    stubs=['model, optimiser, loss and metric: unknown numbers for every '
           'state, batch and training history'],
    outside='tensorboard, progress bars, times')


class Interrupted(BaseException):
    pass


class World:
    """Every loss or metric is an unknown number."""

    def __init__(self, ctx):
        self.ctx, self.table = ctx, {}

    def __call__(self, *key):
        k = '-'.join(map(str, key))
        if k not in self.table:
            self.table[k] = self.ctx.real(k, -3, 3)
        return self.table[k]


class QModel(QuantumModel):
    """The weights count the optimiser's steps."""

    def __init__(self):
        super().__init__()
        self.symbols = ['s']

    def initialise_weights(self):
        self.weights = 0

    def forward(self, x):
        return ('y', self.weights, tuple(x))

    def get_diagram_output(self, x):
        return self.forward(x)

    def parameters(self):
        return self

    def to(self, device):
        return self

    @classmethod
    def from_checkpoint(cls, *a, **k):
        raise NotImplementedError


def key(x, y):
    return '.'.join(f'{i}{int(t)}' for i, t in zip(x, y))


def qopt(world):
    class Opt:
        def __init__(self, model, loss_fn, hyperparams):
            self.model, self.k = model, 0

        def backward(self, batch):
            y = self.model(batch[0])
            return world('loss', y[1], self.k, key(batch[0], batch[1]))

        def step(self):
            self.model.weights += 1
            self.k += 1

        def zero_grad(self):
            pass

        def state_dict(self):
            return {'k': self.k}

        def load_state_dict(self, d):
            self.k = d['k']
    return Opt


def topt(world):
    class Opt:
        def __init__(self, params, lr):
            self.model, self.k = params, 0
            params.opt = self

        def step(self):
            self.model.weights += 1
            self.k += 1

        def zero_grad(self):
            pass

        state_dict = lambda self: {'k': self.k}     # noqa: E731

        def load_state_dict(self, d):
            self.k = d['k']
    return Opt


class TLoss:
    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v

    def backward(self):
        pass


def build(ctx, world, kind, log_dir, epochs, metric, on_train, resume):
    model = QModel()

    def loss(y_hat, y):
        k = key(y_hat[2], y)
        if kind == 'pytorch' and model.in_train:
            return TLoss(world('loss', y_hat[1], model.opt.k, k))
        v = world('vloss', y_hat[1], k)
        return TLoss(v) if kind == 'pytorch' else v
    evals = {'acc': lambda y_hat, y: world('acc', y_hat[1], key(y_hat[2], y))}
    kw = dict(evaluate_functions=evals if metric else None,
              evaluate_on_train=on_train, log_dir=log_dir,
              from_checkpoint=resume, verbose='suppress', seed=7)
    if kind == 'quantum':
        t = QuantumTrainer(model, loss, epochs, qopt(world), {}, **kw)
    else:
        t = PytorchTrainer(model, loss, epochs, topt(world), **kw)
        step, vstep = t.training_step, t.validation_step

        def training_step(b):
            model.in_train = True
            return step(b)

        def validation_step(b):
            model.in_train = False
            return vstep(b)
        t.training_step, t.validation_step = training_step, validation_step
    return t


def data(n, b, prefix, shuffle):
    return Dataset([f'{prefix}{i}' for i in range(n)], list(range(n)),
                   batch_size=b, shuffle=shuffle)


def history(t):
    return {k: getattr(t, k) for k in
            ('train_costs', 'train_epoch_costs', 'train_eval_results',
             'val_costs', 'val_eval_results')}


def same(ctx, a, b, msg):
    if isinstance(a, dict):
        ctx.check(a.keys() == b.keys(), msg)
        for k in a:
            same(ctx, a[k], b[k], f'{msg} {k}')
    else:
        ctx.check(len(a) == len(b), f'number of {msg}')
        ok = And(*[abs(x - y) <= 1e-6 for x, y in zip(a, b)])
        ctx.check(ok, msg)


def wmean(xs):
    n = sum(k for k, _ in xs)
    return sum((k * v for k, v in xs), 0) / n


class Reference:
    """What the documentation promises, epoch by epoch."""

    def __init__(self, ctx, world, p):
        self.ctx, self.w, self.p = ctx, world, p

    def run(self, kind, order, val):
        """`order` is the training batches in the order they are used."""
        p, w = self.p, self.w
        h = {'train_costs': [], 'train_epoch_costs': [],
             'train_eval_results': {'acc': []} if p['metric'] else {},
             'val_costs': [],
             'val_eval_results': {'acc': []} if p['metric'] else {}}
        t, best, best_t, running = 0, None, None, []
        per = p['per']
        every = p['every'] * (per if p['mode'] == 'epoch' else 1)
        sign = 1 if p['minimize'] else -1
        since, stop = [], False
        for e in range(p['epochs']):
            ls = []
            for j in range(per):
                b = order[e * per + j]
                k = key(*b)
                loss = w('loss', t, t, k)
                h['train_costs'].append(loss)
                ls.append((len(b[0]), loss))
                if p['metric'] and p['on_train']:
                    running.append((len(b[0]), w('acc', t, k)))
                t += 1
                if t % every == 0:
                    if p['metric'] and p['on_train']:
                        h['train_eval_results']['acc'].append(wmean(running))
                        running = []
                    if val is not None:
                        h['val_costs'].append(wmean(
                            [(len(v[0]), w('vloss', t, key(*v)))
                             for v in val]))
                        if p['metric']:
                            h['val_eval_results']['acc'].append(wmean(
                                [(len(v[0]), w('acc', t, key(*v)))
                                 for v in val]))
                        c = sign * (h['val_eval_results']['acc'][-1]
                                    if p['criterion'] else
                                    h['val_costs'][-1])
                        since.append(c)
                        if best is None or c < best:
                            best, best_t = c, t
                        k = p['patience']
                        if k is not None and len(since) > k:
                            ref = since[-k - 1]
                            stop = bool(And(*[c >= ref
                                              for c in since[-k:]]))
                if stop:
                    break
            h['train_epoch_costs'].append(wmean(ls))
            if stop:
                break
        return h, t, best_t, len(h['train_epoch_costs']), stop


class Recorder:
    """Remember the batches that are handed out."""

    def __init__(self, ds):
        self.ds, self.out = ds, []

    def __len__(self):
        return len(self.ds)

    def __getattr__(self, k):
        return getattr(self.ds, k)

    def __iter__(self):
        for x, y in self.ds:
            self.out.append((list(x), [int(v) for v in y]))
            yield x, y


def fit(t, train, val, p):
    with contextlib.redirect_stderr(io.StringIO()):
        t.fit(train, val, eval_interval=p['every'], eval_mode=p['mode'],
              early_stopping_criterion='acc' if p['criterion'] else None,
              early_stopping_interval=p['patience'],
              minimize_criterion=p['minimize'])


def configs(tier):
    quick = [
        dict(epochs=3, n=2, b=1, every=1, mode='epoch', val=(1, 1),
             patience=None, crit=0),
        dict(epochs=3, n=3, b=2, every=1, mode='epoch', val=(3, 2),
             patience=1, crit=0),
        dict(epochs=3, n=1, b=1, every=1, mode='epoch', val=(1, 1),
             patience=1, crit=-1),
        dict(epochs=4, n=1, b=1, every=1, mode='epoch', val=(1, 1),
             patience=2, crit=1),
        dict(epochs=3, n=3, b=2, every=2, mode='epoch', val=(2, 1),
             patience=None, crit=0),
        dict(epochs=2, n=3, b=1, every=1, mode='step', val=(1, 1),
             patience=2, crit=0),
        dict(epochs=2, n=3, b=2, every=3, mode='step', val=(2, 2),
             patience=None, crit=1),
        dict(epochs=2, n=3, b=1, every=2, mode='step', val=(1, 1),
             patience=1, crit=-1),
        dict(epochs=3, n=2, b=2, every=1, mode='epoch', val=None,
             patience=None, crit=0),
    ]
    out = [dict(kind=k, **c) for c in quick for k in ('quantum', 'pytorch')
           if k == 'quantum' or c['n'] == 3]
    if tier == 'thorough':
        for e in (2, 3, 4, 5):
            for n, b in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 2)):
                for every in (1, 2, 3):
                    for mode in ('epoch', 'step'):
                        for val in ((1, 1), (3, 2)):
                            for pat in (None, 1, 2, 3):
                                for crit in (0, 1, -1):
                                    per = -(-n // b)
                                    ev = e * per // (
                                        every * (per if mode == 'epoch'
                                                 else 1))
                                    if not 2 <= ev <= 5 or e * per > 8 or (
                                            pat and pat >= ev):
                                        continue
                                    for k in ('quantum', 'pytorch'):
                                        out.append(dict(
                                            epochs=e, n=n, b=b, every=every,
                                            mode=mode, val=val, patience=pat,
                                            crit=crit, kind=k))
    return out


@SUITE.case(quick=lambda: configs('quick'),
            thorough=lambda: configs('thorough'))
def training(ctx, kind, epochs, n, b, every, mode, val, patience, crit):
    """Histories, early stopping, best model and resuming."""
    on_train = ctx.choose('on train', [True, False])
    metric = True if crit else ctx.choose('metric', [True, False])
    shuffle = n > 2
    world = World(ctx)
    p = dict(epochs=epochs, per=-(-n // b), every=every, mode=mode,
             patience=patience, metric=metric, on_train=on_train,
             criterion=bool(crit), minimize=crit >= 0)
    cut = ctx.choose('interrupt', [None, *range(1, epochs)])
    root = tempfile.mkdtemp(prefix='m02-')
    state = random.getstate()
    nstate = np.random.get_state()
    try:
        full = build(ctx, world, kind, os.path.join(root, 'full'), epochs,
                     metric, on_train, False)
        train = Recorder(data(n, b, 'd', shuffle))
        v = data(*val, 'v', False) if val else None
        fit(full, train, v, p)
        got = history(full)
        vb = None if v is None else [(list(x), [int(i) for i in y])
                                     for x, y in v]
        # the batches of an epoch that stopped early are not all handed out
        ref, t, best_t, done, stopped = Reference(ctx, world, p).run(
            kind, train.out, vb)
        same(ctx, got, ref, 'history')
        ctx.check(full.model.weights == t, 'number of steps')
        ck = Checkpoint.from_file(os.path.join(root, 'full', 'model.lt'))
        ctx.check(ck['model_weights'] == t and ck['epoch'] == done
                  and ck['step'] == t, 'last model saved')
        best = os.path.join(root, 'full', 'best_model.lt')
        if best_t is None:
            ctx.check(not os.path.exists(best), 'no best model')
        else:
            ck = Checkpoint.from_file(best)
            ctx.check(ck['model_weights'] == best_t, 'best model')
        if cut is None or cut >= done:
            return
        part = os.path.join(root, 'part')
        first = build(ctx, world, kind, part, epochs, metric, on_train,
                      False)
        save = first.save_checkpoint

        def save_and_die(d, log_dir, prefix=''):
            save(d, log_dir, prefix)
            if not prefix and d['epoch'] == cut:
                raise Interrupted
        first.save_checkpoint = save_and_die
        train = Recorder(data(n, b, 'd', shuffle))
        try:
            fit(first, train, v, p)
            ctx.fail('the interruption did not happen')
        except Interrupted:
            pass
        random.seed(99)
        np.random.seed(99)
        second = build(ctx, world, kind, part, epochs, metric, on_train, True)
        train2 = Recorder(data(n, b, 'd', shuffle))
        fit(second, train2, v, p)
        same(ctx, history(second), got, 'resumed history')
        ctx.check(second.model.weights == t, 'resumed steps')
        if best_t is not None:
            ck = Checkpoint.from_file(os.path.join(part, 'best_model.lt'))
            ctx.check(ck['model_weights'] == best_t, 'best model kept when '
                      'resuming')
    finally:
        random.setstate(state)
        np.random.set_state(nstate)
        shutil.rmtree(root, ignore_errors=True)


@SUITE.case(quick=[dict(n=k) for k in range(4)])
def checkpoint(ctx, n):
    """Checkpoints give back what was put in."""
    names = [f'k{i}' for i in range(n)]
    vals = [ctx.real(f'v{i}', -3, 3) for i in range(n)]
    c = Checkpoint()
    c.add_many(dict(zip(names, vals)))
    if n:
        c['k0'] = vals[0]
    root = tempfile.mkdtemp(prefix='m02-')
    try:
        path = os.path.join(root, 'c.lt')
        c.to_file(path)
        d = Checkpoint.from_file(path)
        ctx.check(len(d) == n and sorted(d) == names, 'entries')
        ctx.check(And(*[d[k] == v for k, v in zip(names, vals)]), 'values')
        for missing in ('zz',):
            try:
                d[missing]
                ctx.fail('missing entry')
            except KeyError:
                pass
        try:
            Checkpoint.from_file(os.path.join(root, 'no.lt'))
            ctx.fail('missing file')
        except FileNotFoundError:
            pass
        ctx.check(Or(True, n > 0), 'done')
    finally:
        shutil.rmtree(root, ignore_errors=True)
