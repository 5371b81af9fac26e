"""Reference semantics (independent of the code under test): tensors with one
axis per input wire followed by one axis per output wire."""
import itertools

import numpy as np

from vsym.core import EngineError


def obj(a):
    return np.asarray(a)


def eye(dims):
    """Identity tensor on the given wires."""
    n = int(np.prod(dims)) if dims else 1
    return np.eye(n, dtype=int).reshape(tuple(dims) * 2)


def then(a, ni, b, nm):
    """a: ni inputs, nm outputs; b: nm inputs."""
    if nm == 0:
        return np.multiply.outer(a, b) if a.shape or b.shape else \
            np.asarray(a * b)
    return np.tensordot(a, b, axes=(list(range(ni, ni + nm)),
                                    list(range(nm))))


def par(a, ai, b, bi):
    """Tensor product; ai, bi = number of inputs."""
    r = np.asarray(np.multiply.outer(a, b))
    an, bn = a.ndim, b.ndim
    order = ([*range(ai)] + [an + i for i in range(bi)]
             + [*range(ai, an)] + [an + i for i in range(bi, bn)])
    return r.transpose(order) if r.ndim else r


def dag(a, ni):
    a = np.conjugate(a) if a.dtype != object else _conj(a)
    return a.transpose([*range(ni, a.ndim), *range(ni)])


def _conj(a):
    out = np.empty(a.size, dtype=object)
    for i, x in enumerate(a.ravel()):
        out[i] = x.conjugate()
    return out.reshape(a.shape)


def conj(a):
    return np.conjugate(a) if a.dtype != object else _conj(a)


def rot(a, ni):
    """Rotation by an odd amount: conjugate, wires in reverse order."""
    return conj(a).transpose([*reversed(range(ni)),
                              *reversed(range(ni, a.ndim))])


def perm(dims, p):
    """Output wire i is input wire p[i]."""
    n = len(dims)
    a = eye(dims)
    return a.transpose([*range(n), *[n + i for i in p]])


def delta(d, k):
    """Copy tensor with k legs (k = 0: the dimension)."""
    if k == 0:
        return np.asarray(d)
    a = np.zeros((d,) * k, dtype=int)
    for i in range(d):
        a[(i,) * k] = 1
    return a


def cup(dims):
    """Nested cup on dims and reversed dims (no outputs): a tensor with
    2n axes."""
    n = len(dims)
    a = eye(dims)
    return a.transpose([*range(n), *reversed(range(n, 2 * n))])


def layer(left, a, ni, right):
    l, r = eye(left), eye(right)
    return par(par(l, len(left), a, ni), len(left) + ni, r, len(right))
