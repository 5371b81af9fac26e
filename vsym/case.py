"""Registry of harnesses."""
from __future__ import annotations

import functools


class Case:
    def __init__(self, cid, fn, params, opts):
        self.cid = cid
        self.fn = fn
        self.params = params
        self.opts = opts

    def harness(self, ctx):
        ctx.case = self
        return self.fn(ctx, **self.params)


class Suite:
    """All harnesses deciding one property."""

    def __init__(self, prop, bounds, assumptions=(), stubs=(), outside=''):
        self.prop = prop
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.stubs = list(stubs)
        self.outside = outside
        self._fns = []

    def case(self, quick=({},), thorough=None, **opts):
        """Decorator. `quick`/`thorough`: parameter dicts (or callables
        returning them), one case each."""
        def deco(fn):
            self._fns.append((fn, quick, thorough, opts))
            return fn
        return deco

    def cases(self, tier):
        out = []
        for fn, quick, thorough, opts in self._fns:
            ps = quick if tier == 'quick' or thorough is None else thorough
            if callable(ps):
                ps = ps()
            for p in ps:
                name = fn.__name__
                if p:
                    name += '[' + ','.join(f'{k}={v}' for k, v in p.items()) \
                        + ']'
                out.append(Case(name, fn, p, opts))
        return out
