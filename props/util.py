from vsym.core import SymInt, SymName
from vsym.lq import atoms, mk


def real_name(ctx, nm, pool):
    """Solver-driven choice of a representative concrete name: forks over
    which earlier name it is equal to."""
    if not isinstance(nm, SymName):
        return nm
    for other, conc in pool:
        if nm == other:
            return conc
    conc = f'nm{len(pool)}'
    pool.append((nm, conc))
    return conc


def real_names(ctx, *tys):
    pool = []
    out = []
    for t in tys:
        parts = []
        for a in atoms(t):
            z = a.z.__index__() if isinstance(a.z, SymInt) else a.z
            parts.append(type(a)(real_name(ctx, a.name, pool), z=z))
        out.append(mk(parts, type(t)))
    return out
