"""Helpers shared by the checks (packing values into the container types the API accepts)."""
import numpy as np
from . import gen


def pack(kind, struct, vals):
    import casadi as ca
    a = np.array(vals, float).reshape(-1, 1)
    if kind == 'flat':
        return a.ravel()
    return a if kind == 'np' else ca.DM(a) if kind == 'dm' else struct(a)


def fill(tmpl, entries, vals):
    """Write a flat (declaration order, column-major) vector by variable name into a casadi structure."""
    o = 0
    for n, sh in entries:
        tmpl[n] = np.array(vals[o:o + gen.size(sh)], float).reshape(tuple(sh), order='F')
        o += gen.size(sh)
    return tmpl
