"""Metrics the harnesses range over.  Entries named g* are symbolic (any value)."""
import sympy
from sympy import Rational as R, S

NUM = {
    'E1': [1], 'E2': [1, 1], 'E3': [1, 1, 1], 'E4': [1] * 4, 'E5': [1] * 5,
    'L1': [-1], 'M2': [1, -1], 'A2': [-1, -1], 'M3': [1, 1, -1], 'A3': [-1, -1, -1], 'STA': [1, -1, -1, -1],
    'M22': [1, 1, -1, -1], 'M31': [1, 1, 1, -1], 'W3': [2, -3, R(1, 2)], 'M41': [1, 1, 1, 1, -1],
    'D1': [0], 'D2': [0, 1], 'D3': [0, 1, -1], 'DD3': [0, 0, 1], 'PGA3': [0, 1, 1, 1], 'Z2': [0, 0],
    'NE2': [[1, R(1, 2)], [R(1, 2), 1]], 'NM2': [[0, -1], [-1, 0]], 'ND2': [[1, 1], [1, 1]], 'NX2': [[2, 1], [1, -1]],
    'NE3': [[1, R(1, 2), 0], [R(1, 2), 1, R(1, 3)], [0, R(1, 3), 1]],
    'NL3': [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    'NX3': [[2, 1, -1], [1, -1, 3], [-1, 3, 0]],
    'ND3': [[1, 1, 0], [1, 1, 0], [0, 0, 1]],
    'CGA1': [[1, 0, 0], [0, 0, -1], [0, -1, 0]],
    'CGA2': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1], [0, 0, -1, 0]],
    'NB3': [[1, 0, 2], [0, 1, 0], [2, 0, -1]],
    'NI4': [[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]],
    'NX4': [[1, 1, 0, 2], [1, -1, 1, 0], [0, 1, 2, 1], [2, 0, 1, 0]],
}


def metric(ctx, name):
    """numeric metric, or symbolic: 'Sn' diagonal symbols, 'Gn' full symmetric symbols, 'Bn' block symbolic"""
    if name in NUM:
        g = NUM[name]
        n = len(g)
        if isinstance(g[0], list):
            return sympy.Matrix(g)
        return sympy.diag(*g) if n else sympy.Matrix(0, 0, [])
    kind, n = name[0], int(name[1:])
    if kind == 'S':
        return sympy.diag(*[ctx.real('g%d' % (i + 1), nonzero=True) for i in range(n)])
    if kind == 'T':     # first diagonal entries symbolic, nonzero one off diagonal pair
        m = sympy.diag(*[ctx.real('g%d' % (i + 1)) for i in range(n)])
        m[0, 1] = m[1, 0] = ctx.real('g12')
        return m
    if kind == 'G':
        m = sympy.zeros(n, n)
        for i in range(n):
            for j in range(i, n):
                m[i, j] = m[j, i] = ctx.real('g%d%d' % (i + 1, j + 1))
        return m
    raise KeyError(name)


def make(ctx, name, **kw):
    from galgebra.ga import Ga
    g = metric(ctx, name)
    n = g.shape[0]
    basis = kw.pop('basis', None) or ('e*' + '|'.join(str(i + 1) for i in range(n)))
    return Ga(basis, g=g, **kw)
