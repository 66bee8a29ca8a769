"""C02: the outer product."""
import itertools

import sympy
from vs import algs, ref
from vs.runner import Task

BOUNDS = 'dimension 1-5 for every pair of basis blades, 1-4 for general multivectors; all metrics of the catalogue incl. fully symbolic 3x3'


def blades(ctx, alg):
    ga = algs.make(ctx, alg)
    a, b = ctx.reals('a b')
    items = ref.blade_items(ga)
    for m1, i1, s1 in items:
        for m2, i2, s2 in items:
            P = ctx.make(ga, a * s1) ^ ctx.make(ga, b * s2)
            s = ref.wedge_sign(m1, m2)
            ctx.claim_eq(P, {m1 | m2: s * a * b} if s else {}, 'wedge of blades %s %s' % (i1, i2))


def general(ctx, alg):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    k = ctx.real('k')
    ctx.claim_eq(A ^ B, ref.wedge(ra, rb), 'A^B')
    ctx.claim_eq(B ^ A, ref.wedge(rb, ra), 'B^A')
    ctx.claim_eq(ctx.make(ga, ga.wedge(A.obj, B.obj)), ref.wedge(ra, rb), 'ga.wedge')
    ctx.claim_eq(ctx.make(ga, ga.Mul(A.obj, B.obj, mode='^')), ref.wedge(ra, rb), 'ga.Mul ^')
    from galgebra.mv import Mv
    ctx.claim_eq(Mv.Mul(A, B, '^'), ref.wedge(ra, rb), 'Mv.Mul ^')
    ctx.claim_eq(A ^ k, ref.scale(k, ra), 'A^scalar')
    ctx.claim_eq(k ^ A, ref.scale(k, ra), 'scalar^A')
    ctx.claim_eq(A ^ ga.mv(k), ref.scale(k, ra), 'A^scalar mv')
    ctx.claim_eq(ga.mv(k) ^ A, ref.scale(k, ra), 'scalar mv^A')
    ctx.claim_eq(2 ^ A, ref.scale(2, ra), 'number^A')
    ctx.claim_eq(A ^ 3, ref.scale(3, ra), 'A^number')


def laws(ctx, alg):
    ga = algs.make(ctx, alg)
    n = ga.n
    for r in range(n + 1):
        A, ra = ctx.mv(ga, 'a', grades=(r,))
        for s in range(n + 1):
            B, rb = ctx.mv(ga, 'b', grades=(s,))
            P = A ^ B
            ctx.claim(all(ref.gr(m) == r + s for m, c in ref.of_mv(P).items() if c != 0), 'grade r+s only')
            ctx.claim_same(P, (-1) ** (r * s) * (B ^ A), 'graded commutation')
            for t in range(n + 1 - r - s):
                C, rc = ctx.mv(ga, 'c', grades=(t,))
                ctx.claim_same(P ^ C, A ^ (B ^ C), 'associative')
                ctx.claim_eq(P ^ C, ref.wedge(ref.wedge(ra, rb), rc), 'triple wedge')


def dets(ctx, alg):
    ga = algs.make(ctx, alg)
    n = ga.n
    vs = [ctx.vec(ga, 'abcde'[i]) for i in range(n)]
    W, M = ga.mv(1), []
    for v, r in vs:
        W = W ^ v
        M.append([r[1 << j] for j in range(n)])
        ctx.claim_eq(v ^ v, {}, 'v^v')
    ctx.claim_eq(W, {(1 << n) - 1: sympy.expand(sympy.Matrix(M).det(method='berkowitz'))}, 'wedge of n vectors is det*E')
    ctx.claim_same(W, sympy.expand(sympy.Matrix(M).det(method='berkowitz')) * ga.E(), 'det*E()')
    ctx.claim_eq(W ^ vs[0][0], {}, 'n+1 vectors')
    # basis vectors in any order
    es = ga.mv_basis
    for p in itertools.product(range(n), repeat=min(n, 4)):
        P, R = ga.mv(1), {0: 1}
        for i in p:
            P = P ^ es[i]
            R = ref.wedge(R, {1 << i: 1})
        ctx.claim_eq(P, R, 'ordering of basis vectors')


def reduce_sym(ctx, length, dim):
    """sign of the sorting permutation: any list of indices"""
    from galgebra.ga import Ga
    for w in itertools.product(range(dim), repeat=length):
        s, l = Ga.blade_reduce(list(w))
        R = {0: 1}
        for i in w:
            R = ref.wedge(R, {1 << i: 1})
        if not ref.clean(R):
            ctx.claim_zero(s, 'repeated index gives zero')
        else:
            (m, c), = R.items()
            ctx.claim_zero(s - c, 'sign of ordering')
            ctx.claim(list(l) == [i for i in range(dim) if m >> i & 1], 'sorted')


def numeric(ctx, alg, grades):
    """values of coefficients may be any numbers, including zero"""
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=grades)
    B, rb = ctx.mv(ga, 'b', grades=(1,))
    ctx.claim_eq(A ^ B, ref.wedge(ra, rb), 'A^B')
    ctx.claim_eq(B ^ A, ref.wedge(rb, ra), 'B^A')


def tasks(tier):
    T = []
    for a in ['E1', 'D1', 'S2', 'S3', 'M3', 'D3', 'PGA3', 'STA', 'S4', 'G2', 'G3', 'NM2', 'ND2', 'NL3', 'NE3', 'NX3', 'CGA2', 'NX4', 'E5']:
        T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=4 if a[-1] in '45' else 1))
    for a in ['E1', 'S2', 'S3', 'STA', 'G2', 'G3', 'NL3', 'ND2', 'CGA2', 'PGA3']:
        T.append(Task('general-' + a, general, params=dict(alg=a), weight=4))
    for a in ['S3', 'G3', 'STA', 'CGA2', 'NL3']:
        T.append(Task('laws-' + a, laws, params=dict(alg=a), weight=4))
    for a in ['S1', 'S2', 'G2', 'E3', 'G3', 'STA', 'CGA2']:
        T.append(Task('dets-' + a, dets, params=dict(alg=a), weight=4))
    for a, g in [('M2', (0, 1, 2)), ('NM2', (0, 1, 2)), ('E3', (1,))]:
        T.append(Task('numeric-' + a, numeric, 'num', params=dict(alg=a, grades=g), weight=4))
    T.append(Task('reduce', reduce_sym, params=dict(length=4, dim=6)))
    if tier == 'thorough':
        for a in ['M41', 'G4']:
            T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=9, timeout=3000))
            T.append(Task('laws-' + a, laws, params=dict(alg=a), weight=9, timeout=3000))
        T.append(Task('general-E5', general, params=dict(alg='E5'), weight=9, timeout=3000))
        T.append(Task('dets-E5', dets, params=dict(alg='E5'), weight=9, timeout=3000))
        T.append(Task('reduce6', reduce_sym, params=dict(length=6, dim=6), weight=9, timeout=3000))
    return T
