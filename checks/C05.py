"""C05: base and blade representations denote the same multivector."""
import itertools

from vs import algs, ref
from vs.runner import Task

BOUNDS = ('non-orthogonal metrics (numeric, degenerate, null, fully symbolic) of dimension 2-4, every blade; unary and binary operations with '
          'every combination of operand representations in dimension 2-3')
ASSUMPTIONS = ['a base symbol denotes the geometric product of its basis vectors, a blade symbol their outer product']


def blades(ctx, alg):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    k = ctx.real('k')
    for m, i, b in ref.blade_items(ga):
        B = ctx.make(ga, k * b)
        base = B.base_rep()
        ctx.claim_eq(base, {m: k}, 'base rep of blade')
        back = base.blade_rep()
        ctx.claim_eq(back, {m: k}, 'back to blade rep')
        ctx.claim(back.is_blade_rep, 'flag after blade_rep')
        ctx.claim(not any(type(x).__name__.startswith('BasisBase') for x in back.obj.atoms(type(ga.basis[0]).__mro__[1]) | set(back.obj.args) | back.obj.atoms()),
                  'blade rep contains no base symbol')
        ctx.claim_eq(ctx.make(ga, ga.blade_to_base_rep(k * b)), {m: k}, 'ga.blade_to_base_rep')
    for idx, base in zip(ga.indexes.flat, ga.bases.flat):
        R = {0: 1}
        for j in idx:
            R = al.mul(R, {1 << j: 1})
        P = ga.mv(1)
        for j in idx:
            P = P * ga.mv_basis[j]
        ctx.claim_eq(P, R, 'base is the product of its vectors')
        ctx.claim_eq(ctx.make(ga, ga.base_to_blade_rep(k * base)).blade_rep(), ref.scale(k, R), 'ga.base_to_blade_rep')
        Q = ga.mv(base)
        ctx.claim_eq(Q, R, 'base as multivector')
        ctx.claim_eq(Q.blade_rep(), R, 'blade_rep of base')
        ctx.claim_same(Q, P, 'equal to the product')
    for b1, b2 in itertools.product(ga.bases.flat, repeat=2):
        if ga.n <= 3 and not (b1 == 1 or b2 == 1):
            ctx.claim_eq(ctx.make(ga, ga.basic_mul(b1, b2)), al.mul(ref.of_obj(b1, ga), ref.of_obj(b2, ga)), 'base table')


def expansion(ctx, alg):
    """the expansion dictionaries are inverse to each other"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    for m, i, b in ref.blade_items(ga):
        if len(i) >= 1:
            ctx.claim_eq(ref.of_obj(ga.blade_expansion_dict[b], ga), {m: 1}, 'blade expansion')
    for base in ga.bases.flat:
        if base != 1:
            ctx.claim_eq(ref.of_obj(ga.base_expansion_dict[base], ga), ref.of_obj(base, ga), 'base expansion')


UN = {
    'rev': lambda A: A.rev(), 'g_invol': lambda A: A.g_invol(), 'ccon': lambda A: A.ccon(), 'even': lambda A: A.even(), 'odd': lambda A: A.odd(),
    'neg': lambda A: -A, 'grade0': lambda A: A.grade(0), 'grade1': lambda A: A.grade(1), 'grade2': lambda A: A.grade(2), 'blade_rep': lambda A: A.blade_rep(),
    'base_rep': lambda A: A.base_rep(), 'scalar': lambda A: A.scalar(), 'times2': lambda A: 2 * A, 'pow2': lambda A: A ** 2, 'pow3': lambda A: A ** 3,
    'simplify': lambda A: A.simplify(), 'expand': lambda A: A.expand(), 'collect': lambda A: A.collect(), 'qform': lambda A: A.qform(),
    'sum of components': lambda A: sum(A.components(), 0 * A), 'vector part from list': lambda A: A.Ga.mv(list(A.grade(1).list()), 'vector'),
    'blade_coefs': lambda A: sum((c * b for c, b in zip(A.blade_coefs(), A.Ga.mv_blades.flat)), 0 * A),
    'coef list': lambda A: A.Ga.mv(list(A.list()), 'vector'),
    'proj': lambda A: A.proj([A.Ga.mv_blades.flat[1], A.Ga.mv_blades.flat[-1]]),
    'copy': lambda A: A.Ga.mv(A),
    'decomposition': lambda A: sum(A.Ga.grade_decomposition(A).values(), 0 * A),
}
BIN = {
    '*': lambda A, B: A * B, '^': lambda A, B: A ^ B, '|': lambda A, B: A | B, '<': lambda A, B: A < B, '>': lambda A, B: A > B,
    '+': lambda A, B: A + B, '-': lambda A, B: A - B, '>>': lambda A, B: A >> B, '<<': lambda A, B: A << B, 'sp': lambda A, B: A.sp(B),
    'sprev': lambda A, B: A.sp(B, 'rev'),
}


def unary(ctx, alg, op):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    want = UN[op](A)
    got = UN[op](A.base_rep())
    ctx.claim_same(got, want, op)


def binary(ctx, alg, op, gA=None, gB=None):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=gA)
    B, rb = ctx.mv(ga, 'b', grades=gB)
    want = BIN[op](A, B)
    for x in (0, 1):
        for y in (0, 1):
            if x or y:
                P = BIN[op](A.base_rep() if x else A, B.base_rep() if y else B)
                ctx.claim_same(P, want, '%s of %s and %s' % (op, 'base' if x else 'blade', 'base' if y else 'blade'))
    if op in '+-*':
        k = ctx.real('k')
        ctx.claim_same(BIN[op](A.base_rep(), k), BIN[op](A, k), op + ' scalar')
        if op != '*':
            ctx.claim_same(BIN[op](k, A.base_rep()), BIN[op](k, A), 'scalar ' + op)


def preds(ctx, alg):
    """equality and predicates of base representations"""
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    ctx.claim(A == A.base_rep(), 'A == base rep of A')
    ctx.claim(A.base_rep() == A, 'base rep of A == A')
    ctx.claim(A.base_rep() == A.base_rep(), 'base == base')
    ctx.claim(not (A == B.base_rep()), 'different')
    for m, i, b in ref.blade_items(ga):
        X = ctx.make(ga, b)
        ctx.claim(X == X.base_rep(), 'blade == its base rep')
        ctx.claim(X.base_rep().is_scalar() == X.is_scalar(), 'is_scalar')
        ctx.claim(X.base_rep().is_vector() == X.is_vector(), 'is_vector')
        ctx.claim(X.base_rep().is_zero() == X.is_zero(), 'is_zero')
        ctx.claim(X.base_rep().pure_grade() == X.pure_grade(), 'pure_grade')
        ctx.claim(X.base_rep().is_blade() == X.is_blade(), 'is_blade')


def fresh(ctx, alg):
    """multivectors made from base symbols, asked for their grades before any conversion"""
    ga = algs.make(ctx, alg)
    for base in ga.bases.flat:
        want = ref.clean(ref.of_obj(base, ga))
        gs = {ref.gr(m) for m in want}
        n = len(gs)
        ctx.claim(ga.mv(base).pure_grade() == (max(gs) if n == 1 else -max(gs)), 'pure_grade of base')
        ctx.claim(ga.grades(base) == sorted(gs), 'grades of base')
        if n > 1:
            ctx.claim(not ga.mv(base).is_blade(), 'is_blade of base')
        for r in range(ga.n + 1):
            ctx.claim_eq(ga.mv(base).grade(r), ref.grade(want, r), 'grade of base')
            ctx.claim_eq(ga.mv(base)[r], ref.grade(want, r), 'getitem of base')
        ctx.claim_zero(ga.mv(base).scalar() - want.get(0, 0), 'scalar of base')
        ctx.claim(set(ga.grade_decomposition(ga.mv(base))) == gs, 'decomposition keys')


def geometry(ctx, alg):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=(1, 2))
    v, rv = ctx.mv(ga, 'v', grades=(1,))
    ctx.claim_same(A.base_rep().project_in_blade(v), A.project_in_blade(v), 'project base')
    ctx.claim_same(A.project_in_blade(v.base_rep()), A.project_in_blade(v), 'project in base')
    ctx.claim_same(A.base_rep().reflect_in_blade(v), A.reflect_in_blade(v), 'reflect base')
    ctx.claim_same(A.reflect_in_blade(v.base_rep()), A.reflect_in_blade(v), 'reflect in base')
    ctx.claim_zero(A.base_rep().qform() - A.qform(), 'qform')
    ctx.claim_same(A.base_rep().undual(), A.undual(), 'undual')


def inverses(ctx, alg):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=(1,))
    ctx.claim_same(A.base_rep().inv(), A.inv(), 'inverse of vector')
    V = A * ctx.vec(ga, 'b')[0]
    ctx.claim_same(V.base_rep().inv(), V.inv(), 'inverse of versor')
    ctx.claim_same((V.base_rep() / A.base_rep()), V / A, 'division')
    ctx.claim_same(V.base_rep().dual(), V.dual(), 'dual')


def tasks(tier):
    T = []
    for a in ['G2', 'NM2', 'ND2', 'NE2', 'NX2', 'G3', 'NL3', 'NE3', 'NX3', 'ND3', 'NB3', 'T3', 'CGA1', 'CGA2', 'NI4', 'NX4']:
        T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=5))
        T.append(Task('expansion-' + a, expansion, params=dict(alg=a), weight=2))
    for a in ['G2', 'NX3']:
        for op in UN:
            if a == 'NX3' and op == 'pow3':
                continue
            T.append(Task('unary-%s-%s' % (a, op), unary, params=dict(alg=a, op=op), weight=2))
    for a in ['G2', 'NL3', 'NX3']:
        for op in BIN:
            T.append(Task('binary-%s-%s' % (a, op), binary, params=dict(alg=a, op=op), weight=4))
    for a in ['G2', 'NL3', 'NX3', 'ND2']:
        T.append(Task('preds-' + a, preds, params=dict(alg=a), weight=2))
    for a in ['G2', 'NX3', 'NM2']:
        T.append(Task('inverses-' + a, inverses, params=dict(alg=a), weight=2))
    for a in ['NE2', 'NX3', 'NL3', 'CGA1', 'ND3']:
        T.append(Task('fresh-' + a, fresh, params=dict(alg=a), weight=2))
    for a in ['G2', 'NX3', 'NL3']:
        T.append(Task('geometry-' + a, geometry, params=dict(alg=a), weight=3))
    if tier == 'thorough':
        T.append(Task('blades-G4', blades, params=dict(alg='G4'), weight=9, timeout=3000))
        for op in BIN:
            T.append(Task('binary-G3-%s' % op, binary, params=dict(alg='G3', op=op), weight=9, timeout=3000))
            T.append(Task('binary-CGA2-%s' % op, binary, params=dict(alg='CGA2', op=op), weight=9, timeout=3000))
        for op in UN:
            T.append(Task('unary-G3-%s' % op, unary, params=dict(alg='G3', op=op), weight=9, timeout=3000))
    return T
