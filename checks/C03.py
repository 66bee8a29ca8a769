"""C03: inner products, contractions, scalar product, commutators."""
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('every ordered pair of basis blades in dimension 1-4 (5 thorough), general multivectors in dimension 1-4, '
          'orthogonal, non-orthogonal, degenerate, symbolic metrics')


def _all(ctx, ga, al, A, ra, B, rb, tag):
    ctx.claim_eq(A | B, al.dot(ra, rb), 'A|B ' + tag)
    ctx.claim_eq(A < B, al.lc(ra, rb), 'A<B ' + tag)
    ctx.claim_eq(A > B, al.rc(ra, rb), 'A>B ' + tag)


def blades(ctx, alg):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    a, b = ctx.reals('a b')
    items = ref.blade_items(ga)
    for m1, i1, s1 in items:
        for m2, i2, s2 in items:
            A, B = ctx.make(ga, a * s1), ctx.make(ga, b * s2)
            tag = '%s %s' % (i1, i2)
            _all(ctx, ga, al, A, {m1: a}, B, {m2: b}, tag)
            ctx.claim_eq({0: A.sp(B)}, al.sp({m1: a}, {m2: b}), 'sp ' + tag)


def general(ctx, alg, gA=None, gB=None):
    from galgebra.mv import Mv
    import galgebra.mv as mvmod
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=gA)
    B, rb = ctx.mv(ga, 'b', grades=gB)
    k = ctx.real('k')
    _all(ctx, ga, al, A, ra, B, rb, 'general')
    _all(ctx, ga, al, B, rb, A, ra, 'general swapped')
    for op, f in (('|', al.dot), ('<', al.lc), ('>', al.rc), ('*', al.mul)):
        ctx.claim_eq(Mv.Mul(A, B, op), f(ra, rb), 'Mv.Mul ' + op)
        ctx.claim_eq(ctx.make(ga, ga.Mul(A.obj, B.obj, mode=op)), f(ra, rb), 'ga.Mul ' + op)
    for name, f in (('hestenes_dot', al.dot), ('left_contract', al.lc), ('right_contract', al.rc), ('scalar_product', al.sp)):
        ctx.claim_eq(ctx.make(ga, getattr(ga, name)(A.obj, B.obj)), f(ra, rb), 'ga.' + name)
    for mode, f in (('|', al.dot), ('<', al.lc), ('>', al.rc)):
        ga.dot_mode = mode
        ctx.claim_eq(ctx.make(ga, ga.dot(A.obj, B.obj)), f(ra, rb), 'ga.dot with dot_mode ' + mode)
    ga.dot_mode = '|'
    ctx.claim_eq({0: A.sp(B)}, al.sp(ra, rb), 'sp')
    ctx.claim_eq({0: A.sp(B, 'rev')}, al.sp(ref.rev(ra), rb), 'sp rev')
    ctx.claim_eq({0: mvmod.sp(A, B)}, al.sp(ra, rb), 'mv.sp')
    ctx.claim_eq({0: mvmod.sp(A, B, 'rev')}, al.sp(ref.rev(ra), rb), 'mv.sp rev')
    ctx.claim_eq(A >> B, al.comm(ra, rb), 'A>>B')
    ctx.claim_eq(A << B, al.acomm(ra, rb), 'A<<B')
    ctx.claim_eq(B >> A, al.comm(rb, ra), 'B>>A')
    # scalar operands
    ctx.claim_eq(A | k, {}, 'A|scalar')
    ctx.claim_eq(k | A, {}, 'scalar|A')
    ctx.claim_eq(A | ga.mv(k), {}, 'A|scalar mv')
    ctx.claim_eq(ga.mv(k) | A, {}, 'scalar mv|A')
    ctx.claim_eq(A < k, ref.scale(k, ref.grade(ra, 0)), 'A<scalar')
    ctx.claim_eq(A > k, ref.scale(k, ra), 'A>scalar')
    ctx.claim_eq(ga.mv(k) < A, ref.scale(k, ra), 'scalar mv<A')
    ctx.claim_eq(A > ga.mv(k), ref.scale(k, ra), 'A>scalar mv')
    ctx.claim_eq(ga.mv(k) > A, ref.scale(k, ref.grade(ra, 0)), 'scalar mv>A')
    ctx.claim_eq(A < ga.mv(k), ref.scale(k, ref.grade(ra, 0)), 'A<scalar mv')
    ctx.claim_eq(A >> k, {}, 'A>>scalar')
    ctx.claim_eq(A << k, ref.scale(k, ra), 'A<<scalar')
    if ga.n <= 3:
        A0 = A * 0
        ctx.claim_eq(A0 | B, {}, 'zero|B')
        ctx.claim_eq(B < A0, {}, 'B<zero')
        ctx.claim_eq(A0 > B, {}, 'zero>B')


def cross(ctx, alg):
    """module level commutator"""
    from galgebra.ga import Ga
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    ctx.claim_eq(Ga.com(A, B), al.comm(ra, rb), 'Ga.com')


def grade_laws(ctx, alg):
    """the products of homogeneous operands have exactly the announced grade"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    for r in range(ga.n + 1):
        A, ra = ctx.mv(ga, 'a', grades=(r,))
        for s in range(ga.n + 1):
            B, rb = ctx.mv(ga, 'b', grades=(s,))
            P = A * B
            ctx.claim_same(A < B, P.grade(s - r) if s >= r else 0 * A, 'A<B is grade part')
            ctx.claim_same(A > B, P.grade(r - s) if r >= s else 0 * A, 'A>B is grade part')
            ctx.claim_same(A | B, P.grade(abs(r - s)) if r and s else 0 * A, 'A|B is grade part')
            ctx.claim_same(A ^ B, P.grade(r + s), 'A^B is grade part')
            _all(ctx, ga, al, A, ra, B, rb, 'grades %d %d' % (r, s))


def numeric(ctx, alg, gA, gB):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=gA)
    B, rb = ctx.mv(ga, 'b', grades=gB)
    _all(ctx, ga, al, A, ra, B, rb, 'numbers')
    ctx.claim_eq(A >> B, al.comm(ra, rb), 'A>>B')


def tasks(tier):
    T = []
    for a in ['E1', 'D1', 'G1', 'S2', 'S3', 'S4', 'M3', 'D3', 'STA', 'PGA3', 'W3', 'Z2', 'G2', 'G3', 'NM2', 'ND2', 'NL3', 'NE3', 'NX3', 'ND3', 'NB3', 'CGA1', 'CGA2', 'NI4']:
        T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=5 if a[-1] in '4' or a in ('STA', 'PGA3', 'CGA2', 'G3') else 1))
    for a in ['S1', 'S2', 'S3', 'G2', 'NM2', 'D2', 'NL3', 'T3', 'M3']:
        T.append(Task('general-' + a, general, params=dict(alg=a), weight=5))
    T.append(Task('general-STA', general, params=dict(alg='STA', gA=[0, 1, 2, 4], gB=[1, 2, 3]), weight=8))
    T.append(Task('general-CGA2', general, params=dict(alg='CGA2', gA=[0, 1, 2], gB=[0, 1, 3]), weight=8))
    for a in ['S3', 'S2', 'G2', 'NX3', 'STA', 'G3', 'CGA2']:
        T.append(Task('grades-' + a, grade_laws, params=dict(alg=a), weight=5))
    for a in ['S2', 'G2', 'NL3']:
        T.append(Task('cross-' + a, cross, params=dict(alg=a)))
    T.append(Task('numeric-M2', numeric, 'num', params=dict(alg='M2', gA=(0, 1), gB=(1,))))
    T.append(Task('numeric-NM2', numeric, 'num', params=dict(alg='NM2', gA=(1,), gB=(1, 2))))
    if tier == 'thorough':
        for a in ['S5', 'M41', 'NX4', 'G4']:
            T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=9, timeout=3000))
        for a in ['S4', 'CGA2', 'NX4', 'G3']:
            T.append(Task('generalx-' + a, general, params=dict(alg=a), weight=9, timeout=3000))
        for a in ['S4', 'NX4', 'E5']:
            T.append(Task('grades-' + a, grade_laws, params=dict(alg=a), weight=9, timeout=3000))
    return T
