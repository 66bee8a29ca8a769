"""C01: the geometric product is the Clifford product of the metric."""
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('dimension 1-4 (5 for basis-blade pairs and random-free sparse operands), every ordered pair of basis blades; '
          'general multivectors with arbitrary real coefficients; symbolic diagonal metrics and full symbolic metrics up to dimension 3')


def blades(ctx, alg):
    """every ordered pair of basis blades, coefficients and metric entries arbitrary"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    a, b = ctx.reals('a b')
    items = ref.blade_items(ga)
    for m1, i1, s1 in items:
        for m2, i2, s2 in items:
            P = ctx.make(ga, a * s1) * ctx.make(ga, b * s2)
            ctx.claim_eq(P, ref.scale(a * b, al.bb(m1, m2)), 'product of blades %s %s' % (i1, i2))


def general(ctx, alg, ga_=None, gb=None):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=ga_)
    B, rb = ctx.mv(ga, 'b', grades=gb)
    ctx.claim_eq(A * B, al.mul(ra, rb), 'A*B')
    ctx.claim_eq(B * A, al.mul(rb, ra), 'B*A')
    ctx.claim_eq(ctx.make(ga, ga.mul(A.obj, B.obj)), al.mul(ra, rb), 'ga.mul')
    ctx.claim_eq(ctx.make(ga, ga.Mul(A.obj, B.obj)), al.mul(ra, rb), 'ga.Mul')
    ctx.claim_eq((A * B).rev(), al.mul(ref.rev(rb), ref.rev(ra)), 'reverse of a product')
    ctx.claim_eq(B.rev() * A.rev(), al.mul(ref.rev(rb), ref.rev(ra)), 'product of reverses')
    ctx.claim_eq(A * 1, ra, 'right unit')
    ctx.claim_eq(1 * A, ra, 'left unit')
    ctx.claim_eq(A * ga.mv(1), ra, 'right unit multivector')
    ctx.claim_eq(ga.mv(1) * A, ra, 'left unit multivector')


def laws(ctx, alg, gA=None, gB=None, gC=None):
    """associativity, distributivity over real products of the library"""
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=gA)
    B, rb = ctx.mv(ga, 'b', grades=gB)
    C, rc = ctx.mv(ga, 'c', grades=gC)
    ctx.claim_same((A * B) * C, A * (B * C), 'associative')
    ctx.claim_same((A + B) * C, A * C + B * C, 'left distributive')
    ctx.claim_same(C * (A + B), C * A + C * B, 'right distributive')


def words(ctx, alg, length):
    """products of vectors, and of basis vectors in any order with repetition"""
    import itertools
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    es = ga.mv_basis
    v, rv = ctx.vec(ga, 'v')
    ctx.claim_eq(v * v, {0: sum(rv[1 << i] * rv[1 << j] * al.g[i, j] for i in range(al.n) for j in range(al.n))}, 'v*v')
    for w in itertools.product(range(al.n), repeat=length):
        P, R = ga.mv(1), {0: 1}
        for i in w:
            P = P * es[i]
            R = al.mul(R, {1 << i: 1})
        ctx.claim_eq(P, R, 'word')
        Q = es[w[-1]]
        for i in reversed(w[:-1]):
            Q = es[i] * Q
        ctx.claim_eq(Q, R, 'word from the right')


def reduce_words(ctx, alg, length):
    """reduction of arbitrary index words to normal form in the base representation"""
    import itertools
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    for L in range(length + 1):
        for w in itertools.product(range(al.n), repeat=L):
            coefs, words = ga.reduce_basis(list(w))
            tot = {}
            for c, x in zip(coefs, words):
                t = {0: 1}
                for i in x:
                    t = al.mul(t, {1 << i: 1})
                tot = ref.add(tot, ref.scale(c, t))
                ctx.claim(list(x) == sorted(set(x)), 'normal order')
            R = {0: 1}
            for i in w:
                R = al.mul(R, {1 << i: 1})
            ctx.claim_eq(tot, R, 'reduced word')


def tasks(tier):
    T = []
    pairs = ['E1', 'L1', 'D1', 'S1', 'S2', 'S3', 'S4', 'E3', 'M3', 'D3', 'Z2', 'STA', 'PGA3', 'W3', 'G1', 'G2', 'G3', 'NM2', 'ND2', 'NL3', 'NE3', 'NX3', 'NB3', 'CGA1', 'CGA2', 'NI4']
    for a in pairs:
        T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=3))
    for a in ['S1', 'S2', 'S3', 'D2', 'G2', 'NM2', 'ND2', 'NL3', 'T3']:
        T.append(Task('general-' + a, general, params=dict(alg=a), weight=3))
    T.append(Task('general-S4', general, params=dict(alg='S4'), weight=6))
    T.append(Task('general-G3', general, params=dict(alg='G3'), weight=6))
    for a in ['S2', 'G2', 'NM2', 'S3']:
        T.append(Task('laws-' + a, laws, params=dict(alg=a), weight=5))
    T.append(Task('laws-vbv-G3', laws, params=dict(alg='G3', gA=[1], gB=[2], gC=[1]), weight=5))
    T.append(Task('laws-NL3', laws, params=dict(alg='NL3', gA=[0, 1], gB=[2, 3], gC=[1, 2]), weight=5))
    T.append(Task('laws-CGA2', laws, params=dict(alg='CGA2', gA=[1], gB=[1], gC=[2]), weight=5))
    for a, l in [('S2', 4), ('S3', 4), ('G2', 4), ('G3', 3), ('NX3', 4)]:
        T.append(Task('words-' + a, words, params=dict(alg=a, length=l), weight=4))
    for a, l in [('G2', 5), ('G3', 4), ('NX4', 4)]:
        T.append(Task('reduce-' + a, reduce_words, params=dict(alg=a, length=l), weight=4))
    if tier == 'thorough':
        for a in ['S5', 'G4', 'NX4', 'M41']:
            T.append(Task('blades-' + a, blades, params=dict(alg=a), weight=9, timeout=3000))
        for a in ['CGA2', 'NX4', 'G3']:
            T.append(Task('generalx-' + a, general, params=dict(alg=a), weight=9, timeout=3000))
        T.append(Task('laws-G3', laws, params=dict(alg='G3', gA=[1, 2], gB=[1, 2], gC=[1, 2]), weight=9, timeout=3000))
        T.append(Task('laws-S4', laws, params=dict(alg='S4', gA=[1, 2], gB=[2, 3], gC=[1, 4]), weight=9, timeout=3000))
    return T
