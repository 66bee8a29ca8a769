"""C08: duality and pseudoscalars."""
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

MODES = ['+I', 'I+', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']
BOUNDS = ('general multivectors (every blade, arbitrary coefficients) in dimension 1-5 (sign of I^2 +, -) over numeric, symbolic diagonal, full symbolic, '
          'curvilinear and normalised metrics; all eight modes; both Isq hints')
ASSUMPTIONS = ['metrics whose determinant has no known sign: the Isq hint given at construction is correct (that is its documented meaning)']


def build(ctx, alg, Isq=None):
    kw = {} if Isq is None else dict(Isq=Isq)
    if alg in ('sph', 'sphn', 'cyl', 'polar', 'oblique'):
        from galgebra.ga import Ga
        if alg == 'polar':
            u = sympy.symbols('r th', real=True)
            return Ga('e_r e_th', g=[1, u[0] ** 2], coords=u, norm=True, **kw)
        if alg == 'oblique':
            u = sympy.symbols('u v', real=True)
            return Ga('e_u e_v', g=[[1, u[0]], [u[0], 1 + 2 * u[0] ** 2]], coords=u, **kw)
        r, th, ph = u = sympy.symbols('r th phi', real=True)
        g = [1, r ** 2, r ** 2 * sympy.sin(th) ** 2] if alg != 'cyl' else [1, r ** 2, 1]
        return Ga('e_r e_th e_ph', g=g, coords=u, norm=alg == 'sphn', **kw)
    return algs.make(ctx, alg, **kw)


def pseudo(ctx, ga):
    """I as a reference multivector, its inverse; claims about them"""
    al = ref.alg(ga)
    ctx.claim_eq(ga.E(), {al.full: 1}, 'E is the wedge of the basis vectors')
    I = ref.of_mv(ga.I(), al)
    c = I.get(al.full, 0)
    ctx.claim(set(ref.clean(I)) == {al.full}, 'I is a multiple of E')
    ctx.claim_sign(c, '>', 'I is a positive multiple of E')
    sq = al.mul(I, I).get(0, 0)
    ctx.claim_all_zero([sq ** 2 - 1], 'I*I is +1 or -1')
    ctx.claim_all_zero([sympy.expand(v) for m, v in al.mul(I, I).items() if m], 'I*I is a scalar')
    ctx.claim_eq(ga.I() * ga.I(), {0: sq}, 'I*I')
    ctx.claim_eq(ga.I() * ga.i_inv, {0: 1}, 'I*Iinv')
    ctx.claim_eq(ga.i_inv * ga.I(), {0: 1}, 'Iinv*I')
    return al, I, ref.scale(sq, I)


def expected(al, mode, I, J, a):
    p = J if 'inv' in mode else I
    r = al.mul(p, a) if mode[0] in '+-' else al.mul(a, p)
    return ref.scale(-1, r) if '-' in mode else r


def modes(ctx, alg, Isq=None, grades=None):
    from galgebra.ga import Ga
    import galgebra.mv as gm
    ga = build(ctx, alg, Isq)
    old = Ga.dual_mode_value
    try:
        al, I, J = pseudo(ctx, ga)
        A, ra = ctx.mv(ga, 'a', grades=grades)
        for mode in MODES:
            Ga.dual_mode(mode)
            w = expected(al, mode, I, J, ra)
            D = A.dual()
            ctx.claim_eq(D, w, mode + ': dual')
            ctx.claim_eq(gm.dual(A), w, mode + ': dual function')
            ctx.claim_eq(D.undual(), ra, mode + ': undual(dual)')
            ctx.claim_eq(A.undual().dual(), ra, mode + ': dual(undual)')
            ctx.claim_eq(gm.undual(D), ra, mode + ': undual function')
            ctx.claim_eq(A, ra, mode + ': operand unchanged')
            for r in (grades or range(ga.n + 1)):
                Dr = A.grade(r).dual()
                ctx.claim_all_zero([c for m, c in ref.of_mv(Dr, al).items() if ref.gr(m) != ga.n - r], mode + ': grade r to n-r')
            for bad in ('I', '', 'Iinv', '+I+'):
                ctx.claim_raises(ValueError, lambda: Ga.dual_mode(bad), 'unknown mode')
            ctx.claim_eq(A.dual(), w, mode + ': mode kept after a rejected one')
        Ga.dual_mode()
        ctx.claim_eq(A.dual(), expected(al, 'I+', I, J, ra), 'default mode is I+')
    finally:
        Ga.dual_mode(old)


def several(ctx, algnames):
    """the mode is shared; each algebra uses its own pseudoscalar"""
    from galgebra.ga import Ga
    old = Ga.dual_mode_value
    try:
        gs = [build(ctx, a) for a in algnames]
        mv = [ctx.mv(g, 'a%d' % i) for i, g in enumerate(gs)]
        for mode in ('Iinv+', '-I', 'I+'):
            Ga.dual_mode(mode)
            for g, (A, ra) in zip(gs, mv):
                al = ref.alg(g)
                I = ref.of_mv(g.I(), al)
                J = ref.scale(al.mul(I, I)[0], I)
                ctx.claim_eq(A.dual(), expected(al, mode, I, J, ra), mode + ': dual')
                ctx.claim_eq(A.dual().undual(), ra, mode + ': undual(dual)')
    finally:
        Ga.dual_mode(old)


def cross(ctx, alg):
    from galgebra.mv import cross as cr
    ga = build(ctx, alg)
    al = ref.alg(ga)
    u, ru = ctx.vec(ga, 'u')
    v, rv = ctx.vec(ga, 'v')
    w = cr(u, v)
    rw = ref.of_mv(w, al)
    sc = lambda a, b: al.mul(a, b).get(0, S.Zero)
    ctx.claim_all_zero([c for m, c in rw.items() if ref.gr(m) != 1], 'cross product is a vector')
    ctx.claim_zero(sc(rw, ru), 'orthogonal to the first factor')
    ctx.claim_zero(sc(rw, rv), 'orthogonal to the second factor')
    ctx.claim_zero(sympy.expand(sc(rw, rw) - (sc(ru, ru) * sc(rv, rv) - sc(ru, rv) ** 2)), 'square of the length')
    ctx.claim_eq(cr(v, u), ref.scale(-1, rw), 'antisymmetric')
    if alg == 'E3':
        a, b = [[r.get(1 << i, 0) for i in range(3)] for r in (ru, rv)]
        ctx.claim_eq(w, al.vec([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]), 'components')
    else:       # right handed: u ^ v ^ (u x v) is a nonnegative multiple of E
        ctx.claim_sign(ref.wedge(ref.wedge(ru, rv), rw).get(al.full, 0), '>=', 'right handed')
    ctx.claim_raises(ValueError, lambda: cr(u, u * v), 'needs vectors')


def dim(ctx, n):
    ga = build(ctx, 'E%d' % n)
    u, v = ctx.vec(ga, 'u')[0], ctx.vec(ga, 'v')[0]
    from galgebra.mv import cross as cr
    ctx.claim_raises(ValueError, lambda: cr(u, v), 'cross needs dimension 3')


def tasks(tier):
    T = []
    num = ['E1', 'L1', 'E2', 'M2', 'A2', 'E3', 'A3', 'M3', 'W3', 'STA', 'M31', 'M22', 'NE2', 'NM2', 'NX2', 'NE3', 'NX3', 'NL3', 'CGA1', 'NB3', 'CGA2', 'NI4', 'NX4']
    for a in num:
        T.append(Task('num-' + a, modes, params=dict(alg=a), weight=3))
    for a in ['S1', 'S2', 'G2', 'S3', 'T3']:
        for q in ('+', '-', None):
            T.append(Task('symbolic-%s%s' % (a, q), modes, params=dict(alg=a, Isq=q), weight=3))
    for a, q in [('sph', '-'), ('sphn', None), ('cyl', None), ('polar', None), ('oblique', None)]:
        T.append(Task('curv-' + a, modes, params=dict(alg=a, Isq=q), weight=4))
    T.append(Task('E5', modes, params=dict(alg='E5', grades=[0, 2, 5]), weight=5))
    T.append(Task('M41', modes, params=dict(alg='M41', grades=[1, 3]), weight=5))
    T.append(Task('several', several, params=dict(algnames=['E2', 'STA', 'NX3', 'M2'])))
    for a in ['E3', 'NE3']:
        T.append(Task('cross-' + a, cross, params=dict(alg=a)))
    for n in (2, 4):
        T.append(Task('cross-dim%d' % n, dim, params=dict(n=n)))
    if tier == 'thorough':
        for a in ['G3', 'S4']:
            T.append(Task('t-' + a, modes, params=dict(alg=a), weight=9, timeout=3000))
        for a in ['E5', 'M41']:
            T.append(Task('t-' + a, modes, params=dict(alg=a), weight=9, timeout=3000))
    return T
