"""C09: projection, reflection and rotation."""
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('general multivectors X and blades of every grade written as wedges of vectors with arbitrary coefficients, dimension 1-4, over numeric '
          '(any signature, degenerate, non-orthogonal) and symbolic metrics; null blades in dimension 1-3 for arbitrary numbers; rotations in '
          'coordinate planes and in arbitrary planes by arbitrary angle')
ASSUMPTIONS = ['blades are not null unless the claim is about null blades', 'rotation angles and rapidities are real']


def blade(ctx, ga, al, kind):
    """a nonnull blade: (Mv, reference)"""
    if kind == 'scalar':
        k = ctx.real('k', nonzero=True)
        return ga.mv(k), {0: k}
    if kind.startswith('e'):
        m = sum(1 << (int(i) - 1) for i in kind[1:])
        b = {m: b for m, _, b in ref.blade_items(ga)}[m]
        k = ctx.real('k', nonzero=True)
        return ctx.make(ga, k * b), {m: k}
    B, rb = None, {0: S.One}
    for i, sup in enumerate(kind.split(',')):
        blades = None if sup == '*' else [(int(j) - 1,) for j in sup]
        v, rv = ctx.mv(ga, 'uvw'[i], grades=(1,), blades=blades)
        B = v if B is None else B ^ v
        rb = ref.wedge(rb, rv)
    return B, ref.clean({m: sympy.expand(c) for m, c in rb.items()})


def setup(ctx, alg, kind, grades=None):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    B, rb = blade(ctx, ga, al, kind)
    q = sympy.expand(al.mul(ref.rev(rb), rb).get(0, S.Zero))
    ctx.assume_nonzero(q)
    X, rx = ctx.mv(ga, 'x', grades=grades)
    return ga, al, B, rb, q, X, rx


def projection(ctx, alg, kind, grades=None):
    from galgebra.mv import proj
    ga, al, B, rb, q, X, rx = setup(ctx, alg, kind, grades)
    want = al.mul(al.lc(rx, rb), ref.rev(rb))          # times 1/q
    P = X.project_in_blade(B)
    ctx.claim_eq(P, {m: c / q for m, c in want.items()}, '(X<B)*inverse(B)')
    ctx.claim_same(proj(B, X), P, 'proj function')
    v, rv = ctx.vec(ga, 'y')
    Pv = v.project_in_blade(B)
    ctx.claim_eq(Pv.project_in_blade(B), ref.of_mv(Pv, al), 'idempotent on vectors')
    rp = ref.of_mv(Pv, al)
    ctx.claim_all_zero([c for m, c in rp.items() if ref.gr(m) != 1], 'projection of a vector is a vector')
    if ref.gr(max(rb)) > 0:
        ctx.claim_all_zero(list(ref.wedge(rp, rb).values()), 'inside the blade')
        ctx.claim_all_zero([(sympy.expand(q * a), sympy.expand(q * b)) for a, b in ref.pairs(al.lc(rp, rb), al.lc(rv, rb))], 'difference orthogonal to the blade')
    k = ctx.real('kk')
    ctx.claim_same((X + k * X.rev()).project_in_blade(B), P + k * X.rev().project_in_blade(B), 'linear')
    PP = P.project_in_blade(B)
    ctx.claim_same(PP, P, 'idempotent')
    ctx.claim_eq(B.project_in_blade(B), rb, 'the blade itself')
    ctx.claim_eq(X, rx, 'operand unchanged')
    ctx.claim_eq(B, rb, 'blade unchanged')


def reflection(ctx, alg, kind, grades=None):
    from galgebra.mv import refl
    ga, al, B, rb, q, X, rx = setup(ctx, alg, kind, grades)
    s = ref.gr(max(rb))
    want = {}
    for r in range(ga.n + 1):
        want = ref.add(want, al.mul(rb, ref.grade(rx, r), ref.rev(rb)), (-1) ** (r * (s + 1)))
    R = X.reflect_in_blade(B)
    ctx.claim_eq(R, {m: c / q for m, c in want.items()}, 'signed sandwich with the blade')
    ctx.claim_same(refl(B, X), R, 'refl function')
    ctx.claim_eq(R.reflect_in_blade(B), rx, 'twice is the identity')
    v, rv = ctx.vec(ga, 'y')
    Rv = v.reflect_in_blade(B)
    rr = ref.of_mv(Rv, al)
    ctx.claim_all_zero([c for m, c in rr.items() if ref.gr(m) != 1], 'a vector goes to a vector')
    ctx.claim_zero(sympy.expand(q ** 2 * al.mul(rr, rr).get(0, 0)) - sympy.expand(q ** 2 * al.mul(rv, rv).get(0, 0)), 'square preserved')
    if s:
        ctx.claim_same(Rv, 2 * v.project_in_blade(B) - v, 'keeps the part in the blade, negates the orthogonal part')
    ctx.claim_eq(X, rx, 'operand unchanged')


def outer(ctx, alg, kind):
    ga, al, B, rb, q, X, rx = setup(ctx, alg, kind, [0])
    u, ru = ctx.vec(ga, 'y')
    v, rv = ctx.vec(ga, 'z')
    ctx.claim_same((u ^ v).reflect_in_blade(B), u.reflect_in_blade(B) ^ v.reflect_in_blade(B), 'reflection of a wedge')
    ctx.claim_same((u ^ v).project_in_blade(B), u.project_in_blade(B) ^ v.project_in_blade(B), 'projection of a wedge')


def notblade(ctx, alg):
    ga = algs.make(ctx, alg)
    X, rx = ctx.mv(ga, 'x')
    k = ctx.real('k')
    e = ga.mv()
    bad = [1 + e[0], e[0] + (e[0] ^ e[1])]
    if ga.n >= 4:
        bad.append((e[0] ^ e[1]) + (e[2] ^ e[3]))
    for b in bad:
        ctx.claim_raises(ValueError, lambda: X.project_in_blade(b), 'projection in a non-blade')
        ctx.claim_raises(ValueError, lambda: X.reflect_in_blade(b), 'reflection in a non-blade')


def null(ctx, alg, kind):
    """error exactly for the null blades, for arbitrary numbers"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    B, rb = blade(ctx, ga, al, kind)
    X, rx = ctx.mv(ga, 'x', grades=(1,))
    q = sympy.expand(al.mul(ref.rev(rb), rb).get(0, S.Zero))
    for name in ('project_in_blade', 'reflect_in_blade'):
        try:
            R = getattr(X, name)(B)
        except ValueError:
            ctx.claim_iff_zero(True, [q], name + ' raises only for null blades')
            continue
        ctx.claim_iff_zero(False, [q], name + ' value only for nonnull blades')
        rr = ref.of_mv(R, al)
        if name[0] == 'p':
            w = al.mul(al.lc(rx, rb), ref.rev(rb))
        else:
            w = ref.scale((-1) ** (ref.gr(max(rb)) + 1), al.mul(rb, rx, ref.rev(rb)))
        ctx.claim_all_zero([(sympy.expand(c * q), sympy.expand(d)) for c, d in ref.pairs(rr, w)], name)


def rotation(ctx, alg, plane, hint):
    """rotation in the unit coordinate plane ei^ej, angle (rapidity) t"""
    from galgebra.mv import rot
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    t, s = ctx.real('t'), ctx.real('s')
    i, j = plane
    m = 1 << i | 1 << j
    b = {m: b for m, _, b in ref.blade_items(ga)}[m]
    sq = al.bb(m, m).get(0, S.Zero)
    n = sympy.sqrt(abs(sq))
    C, Sn = (sympy.cos, sympy.sin) if sq < 0 else (sympy.cosh, sympy.sinh)
    I = ctx.make(ga, b)
    X, rx = ctx.mv(ga, 'x')
    R = lambda a, k: {0: C(n * a / 2), m: k * Sn(n * a / 2) / n}
    for name, a, it in [('t', t, t * I), ('-t', -t, -t * I), ('t+s', t + s, (t + s) * I), ('2t', 2 * t, 2 * t * I)]:
        Y = X.rotate_multivector(it, hint)
        ctx.claim_eq(Y, al.mul(R(a, -1), rx, R(a, 1)), 'R*X*rev(R), angle ' + name)
        if name == 't':
            ctx.claim_same(rot(it, X, hint), Y, 'rot function')
            Rm = (-it / 2).exp(hint)
            ctx.claim_same(Rm * X * Rm.rev(), Y, 'rotor')
            ctx.claim_eq(Rm * Rm.rev(), {0: 1}, 'unit rotor')
            ctx.claim_eq(Y.rotate_multivector(-it, hint), rx, 'inverse rotation')
            Z = Y.rotate_multivector(s * I, hint)
            ctx.claim_same(Z, X.rotate_multivector((t + s) * I, hint), 'angles add')
            Q = Y
    ctx.claim_eq(X.rotate_multivector(0 * I, hint), rx, 'zero angle')
    ctx.claim_eq(ga.mv(t).rotate_multivector(t * I, hint), {0: t}, 'scalars fixed')
    u, ru = ctx.vec(ga, 'u')
    v, rv = ctx.vec(ga, 'v')
    U, V = [z.rotate_multivector(t * I, hint) for z in (u, v)]
    rU, rV = ref.of_mv(U, al), ref.of_mv(V, al)
    ctx.claim_zero(al.sp(rU, rV).get(0, 0) - al.sp(ru, rv).get(0, 0), 'inner product preserved')
    ctx.claim_all_zero([c for k, c in rU.items() if ref.gr(k) != 1], 'vectors to vectors')
    ctx.claim_same((u ^ v).rotate_multivector(t * I, hint), U ^ V, 'wedge')
    ctx.claim_same((u * X).rotate_multivector(t * I, hint), U * Q, 'geometric product')
    for k in range(ga.n):
        if not m >> k & 1 and all(ga.g[k, l] == 0 for l in (i, j)):
            e = ga.mv_basis[k]
            ctx.claim_eq(e.rotate_multivector(t * I, hint), {1 << k: 1}, 'orthogonal vector fixed')
    if sq == -1 and ga.g[i, i] == 1 and ga.g[j, j] == 1 and ga.g[i, j] == 0:
        ctx.claim_eq(ga.mv_basis[i].rotate_multivector(t * I, hint), {1 << i: sympy.cos(t), 1 << j: sympy.sin(t)}, 'counterclockwise from ei to ej by t')


def anyplane(ctx, alg, blades, hint, grades):
    """rotation generated by an arbitrary bivector blade of known sign; its magnitude is the angle"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    B, rb = ctx.mv(ga, 'b', grades=(2,), blades=blades)
    if ctx.mode == 'sym':
        ctx.assume_sign(sympy.expand(al.mul(rb, rb).get(0, S.Zero)), '<' if hint == '-' else '>')
    X, rx = ctx.mv(ga, 'x', grades=grades)
    Y = X.rotate_multivector(B, hint)
    ctx.claim_eq(ga.mv(3).rotate_multivector(B, hint), {0: 3}, 'scalars fixed')
    Rp = (B / 2).exp(hint)
    ctx.claim_eq(Rp * Rp.rev(), {0: 1}, 'unit rotor')
    ctx.claim_same(Rp.rev() * X * Rp, Y, 'R*X*rev(R)')
    u, ru = ctx.vec(ga, 'u')
    U = ref.of_mv(u.rotate_multivector(B, hint), al)
    ctx.claim_zero(al.sp(U, U).get(0, 0) - al.sp(ru, ru).get(0, 0), 'square of a vector preserved')
    ctx.claim_all_zero([c for k, c in U.items() if ref.gr(k) != 1], 'vectors to vectors')
    ctx.claim_same(B.rotate_multivector(B, hint), B, 'the plane is kept')
    ctx.claim_same(Y.rotate_multivector(-B, hint), X, 'inverse rotation')
    ctx.claim_same(Y.rotate_multivector(B, hint), X.rotate_multivector(2 * B, hint), 'twice is the doubled angle')


def tasks(tier):
    T = []
    sel = [('E1', '*', None), ('E2', '*', None), ('E2', '*,*', None), ('M2', '*', None), ('M2', 'e12', None), ('E3', '*', None), ('E3', '*,*', None), ('E3', '12,23', None),
           ('E3', 'e123', None), ('M3', '*', None), ('M3', '*,*', [0, 1, 2]), ('A3', '12,*', None), ('NE2', '*', None), ('NM2', '*', None), ('NX2', '*,*', None),
           ('NX3', '*', [0, 1, 2]), ('NX3', '12,23', [0, 1, 3]), ('NE3', '12,3', None), ('NL3', '*', None), ('D2', '2', None), ('D3', '23', None), ('D3', 'e23', None), ('PGA3', '23', None), ('PGA3', '23,34', [1, 2]),
           ('STA', '12', None), ('STA', '*', [1, 2]), ('STA', '12,34', [0, 1]), ('STA', 'e12', None), ('STA', 'e134', None), ('STA', 'e1234', None), ('E4', '12,34', [1, 2]), ('E4', '1,2,34', [1]), ('M22', '13', [1, 2]),
           ('CGA1', '*', [0, 1]), ('CGA2', '34', [1, 2]), ('CGA2', 'e34', None), ('S1', '*', None), ('S2', '*', None), ('S2', '*,*', None), ('G2', '*', None), ('G2', 'e12', None), ('S3', '*', [1, 2]), ('S3', 'e12', None), ('S3', '12,3', None),
           ('G3', 'e1', None), ('G3', 'e23', [0, 1]), ('T3', 'e12', [0, 1, 2]), ('E3', 'scalar', None), ('STA', 'scalar', None)]
    for a, k, g in sel:
        p = dict(alg=a, kind=k, grades=g)
        T.append(Task('proj-%s-%s-%s' % (a, k, g), projection, params=p, weight=3))
        T.append(Task('refl-%s-%s-%s' % (a, k, g), reflection, params=p, weight=3))
    for a, k in [('E2', '*'), ('E3', '*'), ('E3', '12,23'), ('M3', '13'), ('NX3', '12'), ('STA', '13'), ('STA', 'e134'), ('S3', 'e12'), ('G2', '*'), ('CGA1', 'e23')]:
        T.append(Task('outer-%s-%s' % (a, k), outer, params=dict(alg=a, kind=k)))
    for a in ('E2', 'E4', 'STA', 'NX2', 'PGA3'):
        T.append(Task('notblade-' + a, notblade, params=dict(alg=a)))
    for a, k in [('M2', '*'), ('NM2', '*'), ('Z2', '*'), ('D2', '*'), ('NX2', '*'), ('ND2', '*'), ('M3', '*'), ('M3', 'e13'), ('D3', '12,3'), ('M3', '12,3'), ('STA', '12'), ('STA', '12,3'), ('CGA1', '23'), ('PGA3', '12'), ('PGA3', '12,34'), ('DD3', 'e12'), ('S2', '*'), ('T2', '*')]:
        T.append(Task('null-%s-%s' % (a, k), null, 'num', params=dict(alg=a, kind=k), weight=2))
    for a, p, h in [('E2', (0, 1), '-'), ('E3', (0, 1), '-'), ('E3', (1, 2), '-'), ('E3', (0, 2), '-'), ('M2', (0, 1), '+'), ('M3', (0, 1), '-'), ('M3', (1, 2), '+'), ('STA', (0, 1), '+'), ('STA', (1, 2), '-'), ('STA', (2, 3), '-'),
                    ('NE2', (0, 1), '-'), ('NX2', (0, 1), '+'), ('NX3', (0, 1), '+'), ('W3', (0, 2), '-'), ('W3', (0, 1), '+'), ('CGA1', (1, 2), '+'), ('PGA3', (1, 2), '-'), ('A2', (0, 1), '-'),
                    ('M2', (0, 1), '-'), ('E2', (0, 1), '+')]:
        T.append(Task('rot-%s-%d%d%s' % (a, p[0], p[1], h), rotation, params=dict(alg=a, plane=p, hint=h), weight=3))
    for a, b, h, g in [('E2', None, '-', None), ('E3', None, '-', [1, 2]), ('A3', None, '-', [1]), ('STA', [(0, 1), (0, 2)], '+', [1, 2]), ('STA', [(0, 1), (0, 2), (0, 3)], '+', [1]), ('STA', [(1, 2), (1, 3), (2, 3)], '-', [1]), ('M2', None, '+', None),
                       ('NE3', [(0, 1), (1, 2)], '-', [1]), ('E4', [(0, 1), (0, 2)], '-', [1, 2])]:
        T.append(Task('plane-%s-%d%s' % (a, len(b or ()), h), anyplane, params=dict(alg=a, blades=b, hint=h, grades=g), weight=4))
    return T
