"""C10: exponentials, quadratic form, norms and magnitudes."""
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('multivectors with scalar square (blades, vectors, bivectors, pseudoscalars, mixed null ones) with arbitrary coefficients in dimension 1-4; '
          'norms of general multivectors in dimension 1-3 for arbitrary numbers (every sign of every quadratic form) and of symbolic ones of dimension 1-4 for every hint')
ASSUMPTIONS = ['hints are correct (the sign of the square resp. quadratic form is the one the hint states)',
               'exp is characterised by G(0)=1, dG(tA)/dt = A G(tA) for t > 0']


def operand(ctx, ga, blades, grades):
    if blades == 'wedge':
        u, ru = ctx.vec(ga, 'u')
        v, rv = ctx.vec(ga, 'v')
        r = ref.wedge(ru, rv)
        bl = {m: b for m, _, b in ref.blade_items(ga)}
        return ctx.make(ga, sum(c * bl[m] for m, c in r.items())), r
    return ctx.mv(ga, 'a', grades=grades, blades=blades)


def check_exp(ctx, ga, al, A, ra, hint, t):
    from galgebra.mv import exp
    kw = {} if hint is None else dict(hint=hint)
    T = ctx.make(ga, sympy.expand(t * A.obj))
    G = T.exp(**kw)
    rg = ref.of_mv(G, al)
    ctx.claim_real(rg.values(), 'real coefficients')
    d = {m: sympy.diff(c, t) for m, c in rg.items()}
    ctx.claim_all_zero(ref.pairs(d, al.mul(ra, rg)), 'd exp(tA)/dt = A exp(tA)')
    ctx.claim_all_zero(ref.pairs(d, al.mul(rg, ra)), 'd exp(tA)/dt = exp(tA) A')
    try:
        z = {m: sympy.expand(c).subs(t, 0) for m, c in rg.items()}
        ok = not any(c.has(S.NaN, S.ComplexInfinity) for c in z.values())
    except ZeroDivisionError:
        ok = False
    ctx.claim(ok, 'defined at t=0')
    ctx.claim_all_zero(ref.pairs(z, {0: S.One}), 'exp(0) = 1')
    E = A.exp(**kw)
    re = ref.of_mv(E, al)
    ctx.claim_all_zero(ref.pairs(re, {m: c.subs(t, 1) for m, c in rg.items()}), 'exp(A)')
    ctx.claim_same(exp(A, **kw), E, 'exp function')
    N = (-A).exp(**kw)
    ctx.claim_eq(E * N, {0: 1}, 'exp(A)*exp(-A)')
    ctx.claim_eq(N * E, {0: 1}, 'exp(-A)*exp(A)')
    D = (A + A).exp(**kw)
    ctx.claim_eq(D, al.mul(re, re), 'exp(2A)')
    ctx.claim_eq(A, ra, 'operand unchanged')
    return E


def expo(ctx, alg, hint, blades=None, grades=None, sign=None):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = operand(ctx, ga, blades, grades)
    t = ctx.real('t', positive=True)
    sq = sympy.expand(al.mul(ra, ra).get(0, S.Zero))
    if sign is not None:
        ctx.assume_sign(sq, sign)
    elif ctx.mode == 'sym':
        ctx.assume_nonzero(sq) if sq != 0 else None
    check_exp(ctx, ga, al, A, ra, hint, t)
    k = ctx.real('k')
    ctx.claim_eq(ga.mv(k).exp(**({} if hint is None else dict(hint=hint))), {0: sympy.exp(k)}, 'exp of a scalar')


def expo_num(ctx, alg, blades=None, grades=None):
    """arbitrary numbers: circular, hyperbolic, parabolic and 'not a scalar square' cases"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=grades, blades=blades)
    s = al.mul(ra, ra)
    rest = [sympy.expand(c) for m, c in s.items() if m]
    try:
        E = A.exp()
    except ValueError:
        ctx.claim_iff_zero(False, rest, 'raises only when the square is not a scalar')
        return
    ctx.claim_iff_zero(True, rest, 'value only when the square is a scalar')
    ctx.claim_real(ref.of_mv(E, al).values(), 'real coefficients')
    N = (-A).exp()
    ctx.claim_eq(E * N, {0: 1}, 'exp(A)*exp(-A)')
    sq = sympy.expand(s.get(0, S.Zero))
    r = ref.of_mv(E, al)
    c = r.pop(0, S.Zero)
    if not r:
        ctx.claim_all_zero([x for m, x in ra.items() if m], 'scalar value only for scalars')
        ctx.claim_zero(c - sympy.exp(ra.get(0, S.Zero)), 'exp of a scalar')
        return
    # exp(A) = c + w A with c^2 - w^2 A^2 = 1 and w of the right kind
    ctx.claim_all_zero([x * ra[n] - y * ra[m] for m, x in r.items() for n, y in r.items() if m < n] if 0 not in ra else [], 'scalar plus multiple of A')
    tr, hy = any(x.has(sympy.sin, sympy.cos) for x in r.values()), any(x.has(sympy.sinh, sympy.cosh) for x in r.values())
    if tr:
        ctx.claim_sign(sq, '<', 'circular only for negative square')
    elif hy:
        ctx.claim_sign(sq, '>', 'hyperbolic only for positive square')
    else:
        ctx.claim_zero(sq, 'otherwise the square is zero')
        ctx.claim_eq(E, ref.add(ra, {0: 1}), '1 + A')


def expo_sign(ctx, alg, blades, grades=None):
    """numbers of known sign of the square, derivative characterisation"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=grades, blades=blades)
    t = ctx.real('t', positive=True)
    check_exp(ctx, ga, al, A, ra, None, t)


def notscalar(ctx, alg):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    e = ga.mv()
    k = ctx.real('k', nonzero=True)
    for B in (A, 1 + e[0], e[0] + k * (e[0] ^ e[1]) + 2):
        ctx.claim_raises(ValueError, lambda: B.exp(), 'no scalar square')
        ctx.claim_raises(ValueError, lambda: B.exp(hint='+'), 'no scalar square')


def quad(al, a):
    return sympy.expand(al.mul(ref.rev(a), a).get(0, S.Zero))


def norms(ctx, alg, blades=None, grades=None, hints=('0',), coef=None):
    import galgebra.mv as gm
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    if coef is None:
        A, ra = operand(ctx, ga, blades, grades)
    else:
        bl = {idx: (m, b) for m, idx, b in ref.blade_items(ga)}
        ra = {}
        for c, i in coef(ctx):
            ra[bl[i][0]] = c
        A = ctx.make(ga, sum(c * bl[i][1] for c, i in coef(ctx)))
    q = quad(al, ra)
    ctx.claim_zero(A.qform() - q, 'qform')
    ctx.claim_zero(gm.qform(A) - q, 'qform function')
    for h in hints:
        if h != '0':
            ctx.assume_sign(q, '>' if h == '+' else '<')
        n2 = A.norm2(h)
        ctx.claim_real([n2], 'norm2 real, hint ' + h)
        ctx.claim_sign(n2, '>=', 'norm2 nonnegative, hint ' + h)
        ctx.claim_zero(n2 ** 2 - q ** 2, 'norm2 is |qform|, hint ' + h)
        ctx.claim_zero(gm.norm2(A, h) - n2, 'norm2 function')
        n = A.norm(h)
        ctx.claim_real([n], 'norm real, hint ' + h)
        ctx.claim_sign(n, '>=', 'norm nonnegative, hint ' + h)
        ctx.claim_zero(n ** 2 - n2, 'norm squared, hint ' + h)
        ctx.claim_zero(gm.norm(A, h) - n, 'norm function')
        if h == '0':
            ctx.claim_zero(abs(A) - n, 'abs')
            ctx.claim_zero(A.norm() - n, 'default hint')
            ctx.claim_zero(A.norm2() - n2, 'default hint norm2')
            m2 = A.mag2()
            ctx.claim_real([m2], 'mag2 real')
            ctx.claim_zero(m2 - sum(sympy.Abs(quad(al, ref.grade(ra, r))) for r in range(ga.n + 1)), 'mag2 is the sum over grades')
            ctx.claim_sign(m2 - n2, '>=', 'mag2 >= norm2')
            ctx.claim_zero(gm.mag2(A) - m2, 'mag2 function')
            m = A.mag()
            ctx.claim_real([m], 'mag real')
            ctx.claim_sign(m, '>=', 'mag nonnegative')
            ctx.claim_zero(m ** 2 - m2, 'mag squared')
            ctx.claim_zero(gm.mag(A) - m, 'mag function')
    k = ctx.real('kk')
    ctx.claim_zero((k * A).qform() - k ** 2 * q, 'qform homogeneous')
    ctx.claim_eq(A, ra, 'operand unchanged')


COEF = {
    'perfect': lambda c: [(c.real('p') - c.real('q'), (0,))],
    'perfect2': lambda c: [(3 * (c.real('p') * c.real('q') ** 2 - c.real('q')), (0,))],
    'square': lambda c: [(c.real('p') ** 2, (0,))],
    'trig': lambda c: [(sympy.cos(c.real('p')), (0,)), (sympy.sin(c.real('p')), (1,))],
    'trig2': lambda c: [(c.real('q') * sympy.cos(c.real('p')), (0,)), (c.real('q') * sympy.sin(c.real('p')), (1,))],
    'hyp': lambda c: [(c.real('q') * sympy.cosh(c.real('p')), (0,)), (c.real('q') * sympy.sinh(c.real('p')), (1,))],
    'same': lambda c: [(c.real('p') + c.real('q'), (0,)), (c.real('p') + c.real('q'), (1,))],
    'ratio': lambda c: [(c.real('p') / (c.real('q') ** 2 + 1), (1,))],
    'cubic': lambda c: [(c.real('p') ** 3 + 1, (0, 1))],
    'scalar': lambda c: [(c.real('p') * c.real('q'), ())],
    'number': lambda c: [(sympy.Rational(-3, 2), (0,))],
    'scalar+biv': lambda c: [(c.real('p'), ()), (c.real('q'), (0, 1))],
}


def norm_shape(ctx, alg, shape, hints):
    norms(ctx, alg, hints=hints, coef=COEF[shape])


def bn(b):
    return '.'.join(''.join(map(str, x)) or 's' for x in b) if isinstance(b, list) else str(b)


def badhint(ctx):
    A = ctx.vec(algs.make(ctx, 'M2'), 'a')[0]
    ctx.claim_raises(ValueError, lambda: A.norm2('x'), 'unknown hint')
    ctx.claim_raises(ValueError, lambda: A.norm('x'), 'unknown hint')


def tasks(tier):
    T = [Task('badhint', badhint)]
    for a, h, b, g, s in [('E2', '-', [(0, 1)], None, None), ('E2', '+', None, [1], None), ('E3', '-', None, [2], None), ('E3', None, None, [2], None), ('E3', '-', None, [3], None), ('E3', '+', [(0,), (1,)], None, None),
                          ('E3', '+', None, [1], None), ('E3', '+', [(0,)], None, None), ('E3', '+', [(), ], None, None), ('M2', '+', [(0, 1)], None, None), ('M2', '+', None, [1], '>'), ('M2', '-', None, [1], '<'), ('A2', '-', None, [1], None),
                          ('STA', '+', [(0, 1), (0, 2)], None, None), ('STA', '+', [(0, 1), (0, 2), (0, 3)], None, None), ('STA', '-', [(1, 2), (2, 3), (1, 3)], None, None), ('STA', '-', None, [4], None), ('STA', '-', [(0, 1), (1, 2)], None, '<'), ('STA', '+', [(0, 1), (1, 2)], None, '>'),
                          ('STA', '+', None, [1], '>'), ('STA', '-', [(0, 1, 2), (1, 2, 3)], None, '<'), ('STA', '+', [(0, 1, 2), (1, 2, 3)], None, '>'), ('NE2', '-', [(0, 1)], None, None), ('NE2', '+', None, [1], None), ('NX2', '+', None, [1], '>'), ('NX2', '-', None, [1], '<'), ('NE3', '-', [(0, 1), (1, 2)], None, '<'),
                          ('NX3', '-', None, [1], '<'), ('NX3', '+', [(0, 1)], None, None), ('W3', '-', [(0, 2)], None, None), ('W3', '+', None, [1], '>'), ('D2', '+', None, [1], None), ('D3', '-', None, [1], '<'), ('PGA3', '-', [(1, 2), (2, 3)], None, None),
                          ('PGA3', '-', [(0, 1), (0, 2)], None, None), ('CGA1', '+', None, [1], '>'), ('CGA1', '-', None, [1], '<'), ('CGA2', '+', [(2,)], None, None), ('CGA2', '+', [(2, 3)], None, None),
                          ('S1', '+', None, [1], '>'), ('S1', '-', None, [1], '<'), ('S2', '-', [(0, 1)], None, '<'), ('S2', '+', [(0, 1)], None, '>'), ('S2', '+', None, [1], '>'), ('S2', '-', None, [1], '<'), ('G2', '-', [(0, 1)], None, '<'), ('G2', '+', [(0, 1)], None, '>'), ('G2', '+', None, [1], '>'),
                          ('E3', '-', 'wedge', None, None), ('M3', '+', 'wedge', None, '>'), ('E4', '-', [(0, 1), (0, 2), (0, 3)], None, None), ('E4', '-', [(0, 1), (2, 3)][:1], None, None), ('E1', '+', None, [1], None), ('L1', '-', None, [1], None)]:
        T.append(Task('exp-%s%s-%s-%s%s' % (a, h, bn(b), g, s or ''), expo, params=dict(alg=a, hint=h, blades=b, grades=g, sign=s), weight=3))
    for a, b, g in [('E1', None, None), ('L1', None, None), ('D1', None, None), ('E2', None, None), ('M2', None, None), ('NM2', None, [1]), ('NX2', None, [1]), ('NX2', None, [0, 2]), ('D2', None, [1, 2]), ('Z2', None, None), ('E3', None, [1]), ('E3', None, [2]),
                    ('E3', None, [0, 3]), ('M3', None, [1]), ('M3', None, [2]), ('STA', [(0, 1), (0, 2)], None), ('STA', [(0, 1), (1, 2)], None), ('STA', [(0, 1), (2, 3)], None), ('CGA1', None, [1]), ('PGA3', [(0, 1), (2, 3)], None), ('E4', [(0, 1), (2, 3)], None)]:
        T.append(Task('expnum-%s-%s-%s' % (a, bn(b), g), expo_num, 'num', params=dict(alg=a, blades=b, grades=g), weight=3))
    for a, b, g in [('E2', None, [1]), ('E2', None, [2]), ('M2', None, [1]), ('M2', None, [2]), ('NX2', None, [1]), ('E3', None, [2]), ('STA', [(0, 1), (1, 2)], None), ('D2', None, [1])]:
        T.append(Task('expder-%s-%s-%s' % (a, bn(b), g), expo_sign, 'num', params=dict(alg=a, blades=b, grades=g), weight=3))
    for a in ('E2', 'E3', 'STA', 'NX2'):
        T.append(Task('notscalar-' + a, notscalar, params=dict(alg=a)))
    for a, b, g in [('E1', None, None), ('L1', None, None), ('D1', None, None), ('E2', None, None), ('M2', None, None), ('A2', None, None), ('NM2', None, None), ('NX2', None, [0, 1]), ('NX2', None, [2]), ('ND2', None, [1]), ('Z2', None, None), ('E3', None, [0, 1]), ('M3', None, [1]), ('M3', None, [2]), ('M3', None, [0, 1]),
                    ('STA', [(), (0,), (0, 1), (1, 2)], None), ('CGA1', None, [1]), ('NX3', None, [1]), ('W3', None, [0, 2])]:
        T.append(Task('normnum-%s-%s-%s' % (a, bn(b), g), norms, 'num', params=dict(alg=a, blades=b, grades=g), weight=3))
    for a, b, g, h in [('E2', None, None, '0'), ('E3', None, None, '0'), ('E4', None, [1, 3], '0'), ('NE2', None, None, '0'), ('NE3', None, [1], '0'), ('M2', None, None, '0'), ('M2', None, None, '+'), ('M2', None, None, '-'), ('A2', None, None, '0'), ('A2', None, [1], '-'), ('A2', None, [0, 2], '+'),
                       ('M3', None, [1], '+'), ('M3', None, [1], '-'), ('M3', None, [1, 2], '0'), ('STA', None, [1], '+'), ('STA', None, [2], '-'), ('STA', None, [1, 2], '0'), ('NX2', None, None, '0'), ('NX2', None, [1], '+'), ('NX2', None, [1], '-'), ('S2', None, [1], '0'), ('S2', None, [1], '+'), ('S2', [(0, 1)], None, '0'), ('S2', [(0, 1)], None, '-'), ('G2', None, [1], '0'), ('G2', [(0, 1)], None, '+'), ('CGA1', None, [1], '-'), ('D2', None, None, '0'), ('PGA3', None, [1], '0'), ('NX3', [(0, 1), (1, 2)], None, '-')]:
        T.append(Task('norm-%s-%s-%s-%s' % (a, bn(b), g, h), norms, params=dict(alg=a, blades=b, grades=g, hints=(h,) if h == '0' else ('0', h)), weight=3))
    for s in sorted(COEF):
        for a in ('E2', 'M2', 'W3', 'NX2', 'A2'):
            T.append(Task('shape-%s-%s' % (s, a), norm_shape, params=dict(alg=a, shape=s, hints=('0',))))
    return T
