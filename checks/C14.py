"""C14: differential operators (Dop, Sdop, Pdop) form an algebra acting on multivector fields."""
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task
from checks.C12 import undet
from checks.C13 import Geo, apply, OPS

BOUNDS = ('operators with up to four terms of order 0-3 (composition with a partial derivative: up to order 4) with arbitrary function (or constant) multivector coefficients, left and right acting, products of two and three operators, '
          'on fields with arbitrary functions as coefficients; dimension 1-3, flat space in Cartesian, oblique and curvilinear coordinates, normalised and not')
ASSUMPTIONS = ['partial derivatives commute (flat space, smooth functions)', 'a product of operators is compared for the products for which the product of multivectors has the same law: '
               '(A*B)*C, (A^B)^C, (A^B)<C and A>(B^C)']
ORD = {'const': [{}], 'first': [{0: 1}], 'grad': [{0: 1}, {1: 1}], 'second': [{0: 2}, {0: 1, 1: 1}], 'mix': [{}, {0: 1}, {1: 2}, {1: 1, 0: 1}], 'affine': [{}, {1: 1}], 'third': [{0: 2, 1: 1}], 'line': [{}, {0: 1}, {0: 2}]}


def dop(ctx, G, name, kind, grades=None, func=True, cmpflg=False, how='terms'):
    """(Dop, [(reference coefficient, orders)])"""
    from galgebra.mv import Dop
    from galgebra.dop import Pdop
    ts, cs, ps, rs = [], [], [], []
    for k, o in enumerate(ORD[kind]):
        if func:
            A, r = G.field(ctx, '%s%dx' % (name, k), grades)
        else:
            A, r = ctx.mv(G.ga, '%s%dx' % (name, k), grades=grades)
        p = Pdop({G.u[i]: n for i, n in o.items()})
        cs.append(A)
        ps.append(p)
        rs.append((r, o))
    if how == 'terms':
        return Dop(list(zip(cs, ps)), ga=G.ga, cmpflg=cmpflg), rs
    return Dop(cs, ps, ga=G.ga, cmpflg=cmpflg), rs


def pds(G, r, o):
    for i, n in o.items():
        for _ in range(n):
            r = G.pd(r, i)
    return r


def act(G, rs, op, f, left=True):
    out = {}
    for c, o in rs:
        d = pds(G, f, o)
        out = ref.add(out, G.prod(op, c, d) if left else G.prod(op, d, c))
    return out


def same(ctx, G, A, B, label):
    ctx.claim_all_zero([(undet(G.w, a), undet(G.w, b)) for a, b in ref.pairs(ref.of_obj(A.obj, G.ga, G.al), ref.of_obj(B.obj, G.ga, G.al))], label)


def action(ctx, space, kind, grades=None):
    from galgebra.mv import Dop
    G = Geo(ctx, space)
    F, f = G.field(ctx, 'F', grades)
    K, k = ctx.mv(G.ga, 'k', grades=(0, 1))
    for how in ('terms', 'lists'):
        D, rs = dop(ctx, G, 'D', kind, grades, how=how)
        C, _ = dop(ctx, G, 'D', kind, grades, how=how, cmpflg=True)
        for op in OPS:
            G.eq(ctx, apply(op, D, F), act(G, rs, op, f), 'D %s F' % op)
            G.eq(ctx, apply(op, F, C), act(G, rs, op, f, False), 'F %s D, D acting to the left' % op)
            if how == 'terms':
                X = apply(op, K, D)
                ctx.claim(isinstance(X, Dop) and not X.cmpflg, 'operator acting to the right')
                G.eq(ctx, X * F, act(G, [(G.prod(op, k, c), o) for c, o in rs], '*', f), '(k %s D) * F' % op)
                X = apply(op, C, K)
                ctx.claim(isinstance(X, Dop) and X.cmpflg, 'operator acting to the left')
                G.eq(ctx, F * X, act(G, [(G.prod(op, c, k), o) for c, o in rs], '*', f, False), 'F * (D %s k)' % op)
    G.eq(ctx, F, f, 'field unchanged')
    x = ctx.real('x')
    G.eq(ctx, D * x, {m: c * x for c, o in rs if not o for m, c in c.items()}, 'acting on a number')
    G.eq(ctx, x * C, {m: c * x for c, o in rs if not o for m, c in c.items()}, 'number under D acting to the left')


def module(ctx, space, k1, k2, grades=None):
    """addition, scalars and everything that must not change the action"""
    from galgebra.mv import Dop
    from galgebra.dop import Pdop, Sdop
    G = Geo(ctx, space)
    ga = G.ga
    F, f = G.field(ctx, 'F', grades)
    c, h = ctx.real('c'), ctx.fn('h', *G.u)
    d = ctx.real('d', nonzero=True)
    A, a = G.field(ctx, 'A', (0, 1))
    for cmpflg in (False, True):
        D, r1 = dop(ctx, G, 'D', k1, grades, cmpflg=cmpflg)
        E, r2 = dop(ctx, G, 'E', k2, grades, cmpflg=cmpflg)
        on = (lambda X, op='*': apply(op, F, X)) if cmpflg else (lambda X, op='*': apply(op, X, F))
        R = lambda rs, op='*': act(G, rs, op, f, not cmpflg)
        sc = lambda k, rs: [(ref.scale(k, c0), o) for c0, o in rs]
        cases = [('sum', lambda: D + E, r1 + r2), ('difference', lambda: D - E, r1 + sc(-1, r2)), ('negation', lambda: -D, sc(-1, r1)), ('twice', lambda: D + D, sc(2, r1)),
                 ('minus itself', lambda: D - D, []), ('quotient', lambda: D / d, sc(1 / d, r1)), ('quotient by two', lambda: D / 2, sc(S.Half, r1)),
                 ('plus multivector', lambda: D + A, r1 + [(a, {})]), ('multivector plus', lambda: A + D, r1 + [(a, {})]), ('minus multivector', lambda: D - A, r1 + [(ref.scale(-1, a), {})]), ('multivector minus', lambda: A - D, sc(-1, r1) + [(a, {})]),
                 ('plus number', lambda: D + 3, r1 + [({0: S(3)}, {})]), ('number minus', lambda: c - D, sc(-1, r1) + [({0: c}, {})]), ('plus zero', lambda: 0 + D, r1),
                 ('simplify', lambda: D.simplify(), r1), ('TSimplify', lambda: D.TSimplify(), r1), ('consolidate', lambda: D.consolidate_coefs(), r1),
                 ('repeated terms', lambda: Dop(D.terms + E.terms + D.terms, ga=ga, cmpflg=cmpflg), r1 + r2 + r1), ('repeated and consolidated', lambda: Dop(D.terms + E.terms + D.terms, ga=ga, cmpflg=cmpflg).consolidate_coefs(), r1 + r2 + r1),
                 ('empty', lambda: Dop([], ga=ga, cmpflg=cmpflg), []), ('empty plus', lambda: Dop([], ga=ga, cmpflg=cmpflg) + D, r1),
                 ('sum of components', lambda: sum(D.components()[1:], D.components()[0]), r1),
                 ('from scalar operators', lambda: Dop([(s, ctx.make(ga, b)) for s, b in D.Dop_mv_expand()], ga=ga, cmpflg=cmpflg), r1), ('from simplified scalar operators', lambda: Dop([(s, ctx.make(ga, b)) for s, b in D.Dop_mv_expand(modes=sympy.simplify)], ga=ga, cmpflg=cmpflg), r1)]
        if cmpflg:
            cases += [('times number', lambda: D * c, sc(c, r1)), ('times function', lambda: D * h, sc(h, r1))]
        else:
            cases += [('number times', lambda: c * D, sc(c, r1)), ('function times', lambda: h * D, sc(h, r1))]
        for name, X, want in cases:
            X = X()
            ctx.claim(isinstance(X, Dop) and X.cmpflg == cmpflg, name + ' keeps its side')
            G.eq(ctx, on(X), R(want), name)
        for X in D.components():
            ctx.claim(X.cmpflg == cmpflg and len({m for co, _ in X.terms for m in ref.clean(ref.of_mv(co, G.al))}) <= 1, 'component has one blade')
        ctx.claim(D.is_scalar() == all(m == 0 for co, o in r1 for m in ref.clean(co)), 'is_scalar')
        G.eq(ctx, on(D), R(r1), 'operator unchanged')
    L, _ = dop(ctx, G, 'D', k1, grades)
    ctx.claim_raises(ValueError, lambda: L + D, 'sides differ')
    ctx.claim_raises(ValueError, lambda: L * D, 'sides differ')
    ctx.claim_raises(TypeError, lambda: L / A, 'division by a multivector')


def compose(ctx, space, k1, k2, grades=None, func=True, k3=None):
    G = Geo(ctx, space)
    F, f = G.field(ctx, 'F', grades)
    D, r1 = dop(ctx, G, 'D', k1, grades, func)
    E, r2 = dop(ctx, G, 'E', k2, grades, func)
    same(ctx, G, (D * E) * F, D * (E * F), '(D*E)*F')
    G.eq(ctx, (D * E) * F, act(G, r1, '*', act(G, r2, '*', f)), 'D then E')
    same(ctx, G, (D ^ E) ^ F, D ^ (E ^ F), '(D^E)^F')
    same(ctx, G, (D ^ E) < F, D < (E < F), '(D^E)<F')
    G.eq(ctx, (D ^ E) * ctx.make(G.ga, f[0]) if 0 in f else (D ^ E) ^ F, act(G, r1, '^', act(G, r2, '^', {0: f[0]} if 0 in f else f)), '(D^E) on a scalar')
    if 0 in f:
        for op in '|<>':
            sf = ctx.make(G.ga, f[0])
            X = apply(op, D, E)
            G.eq(ctx, X * sf, act(G, r1, op, act(G, r2, '*', {0: f[0]})), '(D %s E) on a scalar' % op)
    D2, r1 = dop(ctx, G, 'D', k1, grades, func, cmpflg=True)
    E2, r2 = dop(ctx, G, 'E', k2, grades, func, cmpflg=True)
    same(ctx, G, F * (D2 * E2), (F * D2) * E2, 'F*(D*E)')
    G.eq(ctx, F * (D2 * E2), act(G, r2, '*', act(G, r1, '*', f, False), False), 'D then E to the left')
    same(ctx, G, F ^ (D2 ^ E2), (F ^ D2) ^ E2, 'F^(D^E)')
    same(ctx, G, F > (D2 ^ E2), (F > D2) > E2, 'F>(D^E)')
    ctx.claim(not (D * E).cmpflg and (D2 * E2).cmpflg, 'side of a product')
    A, a = G.field(ctx, 'A', (1,))
    same(ctx, G, (A * D) * F, A * (D * F), '(A*D)*F')
    same(ctx, G, F * (D2 * A), (F * D2) * A, 'F*(D*A)')
    same(ctx, G, (D * E + E) * F, D * (E * F) + E * F, 'distributes')
    if k3:
        H, r3 = dop(ctx, G, 'H', k3, grades, func)
        same(ctx, G, ((D * E) * H) * F, D * (E * (H * F)), 'three operators')
        same(ctx, G, (D * (E * H)) * F, D * (E * (H * F)), 'three operators')


def equality(ctx, alg, k, grades=(0,)):
    """== of operators with constant coefficients is equality of coefficients"""
    from galgebra.mv import Dop
    G = Geo(ctx, 'flat:' + alg)
    ga = G.ga
    D, r1 = dop(ctx, G, 'a', k, grades, False)
    E, r2 = dop(ctx, G, 'b', k, grades, False)
    for cmpflg in (False, True):
        X = Dop(D.terms, ga=ga, cmpflg=cmpflg)
        Y = Dop(E.terms[::-1], ga=ga, cmpflg=cmpflg)
        diff = [r1[i][0][m] - r2[i][0][m] for i in range(len(r1)) for m in r1[i][0]]
        ctx.claim_iff_zero(X == Y, diff, 'D == E')
        ctx.claim_iff_zero(not (X != Y), diff, 'D != E')
        ctx.claim(X == Dop(X.terms[::-1], ga=ga, cmpflg=cmpflg), 'order of terms')
        ctx.claim(X + X == Dop(X.terms + X.terms, ga=ga, cmpflg=cmpflg), 'repeated terms')
        ctx.claim(not (X == 3) and X != object(), 'other types')
    ctx.claim(not (Dop(D.terms, ga=ga) == Dop(D.terms, ga=ga, cmpflg=True)) or not D.terms, 'different sides')
    other = algs.make(ctx, alg, coords=tuple(G.u))
    ctx.claim(not (D == Dop([], ga=other)), 'different algebras')


def sdop(ctx, space, k1, k2):
    from galgebra.dop import Sdop, Pdop
    G = Geo(ctx, space)
    u = G.u
    F, f = G.field(ctx, 'F')
    g = ctx.fn('g', *u)
    c = ctx.real('c')

    def mk(name, kind):
        cs, ps = [], []
        for k, o in enumerate(ORD[kind]):
            cs.append(ctx.fn('%s%d' % (name, k), *u))
            ps.append(Pdop({u[i]: n for i, n in o.items()}))
        return cs, ps, [({0: x}, o) for x, o in zip(cs, ORD[kind])]
    c1, p1, r1 = mk('A', k1)
    c2, p2, r2 = mk('B', k2)
    D, E = Sdop(c1, p1), Sdop(list(zip(c2, p2)))
    sc = lambda k, rs: [(ref.scale(k, c0), o) for c0, o in rs]
    prod = lambda: D * E
    cases = [('D', D, r1), ('E', E, r2), ('sum', D + E, r1 + r2), ('difference', D - E, r1 + sc(-1, r2)), ('negation', -D, sc(-1, r1)), ('number times', c * D, sc(c, r1)), ('function times', g * D, sc(g, r1)),
             ('plus number', D + 2, r1 + [({0: S(2)}, {})]), ('number plus', c + D, r1 + [({0: c}, {})]), ('number minus', c - D, sc(-1, r1) + [({0: c}, {})]), ('minus function', D - g, r1 + [({0: -g}, {})]),
             ('minus itself', D - D, []), ('empty', Sdop([]), []), ('simplify', D.simplify(), r1), ('TSimplify', D.TSimplify(), r1), ('consolidate', Sdop.consolidate_coefs(D), r1), ('sorted', D._with_sorted_terms(), r1),
             ('repeated', Sdop(D.terms + E.terms + D.terms), r1 + r2 + r1), ('repeated consolidated', Sdop.consolidate_coefs(Sdop(D.terms + E.terms + D.terms)), r1 + r2 + r1), ('of a symbol', Sdop(u[0]), [({0: S.One}, {0: 1})])]
    for name, X, want in cases:
        ctx.claim(isinstance(X, Sdop), name + ' type')
        G.eq(ctx, X * F, act(G, want, '*', f), name)
        G.eq(ctx, X(F), act(G, want, '*', f), name + ' called')
        w = S.Zero
        for co, o in want:
            w += co.get(0, 0) * (lambda e: [e := sympy.diff(e, u[i], n) for i, n in o.items()][-1] if o else e)(g)
        ctx.claim_zero(X * g - w, name + ' on a function')
    w2 = act(G, r1, '*', act(G, r2, '*', f))
    G.eq(ctx, (D * E) * F, w2, 'product')
    same(ctx, G, (D * E) * F, D * (E * F), '(D*E)*F')
    G.eq(ctx, D(E)(F), w2, 'called product')
    P = Pdop({u[0]: 1})
    G.eq(ctx, P(D) * F, G.pd(act(G, r1, '*', f), 0), 'Pdop of Sdop obeys the product rule')
    G.eq(ctx, (P * D) * F, G.pd(act(G, r1, '*', f), 0), 'Pdop times Sdop')
    G.eq(ctx, (D * P) * F, act(G, r1, '*', G.pd(f, 0)), 'Sdop times Pdop')
    G.eq(ctx, (g * P) * F, ref.scale(g, G.pd(f, 0)), 'function times Pdop')
    ctx.claim(D == D and D == Sdop(D.terms[::-1]) and not (D == D + 1) and not (D == 3), 'equality')


def pdop(ctx, space):
    from galgebra.dop import Pdop, Sdop
    G = Geo(ctx, space)
    u = G.u
    F, f = G.field(ctx, 'F')
    n = len(u)
    g = ctx.fn('g', *u)
    G.eq(ctx, Pdop({})(F), f, 'identity')
    G.eq(ctx, Pdop({}) * F, f, 'identity times')
    ctx.claim(Pdop({}) == Pdop({}) and Pdop({}) == S.One and not (Pdop({}) == Pdop(u[0])) and not (Pdop(u[0]) == S.One), 'equality with the identity')
    for i in range(n):
        for j in range(n):
            P, Q = Pdop(u[i]), Pdop({u[j]: 2})
            x = Q * P
            ctx.claim(x.order == 3 and isinstance(x, Pdop), 'order')
            want = {u[i]: 3} if i == j else {u[i]: 1, u[j]: 2}
            ctx.claim(x == Pdop(want) and x.pdiffs == want, 'product of partial derivatives')
            ctx.claim(Q(P) == P(Q) and P * Q == Q * P, 'partial derivatives commute')
            w = G.pd(G.pd(G.pd(f, i), j), j)
            G.eq(ctx, x(F), w, 'product applied')
            G.eq(ctx, P(Q(F)), w, 'one after the other')
            ctx.claim_zero(x(g) - sympy.diff(g, u[i], u[j], u[j]), 'on a function')
            ctx.claim(P.pdiffs == {u[i]: 1} and Q.pdiffs == {u[j]: 2}, 'operands unchanged')
            ctx.claim((P == Pdop({u[j]: 1})) == (i == j), 'equality')
    ctx.claim_raises(TypeError, lambda: Pdop(1), 'constructor')
    s = ctx.real('s')
    G.eq(ctx, (s * Pdop(u[0])) * F, ref.scale(s, G.pd(f, 0)), 'scaled')


def commutes(ctx, space):
    """the second derivatives grad*grad, built as an operator once, applied in flat space"""
    G = Geo(ctx, space)
    ga = G.ga
    F, f = G.field(ctx, 'F')
    lap = ga.grad * ga.grad
    same(ctx, G, lap * F, ga.grad * (ga.grad * F), 'Laplacian')
    same(ctx, G, (ga.grad | ga.grad) * F, lap * F, 'grad|grad is grad*grad in flat space')
    same(ctx, G, (ga.grad ^ ga.grad) ^ F, ga.mv(0), 'grad^grad')
    rl = ga.rgrad * ga.rgrad
    same(ctx, G, F * rl, lap * F, 'right Laplacian')
    same(ctx, G, lap.simplify() * F, lap * F, 'simplified Laplacian')
    same(ctx, G, (lap * ga.grad) * F, ga.grad * (lap * F), 'grad commutes with the Laplacian')
    A, a = G.field(ctx, 'A', (1,))
    same(ctx, G, (A | ga.grad) * F, sum((ctx.make(ga, (A | ga.grad.terms[i][0]).obj) * F.diff(G.u[i]) for i in range(G.n)), ga.mv(0)), 'directional derivative')


def errors(ctx):
    from galgebra.mv import Dop
    from galgebra.dop import Pdop, Sdop
    G, H = Geo(ctx, 'flat:E2'), Geo(ctx, 'flat:M2')
    F, f = G.field(ctx, 'F')
    ctx.claim_raises(ValueError, lambda: H.ga.grad * F, 'operator of another algebra')
    ctx.claim_raises(ValueError, lambda: F * H.ga.rgrad, 'operator of another algebra')
    ctx.claim_raises(ValueError, lambda: H.ga.grad * G.ga.grad, 'operators of two algebras')
    ctx.claim_raises(ValueError, lambda: H.ga.grad + G.ga.grad, 'operators of two algebras')
    ctx.claim_raises(ValueError, lambda: Dop([F], [], ga=G.ga), 'lengths')
    ctx.claim_raises(ValueError, lambda: Dop([], ga=None), 'no algebra')
    ctx.claim_raises(TypeError, lambda: Dop([(F, Pdop({})), (Sdop([]), F)], ga=G.ga), 'mixed terms')
    ctx.claim_raises(ValueError, lambda: Sdop([F], []), 'lengths')
    ctx.claim_raises(TypeError, lambda: Sdop(1), 'constructor')


def leibniz(ctx, space, orders, kind, grades=(0, 1)):
    """a high order derivative of an operator with variable coefficients"""
    from galgebra.dop import Pdop, Sdop
    from galgebra.mv import Dop
    orders = dict(orders)
    G = Geo(ctx, space)
    u = G.u
    F, f = G.field(ctx, 'F', grades)
    g = ctx.fn('g', *u)
    P = Pdop({u[i]: n for i, n in orders.items()})
    cs = [ctx.fn('A%d' % k, *u) for k in range(len(ORD[kind]))]
    D = Sdop([(c, Pdop({u[i]: n for i, n in o.items()})) for c, o in zip(cs, ORD[kind])])
    want = pds(G, act(G, [({0: c}, o) for c, o in zip(cs, ORD[kind])], '*', f), orders)
    G.eq(ctx, (P * D) * F, want, 'derivative of a scalar operator')
    G.eq(ctx, P(D)(F), want, 'derivative of a scalar operator, called')
    ctx.claim_zero((P * D) * g - P(D * g), 'on a function')
    B, rs = dop(ctx, G, 'B', kind, grades)
    want = pds(G, act(G, rs, '*', f), orders)
    G.eq(ctx, (P * B) * F, want, 'derivative of an operator')
    h = ctx.fn('h', *u)
    Q = Dop([(ctx.make(G.ga, h), P)], ga=G.ga)
    G.eq(ctx, (Q * B) * F, ref.scale(h, want), 'product of operators')
    C, _ = dop(ctx, G, 'B', kind, grades, cmpflg=True)
    G.eq(ctx, F * (P * C), pds(G, act(G, rs, '*', f, False), orders), 'derivative of an operator acting to the left')


SP = ['flat:E2', 'flat:NX2', 'named:polar', 'namedn:polar', 'named:shear']


def tasks(tier):
    T = []
    for s in SP + ['flat:M2', 'flat:S2', 'flat:NM2']:
        for k in ('first', 'mix', 'second'):
            T.append(Task('action-%s-%s' % (s, k), action, params=dict(space=s, kind=k), weight=4))
    for s in ('flat:E3', 'flat:W3', 'flat:NX3', 'named:cyl'):
        T.append(Task('action-%s-grad' % s, action, params=dict(space=s, kind='grad', grades=(0, 1, 3)), weight=5))
    T.append(Task('action-flat:E1-line', action, params=dict(space='flat:E1', kind='line')))
    for s in SP:
        for a, b in (('grad', 'mix'), ('affine', 'affine'), ('second', 'first'), ('const', 'third')):
            T.append(Task('module-%s-%s-%s' % (s, a, b), module, params=dict(space=s, k1=a, k2=b, grades=(0, 1) if 'mix' in (a, b) else None), weight=5))
    T.append(Task('module-flat:E3', module, params=dict(space='flat:E3', k1='grad', k2='affine', grades=(1, 2)), weight=5))
    for s in SP + ['flat:M2', 'flat:S2']:
        for a, b, g in (('first', 'first', None), ('affine', 'grad', (0, 1)), ('grad', 'affine', (1,)), ('second', 'affine', (0, 1)), ('const', 'mix', (0, 2))):
            T.append(Task('compose-%s-%s-%s' % (s, a, b), compose, params=dict(space=s, k1=a, k2=b, grades=g), weight=7))
    for s in ('flat:E2', 'flat:NX2', 'named:polar'):
        T.append(Task('compose3-' + s, compose, params=dict(space=s, k1='affine', k2='first', k3='affine', grades=(0, 1)), weight=8))
        T.append(Task('composeconst-' + s, compose, params=dict(space=s, k1='mix', k2='grad', grades=(0, 1), func=False), weight=5))
    T.append(Task('compose-flat:E3', compose, params=dict(space='flat:E3', k1='grad', k2='affine', grades=(1,)), weight=6))
    T.append(Task('compose-flat:NX3', compose, params=dict(space='flat:NX3', k1='grad', k2='first', grades=(1,)), weight=6))
    for a, k, g in (('E2', 'first', (1,)), ('NX2', 'first', (0, 1)), ('NM2', 'first', (0, 2)), ('E2', 'grad', (0,)), ('NM2', 'affine', (0,)), ('E2', 'mix', (2,)), ('E1', 'line', (1,))):
        T.append(Task('eq-%s-%s-%s' % (a, k, ''.join(map(str, g))), equality, 'num', params=dict(alg=a, k=k, grades=g), weight=4, max_paths=1500))
    for s in SP:
        for a, b in (('grad', 'mix'), ('affine', 'second'), ('mix', 'affine')):
            T.append(Task('sdop-%s-%s-%s' % (s, a, b), sdop, params=dict(space=s, k1=a, k2=b), weight=4))
        T.append(Task('pdop-' + s, pdop, params=dict(space=s)))
        T.append(Task('commutes-' + s, commutes, params=dict(space=s), weight=4))
    for s in ('flat:E3', 'named:cyl', 'namedn:sph', 'flat:M3', 'flat:NX3'):
        T.append(Task('commutes-' + s, commutes, params=dict(space=s), weight=8))
    for s in ('flat:E1', 'flat:NX2', 'named:polar', 'flat:M2'):
        for k, o in enumerate(({0: 2}, {0: 3}, {0: 4}, {0: 2, 1: 1}, {0: 1, 1: 2}, {0: 2, 1: 2}, {1: 5}, {0: 3, 1: 2})):
            if s == 'flat:E1' and 1 in o or k >= 6 and tier != 'thorough':
                continue
            for kind in (('line',) if s == 'flat:E1' else ('affine', 'second')):
                T.append(Task('leibniz-%s-%d-%s' % (s, k, kind), leibniz, params=dict(space=s, orders=list(map(list, o.items())), kind=kind, grades=(0, 1) if k < 2 else (1,)), weight=4))
    T.append(Task('errors', errors))
    return T
