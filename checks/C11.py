"""C11: reciprocal bases, inverse metric, reciprocal blades and frames."""
import warnings
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('every nondegenerate metric of the list (numeric any signature, symbolic diagonal 1-4, full symbolic 2-3, curvilinear orthogonal, oblique, normalised, '
          'named determinant) in dimension 1-5; frames of 1-4 vectors with arbitrary coefficients in dimension 1-4')
ASSUMPTIONS = ['determinant of the metric (of the frame) not zero', 'a named determinant det(g) stands for the determinant of the metric']


def build(ctx, alg, **kw):
    from galgebra.ga import Ga
    if alg in ('sph', 'cyl', 'polar', 'parab', 'skew', 'helix', 'general2'):
        n = {'sph': 3, 'cyl': 3, 'parab': 3, 'helix': 3}.get(alg, 2)
        u = [ctx.real('u%d' % i) for i in range(n)]
        u0, u1 = u[:2]
        g = {'sph': [1, u0 ** 2, u0 ** 2 * sympy.sin(u1) ** 2], 'cyl': [1, u0 ** 2, 1], 'polar': [1, u0 ** 2],
             'parab': [u0 ** 2 + u1 ** 2, u0 ** 2 + u1 ** 2, 1],
             'skew': [[1, u0], [u0, 1 + 2 * u0 ** 2]],
             'helix': [[1, 0, 0], [0, u0 ** 2 + 1, 1], [0, 1, 1]],
             'general2': [[ctx.fn('A', *u), ctx.fn('F', *u)], [ctx.fn('F', *u), ctx.fn('C', *u)]]}[alg]
        ga = Ga('e', g=g, coords=tuple(u), **kw)
        d = sympy.Matrix(g) if isinstance(g[0], list) else sympy.diag(*g)
        ctx.assume_nonzero(d.det())
        return ga
    ga = algs.make(ctx, alg, **kw)
    d = sympy.expand(ga.g.det())
    if d.free_symbols:
        ctx.assume_nonzero(d)
    return ga


def undet(ga, e):
    """replace the symbolic determinant by the determinant of the metric"""
    from galgebra.atoms import Determinant
    return S(e).replace(lambda x: isinstance(x, (Determinant, sympy.Determinant)), lambda x: ga.g.det())


def basis(ctx, alg, **kw):
    ga = build(ctx, alg, **kw)
    al = ref.alg(ga)
    n = ga.n
    e = ga.mv()
    dot = lambda a, b: undet(ga, al.mul(a, b).get(0, S.Zero))
    vec = lambda a: [undet(ga, c) for m, c in a.items() if ref.gr(m) != 1]
    rv = [{1 << i: S.One} for i in range(n)]
    esq = al.mul({al.full: S.One}, {al.full: S.One}).get(0, S.Zero)
    det = sympy.expand(ga.g.det())
    ctx.claim_zero(undet(ga, ga.e_sq) - esq, 'square of E')
    ctx.claim_zero(undet(ga, ga.e_sq) - (-1) ** (n * (n - 1) // 2) * det, 'square of E is the signed determinant')
    for name, r in [('mvr()', ga.mvr()), ('mvr(norm=True)', ga.mvr(norm=True))]:
        ctx.claim(len(r) == n, name + ' length')
        for i in range(n):
            x = ref.of_mv(r[i], al)
            ctx.claim_all_zero(vec(x), name + ' vectors')
            ctx.claim_all_zero([(dot(x, rv[j]), S(int(i == j))) for j in range(n)], name + ' dual to the basis')
            ctx.claim_all_zero([(undet(ga, (r[i] | e[j]).obj), S(int(i == j))) for j in range(n)], name + ' | basis')
            ctx.claim_all_zero([(undet(ga, (e[j] < r[i]).obj), S(int(i == j))) for j in range(n)], name + ' < basis')
    f = S.One if ga.is_ortho else esq
    for name, r in [('mvr(norm=False)', ga.mvr(norm=False)), ('r_basis_mv', ga.r_basis_mv), ('r_basis', ga.r_basis)]:
        ctx.claim(len(r) == n, name + ' length')
        for i in range(n):
            x = ref.of_obj(getattr(r[i], 'obj', r[i]), ga, al)
            ctx.claim_all_zero(vec(x), name + ' vectors')
            ctx.claim_all_zero([(dot(x, rv[j]), f * int(i == j)) for j in range(n)], name + ' dual up to the common factor')
    ctx.claim([k for k in ga.r_basis_dict] == list(ga.r_symbols), 'r_basis_dict keys')
    ctx.claim(all(ga.r_basis_dict[k] == v for k, v in zip(ga.r_symbols, ga.r_basis)), 'r_basis_dict')
    gi = ga.g_inv
    ctx.claim(gi.shape == (n, n), 'shape of the inverse metric')
    ctx.claim_all_zero([undet(ga, (gi * ga.g)[i, j]) - S(int(i == j)) for i in range(n) for j in range(n)], 'inverse metric')
    ctx.claim_all_zero([undet(ga, gi[i, j] - gi[j, i]) for i in range(n) for j in range(n)], 'inverse metric symmetric')
    items = ref.blade_items(ga)
    for m, idx, b in items:
        x = ref.of_obj(ga._reciprocal_blade_dict[b], ga, al)
        ctx.claim_all_zero([undet(ga, c) for k, c in x.items() if ref.gr(k) != len(idx)], 'reciprocal blade grade')
        ctx.claim_all_zero([(dot(x, {m2: S.One}), S(int(m2 == m))) for m2, i2, _ in items], 'reciprocal blades dual under the scalar product')
    # expansion in the reciprocal basis
    v, w = ctx.vec(ga, 'v')
    s = ga.mv(0)
    for r, ei in zip(ga.mvr(), e):
        s += (v | r) * ei
    ctx.claim_all_zero([(undet(ga, a), undet(ga, b)) for a, b in ref.pairs(ref.of_mv(s, al), w)], 'expansion of a vector')


def frame(ctx, alg, k, sup=None, coef=None):
    ga = build(ctx, alg)
    al = ref.alg(ga)
    vs, rs = [], []
    for i in range(k):
        v, r = ctx.mv(ga, 'vwxy'[i], grades=(1,), blades=None if sup is None or sup[i] is None else [(j,) for j in sup[i]])
        vs.append(v)
        rs.append(r)
    E = {0: S.One}
    for r in rs:
        E = ref.wedge(E, r)
    E = {m: sympy.expand(c) for m, c in E.items()}
    Esq = sympy.expand(al.mul(E, E).get(0, S.Zero))
    ctx.assume_nonzero(Esq)
    R = ga.ReciprocalFrame(tuple(vs))
    ctx.claim(len(R) == k, 'number of vectors')
    def check(R, f, name):
        for i in range(k):
            x = ref.of_mv(R[i], al)
            ctx.claim_all_zero([c for m, c in x.items() if ref.gr(m) != 1], name + ' vectors')
            ctx.claim_all_zero([(al.mul(x, rs[j]).get(0, S.Zero), f * int(i == j)) for j in range(k)], name + ' dual to the frame')
            ctx.claim_all_zero(list(ref.wedge(ref.grade(x, 1), E).values()), name + ' inside the span')
    check(R, S.One, 'norm:')
    R2 = ga.ReciprocalFrame(vs, mode='norm')
    for a, b in zip(R, R2):
        ctx.claim_same(a, b, 'default mode is norm')
    A = ga.ReciprocalFrame(vs, mode='append')
    ctx.claim(len(A) == k + 1, 'append: number of entries')
    ctx.claim_zero(A[-1] - Esq, 'append: square of E')
    check(A, Esq, 'append:')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        O = ga.ReciprocalFrame(vs, mode='other')
    ctx.claim(len(O) == k + 1, 'other mode: number of entries')
    for a, b in zip(O, A):
        ctx.claim_same(a, b, 'other mode is append')
    for v, r in zip(vs, rs):
        ctx.claim_eq(v, r, 'frame unchanged')


def tasks(tier):
    T = []
    num = ['E1', 'L1', 'E2', 'M2', 'A2', 'E3', 'M3', 'A3', 'STA', 'M22', 'W3', 'NE2', 'NM2', 'NX2', 'NE3', 'NL3', 'NX3', 'CGA1', 'NB3', 'CGA2', 'NI4', 'NX4', 'E5', 'M41', 'S1', 'S2', 'S3', 'S4', 'T3', 'G2', 'G3']
    for a in num:
        T.append(Task('basis-' + a, basis, params=dict(alg=a), weight=3))
    for a in ['sph', 'cyl', 'polar', 'parab', 'skew', 'helix', 'general2']:
        T.append(Task('basis-' + a, basis, params=dict(alg=a), weight=4))
    for a in ['sph', 'cyl', 'polar', 'parab', 'S2', 'W3', 'A2']:
        T.append(Task('basis-norm-' + a, basis, params=dict(alg=a, norm=True), weight=4))
    for a in ['skew', 'helix', 'G2', 'NX3', 'polar', 'general2']:
        T.append(Task('basis-gsym-' + a, basis, params=dict(alg=a, gsym='g'), weight=4))
    for a, k, sup in [('E1', 1, None), ('E2', 1, None), ('E2', 2, None), ('M2', 1, None), ('M2', 2, None), ('NX2', 2, None), ('NM2', 2, None), ('NM2', 1, None), ('E3', 1, None), ('E3', 2, None), ('E3', 3, None), ('M3', 2, None), ('M3', 3, None), ('NX3', 1, None), ('NX3', 2, [[0, 1], [1, 2]]), ('NE3', 2, None), ('NL3', 3, None),
                      ('STA', 2, None), ('STA', 3, [[0, 1], [1, 2], [3]]), ('STA', 4, [[0, 1], [1, 2], [2, 3], [3, 0]]), ('E4', 3, [[0, 1], [1, 2], [2, 3]]), ('E4', 2, None), ('D3', 2, [[1], [0, 2]]), ('PGA3', 2, [[0, 1], [2, 3]]), ('S2', 2, None), ('S3', 2, [[0, 1], [1, 2]]), ('G2', 2, None), ('G2', 1, None), ('CGA2', 2, [[2, 3], [0, 3]]), ('NX4', 4, [[0, 1], [1], [2, 3], [3]])]:
        T.append(Task('frame-%s-%d-%s' % (a, k, 'all' if sup is None else 'sup'), frame, params=dict(alg=a, k=k, sup=sup), weight=3))
    return T

