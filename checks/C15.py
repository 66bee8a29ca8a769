"""C15: linear transformations act as outermorphisms with the right matrix and invariants."""
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('every way of construction (matrix, list of lists, list of vectors, full and partial dictionary with expressions or multivectors, function, versor of 1-4 factors, symbolic name general/symmetric/antisymmetric/'
          'coordinate dependent) with arbitrary entries, general multivector arguments in blade and base representation, dimension 1-4, metrics of every signature, oblique, symbolic, coordinate dependent; degenerate metrics where no inverse of E is needed')
ASSUMPTIONS = ['trace, determinant, adjoint, singularity test and inverse: metric not degenerate (the library defines them through reciprocal vectors or the inverse of the pseudoscalar)', 'inverse: determinant of the transformation not zero', 'versor construction: the versor is invertible']


class Coords:
    """algebra with coordinates, by name"""
    def __init__(self, ctx, alg, **kw):
        n = {'polar': 2, 'skew': 2, 'sph': 3}.get(alg) or algs.metric(ctx, alg).shape[0]
        self.u = tuple(ctx.real('u%d' % i) for i in range(n))
        self.n = n
        if alg in ('polar', 'skew', 'sph'):
            from galgebra.ga import Ga
            a, b = self.u[:2]
            if alg != 'skew':
                ctx.assume_sign(a, '>')
            g = {'polar': [1, a ** 2], 'skew': [[1, a], [a, 1 + 2 * a ** 2]], 'sph': [1, a ** 2, a ** 2 * sympy.sin(b) ** 2]}[alg]
            self.ga = Ga('e', g=g, coords=self.u, **kw)
        else:
            self.ga = algs.make(ctx, alg, coords=self.u, **kw)
        d = sympy.expand(self.ga.g.det())
        if d.free_symbols:
            ctx.assume_nonzero(d)
        self.degenerate = d == 0
        self.al = ref.alg(self.ga)


def ent(ctx, n, name, sup=None):
    """n x n entries; sup lists the nonzero (row, column) places"""
    return sympy.Matrix(n, n, lambda i, j: ctx.real('%s%d%d' % (name, i, j)) if sup is None or (i, j) in sup else S.Zero)


def images(M):
    return [{1 << i: M[i, j] for i in range(M.rows) if M[i, j] != 0} for j in range(M.cols)]


def outer(im, r):
    out = {}
    for m, c in r.items():
        x = {0: c}
        for i in range(len(im)):
            if m >> i & 1:
                x = ref.wedge(x, im[i])
        out = ref.add(out, x)
    return out


def matrix_of(im):
    n = len(im)
    return sympy.Matrix(n, n, lambda i, j: S(im[j].get(1 << i, 0)))


def sandwich(al, fs, x):
    """product of vectors fs acting on the vector x, reflections one after the other"""
    for f in reversed(fs):
        q = al.mul(f, f).get(0, S.Zero)
        x = ref.scale(-1 / q, al.mul(f, x, f))
    return ref.grade(x, 1)


HOW = ('matrix', 'rows', 'vectors', 'dict', 'dictmv', 'dictpart', 'function', 'ImmutableMatrix')


def build(ctx, C, how, name='m', sup=None):
    """(Lt, reference images of the basis vectors)"""
    ga, n, al = C.ga, C.n, C.al
    b = ga.basis
    if how.startswith('versor'):
        fs, V = [], ga.mv(1)
        for k, blades in enumerate(VERS[how[6:]]):
            v, r = ctx.mv(ga, name + 'vwxy'[k], grades=(1,), blades=[(i,) for i in blades if i < n])
            ctx.assume_nonzero(sympy.expand(al.mul(r, r).get(0, S.Zero)))
            fs.append(r)
            V = V * v
        return ga.lt(V), [sandwich(al, fs, {1 << i: S.One}) for i in range(n)]
    M = ent(ctx, n, name, sup)
    if how == 'dictpart':
        M[:, 0] = sympy.zeros(n, 1)
    im = images(M)
    col = [sum((M[i, j] * b[i] for i in range(n)), S.Zero) for j in range(n)]
    if how == 'matrix':
        return ga.lt(M), im
    if how == 'ImmutableMatrix':
        return ga.lt(sympy.ImmutableMatrix(M)), im
    if how == 'rows':
        return ga.lt([list(M[:, j]) for j in range(n)]), im
    if how == 'vectors':
        return ga.lt([ctx.make(ga, c) for c in col]), im
    if how == 'dict':
        d = dict(zip(b, col))
        L = ga.lt(d)
        ctx.claim(d == dict(zip(b, col)), 'dictionary argument unchanged')
        return L, im
    if how == 'dictmv':
        return ga.lt({x: ctx.make(ga, c) for x, c in zip(b, col)}), im
    if how == 'dictpart':
        return ga.lt(dict(list(zip(b, col))[1:])), im
    if how == 'function':
        e = ga.mv()
        w = [ctx.make(ga, c) for c in col]
        R = ga.mvr(norm=True)

        def f(x):
            r = ga.mv(0)
            for wi, ri in zip(w, R):
                r = r + (x | ri).scalar() * wi
            return r
        return ga.lt(f), im
    raise KeyError(how)


# factors of a versor by the basis vectors they use
VERS = {'1': [(0, 1, 2)], '2': [(0, 1), (1, 2, 0)], '2p': [(0, 1), (1,)], '3': [(0, 1), (1, 2), (0,)], '4': [(0,), (0, 1), (1, 2), (2, 3)]}


def eq(ctx, C, A, r, label):
    ctx.claim_all_zero(ref.pairs(ref.of_obj(getattr(A, 'obj', A), C.ga, C.al), r), label)


def checkL(ctx, C, L, im, label, grades=None, full=True):
    ga, al, n = C.ga, C.al, C.n
    X, x = ctx.mv(ga, 'X', grades=grades)
    eq(ctx, C, L(X), outer(im, x), label + ' on a multivector')
    eq(ctx, C, L(X.obj), outer(im, x), label + ' on an expression')
    eq(ctx, C, L(X, obj=True), outer(im, x), label + ' obj=True')
    eq(ctx, C, X, x, 'argument unchanged')
    for k, e in enumerate(ga.mv()):
        eq(ctx, C, L(e), im[k], label + ' on a basis vector')
    if full:
        eq(ctx, C, L(X.base_rep()), outer(im, x), label + ' on the base representation')
    v, vr = ctx.mv(ga, 'v', grades=(1,))
    eq(ctx, C, L(v), outer(im, vr), label + ' on a vector')
    eq(ctx, C, L(v, obj=True), outer(im, vr), label + ' on a vector obj=True')
    k = ctx.real('k')
    eq(ctx, C, L(k), {0: k}, label + ' on a number')
    eq(ctx, C, L(ga.mv(3)), {0: 3}, label + ' on a scalar')
    eq(ctx, C, L(ga.mv(0)), {}, label + ' on zero')
    M = matrix_of(im)
    for t in ('', ' again'):
        A = L.matrix()
        ctx.claim(A.shape == (n, n), 'shape of the matrix')
        ctx.claim_all_zero([(A[i, j], M[i, j]) for i in range(n) for j in range(n)], label + ' matrix' + t)
    eq(ctx, C, L(X), outer(im, x), label + ' on a multivector, after matrix()')


def construct(ctx, alg, how, grades=None, sup=None, **kw):
    C = Coords(ctx, alg, **kw)
    L, im = build(ctx, C, how, sup=sup)
    checkL(ctx, C, L, im, how, grades)


def mulvec(M, r):
    n = M.rows
    return {1 << i: sum(M[i, j] * r.get(1 << j, 0) for j in range(n)) for i in range(n)}


def invariants(ctx, alg, how='matrix', sup=None, inv=True, **kw):
    C = Coords(ctx, alg, **kw)
    ga, al, n = C.ga, C.al, C.n
    L, im = build(ctx, C, how, sup=sup)
    M = matrix_of(im)
    if C.degenerate:
        return
    ctx.claim_zero(S(L.tr()) - sum(M[i, i] for i in range(n)), 'trace is the trace of the matrix')
    det = outer(im, {al.full: S.One}).get(al.full, S.Zero)
    from galgebra.lt import det as det_f
    ctx.claim_zero(L.det() - det, 'determinant is the factor on the pseudoscalar')
    ctx.claim_zero(det_f(L) - det, 'det(L)')
    A = L.adj()
    a, ar = ctx.vec(ga, 'a')
    b, br = ctx.vec(ga, 'b')
    dot = lambda p, q: al.mul(p, q).get(0, S.Zero)
    adj = ref.of_mv(A(a), al)
    ctx.claim_all_zero([(dot(ar, outer(im, br)), dot(adj, br))], 'adjoint a.L(b) = adj(L)(a).b')
    ctx.claim_all_zero([c for m, c in adj.items() if ref.gr(m) != 1], 'adjoint of a vector is a vector')
    ctx.claim_all_zero([((a | L(b)).scalar(), (A(a) | b).scalar())], 'adjoint with the library product')
    AA = A.adj()
    ctx.claim_all_zero([(AA.matrix()[i, j], M[i, j]) for i in range(n) for j in range(n)], 'adjoint of the adjoint')
    if n <= 2 or (sup is not None and n == 3):
        X, x = ctx.mv(ga, 'X', grades=(2,) if n > 1 else (1,))
        Y, y = ctx.mv(ga, 'Y', grades=(2,) if n > 1 else (1,))
        ctx.claim_all_zero([(dot(ref.rev(x), outer(im, y)), dot(ref.rev(ref.of_mv(A(X), al)), y))], 'adjoint on bivectors')
    d = sympy.expand(det) if not how.startswith('versor') else det
    if inv and d != 0:
        ctx.assume_nonzero(d)
        ctx.claim(not L.is_singular(), 'not singular')
        I = L.inv()
        b, br = ctx.vec(ga, 'b')
        y = ref.of_mv(I(b), al)
        ctx.claim_all_zero(ref.pairs(outer(im, y), br), 'L(inv(L)(b)) = b')
        im2 = [ref.of_mv(I(e), al) for e in ga.mv()]
        ctx.claim_all_zero(ref.pairs(outer(im2, outer(im, br)), br), 'inv(L)(L(b)) = b')
    elif d == 0:
        ctx.claim(bool(L.is_singular()), 'singular')
        ctx.claim_raises(ValueError, lambda: L.inv(), 'inverse of a singular transformation raises')


def singular(ctx, alg, sup):
    """on numbers: is_singular decides det = 0, inv raises exactly then"""
    C = Coords(ctx, alg)
    n = C.n
    M = ent(ctx, n, 'm', sup)
    L = C.ga.lt(M)
    s = L.is_singular()
    ctx.claim_iff_zero(s, [M.det()], 'is_singular iff the determinant vanishes')
    if s:
        ctx.claim_raises(ValueError, lambda: L.inv(), 'inverse of a singular transformation raises')
    else:
        I = L.inv().matrix()
        P = I * M
        ctx.claim_all_zero([(P[i, j], S(int(i == j))) for i in range(n) for j in range(n)], 'inverse matrix')


def scaled(k, im):
    return [ref.scale(k, r) for r in im]


def pointwise(ctx, alg, h1, h2, sup=None, grades=None, **kw):
    C = Coords(ctx, alg, **kw)
    ga, n = C.ga, C.n
    L, li = build(ctx, C, h1, 'm', sup)
    K, ki = build(ctx, C, h2, 'p', sup)
    k = ctx.real('k')
    X, x = ctx.mv(ga, 'X', grades=grades)
    for name, A, im in [('L + K', lambda: L + K, [ref.add(a, b) for a, b in zip(li, ki)]), ('L - K', lambda: L - K, [ref.sub(a, b) for a, b in zip(li, ki)]),
                        ('L * K', lambda: L * K, [outer(li, r) for r in ki]), ('k * L', lambda: k * L, scaled(k, li)), ('L * k', lambda: L * k, scaled(k, li)),
                        ('3 * L', lambda: 3 * L, scaled(3, li)), ('L - L', lambda: L - L, [{} for _ in li]),
                        ('L + k*K - K', lambda: L + k * K - K, [ref.add(a, b, k - 1) for a, b in zip(li, ki)]), ('L * L', lambda: L * L, [outer(li, r) for r in li])]:
        T = A()
        for i, e in enumerate(ga.mv()):
            eq(ctx, C, T(e), im[i], name + ' pointwise')
        M = T.matrix()
        R = matrix_of(im)
        ctx.claim_all_zero([(M[i, j], R[i, j]) for i in range(n) for j in range(n)], 'matrix of ' + name)
        if name == 'L * K':
            eq(ctx, C, T(X), outer(li, outer(ki, x)), 'composition on a multivector')
        elif name == 'L + K':
            eq(ctx, C, T(X), outer(im, x), 'sum extends as an outermorphism')
    for i, e in enumerate(ga.mv()):
        eq(ctx, C, L(e), li[i], 'first operand unchanged')
        eq(ctx, C, K(e), ki[i], 'second operand unchanged')
    if not C.degenerate:
        P = L * K
        ctx.claim_zero(sympy.S(P.det()) - outer(li, {C.al.full: S.One}).get(C.al.full, S.Zero) * outer(ki, {C.al.full: S.One}).get(C.al.full, S.Zero), 'determinant is multiplicative')


def named(ctx, alg, mode, f, **kw):
    """ga.lt('A', ...)"""
    C = Coords(ctx, alg, **kw)
    ga, al, n = C.ga, C.al, C.n
    L = ga.lt('A', mode=mode, f=f)
    im = [ref.of_mv(L(e), al) for e in ga.mv()]
    ctx.claim_all_zero([c for r in im for m, c in r.items() if ref.gr(m) != 1], 'vectors to vectors')
    M = matrix_of(im)
    checkL(ctx, C, L, im, 'named ' + mode, full=n <= 3)
    low = (ga.g * M).applyfunc(sympy.cancel)      # e_i . L(e_j)
    cs = [low[i, j] for i in range(n) for j in range(n)] if mode != 'g' else list(M)
    if mode == 's':
        ctx.claim_all_zero([(low[i, j], low[j, i]) for i in range(n) for j in range(i)], 'symmetric: e_i.L(e_j) = L(e_i).e_j')
    if mode == 'a':
        ctx.claim_all_zero([(low[i, j], -low[j, i]) for i in range(n) for j in range(i + 1)], 'antisymmetric: e_i.L(e_j) = -L(e_i).e_j')
    ind = {'g': [(i, j) for i in range(n) for j in range(n)], 's': [(i, j) for i in range(n) for j in range(i + 1)], 'a': [(i, j) for i in range(n) for j in range(i)]}[mode]
    src = M if mode == 'g' else low
    got = [src[p] for p in ind]
    at = [sympy.expand(x) for x in got]
    at = [-x if x.could_extract_minus_sign() else x for x in at]
    ctx.claim(all(x.is_Symbol and x.is_real if not f else isinstance(x, sympy.core.function.AppliedUndef) and x.args == tuple(ga.coords) for x in at), 'coefficients are plain real symbols or functions of the coordinates')
    ctx.claim(len(set(at)) == len(ind), 'coefficients are independent')


def errors(ctx):
    C = Coords(ctx, 'E3')
    ga = C.ga
    e = ga.mv()
    k = ctx.real('k', nonzero=True)
    D = Coords(ctx, 'M3').ga
    ctx.claim_raises(ValueError, lambda: ga.lt(lambda x: x * x), 'non linear function')
    ctx.claim_raises(ValueError, lambda: ga.lt(lambda x: x + k * e[0]), 'affine function')
    ctx.claim_raises(ValueError, lambda: ga.lt(lambda x: x ^ e[0]), 'bivector valued function')
    ctx.claim_raises(ValueError, lambda: ga.lt(lambda x: x + k * (x | e[0])), 'mixed grade function')
    ctx.claim_raises(TypeError, lambda: ga.lt(k), 'unsupported argument')
    ctx.claim_raises(ValueError, lambda: ga.lt(sympy.Matrix([[1, k], [0, 1]])), 'matrix of the wrong size')
    ctx.claim_raises(ValueError, lambda: ga.lt('A', mode='q'), 'unknown mode')
    for V in (e[0] + k * (e[0] ^ e[1]), 1 + k * e[2], ga.mv(0), 2 + k * (e[0] ^ e[1] ^ e[2]) + e[1]):
        ctx.claim_raises((ValueError, TypeError), lambda: ga.lt(V), 'multivector that is not a versor')
    L = ga.lt([[1, k, 0], [0, 1, k], [0, 0, 1]])
    ctx.claim_raises(ValueError, lambda: L(D.mv()[0]), 'argument of another algebra')
    K = D.lt([[1, k, 0], [0, 1, k], [0, 0, 1]])
    ctx.claim_raises(ValueError, lambda: L + K, 'sum over different algebras')
    ctx.claim_raises(ValueError, lambda: L - K, 'difference over different algebras')
    ctx.claim_raises(ValueError, lambda: L * K, 'composition over different algebras')


def rotor(ctx, alg, planes):
    """a rotor (R rev(R) = 1) acts by R x rev(R)"""
    C = Coords(ctx, alg)
    ga, al, n = C.ga, C.al, C.n
    R = ga.mv(1)
    r = {0: S.One}
    for k, (i, j) in enumerate(planes):
        t = ctx.real('t%d' % k)
        s = C.ga.g[i, i] * C.ga.g[j, j]
        c, d = (sympy.cos(t), sympy.sin(t)) if s > 0 else (sympy.cosh(t), sympy.sinh(t))
        B = {0: c, (1 << i) | (1 << j): d}
        r = al.mul(r, B)
        R = R * (c + d * (ga.mv()[i] ^ ga.mv()[j]))
    L = ga.lt(R)
    X, x = ctx.mv(ga, 'X')
    eq(ctx, C, L(X), al.mul(r, x, ref.rev(r)), 'rotor on a multivector')
    eq(ctx, C, R * X * R.rev(), al.mul(r, x, ref.rev(r)), 'sandwich')
    ctx.claim_zero(L.det() - 1, 'rotor has determinant one')


TRI3 = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 0)]
TRI4 = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 0)]


def tasks(tier):
    T = []
    two = ['E2', 'M2', 'NE2', 'NM2', 'NX2', 'G2', 'S2', 'polar', 'skew']
    deg = ['D2', 'Z2', 'ND2']
    three = ['E3', 'M3', 'NX3', 'NL3', 'S3']
    for a in ['E1', 'L1'] + two + deg + three + ['D3']:
        for h in HOW:
            if h == 'function' and a in deg + ['D3']:
                continue
            T.append(Task('build-%s-%s' % (a, h), construct, params=dict(alg=a, how=h), weight=2))
    for a in ['STA', 'NX4']:
        for h in ['matrix', 'rows', 'vectors', 'dictpart', 'dictmv', 'function']:
            T.append(Task('build-%s-%s' % (a, h), construct, params=dict(alg=a, how=h, sup=TRI4), weight=4))
    for a in ['polar', 'sph']:
        for h in ['matrix', 'dict', 'rows']:
            T.append(Task('build-norm-%s-%s' % (a, h), construct, params=dict(alg=a, how=h, norm=True), weight=2))
    for a in ['E2', 'M2', 'NE2', 'NX2', 'E3', 'M3', 'NL3', 'S2', 'STA']:
        for v in ['1', '2', '2p', '3'] + (['4'] if a in ('STA', 'E3') else []):
            if a == 'NL3' and v in ('2p', '3'):
                continue
            T.append(Task('build-%s-versor%s' % (a, v), construct, params=dict(alg=a, how='versor' + v, grades=None if a in ('E2', 'M2', 'NE2', 'NX2', 'S2') else (1, 2)), weight=4))
    for a in ['E1', 'L1'] + two + three:
        T.append(Task('inv-' + a, invariants, params=dict(alg=a), weight=5))
    for a in ['E3', 'NX3', 'M3', 'STA', 'NX4']:
        T.append(Task('invsup-' + a, invariants, params=dict(alg=a, sup=TRI4 if a in ('STA', 'NX4') else TRI3), weight=5))
    for a in ['polar', 'sph']:
        T.append(Task('inv-norm-' + a, invariants, params=dict(alg=a, sup=TRI3 if a == 'sph' else None, norm=True), weight=5))
    for a in ['E2', 'NE2', 'M2', 'E3']:
        for h in ['versor1', 'versor2', 'dictpart', 'vectors', 'dictmv']:
            T.append(Task('inv-%s-%s' % (a, h), invariants, params=dict(alg=a, how=h, sup=TRI3 if a == 'E3' else None), weight=5))
    for a in ['E2', 'NX2', 'M2']:
        T.append(Task('sing-' + a, singular, 'num', params=dict(alg=a, sup=None), weight=5, max_paths=3000))
    T.append(Task('sing-E3', singular, 'num', params=dict(alg='E3', sup=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 2)]), weight=6, max_paths=3000))
    for a in ['E2', 'NE2', 'M2', 'G2', 'skew', 'D2', 'E3', 'NL3', 'M3']:
        s = TRI3 if a in ('E3', 'NL3', 'M3') else None
        for h1, h2 in [('matrix', 'rows'), ('dict', 'vectors'), ('dictpart', 'matrix'), ('matrix', 'dictpart'), ('dictmv', 'dictmv')] + ([('versor1', 'matrix'), ('versor2', 'versor1'), ('rows', 'versor2p')] if a in ('E2', 'M2') else [('versor1', 'matrix')] if a == 'NE2' else []):
            T.append(Task('ops-%s-%s-%s' % (a, h1, h2), pointwise, params=dict(alg=a, h1=h1, h2=h2, sup=s), weight=4))
    for a in ['E1'] + two + three + ['STA', 'sph']:
        for m in 'gsa':
            for f in (False, True):
                T.append(Task('name-%s-%s-%d' % (a, m, f), named, params=dict(alg=a, mode=m, f=f), weight=3))
    for a, p in [('E2', [(0, 1)]), ('E3', [(0, 1), (1, 2)]), ('M2', [(0, 1)]), ('M3', [(0, 1), (1, 2)]), ('STA', [(0, 1), (1, 2)])]:
        T.append(Task('rotor-' + a, rotor, params=dict(alg=a, planes=p), weight=5))
    T.append(Task('errors', errors))
    return T
