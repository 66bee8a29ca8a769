"""C13: partial and vector derivatives of multivector fields, flat and curvilinear."""
import sympy
from sympy import S, Matrix
from vs import algs, ref
from vs.runner import Task
from checks.C12 import fields, named, gamma, undet, coords

BOUNDS = ('fields with arbitrary smooth coefficient functions on every blade (or on the chosen grades), dimension 1-4, one to three derivatives; constant metrics of '
          'every signature (orthogonal, oblique, symbolic), arbitrary metric functions in dimension 1-2, diagonal ones in dimension 3, named curvilinear systems, normalised and not; '
          'coordinate systems given by arbitrary maps of the plane and named maps of space')
ASSUMPTIONS = ['metric determinant not zero', 'functions are smooth (mixed partial derivatives of coefficients commute)']
OPS = '*^|<>'


class Geo:
    """an algebra with coordinates and an independent description of it"""

    def __init__(self, ctx, space):
        from galgebra.ga import Ga
        kind, _, rest = space.partition(':')
        norm = kind.endswith('n')
        kw = dict(norm=True) if norm else {}
        if kind == 'flat':
            w = algs.metric(ctx, rest)
            self.u = coords(ctx, w.shape[0])
        elif kind in ('named', 'namedn'):
            self.u, w = named(ctx, rest)
        elif kind in ('full', 'diag', 'diagn'):
            self.u, w = fields(ctx, int(rest[0]), kind != 'full', **(dict(positive=True) if norm else {}))
            for i in range(int(rest[0])):
                if rest[i + 1:i + 2] == '-':
                    w[i, i] = -w[i, i]
        n = self.n = len(self.u)
        d = w.det()
        if d.free_symbols or d.atoms(sympy.Function):
            ctx.assume_nonzero(d)
        if kind == 'flat':
            self.ga = Ga('e*' + '|'.join(str(i + 1) for i in range(n)) if n > 1 else 'e,', g=w, coords=tuple(self.u))
        else:
            self.ga = Ga('e', g=w, coords=tuple(self.u), **kw)
        self.w, self.norm = w, norm
        self.N = list(self.ga.e_norm) if norm else [S.One] * n
        self.g = sympy.diag(*[sympy.sign(w[i, i]) for i in range(n)]) if norm else w
        _, G = gamma(w, self.u)
        R = range(n)
        self.de = [[{1 << k: c for k in R for c in [G[i][j][k] * self.N[k] / self.N[j] - (sympy.diff(self.N[j], self.u[i]) / self.N[j] if k == j else 0)] if c != 0} for j in R] for i in R]
        self.items = ref.blade_items(self.ga)
        inv = w.adjugate() / d if n > 1 else Matrix([[1 / w[0, 0]]])
        # e^i as combination of the algebra's basis vectors
        self.r = [{1 << k: c for k in R for c in [inv[i, k] * self.N[k]] if c != 0} for i in R]
        self.al = ref.Alg(self.g)

    def pd(self, r, i):
        """reference derivative of a multivector"""
        out = {}
        for m, c in r.items():
            out = ref.add(out, {m: sympy.diff(c, self.u[i])})
            idx = [j for j in range(self.n) if m >> j & 1]
            for p, j in enumerate(idx):
                t = {0: c}
                for q, k in enumerate(idx):
                    t = ref.wedge(t, self.de[i][j] if q == p else {1 << k: S.One})
                out = ref.add(out, t)
        return ref.clean(out)

    def prod(self, op, a, b):
        al = self.al
        return {'*': al.mul, '^': ref.wedge, '|': al.dot, '<': al.lc, '>': al.rc}[op](a, b)

    def grad(self, op, r, left=True):
        out = {}
        for i in range(self.n):
            d = self.pd(r, i)
            out = ref.add(out, self.prod(op, self.r[i], d) if left else self.prod(op, d, self.r[i]))
        return out

    def field(self, ctx, name, grades=None, args=None):
        r, obj = {}, S.Zero
        for m, idx, b in self.items:
            if grades is None or len(idx) in grades:
                c = ctx.fn(name + ''.join(map(str, idx)) + ('s' if not idx else ''), *(args or self.u))
                r[m] = c
                obj += c * b
        return ctx.make(self.ga, obj), r

    def eq(self, ctx, A, r, label):
        ctx.claim_all_zero([(undet(self.w, a), b) for a, b in ref.pairs(ref.of_mv(A, self.al) if getattr(A, 'Ga', None) is None else ref.of_obj(A.obj, self.ga, self.al), r)], label)


def apply(op, a, b):
    return {'*': lambda: a * b, '^': lambda: a ^ b, '|': lambda: a | b, '<': lambda: a < b, '>': lambda: a > b}[op]()


def partial(ctx, space, grades=None):
    from galgebra.dop import Pdop
    G = Geo(ctx, space)
    ga, u, n = G.ga, G.u, G.n
    F, r = G.field(ctx, 'F', grades)
    for i in range(n):
        w = G.pd(r, i)
        G.eq(ctx, ga.pDiff(F, u[i]), w, 'pDiff')
        G.eq(ctx, F.diff(u[i]), w, 'diff')
        G.eq(ctx, F.pdiff(u[i]), w, 'pdiff')
        G.eq(ctx, Pdop(u[i])(F), w, 'Pdop')
        G.eq(ctx, Pdop({u[i]: 1}) * F, w, 'Pdop by *')
        G.eq(ctx, F.base_rep().diff(u[i]), w, 'derivative of the base representation') if not ga.is_ortho else None
        G.eq(ctx, (F + 3).diff(u[i]), w, 'constants vanish')
        for j in range(n):
            if n < 3 or i == j or (i, j) == (0, 1):
                l = [0] * n
                l[i] += 1
                l[j] += 1
                first, second = min(i, j), max(i, j)
                G.eq(ctx, ga.pDiff(F, l), G.pd(G.pd(r, first), second), 'list of orders')
                G.eq(ctx, F.diff(u[i]).diff(u[j]), G.pd(w, j), 'second derivative')
        if ga.de is not None:
            for j in range(n):
                G.eq(ctx, ga.mv()[j].diff(u[i]), G.de[i][j], 'derivative of a basis vector')
    G.eq(ctx, F, r, 'field unchanged')
    G.eq(ctx, ga.pDiff(F, [0] * n), r, 'no derivative')
    if ga.connect_flg:
        for m, idx, b in G.items[1:]:
            for i in range(n):
                want = G.pd({m: S.One}, i)
                for k in (i, u[i], i):
                    G.eq(ctx, ctx.make(ga, S(ga.blade_derivation(b, k))), want, 'blade_derivation')


def parameter(ctx, space):
    G = Geo(ctx, space)
    t = ctx.real('t')
    F, r = G.field(ctx, 'F', args=[t] + G.u)
    w = {m: sympy.diff(c, t) for m, c in r.items()}
    G.eq(ctx, F.diff(t), w, 'diff by a parameter')
    G.eq(ctx, F.pdiff(t), w, 'pdiff by a parameter')
    from galgebra.dop import Pdop
    G.eq(ctx, Pdop(t)(F), w, 'Pdop of a parameter')
    G.eq(ctx, F.diff(t).diff(G.u[0]), G.pd(w, 0), 'parameter and coordinate')
    H, s = G.field(ctx, 'H', args=[t])
    G.eq(ctx, H.diff(G.u[0]), G.pd(s, 0), 'constant coefficients still see the basis')


def forms(ctx, space):
    """the same field written differently"""
    G = Geo(ctx, space)
    u = G.u
    F, r = G.field(ctx, 'F', (1, 2))
    k = ctx.fn('K', *u)
    for name, A, want in [('scaled', k * F, ref.scale(k, r)), ('sum of equals', F + F, ref.scale(2, r)), ('simplified', (k * F).simplify(), ref.scale(k, r)),
                          ('expanded', (k * (F + F)).expand(), ref.scale(2 * k, r)), ('unexpanded', ctx.make(G.ga, k * F.obj), ref.scale(k, r)), ('product', ctx.make(G.ga, (k + 1) * (2 * F.obj + 1)), ref.add(ref.scale(2 * (k + 1), r), {0: k + 1}))]:
        for i in range(G.n):
            G.eq(ctx, A.diff(u[i]), G.pd(want, i), 'derivative of ' + name)
        G.eq(ctx, G.ga.grad * A, G.grad('*', want), 'gradient of ' + name)


def linear(ctx, space):
    G = Geo(ctx, space)
    ga, u = G.ga, G.u
    A, a = G.field(ctx, 'A')
    B, b = G.field(ctx, 'B', (0, 1))
    c = ctx.real('c')
    for i in range(G.n):
        x = u[i]
        G.eq(ctx, (A + c * B).diff(x), ref.add(G.pd(a, i), G.pd(b, i), c), 'linear')
        for op in OPS:
            lhs = apply(op, A, B).diff(x)
            rhs = apply(op, A.diff(x), B) + apply(op, A, B.diff(x))
            ctx.claim_all_zero([(undet(G.w, p), undet(G.w, q)) for p, q in ref.pairs(ref.of_obj(lhs.obj, ga, G.al), ref.of_obj(rhs.obj, ga, G.al))], 'product rule ' + op)


def gradient(ctx, space, grades=None, ops=OPS):
    G = Geo(ctx, space)
    ga = G.ga
    F, r = G.field(ctx, 'F', grades)
    grad, rgrad = ga.grads()
    ctx.claim(grad is ga.grad and rgrad is ga.rgrad, 'grads()')
    for op in ops:
        G.eq(ctx, apply(op, grad, F), G.grad(op, r), 'grad %s F' % op)
        G.eq(ctx, apply(op, F, rgrad), G.grad(op, r, False), 'F %s rgrad' % op)
    G.eq(ctx, F, r, 'field unchanged')


def curl(ctx, space, grades=None, second=True):
    G = Geo(ctx, space)
    ga = G.ga
    F, r = G.field(ctx, 'F', grades)
    c = ga.grad ^ F
    d = ga.grad < F
    G.eq(ctx, c, G.grad('^', r), 'curl')
    G.eq(ctx, d, G.grad('<', r), 'divergence')
    G.eq(ctx, ga.grad ^ c, {}, 'curl of the curl')
    G.eq(ctx, ga.grad < d, {}, 'divergence of the divergence')
    p = (ga.grad * F) - c - d
    G.eq(ctx, p, {}, 'grad F is curl plus divergence')
    f, s = G.field(ctx, 'f', (0,))
    G.eq(ctx, ga.grad ^ (ga.grad * f), {}, 'curl of a gradient')
    # Laplacian by its textbook formula
    n, u = G.n, G.u
    dt = sympy.sqrt(sympy.Abs(G.w.det()))
    inv = G.w.adjugate() / G.w.det() if n > 1 else Matrix([[1 / G.w[0, 0]]])
    lap = sum(sympy.diff(dt * inv[i, j] * sympy.diff(s[0], u[j]), u[i]) for i in range(n) for j in range(n)) / dt
    if second:
        G.eq(ctx, ga.grad | (ga.grad * f), {0: lap}, 'Laplacian of a scalar')
        G.eq(ctx, ga.grad * (ga.grad * f), {0: lap}, 'square of grad on a scalar')
        G.eq(ctx, (ga.grad * ga.grad) * f, {0: lap}, '(grad*grad) on a scalar')


def maps(ctx, kind):
    """(coordinates, Cartesian position)"""
    u = coords(ctx, 3 if kind in ('sph', 'cyl', 'parab3', 'shear3') else 2)
    a, b = u[:2]
    c = u[2] if len(u) > 2 else None
    s, k = sympy.sin, sympy.cos
    X = {'polar': lambda: [a * k(b), a * s(b)], 'parab': lambda: [a * b, (a ** 2 - b ** 2) / 2], 'shear': lambda: [a, b + a ** 2], 'plane': lambda: [ctx.fn('P', a, b), ctx.fn('Q', a, b)],
         'elliptic': lambda: [sympy.cosh(a) * k(b), sympy.sinh(a) * s(b)], 'affine': lambda: [a + b, 2 * b - a], 'twist': lambda: [a * k(b + a), a * s(b + a)],
         'sph': lambda: [a * s(b) * k(c), a * s(b) * s(c), a * k(b)], 'cyl': lambda: [a * k(b), a * s(b), c], 'parab3': lambda: [a * b * k(c), a * b * s(c), (a ** 2 - b ** 2) / 2],
         'shear3': lambda: [a, b + a * c, c + a ** 2]}[kind]()
    return u, X


def cartesian(ctx, kind, norm=False, grades=None, how='metric'):
    """results in the curvilinear algebra, written out in Cartesian components, equal the Cartesian ones"""
    from galgebra.ga import Ga
    u, X = maps(ctx, kind)
    n = len(u)
    R = range(n)
    J = Matrix(n, n, lambda i, j: sympy.diff(X[j], u[i]))       # rows: tangent vectors in the Cartesian basis
    ctx.assume_nonzero(J.det())
    w = (J * J.T).applyfunc(sympy.expand)
    kw = dict(norm=True) if norm else {}
    if how == 'X':
        ga = Ga('e', X=X, coords=tuple(u), **kw)
    else:
        ga = Ga('e', g=w.applyfunc(sympy.trigsimp), coords=tuple(u), **kw)
    N = list(ga.e_norm) if norm else [S.One] * n
    E = [{1 << j: J[i, j] / N[i] for j in R if J[i, j] != 0} for i in R]
    Ji = J.adjugate() / J.det()
    recip = [{1 << j: Ji[j, i] for j in R} for i in R]
    al = ref.Alg(sympy.eye(n))
    items = ref.blade_items(ga)
    exp = {}
    for m, idx, b in items:
        t = {0: S.One}
        for j in idx:
            t = ref.wedge(t, E[j])
        exp[m] = t
    from galgebra.atoms import Determinant

    def cart(A):
        out = {}
        for m, c in ref.of_obj(A.obj, ga).items():
            out = ref.add(out, exp[m], undet(w, c))
        return out
    r, obj = {}, S.Zero
    for m, idx, b in items:
        if grades is None or len(idx) in grades:
            c = ctx.fn('F' + ''.join(map(str, idx)) + ('s' if not idx else ''), *u)
            r[m] = c
            obj += c * b
    F = ctx.make(ga, obj)
    Fc = {}
    for m, c in r.items():
        Fc = ref.add(Fc, exp[m], c)
    D = [{m: sympy.diff(c, u[i]) for m, c in Fc.items()} for i in R]
    P = {'*': al.mul, '^': ref.wedge, '|': al.dot, '<': al.lc, '>': al.rc}
    for i in R:
        ctx.claim_all_zero(ref.pairs(cart(F.diff(u[i])), D[i]), 'partial derivative in Cartesian components')
    for op in OPS if n < 3 else '*^<':
        left, right = {}, {}
        for i in R:
            left = ref.add(left, P[op](recip[i], D[i]))
            right = ref.add(right, P[op](D[i], recip[i]))
        ctx.claim_all_zero(ref.pairs(cart(apply(op, ga.grad, F)), left), 'grad %s F in Cartesian components' % op)
        ctx.claim_all_zero(ref.pairs(cart(apply(op, F, ga.rgrad)), right), 'F %s rgrad in Cartesian components' % op)


def wrt_mv(ctx, alg, grades=None):
    """derivative with respect to a multivector variable"""
    from galgebra.ga import Ga
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    d = sympy.expand(ga.g.det())
    if d.free_symbols:
        ctx.assume_nonzero(d)
    a, ra = ctx.mv(ga, 'a', grades=grades)
    items = [(m, idx) for m, idx, b in ref.blade_items(ga) if m in ra]
    xs = [ra[m] for m, _ in items]
    f = {m: ctx.fn('F%d' % m, *xs) for m, idx, b in ref.blade_items(ga)}
    F = ctx.make(ga, sum(f[m] * b for m, idx, b in ref.blade_items(ga)))
    # reciprocal blades: <e^I e_J> = delta
    B = [m for m, _, _ in ref.blade_items(ga)]
    Gm = Matrix(len(B), len(B), lambda i, j: al.mul({B[i]: S.One}, {B[j]: S.One}).get(0, S.Zero))
    inv = Gm.inv() if not d.free_symbols else (Gm.adjugate() / Gm.det() if len(B) <= 4 else None)
    if inv is None:
        inv = Gm.inv()
    rec = {B[i]: {B[k]: inv[i, k] for k in range(len(B)) if inv[i, k] != 0} for i in range(len(B))}
    for cmpflg in (False, True):
        g = ga.make_grad(a, cmpflg=cmpflg)
        g2 = ga.make_grad(a, cmpflg=cmpflg)
        ctx.claim(g is g2 or g == g2, 'same operator again')
        ctx.claim(g.cmpflg == cmpflg, 'side')
        for op in OPS:
            want = {}
            P = {'*': al.mul, '^': ref.wedge, '|': al.dot, '<': al.lc, '>': al.rc}[op]
            for m, _ in items:
                dF = {k: sympy.diff(c, ra[m]) for k, c in f.items()}
                want = ref.add(want, P(dF, rec[m]) if cmpflg else P(rec[m], dF))
            got = apply(op, F, g) if cmpflg else apply(op, g, F)
            ctx.claim_eq(got, want, 'multivector derivative %s' % op)
    if grades == (1,):
        g = ga.make_grad(xs)
        ctx.claim_eq(g * F, (lambda o: o)(ref.of_mv(ga.make_grad(a) * F)), 'coefficients or vector')
        b, rb = ctx.vec(ga, 'b')
        ctx.claim_eq(g * (a | b), rb, 'derivative of a|b')
        ctx.claim_eq(g * a, {0: S(ga.n)}, 'derivative of a is the dimension')


def nocoords(ctx):
    from galgebra.ga import Ga
    ga = algs.make(ctx, 'E2')
    ctx.claim_raises(ValueError, ga.grads, 'grads without coordinates')
    t = ctx.real('t')
    A, r = ctx.mv(ga, 'a')
    f = ctx.fn('f', t)
    ctx.claim_eq((f * A).diff(t), {m: sympy.diff(f, t) * c for m, c in r.items()}, 'diff without coordinates')
    ctx.claim_eq((f * A).pdiff(t), {m: sympy.diff(f, t) * c for m, c in r.items()}, 'pdiff without coordinates')
    nx = algs.make(ctx, 'NX2')
    A, r = ctx.mv(nx, 'a')
    ctx.claim_eq((f * A).base_rep().diff(t), {m: sympy.diff(f, t) * c for m, c in r.items()}, 'diff of the base representation')
    ctx.claim_eq((f * A).base_rep().pdiff(t), {m: sympy.diff(f, t) * c for m, c in r.items()}, 'pdiff of the base representation')


FLAT = ['E1', 'E2', 'M2', 'A2', 'E3', 'M3', 'W3', 'STA', 'NE2', 'NM2', 'NX2', 'NE3', 'NL3', 'NX3', 'CGA1', 'S2', 'S3', 'G2']
CURV = ['named:polar', 'named:sph', 'named:cyl', 'named:skew', 'named:helix', 'named:hyper', 'named:sphere', 'named:desitter', 'named:line', 'named:lobe', 'named:parab',
        'namedn:polar', 'namedn:sph', 'namedn:cyl', 'namedn:hyper', 'namedn:sphere', 'namedn:desitter', 'namedn:line', 'namedn:lobe', 'namedn:parab', 'full:1', 'full:2', 'diag:2', 'diag:3', 'diagn:2++', 'diagn:2+-', 'diagn:3+++']


def tasks(tier):
    T = []
    for s in ['flat:' + a for a in FLAT] + CURV:
        big = s[-1] == '3' or 'sph' in s or 'cyl' in s
        T.append(Task('partial-' + s, partial, params=dict(space=s), weight=4))
        T.append(Task('grad-' + s, gradient, params=dict(space=s), weight=6))
        T.append(Task('curl-' + s, curl, params=dict(space=s), weight=6))
    for s in ['flat:E2', 'flat:NX2', 'flat:M3', 'named:polar', 'namedn:polar', 'named:skew', 'named:sph', 'namedn:sph', 'full:2']:
        T.append(Task('linear-' + s, linear, params=dict(space=s), weight=6))
        T.append(Task('param-' + s, parameter, params=dict(space=s), weight=3))
        T.append(Task('forms-' + s, forms, params=dict(space=s), weight=3))
    for k in ('polar', 'parab', 'shear', 'plane', 'elliptic', 'affine', 'twist', 'sph', 'cyl', 'parab3', 'shear3'):
        T.append(Task('cart-' + k, cartesian, params=dict(kind=k), weight=6))
        if k not in ('shear', 'plane', 'affine', 'twist', 'shear3'):
            T.append(Task('cartn-' + k, cartesian, params=dict(kind=k, norm=True), weight=6))
        if k not in ('shear3', 'parab3'):
            T.append(Task('cartx-' + k, cartesian, params=dict(kind=k, how='X'), weight=6))
    for a in ('E1', 'E2', 'M2', 'NX2', 'NM2', 'E3', 'W3', 'NX3', 'S2', 'G2', 'CGA1'):
        for g in ((1,), (2,), None):
            if g == (2,) and a in ('E1',):
                continue
            T.append(Task('wrt-%s-%s' % (a, 'all' if g is None else g[0]), wrt_mv, params=dict(alg=a, grades=g), weight=3))
    T.append(Task('nocoords', nocoords))
    return T
