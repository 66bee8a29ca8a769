"""C17: a submanifold inherits the metric and operations of its embedding."""
import sympy
from sympy import S, Matrix
from vs import algs, ref
from vs.runner import Task
from checks.C12 import named, gamma, undet, coords
from checks.C13 import Geo, OPS, apply

BOUNDS = ('curves, surfaces and volumes given by arbitrary smooth coordinate maps or by vector functions with arbitrary coefficients in flat algebras of dimension 2-4 (every signature, oblique, symbolic), and by named and arbitrary maps '
          'in named curvilinear spaces, normalised or not, submanifolds of submanifolds, submanifold coordinates that reuse the names of the ambient coordinates; general multivector fields')
ASSUMPTIONS = ['the pulled back metric is not degenerate (for the derivatives)', 'maps are smooth', 'vector functions: the ambient metric is constant']


class Amb:
    def __init__(self, ctx, space):
        from galgebra.ga import Ga
        kind, _, rest = space.partition(':')
        kw = dict(norm=True) if kind == 'namedn' else {}
        if kind == 'flat':
            w = algs.metric(ctx, rest)
            self.x = [ctx.real('X%d' % i) for i in range(w.shape[0])]
        else:
            u, w = named(ctx, rest)
            self.x = [ctx.real('X%d' % i) for i in range(len(u))]
            w = w.subs(list(zip(u, self.x)), simultaneous=True)
        self.n = len(self.x)
        self.w = w
        d = sympy.expand(w.det())
        if d.free_symbols:
            ctx.assume_nonzero(d)
        if kind == 'flat':
            self.ga = algs.make(ctx, rest, coords=tuple(self.x))
        else:
            self.ga = Ga('b', g=w, coords=tuple(self.x), **kw)
        self.norm = kind == 'namedn'
        self.flat = kind == 'flat'


def maps(ctx, A, kind):
    """(submanifold coordinates, functions)"""
    n = A.n
    s, c = sympy.sin, sympy.cos
    f = ctx.fn
    u = [ctx.real('u%d' % i) for i in range(3)]
    a, b, d = u
    names = 'PQRT'
    if kind == 'curve':
        return u[:1], [f(names[i], a) for i in range(n)]
    if kind == 'surface':
        return u[:2], [f(names[i], a, b) for i in range(n)]
    if kind == 'graph':         # last coordinate is a function of the others
        return u[:n - 1], u[:n - 1] + [f('H', *u[:n - 1])]
    if kind == 'quadric':
        k = [ctx.real('k%d' % i) for i in range(4)]
        return u[:n - 1], u[:n - 1] + [k[0] * a ** 2 + k[1] * a * (b if n > 2 else 1) + (k[2] * b ** 2 if n > 2 else 0) + k[3] * a]
    if kind == 'line':
        k = [ctx.real('k%d' % i) for i in range(n)]
        return u[:1], [k[i] * a + i for i in range(n)]
    if kind == 'plane':
        return u[:2], [a + b, a - 2 * b, a * b, a ** 2][:n]
    if kind == 'sphere':
        return u[:2], [s(a) * c(b), s(a) * s(b), c(a)]
    if kind == 'sphereradius':
        r = ctx.real('r', positive=True)
        return u[:2], [r * s(a) * c(b), r * s(a) * s(b), r * c(a)]
    if kind == 'torus':
        return u[:2], [(2 + c(a)) * c(b), (2 + c(a)) * s(b), s(a)]
    if kind == 'helix':
        return u[:2], [a * c(b), a * s(b), b]
    if kind == 'hyper':
        return u[:2], [sympy.sinh(a) * c(b), sympy.sinh(a) * s(b), sympy.cosh(a)]
    if kind == 'fixed':         # first ambient coordinate constant
        k = ctx.real('k', positive=True)
        return u[:n - 1], [k] + u[:n - 1]
    if kind == 'volume':
        return u[:3], [f('P', a, b, d), f('Q', b, d), f('R', d), a + b][:n]
    if kind == 'reuse':         # the submanifold coordinates are ambient coordinates, exchanged
        x = A.x
        return [x[0], x[1]], ([x[1], x[0]] + [x[0] * x[1], x[0] ** 2][:n - 2])
    if kind == 'reuse1':
        x = A.x
        return [x[1]], [f(names[i], x[1]) for i in range(n)]
    if kind == 'reparam':       # as many coordinates as the ambient space
        return u[:n], [a + b, b ** 2 + a, d + a * b][:n]
    raise KeyError(kind)


class Sub:
    """submanifold and independent description of it"""

    def __init__(self, ctx, A, kind, norm=False, how='maps', geo=True):
        self.A = A
        self.u, self.X = maps(ctx, A, kind)
        self.setup(ctx, norm, how, geo)

    def setup(self, ctx, norm=False, how='maps', geo=True):
        A, u = self.A, self.u
        self.m = m = len(u)
        n = A.n
        sub = dict(zip(A.x, self.X))
        self.at = lambda e: S(e).subs(sub, simultaneous=True)
        self.wX = A.w.applyfunc(self.at)
        self.J = J = Matrix(n, m, lambda i, j: sympy.diff(self.X[i], u[j]))
        self.w = (J.T * self.wX * J).applyfunc(sympy.expand)
        self.simple = self.w.applyfunc(sympy.trigsimp)
        if self.simple.det() == 0:
            geo = False
        if geo:
            for k in range(m):
                if norm:
                    ctx.assume_sign(self.simple[k, k], '>')
            if not norm:
                d = self.simple.det()
                if d.free_symbols or d.atoms(sympy.Function):
                    ctx.assume_nonzero(d)
        kw = dict(norm=True) if norm else {}
        if how == 'maps':
            self.sm = A.ga.sm(list(self.X), tuple(u), **kw)
        elif how == 'lists':
            self.sm = A.ga.sm(tuple(self.X), list(u), **kw)
        elif how == 'class':
            from galgebra.ga import Sm
            self.sm = Sm(list(self.X), tuple(u), ga=A.ga, root='f', **kw)
        else:
            self.vec = ctx.make(A.ga, sum(x * e for x, e in zip(self.X, A.ga.basis)))
            self.sm = A.ga.sm(self.vec, tuple(u), **kw)
        self.norm = norm
        self.N = list(self.sm.e_norm) if norm else [S.One] * m
        self.alX = ref.Alg(self.wX)
        # tangent vectors in the coordinate basis of the ambient space
        self.t = [{1 << i: J[i, j] / self.N[j] for i in range(n) if J[i, j] != 0} for j in range(m)]
        self.items = ref.blade_items(self.sm)
        self.push_b = {}
        for mk, idx, b in self.items:
            r = {0: S.One}
            for j in idx:
                r = ref.wedge(r, self.t[j])
            self.push_b[mk] = r

    def push(self, r):
        out = {}
        for m, c in r.items():
            out = ref.add(out, self.push_b[m], undet(self.simple, c))
        return out

    def geo(self):
        """description of the submanifold as a space of its own, with the pulled back metric"""
        G = Geo.__new__(Geo)
        G.ga, G.u, G.n, G.w, G.norm, G.N = self.sm, list(self.u), self.m, self.w, self.norm, self.N
        R = range(self.m)
        G.g = sympy.eye(self.m) if self.norm else self.w
        _, Gm = gamma(self.w, self.u)
        G.de = [[{1 << k: c for k in R for c in [Gm[i][j][k] * self.N[k] / self.N[j] - (sympy.diff(self.N[j], self.u[i]) / self.N[j] if k == j else 0)] if c != 0} for j in R] for i in R]
        G.items = self.items
        w, d = self.w, self.w.det()
        inv = w.adjugate() / d if self.m > 1 else Matrix([[1 / w[0, 0]]])
        G.r = [{1 << k: c for k in R for c in [inv[i, k] * self.N[k]] if c != 0} for i in R]
        G.al = ref.Alg(G.g)
        w0 = self.simple
        G.eq = lambda ctx, A, r, label: ctx.claim_all_zero([(undet(w0, a), b) for a, b in ref.pairs(ref.of_obj(A.obj, G.ga, G.al), r)], label)
        return G

    def field(self, ctx, name, grades=None):
        r, obj = {}, S.Zero
        for m, idx, b in self.items:
            if grades is None or len(idx) in grades:
                c = ctx.fn(name + ''.join(map(str, idx)) + ('s' if not idx else ''), *self.u)
                r[m] = c
                obj += c * b
        return ctx.make(self.sm, obj), r


def metric(ctx, space, kind, norm=False, how='maps'):
    """metric is the pullback, the algebra is one of its own with the right coordinates"""
    A = Amb(ctx, space)
    B = Sub(ctx, A, kind, norm, how)
    sm, m = B.sm, B.m
    R = range(m)
    raw = sm.g_raw
    ctx.claim_all_zero([(raw[i, j], B.w[i, j]) for i in R for j in R], 'pulled back metric')
    ctx.claim_all_zero([raw[i, j] - raw[j, i] for i in R for j in range(i)], 'symmetric')
    ctx.claim(all(isinstance(sm.g[i, j], sympy.Expr) for i in R for j in R), 'entries are expressions')
    if norm:
        ctx.claim_all_zero([(sm.g[i, j], S(int(i == j))) for i in R for j in R], 'normalised metric')
        ctx.claim_all_zero([(sm.e_norm[i] ** 2, B.w[i, i]) for i in R], 'norms of the tangent vectors')
    else:
        ctx.claim_all_zero([(sm.g[i, j], B.w[i, j]) for i in R for j in R], 'metric')
    ctx.claim(tuple(sm.coords) == tuple(B.u) and sm.n == m and sm.ga is A.ga, 'coordinates and ambient algebra')
    if how == 'vector':
        ctx.claim(len(sm.ebasis) == m, 'one tangent vector per coordinate')
        for j in R:
            ctx.claim_all_zero(ref.pairs(ref.of_mv(sm.ebasis[j], ref.alg(A.ga)), {1 << i: B.J[i, j] for i in range(A.n)}), 'tangent vectors')
        ctx.claim_all_zero([((sm.ebasis[i] | sm.ebasis[j]).scalar(), B.w[i, j]) for i in R for j in R], 'dot products of tangent vectors')
    e = sm.mv()
    ctx.claim(len(e) == m, 'basis')
    N = B.N
    ctx.claim_all_zero([((e[i] | e[j]).scalar() * N[i] * N[j], B.w[i, j]) for i in R for j in R], 'dot products of basis vectors are those of the tangent vectors')
    # the ambient algebra is untouched
    ctx.claim_all_zero([(A.ga.g_raw[i, j], A.w[i, j]) for i in range(A.n) for j in range(A.n)], 'ambient metric unchanged')
    ctx.claim(tuple(A.ga.coords) == tuple(A.x), 'ambient coordinates unchanged')


def products(ctx, space, kind, norm=False, how='maps', grades=None):
    """products of the submanifold are the ambient products of the pushed forward multivectors"""
    A = Amb(ctx, space)
    B = Sub(ctx, A, kind, norm, how)
    F, f = ctx.mv(B.sm, 'a', grades=grades)
    G, g = ctx.mv(B.sm, 'b', grades=grades)
    al = B.alX
    pf, pg = B.push(f), B.push(g)
    P = {'*': al.mul, '^': ref.wedge, '|': al.dot, '<': al.lc, '>': al.rc}
    for op in OPS:
        got = B.push(ref.of_obj(apply(op, F, G).obj, B.sm))
        ctx.claim_all_zero(ref.pairs(got, P[op](pf, pg)), 'product ' + op)
    ctx.claim_all_zero(ref.pairs(B.push(ref.of_obj(F.rev().obj, B.sm)), ref.rev(pf)), 'reverse')


def derivatives(ctx, space, kind, norm=False, how='maps', grades=None, ops=OPS):
    """derivatives are the tangential part of the ambient derivatives"""
    A = Amb(ctx, space)
    B = Sub(ctx, A, kind, norm, how)
    sm, m, n, u = B.sm, B.m, A.n, B.u
    R = range(m)
    al = B.alX
    _, Gm = gamma(A.w, A.x)
    Gm = [[[B.at(c) for c in row] for row in pl] for pl in Gm]

    def along(r, j):
        """derivative, along the submanifold, of an ambient multivector"""
        out = {}
        for mk, c in r.items():
            out = ref.add(out, {mk: sympy.diff(c, u[j])})
            if A.flat:
                continue
            idx = [i for i in range(n) if mk >> i & 1]
            for i in range(n):
                for p, q in enumerate(idx):
                    t = {0: c * B.J[i, j]}
                    for k, l in enumerate(idx):
                        t = ref.wedge(t, {1 << z: Gm[i][l][z] for z in range(n) if Gm[i][l][z] != 0} if k == p else {1 << l: S.One})
                    out = ref.add(out, t)
        return ref.clean(out)
    for gr in ([0, 1, 2] if m > 1 else [0, 1]):
        F, f = B.field(ctx, 'F', (gr,))
        pf = B.push(f)
        for j in R:
            D = B.push(ref.of_obj(F.diff(u[j]).obj, sm))
            W = along(pf, j)
            for mk, idx, b in B.items:
                if len(idx) == gr:
                    t = ref.rev(B.push_b[mk])
                    ctx.claim_all_zero([(al.mul(D, t).get(0, S.Zero), al.mul(W, t).get(0, S.Zero))], 'tangential part of the ambient derivative, grade %d' % gr)
    G = B.geo()
    F, f = B.field(ctx, 'F', grades)
    grad, rgrad = sm.grads()
    for op in ops:
        G.eq(ctx, apply(op, grad, F), G.grad(op, f), 'grad %s F' % op)
        G.eq(ctx, apply(op, F, rgrad), G.grad(op, f, False), 'F %s rgrad' % op)
    s, sr = B.field(ctx, 'h', (0,))
    d = B.push(ref.of_obj((grad * s).obj, sm))
    ctx.claim_all_zero([(al.mul(d, B.t[j]).get(0, S.Zero), sympy.diff(sr[0], u[j]) / B.N[j]) for j in R], 'gradient of a scalar along tangent vectors')
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        vpd, rvpd = sm.vpds()
    for op in '*^':
        G.eq(ctx, apply(op, vpd, F), G.grad(op, f), 'vpd %s F' % op)
        G.eq(ctx, apply(op, F, rvpd), G.grad(op, f, False), 'F %s rvpd' % op)


def restricted(ctx, space, kind, norm=False):
    """scalar ambient fields restricted to the submanifold: chain rule, gradient is the tangential part"""
    A = Amb(ctx, space)
    B = Sub(ctx, A, kind, norm)
    n, m = A.n, B.m
    f = sum(ctx.real('c%d' % i) * x for i, x in enumerate(A.x)) + A.x[0] ** 2 * A.x[-1]
    al = B.alX
    g = A.ga.grad * A.ga.mv(f)
    NA = list(A.ga.e_norm) if A.norm else [S.One] * n
    amb = {mk: B.at(undet(A.w, c)) / B.at(NA[mk.bit_length() - 1]) for mk, c in ref.of_obj(g.obj, A.ga).items()}
    sub = B.push(ref.of_obj((B.sm.grad * B.sm.mv(B.at(f))).obj, B.sm))
    for j in range(m):
        ctx.claim_all_zero([(al.mul(sub, B.t[j]).get(0, S.Zero), al.mul(amb, B.t[j]).get(0, S.Zero))], 'gradient of a restricted function')


def nested(ctx, space, kind, curve, norm=False):
    """submanifold of a submanifold is the submanifold of the composed map"""
    A = Amb(ctx, space)
    B = Sub(ctx, A, kind, norm)
    s = ctx.real('s')
    a, b = B.u
    c = {'any': [ctx.fn('K', s), ctx.fn('L', s)], 'line': [s, ctx.real('k') * s + 1], 'square': [s, s ** 2], 'fixed': [ctx.real('k'), s]}[curve]
    C = B.sm.sm(c, (s,))
    X = [x.subs({a: c[0], b: c[1]}, simultaneous=True) for x in B.X]
    d = [sympy.diff(x, s) for x in X]
    w = A.w.subs(dict(zip(A.x, X)), simultaneous=True)
    want = sum(d[i] * d[j] * w[i, j] for i in range(A.n) for j in range(A.n))
    ctx.claim_zero(C.g_raw[0, 0] - want.doit(), 'metric of the composed map')
    D = A.ga.sm(X, (s,))
    ctx.claim_zero(D.g_raw[0, 0] - want.doit(), 'metric of the composed map, directly')
    if norm is False and kind not in ('quadric',):
        # the same through a two dimensional reparametrisation
        p, q = ctx.real('p'), ctx.real('q')
        E = B.sm.sm([p + q, p * q], (p, q))
        X = [x.subs({a: p + q, b: p * q}, simultaneous=True) for x in B.X]
        w = A.w.subs(dict(zip(A.x, X)), simultaneous=True)
        J = Matrix(A.n, 2, lambda i, j: sympy.diff(X[i], (p, q)[j]))
        W = J.T * w * J
        ctx.claim_all_zero([(E.g[i, j], W[i, j]) for i in range(2) for j in range(2)], 'metric of the composed map of two variables')


def errors(ctx):
    A = Amb(ctx, 'flat:E3')
    u, v = ctx.real('u'), ctx.real('v')
    ctx.claim_raises(ValueError, lambda: A.ga.sm([u, v], (u, v)), 'map of the wrong dimension')
    ctx.claim_raises(ValueError, lambda: A.ga.sm([u, v, u, v], (u, v)), 'map of the wrong dimension')
    from galgebra.ga import Sm
    ctx.claim_raises(ValueError, lambda: Sm([u, v, u], (u, v), ga=None), 'ambient algebra missing')


FLAT = ['E2', 'E3', 'M3', 'STA', 'NE2', 'NX3', 'NL3', 'S2', 'S3', 'G2', 'W3']
HARD = [('flat:STA', 'volume'), ('named:cyl', 'reparam'), ('named:helix', 'reparam'), ('named:parab', 'reparam')]
NAMED = ['polar', 'sph', 'cyl', 'skew', 'helix', 'hyper', 'parab']


def tasks(tier):
    T = []
    cases = []
    for a in FLAT:
        n = algs_dim(a)
        ks = ['curve', 'line', 'reuse1', 'surface', 'graph', 'plane', 'reuse'] + (['quadric'] if n == 3 else [])
        if n == 3:
            ks += ['sphere', 'sphereradius', 'torus', 'helix', 'hyper', 'volume', 'reparam'] if a in ('E3', 'M3') else ['reparam'] if a == 'NX3' else []
        if n == 4:
            ks += ['volume']
        if a in ('NX3', 'S3', 'STA'):
            ks.remove('surface')
        cases += [('flat:' + a, k) for k in ks]
    for a in NAMED:
        n = {'sph': 3, 'cyl': 3, 'helix': 3, 'parab': 3}.get(a, 2)
        cases += [('named:' + a, k) for k in ['curve', 'line', 'reuse1', 'graph', 'reuse', 'fixed', 'reparam'] + (['surface', 'plane'] if a == 'cyl' else ['plane'] if a == 'helix' else [])]
    cases.remove(('named:sph', 'reparam'))
    cases += [('namedn:' + a, k) for a in ('polar', 'sph', 'cyl', 'hyper') for k in ('curve', 'line', 'fixed', 'reuse', 'graph')]
    for s, k in cases:
        n = algs_dim(s)
        T.append(Task('metric-%s-%s' % (s, k), metric, params=dict(space=s, kind=k), weight=2))
        T.append(Task('prod-%s-%s' % (s, k), products, params=dict(space=s, kind=k), weight=4))
        hard = (s, k) in HARD or n > 2 and k == 'surface' or k == 'quadric' and s[5:] not in ('E3', 'NL3')
        if not hard or tier == 'thorough' and k != 'surface':
            T.append(Task('diff-%s-%s' % (s, k), derivatives, params=dict(space=s, kind=k), weight=6, timeout=900 if hard else 240))
        T.append(Task('restr-%s-%s' % (s, k), restricted, params=dict(space=s, kind=k), weight=3))
        if s.startswith('flat'):
            T.append(Task('metricv-%s-%s' % (s, k), metric, params=dict(space=s, kind=k, how='vector'), weight=2))
            if not hard and s[5:] in ('E2', 'E3', 'M3', 'NX3', 'S2'):
                T.append(Task('diffv-%s-%s' % (s, k), derivatives, params=dict(space=s, kind=k, how='vector', ops='*'), weight=5))
    for s, k in [('flat:E3', 'sphere'), ('flat:E3', 'sphereradius'), ('flat:E3', 'torus'), ('flat:E3', 'helix'), ('flat:M3', 'hyper'), ('flat:E3', 'curve'), ('flat:NE2', 'curve'), ('flat:E2', 'line'), ('named:sph', 'fixed'),
                 ('namedn:sph', 'fixed'), ('named:cyl', 'fixed'), ('namedn:cyl', 'fixed'), ('named:polar', 'fixed'), ('named:polar', 'curve'), ('named:hyper', 'line')]:
        for h in ['maps'] + (['vector'] if s.startswith('flat') else []):
            for name, f in (('metric', metric), ('prod', products), ('diff', derivatives)):
                T.append(Task('%sn-%s-%s-%s' % (name, s, k, h), f, params=dict(space=s, kind=k, norm=True, how=h), weight=5))
    for h in ('lists', 'class'):
        for s, k in [('flat:E3', 'surface'), ('named:polar', 'curve'), ('flat:NX3', 'plane')]:
            T.append(Task('metric-%s-%s-%s' % (h, s, k), metric, params=dict(space=s, kind=k, how=h)))
    for s, k in [('flat:E3', 'sphere'), ('flat:E3', 'torus'), ('flat:E3', 'quadric'), ('flat:NX3', 'plane'), ('flat:E2', 'plane'), ('named:sph', 'fixed'), ('named:cyl', 'quadric'), ('namedn:sph', 'fixed'), ('flat:STA', 'plane')]:
        for c in ('any', 'line', 'square', 'fixed'):
            T.append(Task('nested-%s-%s-%s' % (s, k, c), nested, params=dict(space=s, kind=k, curve=c), weight=3))
            if k in ('sphere', 'torus'):
                T.append(Task('nestedn-%s-%s-%s' % (s, k, c), nested, params=dict(space=s, kind=k, curve=c, norm=True), weight=3))
    T.append(Task('errors', errors))
    return T


def algs_dim(a):
    a = a.split(':')[-1]
    if a in ('polar', 'skew', 'hyper'):
        return 2
    if a in ('sph', 'cyl', 'helix', 'parab'):
        return 3
    return len(algs.NUM[a]) if a in algs.NUM else int(a[1:])
