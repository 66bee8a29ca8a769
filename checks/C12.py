"""C12: metric construction, connection, Christoffel symbols, normalisation."""
import sympy
from sympy import S, Matrix, Rational
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('string, default, list, nested list, matrix, immutable matrix and embedding specifications in dimension 0-4; connections for arbitrary smooth '
          'metric functions (full in dimension 1-2, diagonal in dimension 3, and named curvilinear systems), normalised and not')
ASSUMPTIONS = ['metric functions are smooth and the determinant is not zero', 'the signature is claimed for nondegenerate orthogonal numeric metrics, else it is the hint']


def coords(ctx, n):
    return [ctx.real('u%d' % i) for i in range(n)]


def fields(ctx, n, diag, **kw):
    u = coords(ctx, n)
    m = sympy.zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            if i == j or not diag:
                m[i, j] = m[j, i] = ctx.fn('ABCDEF'[i] + ('' if i == j else 'xyzw'[j]), *u, **kw)
    return u, m


def named(ctx, name):
    n = {'polar': 2, 'sph': 3, 'cyl': 3, 'parab': 3, 'skew': 2, 'helix': 3, 'hyper': 2, 'sphere': 2, 'desitter': 2, 'line': 1, 'lobe': 2, 'schw': 4, 'shear': 2}[name]
    u = coords(ctx, n)
    a = u[0]
    b = u[1] if n > 1 else a
    g = {'polar': [1, a ** 2], 'sph': [1, a ** 2, a ** 2 * sympy.sin(b) ** 2], 'cyl': [1, a ** 2, 1], 'parab': [a ** 2 + b ** 2, a ** 2 + b ** 2, 1],
         'skew': [[1, a], [a, 1 + 2 * a ** 2]], 'shear': [[1 + 4 * a ** 2, 2 * a], [2 * a, 1]], 'helix': [[1, 0, 0], [0, a ** 2 + 1, 1], [0, 1, 1]], 'hyper': [1 / b ** 2, 1 / b ** 2], 'sphere': [1, sympy.sin(a) ** 2],
         'desitter': [-1, sympy.cosh(a) ** 2], 'line': [a ** 2 + 1], 'lobe': [-sympy.exp(2 * b), 1],
         'schw': None}[name]
    if name == 'schw':
        f = 1 - 2 / b
        g = [f, -1 / f, -b ** 2, -b ** 2 * sympy.sin(u[2]) ** 2]
    return u, (Matrix(g) if isinstance(g[0], list) else sympy.diag(*g))


def same_metric(ctx, ga, want, label, raw=None):
    n = want.shape[0]
    ctx.claim(ga.g.shape == (n, n), label + ' shape')
    ctx.claim_all_zero([(ga.g[i, j], want[i, j]) for i in range(n) for j in range(n)], label + ' entries')
    ctx.claim_all_zero([ga.g[i, j] - ga.g[j, i] for i in range(n) for j in range(i)], label + ' symmetric')
    ctx.claim_all_zero([(ga.g_raw[i, j], (raw or want)[i, j]) for i in range(n) for j in range(n)], label + ' raw metric')
    if n:
        ctx.claim_zero(ga.detg.doit() - want.det(), label + ' determinant')
    offd = all(want[i, j] == 0 for i in range(n) for j in range(n) if i != j)
    ctx.claim(bool(ga.is_ortho) == offd, label + ' orthogonality flag')


def spec(ctx, kind):
    from galgebra.ga import Ga
    from galgebra.atoms import DotProductSymbol as D
    x = [ctx.real(k) for k in 'abcd']
    a, b, c, d = x
    h = Rational(1, 2)
    if kind == 'strings':
        for s, w in [('1 1', [[1, 0], [0, 1]]), ('1 -1', [[1, 0], [0, -1]]), ('1/2 -3/4', [[h, 0], [0, Rational(-3, 4)]]), ('0 1, 1 0', [[0, 1], [1, 0]]), ('1 1/2,1/2 1', [[1, h], [h, 1]]), ('1 2, 2 -3', [[1, 2], [2, -3]])]:
            same_metric(ctx, Ga('e*1|2', g=s), Matrix(w), repr(s))
        same_metric(ctx, Ga('a b c', g='1 0 -1, 0 1 0, -1 0 2'), Matrix([[1, 0, -1], [0, 1, 0], [-1, 0, 2]]), 'three rows')
        same_metric(ctx, Ga('a b c', g='1 -1 0'), sympy.diag(1, -1, 0), 'three numbers')
        ctx.claim_raises(ValueError, lambda: Ga('a b', g='1 1 1'), 'wrong number of entries')
        ctx.claim_raises(ValueError, lambda: Ga('a b', g='1 1 1,1 1 1'), 'not square')
        ctx.claim_raises(ValueError, lambda: Ga('a b', g='1 0 0,0 1 0,0 0 1'), 'wrong rank')
    elif kind == 'dots':
        for g, pat in [(None, ['##', '##']), ('# #', ['#0', '0#']), ('1 #, # 2', ['1#', '#2']), ('# 0, 0 #', ['#0', '0#']), ('# -1, -1 #', ['#m', 'm#']), ('# #, # #', ['##', '##'])]:
            ga = Ga('p q', g=g)
            w = Matrix(2, 2, lambda i, j: D(ga.basis[min(i, j)], ga.basis[max(i, j)]) if pat[i][j] == '#' else {'m': -1}.get(pat[i][j], 0) if pat[i][j] == 'm' else S(pat[i][j]))
            same_metric(ctx, ga, w, str(g))
            p, q = ga.mv()
            ctx.claim_zero((p | q).obj - w[0, 1], 'p|q is the entry')
            ctx.claim_zero((q | p).obj - w[0, 1], 'q|p is the entry')
        ga = Ga('p q r')
        w = Matrix(3, 3, lambda i, j: D(ga.basis[min(i, j)], ga.basis[max(i, j)]))
        same_metric(ctx, ga, w, 'default 3')
        ga = Ga('p q r', g='1 # 0, # -1 #, 0 # 0')
        dd = lambda i, j: D(ga.basis[i], ga.basis[j])
        same_metric(ctx, ga, Matrix([[1, dd(0, 1), 0], [dd(0, 1), -1, dd(1, 2)], [0, dd(1, 2), 0]]), 'mixed 3')
        ga = Ga('p q r', g='# 1 #')
        same_metric(ctx, ga, sympy.diag(D(ga.basis[0], ga.basis[0]), 1, D(ga.basis[2], ga.basis[2])), 'mixed diagonal')
    elif kind == 'lists':
        M = Matrix([[a, b], [b, c]])
        for name, g, w in [('numbers', [1, -1], sympy.diag(1, -1)), ('symbols', [a, b], sympy.diag(a, b)), ('nested', [[a, b], [b, c]], M), ('matrix', M, M), ('immutable', sympy.ImmutableMatrix(M), M),
                           ('fractions', [h, S(2) / 3], sympy.diag(h, S(2) / 3)), ('expressions', [a ** 2 + b, sympy.cos(c)], sympy.diag(a ** 2 + b, sympy.cos(c))), ('nested diagonal', [[a, 0], [0, 2]], sympy.diag(a, 2)), ('zero', [0, 0], sympy.diag(0, 0))]:
            ga = Ga('e*1|2', g=g)
            same_metric(ctx, ga, w, name)
            e = ga.mv()
            ctx.claim_all_zero([((e[i] | e[j]).obj, w[i, j]) for i in range(2) for j in range(2)], name + ' products of basis vectors')
        ctx.claim(M == Matrix([[a, b], [b, c]]), 'given matrix unchanged')
        M4 = Matrix(4, 4, lambda i, j: [a, b, c, d][abs(i - j)])
        same_metric(ctx, Ga('e*0|1|2|3', g=M4), M4, 'Toeplitz 4')
        same_metric(ctx, Ga('', g=[]), sympy.zeros(0, 0), 'dimension 0')
        same_metric(ctx, Ga('e,', g=[a]), Matrix([[a]]), 'dimension 1')
    elif kind == 'general':
        u = coords(ctx, 3)
        for n in (1, 2, 3):
            ga = Ga('e', g='g', coords=u[:n])
            w = Matrix(n, n, lambda i, j: sympy.Function('g_%s_%s' % (u[min(i, j)], u[max(i, j)]))(*u[:n])) if not any(x.is_number for x in u) else ga.g
            same_metric(ctx, ga, w, "'g' %d" % n)
    elif kind == 'errors':
        ctx.claim_raises(TypeError, lambda: Ga(['a', 'b'], g=[1, 1]), 'basis must be a string')
        ctx.claim_raises(ValueError, lambda: Ga('e', g=[1, 1]), 'root needs coordinates')
        ctx.claim_raises(ValueError, lambda: Ga('a b', X=[1, 2]), 'embedding needs coordinates')
        ctx.claim_raises(ValueError, lambda: Ga('a b', g=[[1, 2], [2, 1]], norm=True), 'normalisation needs an orthogonal basis')
        for bad in ('x', 3, None):
            ctx.claim_raises((ValueError, TypeError), lambda: Ga('a b', g=[[a, 1], [1, b]], sig=bad), 'signature hint')


def signature(ctx):
    from galgebra.ga import Ga
    import itertools
    for n in (1, 2, 3, 4):
        for s in itertools.product((2, -1), repeat=n):
            for g in ((list(s), sympy.diag(*s)) if n < 4 else (list(s),)):
                ga = Ga('e*' + '|'.join(map(str, range(n))) if n > 1 else 'e,', g=g)
                p = sum(x > 0 for x in s)
                ctx.claim(tuple(ga.sig) == (p, n - p), 'signature %s' % (s,))
                ctx.claim((ga.e_sq_sgn == '+') == ((sympy.diag(*s).det() * (-1) ** (n * (n - 1) // 2)) > 0), 'sign of the square of the pseudoscalar')
    a, b, c = [ctx.real(k) for k in 'abc']
    G = [[a, b], [b, c]]
    for h, w in [('e', (2, 0)), ('m+', (1, 1)), ('m-', (1, 1)), (0, (0, 2)), (1, (1, 1)), (2, (2, 0))]:
        ctx.claim(tuple(Ga('p q', g=G, sig=h).sig) == w, 'hint %r' % (h,))
    G = sympy.diag(a, b, c)
    for h, w in [('e', (3, 0)), ('m+', (2, 1)), ('m-', (1, 2)), (2, (2, 1))]:
        ctx.claim(tuple(Ga('p q r', g=G, sig=h).sig) == w, 'hint %r' % (h,))


def embedding(ctx, kind):
    from galgebra.ga import Ga
    u = coords(ctx, 3)
    a, b, c = u
    f = lambda n, *v: ctx.fn(n, *v)
    X, cs = {'curve': ([f('P', a), f('Q', a), f('R', a)], [a]), 'surface': ([f('P', a, b), f('Q', a, b), f('R', a, b)], [a, b]), 'plane': ([f('P', a, b), f('Q', a, b)], [a, b]),
             'polar': ([a * sympy.cos(b), a * sympy.sin(b)], [a, b]), 'torus': ([(2 + sympy.cos(a)) * sympy.cos(b), (2 + sympy.cos(a)) * sympy.sin(b), sympy.sin(a)], [a, b]),
             'sph': ([a * sympy.sin(b) * sympy.cos(c), a * sympy.sin(b) * sympy.sin(c), a * sympy.cos(b)], [a, b, c]), 'affine': ([a + b, a - 2 * b], [a, b]), 'parab': ([a * b, (a ** 2 - b ** 2) / 2], [a, b]),
             'volume': ([f('P', a, b, c), f('Q', b, c), f('R', c)], [a, b, c])}[kind]
    ga = Ga('e', X=X, coords=cs)
    n = len(cs)
    w = Matrix(n, n, lambda i, j: sum(sympy.diff(x, cs[i]) * sympy.diff(x, cs[j]) for x in X))
    ctx.claim_all_zero([(ga.g[i, j], w[i, j]) for i in range(n) for j in range(n)], 'pulled back metric')
    ctx.claim_all_zero([ga.g[i, j] - ga.g[j, i] for i in range(n) for j in range(i)], 'symmetric')
    geometry(ctx, ga, cs, w, ga.g)


def gamma(w, u):
    n = len(u)
    d = lambda i, j, k: sympy.diff(w[i, j], u[k])
    first = [[[S.Half * (d(j, k, i) + d(i, k, j) - d(i, j, k)) for k in range(n)] for j in range(n)] for i in range(n)]
    inv = w.adjugate() / w.det() if n > 1 else Matrix([[1 / w[0, 0]]])
    second = [[[sum(first[i][j][l] * inv[l, k] for l in range(n)) for k in range(n)] for j in range(n)] for i in range(n)]
    return first, second


def undet(w, e):
    from galgebra.atoms import Determinant
    return S(e).replace(lambda x: isinstance(x, (Determinant, sympy.Determinant)), lambda x: w.det())


def geometry(ctx, ga, u, w, g, norm=False):
    """w: metric before normalisation"""
    n = len(u)
    R = range(n)
    first, second = gamma(w, u)
    if all(sympy.diff(x, c) == 0 for x in w for c in u):
        ctx.claim(not ga.connect_flg and ga.de is None, 'flat coordinates have no connection')
        ctx.claim(ga.Christoffel_symbols(mode=1) is None, 'no Christoffel symbols')
        return
    ctx.claim(ga.connect_flg, 'connection flag')
    ctx.claim_all_zero([(ga.dg[i][j][k], sympy.diff(w[i, j], u[k])) for i in R for j in R for k in R], 'derivatives of the metric')
    c1, c2 = ga.Christoffel_symbols(mode=1), ga.Christoffel_symbols(mode=2)
    ctx.claim_all_zero([(c1[i][j][k], first[i][j][k]) for i in R for j in R for k in R], 'Christoffel symbols of the first kind')
    ctx.claim_all_zero([(undet(w, c2[i][j][k]), second[i][j][k]) for i in R for j in R for k in R], 'Christoffel symbols of the second kind')
    ctx.claim_raises(ValueError, lambda: ga.Christoffel_symbols(mode=3), 'unknown kind')
    N = ga.e_norm if norm else [S.One] * n
    for i in R:
        for j in R:
            x = ref.of_obj(ga.de[i][j], ga)
            want = {1 << k: second[i][j][k] * N[k] / N[j] - (sympy.diff(N[j], u[i]) / N[j] if k == j else 0) for k in R}
            ctx.claim_all_zero([(undet(w, p), q) for p, q in ref.pairs(x, want)], 'derivative of each basis vector')
            for k in R:     # metric compatibility
                y = ref.of_obj(ga.de[i][k], ga)
                dot = lambda v, m: sum(c * g[p.bit_length() - 1, m] for p, c in v.items())
                ctx.claim_zero(undet(w, dot(x, k) + dot(y, j)) - sympy.diff(g[j, k], u[i]), 'product rule for the metric')


def connection(ctx, n=None, diag=False, name=None, norm=False, gsym=None):
    from galgebra.ga import Ga
    u, w = named(ctx, name) if name else fields(ctx, n, diag)
    ctx.assume_nonzero(w.det())
    kw = dict(norm=True) if norm else {}
    if gsym:
        kw['gsym'] = gsym
    given = Matrix(w)
    ga = Ga('e', g=given, coords=tuple(u), **kw)
    ctx.claim(given == w, 'given metric unchanged')
    n = len(u)
    if norm:
        for i in range(n):
            ctx.claim_real([ga.e_norm[i]], 'scale factor real')
            ctx.claim_zero(ga.e_norm[i] ** 2 - sympy.Abs(w[i, i]), 'scale factors are the lengths of the basis vectors')
            ctx.claim_zero(ga.g[i, i] ** 2 - 1, 'unit basis vectors')
            ctx.claim_zero(ga.g[i, i] * sympy.Abs(w[i, i]) - w[i, i], 'sign of the square kept')
            ctx.claim_all_zero([ga.g[i, j] for j in range(n) if j != i], 'orthogonal')
            ctx.claim_zero((ga.mv()[i] * ga.mv()[i]).obj - ga.g[i, i], 'square of the basis vector')
        ctx.claim_all_zero([(ga.g_raw[i, j], w[i, j]) for i in range(n) for j in range(n)], 'raw metric kept')
    else:
        ctx.claim_all_zero([(ga.g[i, j], w[i, j]) for i in range(n) for j in range(n)], 'metric')
        ctx.claim(ga.e_norm is None, 'no scale factors')
    geometry(ctx, ga, u, w, ga.g, norm)
    same = Ga('e', g=given, coords=tuple(u), **kw)
    ctx.claim_all_zero([(ga.g[i, j], same.g[i, j]) for i in range(n) for j in range(n)], 'built again from the same matrix')


def normconst(ctx):
    from galgebra.ga import Ga
    a = ctx.real('a', nonzero=True)
    for g in ([4, 9], [2, -3], [1, 0], [0, -5, 1], [a ** 2, 1], [-a ** 2, a ** 2], [a, 1], [Rational(1, 4), 0, 0]):
        n = len(g)
        ga = Ga('e*' + '|'.join(map(str, range(n))), g=g, norm=True)
        for i in range(n):
            ctx.claim_real([ga.e_norm[i]], 'scale factor real')
            ctx.claim_zero(ga.g[i, i] * (ga.g[i, i] ** 2 - 1), 'squares +1, -1, 0')
            ctx.claim_zero(ga.g[i, i] * ga.e_norm[i] ** 2 - g[i], 'scale factor squared times the square is the given metric')
            ctx.claim_all_zero([ga.g[i, j] for j in range(n) if j != i], 'orthogonal')
            e = ga.mv()
            ctx.claim_zero((e[i] * e[i]).obj - ga.g[i, i], 'square of the basis vector')


def metric_class(ctx):
    from galgebra.metric import Metric
    a, b, c = [ctx.real(k) for k in 'abc']
    for g in ([[a, b], [b, c]], [a, b], [1, -2], [[1, 2], [2, -1]]):
        w = Matrix(g) if isinstance(g[0], list) else sympy.diag(*g)
        m = Metric('e*1|2', g=g)
        d = w.det()
        if d.free_symbols:
            ctx.assume_nonzero(d)
        ctx.claim_all_zero([(m.g[i, j], w[i, j]) for i in range(2) for j in range(2)], 'metric')
        P = m.g_inv * w
        ctx.claim_all_zero([P[i, j] - int(i == j) for i in range(2) for j in range(2)], 'inverse')
        ctx.claim_zero(m.detg.doit() - d, 'determinant')
        A = m.g_adj - w.adjugate()
        ctx.claim_all_zero(list(A), 'adjugate')
    u, w = named(ctx, 'polar')
    m = Metric('e', g=w, coords=u)
    f, s = gamma(w, u)
    c1, c2 = m.Christoffel_symbols(mode=1), m.Christoffel_symbols(mode=2)
    R = range(2)
    ctx.claim_all_zero([(c1[i][j][k], f[i][j][k]) for i in R for j in R for k in R], 'first kind')
    ctx.claim_all_zero([(c2[i][j][k], s[i][j][k]) for i in R for j in R for k in R], 'second kind')
    V = [ctx.real('v%d' % i) for i in range(3)]
    W = [ctx.real('w%d' % i) for i in range(3)]
    ctx.claim_zero(Metric.dot_orthogonal(V, W) - sum(x * y for x, y in zip(V, W)), 'Euclidean dot product')
    ctx.claim_zero(Metric.dot_orthogonal(V, W, [a, b, c]) - sum(x * y * z for x, y, z in zip(V, W, (a, b, c))), 'weighted dot product')
    ctx.claim_raises(ValueError, lambda: Metric.dot_orthogonal(V, W, [a, b]), 'weights of another length')


def tasks(tier):
    T = [Task('spec-' + k, spec, params=dict(kind=k)) for k in ('strings', 'dots', 'lists', 'general', 'errors')]
    T += [Task('signature', signature), Task('normconst', normconst), Task('metric-class', metric_class)]
    for k in ('curve', 'surface', 'plane', 'polar', 'torus', 'sph', 'affine', 'parab', 'volume'):
        T.append(Task('embed-' + k, embedding, params=dict(kind=k), weight=4))
    for n, d in ((1, False), (2, False), (2, True), (3, True)):
        T.append(Task('conn-%d%s' % (n, 'diag' if d else ''), connection, params=dict(n=n, diag=d), weight=4))
        if d or n == 1:
            T.append(Task('conn-norm-%d' % n, connection, params=dict(n=n, diag=d, norm=True), weight=4))
    T.append(Task('conn-gsym-2', connection, params=dict(n=2, gsym='g'), weight=4))
    for k in ('polar', 'sph', 'cyl', 'parab', 'skew', 'helix', 'hyper', 'sphere', 'desitter', 'line', 'lobe', 'schw'):
        T.append(Task('conn-' + k, connection, params=dict(name=k), weight=3))
        if k not in ('skew', 'helix'):
            T.append(Task('conn-norm-' + k, connection, params=dict(name=k, norm=True), weight=3))
        else:
            T.append(Task('conn-gsym-' + k, connection, params=dict(name=k, gsym='g'), weight=3))
    if tier == 'thorough':
        T.append(Task('conn-3', connection, params=dict(n=3), weight=9, timeout=3000))
        T.append(Task('conn-4diag', connection, params=dict(n=4, diag=True), weight=9, timeout=3000))
    return T
