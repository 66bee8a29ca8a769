"""C21: ready-made algebra factories have the requested signature."""
import sympy
from sympy import S
from vs import ref
from vs.runner import Task

BOUNDS = ('counts p, q, r symbolic with 1 <= p + q + r <= 6 (products of general vectors and of a general multivector up to dimension 4), total dimension up to 12 for the metric and the names; both factories, their dual conventions in either order of calls, '
          'root names, coordinates; bases from every form of basis string')
ASSUMPTIONS = ['dual convention: claimed until the next call that sets it (the mode is documented as session wide); its action on multivectors needs r = 0']


def factory(conv):
    if conv == 'kingdon':
        from galgebra.interop.kingdon import Cl
    elif conv == 'top':
        from galgebra import Cl
    else:
        from galgebra.interop import Cl
    return Cl


def counts(ctx, lo, hi, total):
    p, q, r = [ctx.integer(k, lo, hi) for k in 'pqr']
    return p, q, r


def names(conv, root, n):
    f = 0 if conv == 'kingdon' else 1
    return [root + '_' + str(i + f) for i in range(n)]


def call(Cl, p, q, r, form, **kw):
    if form == 'keywords':
        return Cl(p=p, q=q, r=r, **kw)
    if form == 'short' and r == 0:
        return Cl(p, q, **kw) if q else Cl(p, **kw)
    return Cl(p, q, r, **kw)


def check(ctx, conv, out, p, q, r, root, full, label=''):
    n = p + q + r
    ga, e = out[0], out[1:]
    ctx.claim(isinstance(out, tuple) and len(out) == n + 1, 'one vector per count' + label)
    sq = [1] * p + [-1] * q + [0] * r
    ctx.claim(ga.n == n and ga.g == sympy.diag(*sq), 'metric is diagonal with the requested squares' + label)
    ctx.claim([str(b) for b in ga.basis] == names(conv, root, n), 'names of the basis vectors' + label)
    ctx.claim(all(x.Ga is ga for x in e) and [x.obj for x in e] == list(ga.basis) and tuple(e) == tuple(ga.mv()), 'returned vectors are the basis of the algebra' + label)
    if full:
        for i in range(n):
            for j in range(n):
                ctx.claim_zero(S((e[i] | e[j]).scalar()) - (sq[i] if i == j else 0), 'squares and orthogonality' + label)
                if i != j:
                    ctx.claim_eq(e[i] * e[j] + e[j] * e[i], {}, 'basis vectors anticommute' + label)
        a = [ctx.real('a%d' % i) for i in range(n)]
        v = sum((k * x for k, x in zip(a, e)), ga.mv(0))
        ctx.claim_eq(v * v, {0: sum(k ** 2 * s for k, s in zip(a, sq))}, 'square of a general vector' + label)


def signature(ctx, conv, form='plain', root='e'):
    p, q, r = counts(ctx, 0, 4, 6)
    n = p + q + r
    if n == 0 or n > 6:
        ctx.claim(True, 'outside')
        return
    kw = {} if root == 'e' else dict(root=root)
    out = call(factory(conv), p, q, r, form, **kw)
    check(ctx, conv, out, p, q, r, root, True)


def large(ctx, conv):
    p, q, r = counts(ctx, 0, 12, 12)
    n = p + q + r
    if not 7 <= n <= 12 or min(p, q) > 2:
        ctx.claim(True, 'outside')
        return
    out = factory(conv)(p, q, r)
    check(ctx, conv, out, p, q, r, 'e', False)
    for i in range(n):
        ctx.claim_zero(S((out[1 + i] | out[1 + i]).scalar()) - ([1] * p + [-1] * q + [0] * r)[i], 'squares')
    ctx.claim((out[1] | out[n]).scalar() == 0, 'orthogonal')


def products(ctx, conv):
    """the geometric product is that of the signature"""
    p, q, r = counts(ctx, 0, 4, 4)
    n = p + q + r
    if n == 0 or n > 4:
        ctx.claim(True, 'outside')
        return
    out = factory(conv)(p, q, r)
    ga = out[0]
    al = ref.Alg(sympy.diag(*([1] * p + [-1] * q + [0] * r)))
    A, a = ctx.mv(ga, 'a')
    B, b = ctx.mv(ga, 'b', grades=None if n < 4 else (1, 2))
    ctx.claim_eq(A * B, al.mul(a, b), 'geometric product')
    ctx.claim_eq(A ^ B, ref.wedge(a, b), 'outer product')
    # the same multivector built from the returned vectors
    C = ga.mv(0)
    for m, c in a.items():
        t = ga.mv(1)
        for i in range(n):
            if m >> i & 1:
                t = t * out[1 + i]
        C = C + c * t
    ctx.claim_eq(C, a, 'products of the returned vectors are the basis blades')


def duals(ctx, calls):
    """each factory sets its dual convention"""
    from galgebra.ga import Ga
    saved = Ga.dual_mode_value
    try:
        p, q, r = counts(ctx, 0, 3, 3)
        n = p + q + r
        if n == 0 or n > 3:
            ctx.claim(True, 'outside')
            return
        for c in calls:
            out = factory(c)(p, q, r)
            ga = out[0]
            al = ref.Alg(ga.g)
            ctx.claim(Ga.dual_mode_value == {'kingdon': 'Iinv+'}.get(c, 'I+'), 'dual convention of ' + c)
            A, a = ctx.mv(ga, 'a')
            I = {al.full: S.One}
            if r:
                continue
            if c != 'kingdon':
                ctx.claim_eq(A.dual(), al.mul(a, I), 'dual is A I')
            else:
                s = al.mul(I, I)[0]
                ctx.claim_eq(A.dual(), al.mul(a, ref.scale(1 / S(s), I)), 'dual is A I^-1')
    finally:
        Ga.dual_mode(saved)


def options(ctx, conv):
    from galgebra.ga import Ga
    Cl = factory(conv)
    saved = Ga.dual_mode_value
    try:
        for m in ('I+', 'I-', 'Iinv+'):
            Ga.dual_mode(m)
            ctx.claim_raises(ValueError, lambda: Cl(0), 'dimension 0')
            ctx.claim_raises(ValueError, lambda: Cl(0, 0, 0), 'dimension 0')
            ctx.claim(Ga.dual_mode_value == m, 'dual mode unchanged by the error')
    finally:
        Ga.dual_mode(saved)
    x = [ctx.real('x%d' % i) for i in range(3)]
    p = ctx.integer('p', 0, 3)
    out = Cl(p, 3 - p, 0, coords=tuple(x))
    check(ctx, conv, out, p, 3 - p, 0, 'e', True, ' with coordinates')
    ga = out[0]
    ctx.claim(tuple(ga.coords) == tuple(x), 'coordinates')
    f = ctx.fn('f', *x)
    ctx.claim_eq(ga.grad * ga.mv(f), {1 << i: sympy.diff(f, x[i]) * (1 if i < p else -1) for i in range(3)}, 'gradient')
    out = Cl(p, 3 - p, wedge=False)
    check(ctx, conv, out, p, 3 - p, 0, 'e', True, ' other option')
    for root in ('v', 'e_x', 'gamma', 'E1'):
        check(ctx, conv, Cl(1, 0, 1, root=root), 1, 0, 1, root, True, ' root')
        check(ctx, conv, Cl(0, 0, 1, root=root), 0, 0, 1, root, True, ' root')
    # two algebras at a time
    A, B = Cl(2), Cl(1, 1)
    check(ctx, conv, A, 2, 0, 0, 'e', True, ' after another was made')
    check(ctx, conv, B, 1, 1, 0, 'e', True, ' second')
    ctx.claim(A[0] is not B[0], 'different algebras')


def strings(ctx):
    """basis strings"""
    from galgebra.ga import Ga
    u = [ctx.real('x'), ctx.real('y'), ctx.real('z')]
    n = ctx.integer('n', 1, 4)
    a = [ctx.real('a%d' % i) for i in range(n)]
    for s, w in [('e*%d' % n, ['e_%d' % i for i in range(n)]), (','.join('pqrs'[:n]) + (',' if n == 1 else ''), list('pqrs'[:n])), ('e*' + '|'.join('xyzt'[:n]) if n > 1 else 'e_x,', ['e_' + c for c in 'xyzt'[:n]]),
                 (' '.join('pqrs'[:n]) if n > 1 else 'p,', list('pqrs'[:n])), ('g*' + '|'.join(map(str, range(7, 7 + n))) if n > 1 else 'g_7,', ['g_%d' % (7 + i) for i in range(n)])]:
        ga = Ga(s, g=[1] * n)
        ctx.claim([str(b) for b in ga.basis] == w, 'names from %r' % s)
        out = Ga.build(s, g=[1] * n)
        ctx.claim(len(out) == n + 1 and [str(x.obj) for x in out[1:]] == w, 'Ga.build')
        v = sum((k * x for k, x in zip(a, out[1:])), out[0].mv(0))
        ctx.claim_eq(v, {1 << i: k for i, k in enumerate(a)}, 'order of the basis')
        ctx.claim_eq(v * v, {0: sum(k ** 2 for k in a)}, 'square')
    if n <= 3:
        ga = Ga('e', g=[1] * n, coords=tuple(u[:n]))
        ctx.claim([str(b) for b in ga.basis] == ['e_' + c for c in 'xyz'[:n]], 'names from coordinates')
        ga = Ga('e', g=[1] * n, coords=list(u[:n]))
        ctx.claim([str(b) for b in ga.basis] == ['e_' + c for c in 'xyz'[:n]], 'names from a list of coordinates')


def tasks(tier):
    T = []
    for c in ('galgebra', 'kingdon', 'top'):
        T.append(Task('sig-' + c, signature, params=dict(conv=c), weight=9, max_paths=2000))
        T.append(Task('products-' + c, products, params=dict(conv=c), weight=9, max_paths=2000))
        T.append(Task('options-' + c, options, params=dict(conv=c), weight=3))
        if c != 'top':
            T.append(Task('sigkw-' + c, signature, params=dict(conv=c, form='keywords', root='q'), weight=9, max_paths=2000))
            T.append(Task('sigshort-' + c, signature, params=dict(conv=c, form='short'), weight=9, max_paths=2000))
            T.append(Task('large-' + c, large, params=dict(conv=c), weight=9, max_paths=5000))
    for k in (['galgebra'], ['kingdon'], ['galgebra', 'kingdon'], ['kingdon', 'galgebra'], ['kingdon', 'top', 'kingdon']):
        T.append(Task('dual-' + '-'.join(k), duals, params=dict(calls=k), weight=4, max_paths=2000))
    T.append(Task('strings', strings, weight=2))
    return T
