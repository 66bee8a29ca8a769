"""C07: an inverse that is returned is a two-sided inverse; otherwise an error is raised."""
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('general multivectors with arbitrary real coefficients (every zero pattern and every null case) in dimension 1-2; chosen blade supports in '
          'dimension 3-4; versors and general multivectors with indeterminate coefficients in dimension 1-5; symbolic diagonal and full metrics')
ASSUMPTIONS = ['a raised ValueError, TypeError or NotImplementedError counts as "error raised"']
METH = {'inv': lambda A: A.inv(), 'shirokov': lambda A: A.shirokov_inverse(), 'hitzer': lambda A: A.hitzer_inverse(), '/': lambda A: 1 / A, '**-1': lambda A: A ** -1,
        'self/': lambda A: A.Ga.mv(1) / A}


def _exact(ctx, X, label):
    ctx.claim(not X.obj.has(sympy.Float), 'exact arithmetic: ' + label)


def numeric(ctx, alg, meth, blades=None, grades=None):
    """every real value of the coefficients: an inverse is defined and two sided, or an error is raised"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', blades=blades, grades=grades)
    A = A.expand()
    N, rev = _norm(al, ra)
    try:
        X = METH[meth](A)
    except ValueError:
        # no inverse: for the complete methods the multivector is singular
        if meth in ('shirokov', 'hitzer') and N is not None:
            ctx.claim_zero(N, 'an error means no inverse exists')
        elif _vectorlike(ra) and N is not None:
            ctx.claim_zero(N, 'an error means the versor is null')
        else:
            ctx.claim(True, 'error')
        return
    except (TypeError, NotImplementedError):
        if meth in ('shirokov', 'hitzer') or _vectorlike(ra):
            ctx.claim(False, 'method applies to this multivector')
        ctx.claim(True, 'error')
        return
    rx = ref.of_mv(X, al)
    ctx.claim_defined(list(rx.values()), 'inverse is defined')
    ctx.claim_eq(al.mul(ra, rx), {0: 1}, 'M*X == 1', al)
    ctx.claim_eq(al.mul(rx, ra), {0: 1}, 'X*M == 1', al)
    ctx.claim_eq(A * X, {0: 1}, 'library M*X == 1')
    ctx.claim_eq(A, ra, 'operand unchanged')


def _vectorlike(ra):
    return all(ref.gr(m) == 1 for m in ra) or (len(ra) == 1)


def _norm(al, ra):
    """the determinant of left multiplication (zero iff no inverse exists), for small algebras"""
    n = al.n
    if n > 2 and not _vectorlike(ra):
        return None, None
    if _vectorlike(ra):
        return sympy.expand(al.mul(ra, ref.rev(ra)).get(0, 0)), None
    d = 1 << n
    M = sympy.zeros(d, d)
    for j in range(d):
        for m, c in al.mul(ra, {j: S.One}).items():
            M[m, j] = c
    return sympy.expand(M.det(method='berkowitz')), None


def symbolic(ctx, alg, meth, grades=None, versor=0):
    """indeterminate coefficients: a two-sided exact inverse is returned"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    if versor:
        A, ra = ctx.vec(ga, 'a')
        for k in range(1, versor):
            B, rb = ctx.vec(ga, 'abc'[k])
            A, ra = A * B, {m: sympy.expand(c) for m, c in al.mul(ra, rb).items()}
    else:
        A, ra = ctx.mv(ga, 'a', grades=grades)
    X = METH[meth](A)
    _exact(ctx, X, meth)
    rx = ref.of_mv(X, al)
    ctx.claim_eq(al.mul(ra, rx), {0: 1}, 'M*X == 1', al)
    ctx.claim_eq(al.mul(rx, ra), {0: 1}, 'X*M == 1', al)


def agree(ctx, alg, grades=None, versor=0):
    ga = algs.make(ctx, alg)
    A, ra = ctx.vec(ga, 'a') if versor else ctx.mv(ga, 'a', grades=grades)
    if versor == 2:
        A = A * ctx.vec(ga, 'b')[0]
    got = {}
    for m, f in METH.items():
        try:
            got[m] = f(A)
        except (TypeError, ValueError, NotImplementedError):
            pass
    ctx.claim('shirokov' in got, 'some method applies')
    for m in got:
        ctx.claim_same(got[m], got['shirokov'], m + ' agrees with shirokov')


def division(ctx, alg):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a')
    v, rv = ctx.vec(ga, 'v')
    k = ctx.real('k', nonzero=True)
    ctx.claim_same((A / v) * v, A, '(A/v)*v')
    ctx.claim_same((A * v) / v, A, '(A*v)/v')
    ctx.claim_same(v * (1 / v), ga.mv(1), 'v*(1/v)')
    ctx.claim_same((k / v) * v, ga.mv(k), '(k/v)*v')
    ctx.claim_same((A / ga.mv(k)) * k, A, 'division by a scalar multivector')
    ctx.claim_same(v ** -2 * v ** 2, ga.mv(1), 'v**-2')
    w, rw = ctx.vec(ga, 'w')
    ctx.claim_same((v * w) ** -2 * (v * w) * (v * w), ga.mv(1), '(v*w)**-2')
    ctx.claim_same((v * w).inv(), w.inv() * v.inv(), 'inverse of a product')


def singular(ctx, alg):
    """multivectors with no inverse: an error for every nonzero multiple"""
    ga = algs.make(ctx, alg)
    k = ctx.real('k', nonzero=True)
    for name, obj in SING[alg](ga):
        M = ctx.make(ga, sympy.expand(k * obj))
        for m, f in METH.items():
            if m == 'hitzer' and ga.n > 5:
                continue
            try:
                X = f(M)
            except (ValueError, TypeError, NotImplementedError):
                ctx.claim(True, 'raises')
                continue
            ctx.claim(False, '%s of %s must raise' % (m, name))


def _e(ga):
    return ga.basis


SING = {
    'E2': lambda ga: [('zero', S.Zero), ('1+e1', 1 + _e(ga)[0]), ('1-e2', 1 - _e(ga)[1])],
    'M2': lambda ga: [('null vector', _e(ga)[0] + _e(ga)[1]), ('1+e1', 1 + _e(ga)[0]), ('1+e12', 1 + ga.blades[2][0])],
    'D2': lambda ga: [('null vector', _e(ga)[0]), ('null bivector', ga.blades[2][0]), ('sum', _e(ga)[0] + ga.blades[2][0])],
    'NM2': lambda ga: [('null vector', _e(ga)[0]), ('other null vector', _e(ga)[1]), ('1+e12', 1 + ga.blades[2][0])],
    'STA': lambda ga: [('null vector', _e(ga)[0] + _e(ga)[1]), ('null bivector', ga.blades[2][0] + ga.blades[2][3]), ('zero', S.Zero)],
    'E3': lambda ga: [('idempotent', 1 + _e(ga)[2]), ('zero', S.Zero), ('e1+e12', _e(ga)[0] + ga.blades[2][0])],
    'CGA1': lambda ga: [('null vector', _e(ga)[1]), ('other', _e(ga)[2]), ('null bivector', ga.blades[2][0])],
    'D3': lambda ga: [('degenerate vector', _e(ga)[0]), ('pseudoscalar', ga.blades[3][0]), ('null sum', _e(ga)[1] + _e(ga)[2])],
}


def dim0(ctx):
    from galgebra.ga import Ga
    ga = Ga('', g=[])
    k = ctx.real('k', nonzero=True)
    for m, f in METH.items():
        ctx.claim_zero(f(ga.mv(k)).obj - 1 / k, 'dimension 0, ' + m)


def dim6(ctx):
    from galgebra.ga import Ga
    ga = Ga('e*1|2|3|4|5|6', g=[1] * 6)
    k = ctx.real('k', nonzero=True)
    ctx.claim_raises(NotImplementedError, lambda: ga.mv(k).hitzer_inverse(), 'hitzer beyond dimension 5')
    v = ctx.make(ga, k * ga.basis[0] + ga.basis[5])
    X = v.shirokov_inverse()
    ctx.claim_same(X, v.inv(), 'shirokov in dimension 6')
    ctx.claim_same(v * X, ga.mv(1), 'M*X in dimension 6')


def tasks(tier):
    T = []
    num = [('E1', None), ('L1', None), ('D1', None), ('E2', None), ('M2', None), ('A2', None), ('D2', None), ('NM2', None), ('ND2', None), ('NX2', None), ('Z2', None)]
    for a, b in num:
        for m in METH:
            T.append(Task('num-%s-%s' % (a, m.replace('/', 'div')), numeric, 'num', params=dict(alg=a, meth=m, blades=b), weight=4))
    sel = [('M3', 'v', None, [1]), ('CGA1', 'v', None, [1]), ('D3', 'v', None, [1]), ('STA', 'v', None, [1]), ('E3', 'b', None, [2]), ('M3', 'b', None, [2]),
           ('NL3', 'b', None, [2]), ('E3', 'p', [(), (0,), (1, 2)], None), ('M3', 'p', [(), (0, 2), (0, 1, 2)], None), ('E3', 'i', [(), (0, 1, 2)], None),
           ('D3', 'q', [(), (0,), (0, 1)], None), ('CGA1', 'q', [(), (1,), (2,)], None), ('NB3', 'q', [(), (0, 2)], None), ('STA', 'q', [(), (0, 1), (2, 3)], None),
           ('STA', 'i', [(), (0, 1, 2, 3)], None), ('STA', 'r', [(0,), (1,), (1, 2, 3)], None), ('CGA2', 'q', [(2,), (3,), (0, 1)], None)]
    for a, t, b, g in sel:
        for m in ('inv', 'shirokov', 'hitzer'):
            T.append(Task('num-%s%s-%s' % (a, t, m), numeric, 'num', params=dict(alg=a, meth=m, blades=b, grades=g), weight=5))
    for m in ('shirokov', 'hitzer'):
        for a in ['E1', 'S1', 'S2', 'G2', 'M3', 'NX3', 'CGA1']:
            T.append(Task('sym-%s-%s' % (a, m), symbolic, params=dict(alg=a, meth=m), weight=5))
        for a, g in [('S3', [0, 2]), ('S3', [1, 3]), ('STA', [0, 1]), ('STA', [1, 4]), ('E4', [0, 4]), ('M31', [1, 3]), ('E5', [0, 5])]:
            T.append(Task('sym-%s-%s-%s' % (a, ''.join(map(str, g)), m), symbolic, params=dict(alg=a, meth=m, grades=g), weight=6))
    for m in ('inv', 'div', '**-1'):
        for a, k in [('S1', 1), ('S2', 1), ('S2', 2), ('S3', 2), ('S3', 3), ('G2', 2), ('G3', 1), ('G3', 2), ('STA', 2), ('M41', 2), ('CGA2', 2), ('NX3', 3)]:
            T.append(Task('versor-%s-%d-%s' % (a, k, m), symbolic, params=dict(alg=a, meth='/' if m == 'div' else m, versor=k), weight=4))
    for a, g, v in [('S2', None, 1), ('S2', None, 2), ('G2', None, 2), ('NX3', None, 2), ('STA', None, 1), ('M3', [0, 2], 0), ('E2', None, 0), ('CGA1', [2], 0)]:
        T.append(Task('agree-%s-%s%d' % (a, ''.join(map(str, g or [])), v), agree, params=dict(alg=a, grades=g, versor=v), weight=4))
    for a in ['S2', 'G2', 'S3', 'NX3', 'STA']:
        T.append(Task('division-' + a, division, params=dict(alg=a), weight=5))
    for a in SING:
        T.append(Task('singular-' + a, singular, params=dict(alg=a), weight=2))
    T.append(Task('dim0', dim0))
    T.append(Task('dim6', dim6))
    if tier == 'thorough':
        for a, t, b, g in [('E3', 'all', None, None), ('M3', 'even', None, [0, 2]), ('STA', 'vec3', None, [1, 3]), ('NX3', 'sv', None, [0, 1])]:
            for m in ('inv', 'shirokov', 'hitzer'):
                T.append(Task('num-%s%s-%s' % (a, t, m), numeric, 'num', params=dict(alg=a, meth=m, blades=b, grades=g), weight=9, timeout=3000, max_paths=5000))
        for m in ('shirokov', 'hitzer'):
            for a in ['S3', 'G3', 'STA', 'E4']:
                T.append(Task('symt-%s-%s' % (a, m), symbolic, params=dict(alg=a, meth=m), weight=9, timeout=3000))
    return T
