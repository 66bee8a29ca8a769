"""C04: grade structure, involutions, coefficients, constructors, predicates."""
import itertools

import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('is_blade decided for every 2-vector (dimension <= 4) and 3-vector (dimension 4), is_versor in dimension <= 3; general multivectors of dimension 1-5 (parts and involutions); predicates and grade lists over every zero/nonzero pattern of the '
          'coefficients in dimension 2 and selected grade supports in dimension 3-4')


def parts(ctx, alg):
    """parts, involutions and coefficient access of a general multivector"""
    import galgebra.mv as M
    ga = algs.make(ctx, alg)
    n = ga.n
    A, ra = ctx.mv(ga, 'a')
    g0 = lambda *r: ref.grade(ra, *r)
    tot = 0 * A
    for r in range(n + 1):
        for name, P in (('grade', A.grade(r)), ('get_grade', A.get_grade(r)), ('getitem', A[r]), ('mv.grade', M.grade(A, r)),
                        ('ga.get_grade', ctx.make(ga, ga.get_grade(A.obj, r)))):
            ctx.claim_eq(P, g0(r), '%s %d' % (name, r))
        tot = tot + A.grade(r)
        Ar = A.grade(r)
        cs = Ar.get_coefs(r)
        its = [(m, b) for m, i, b in ref.blade_items(ga) if len(i) == r]
        ctx.claim(len(cs) == len(its), 'number of coefficients')
        for (m, b), c in zip(its, cs):
            ctx.claim_eq({0: c}, {0: ra.get(m, 0)}, 'get_coefs')
        if n:
            s = (r + 1) % (n + 1)
            if s != r:
                ctx.claim_raises(ValueError, lambda: Ar.get_coefs(s), 'get_coefs of another grade raises')
    ctx.claim_same(tot, A, 'grade parts sum to A')
    ctx.claim_eq(A.grade(), g0(0), 'default grade')
    ctx.claim_eq(M.grade(A), g0(0), 'default grade of module function')
    ev, od = list(range(0, n + 1, 2)), list(range(1, n + 1, 2))
    for name, P in (('even', A.even()), ('mv.even', M.even(A)), ('ga.even_odd', ctx.make(ga, ga.even_odd(A.obj, True)))):
        ctx.claim_eq(P, g0(*ev), name)
    for name, P in (('odd', A.odd()), ('mv.odd', M.odd(A)), ('ga.even_odd odd', ctx.make(ga, ga.even_odd(A.obj, False)))):
        ctx.claim_eq(P, g0(*od), name)
    for name, P, R in (('rev', A.rev(), ref.rev(ra)), ('~', ~A, ref.rev(ra)), ('mv.rev', M.rev(A), ref.rev(ra)),
                       ('g_invol', A.g_invol(), ref.invol(ra)), ('mv.g_invol', M.g_invol(A), ref.invol(ra)),
                       ('ccon', A.ccon(), ref.conj(ra)), ('mv.ccon', M.ccon(A), ref.conj(ra)),
                       ('ga.reverse', ctx.make(ga, ga.reverse(A.obj)), ref.rev(ra))):
        ctx.claim_eq(P, R, name)
    for r in range(n + 1):
        H = A.grade(r)
        ctx.claim_eq(H.rev(), ref.rev(g0(r)), 'rev of grade %d' % r)
        ctx.claim_eq(H.g_invol(), ref.invol(g0(r)), 'g_invol of grade %d' % r)
        ctx.claim_eq(H.ccon(), ref.conj(g0(r)), 'ccon of grade %d' % r)
        ctx.claim_eq(H.even(), g0(r) if r % 2 == 0 else {}, 'even of grade %d' % r)
        ctx.claim_eq(H.odd(), g0(r) if r % 2 else {}, 'odd of grade %d' % r)
        ctx.claim_eq({0: H.scalar()}, {0: ra[0]} if r == 0 else {}, 'scalar of grade %d' % r)
        ctx.claim(H.pure_grade() == r, 'pure_grade of grade %d' % r)
        for s in range(n + 1):
            ctx.claim_eq(H.grade(s), g0(r) if r == s else {}, 'grade of grade')
    ctx.claim_eq({0: A.scalar()}, {0: ra[0]}, 'scalar')
    ctx.claim_eq({0: M.scalar(A)}, {0: ra[0]}, 'mv.scalar')
    ctx.claim_eq({0: ga.scalar_part(A)}, {0: ra[0]}, 'ga.scalar_part')
    sp, rest = ga.split_multivector(A)
    ctx.claim_eq({0: sp}, {0: ra[0]}, 'split scalar')
    ctx.claim_eq(ctx.make(ga, S(rest)), g0(*range(1, n + 1)), 'split rest')
    ctx.claim_eq(ctx.make(ga, S(ga.remove_scalar_part(A))), g0(*range(1, n + 1)), 'remove_scalar_part')
    d = ga.grade_decomposition(A)
    ctx.claim(sorted(d) == list(range(n + 1)), 'grade_decomposition keys')
    for r, P in d.items():
        ctx.claim_eq(P, g0(r), 'grade_decomposition')
    # components: one blade each, in blade order, summing to A
    cs = A.components()
    ctx.claim(len(cs) == 2 ** n, 'number of components')
    for c, (m, i, b) in zip(cs, ref.blade_items(ga)):
        ctx.claim_eq(c, {m: ra[m]}, 'component')
    bc = A.blade_coefs()
    ctx.claim(len(bc) == 2 ** n, 'number of blade_coefs')
    for c, (m, i, b) in zip(bc, ref.blade_items(ga)):
        ctx.claim_eq({0: c}, {0: ra[m]}, 'blade_coefs')
    items = ref.blade_items(ga)
    for k in range(len(items)):
        pick = [items[k], items[(3 * k + 1) % len(items)]]
        if pick[0][0] == pick[1][0]:
            pick = pick[:1]
        bl = [ctx.make(ga, b) for m, i, b in pick]
        ctx.claim_eq(A.proj(bl), {m: ra[m] for m, i, b in pick}, 'proj')
        for c, (m, i, b) in zip(A.blade_coefs(bl), pick):
            ctx.claim_eq({0: c}, {0: ra[m]}, 'blade_coefs of list')
        H = A.grade(len(pick[0][1]))
        ctx.claim_eq({0: H.blade_coefs([bl[0]])[0]}, {0: ra[pick[0][0]]}, 'blade_coefs of a grade part')
    for c, (m, i, b) in zip(A.list(), [x for x in items if len(x[1]) == 1]):
        ctx.claim_eq({0: c}, {0: ra[m]}, 'list')
    ctx.claim(len(A.list()) == n, 'length of list')
    k = ctx.real('k')
    ctx.claim_eq(A.func(lambda c: c * k + c ** 2), {m: c * k + c ** 2 for m, c in ra.items()}, 'func')
    ctx.claim_eq(A.subs(ra[0], k + 1), {**ra, 0: k + 1}, 'subs')
    last = items[-1][0]
    ctx.claim_eq(A.subs({ra[last]: k * ra[0]}), {**ra, last: k * ra[0]}, 'subs dict')
    ctx.claim_eq(A.collect(), ra, 'collect')
    B = A * (k + 1) + A * k ** 2
    for name, P in (('expand', B.expand()), ('simplify', B.simplify()), ('collect', B.collect()), ('trigsimp', B.trigsimp()),
                    ('simplify modes', B.simplify(modes=[sympy.expand, sympy.factor]))):
        ctx.claim_eq(P, ref.scale(k ** 2 + k + 1, ra), name)


def setcoef(ctx, alg):
    ga = algs.make(ctx, alg)
    v = ctx.real('v')
    k = ctx.real('k')
    by = {}
    for m, i, b in ref.blade_items(ga):
        by.setdefault(len(i), []).append(m)
    for r in by:
        for j, m in enumerate(by[r]):
            A, ra = ctx.mv(ga, 'a')
            A.set_coef(r, j, v)
            ctx.claim_eq(A, {**ra, m: v}, 'set_coef existing')
            Z, rz = ctx.mv(ga, 'a', grades=[(r + 1) % (ga.n + 1)])
            Z.set_coef(r, j, v + k)
            ctx.claim_eq(Z, {**rz, m: v + k}, 'set_coef absent')


def involution_laws(ctx, alg):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    ctx.claim_same(A.rev().rev(), A, 'rev twice')
    ctx.claim_same(A.g_invol().g_invol(), A, 'involution twice')
    ctx.claim_same(A.ccon().ccon(), A, 'conjugation twice')
    ctx.claim_same((A * B).g_invol(), A.g_invol() * B.g_invol(), 'involution of product')
    ctx.claim_same((A * B).ccon(), B.ccon() * A.ccon(), 'conjugation of product')
    ctx.claim_same((A ^ B).rev(), B.rev() ^ A.rev(), 'reverse of wedge')


KINDS = {'scalar': [0], 'vector': [1], 'bivector': [2], 'grade2': [2], 'pseudo': [-1], 'even': 'even', 'spinor': 'even', 'odd': 'odd', 'mv': 'all'}


def _grades(kind, n):
    g = KINDS[kind]
    if g == 'even':
        return list(range(0, n + 1, 2))
    if g == 'odd':
        return list(range(1, n + 1, 2))
    if g == 'all':
        return list(range(n + 1))
    return [n if x < 0 else x for x in g]


def constructors(ctx, n, coords):
    from galgebra.ga import Ga
    from galgebra.mv import Mv
    cs = sympy.symbols('x y z w u'.split()[:n], real=True) if coords else None
    kw = dict(coords=cs) if coords else {}
    ga = Ga('e*' + '|'.join('12345'[:n]), g=[1] * n, **kw)
    items = ref.blade_items(ga)
    sup = [str(c) for c in cs] if coords else [str(b).split('_')[1] for b in ga.basis]
    def name(i, root):
        s = ''.join(sup[j] for j in i)
        return root + '__' + s if s else root

    def check(M, grades, root, f, label):
        R = {}
        for m, i, b in items:
            if len(i) in grades:
                nm = name(i, root)
                if f is False:
                    R[m] = sympy.Symbol(nm, real=True)
                else:
                    R[m] = sympy.Function(nm, real=True)(*f)
        ctx.claim_eq(M, R, label)
        ctx.claim(set(M.grades or [0]) == set(grades) if len(grades) else True, 'announced grades: ' + label)

    for kind in KINDS:
        gr = _grades(kind, n)
        if max(gr, default=0) > n:
            continue
        check(ga.mv('A', kind), gr, 'A', False, 'name, ' + kind)
        check(Mv('B', kind, ga=ga), gr, 'B', False, 'Mv name, ' + kind)
        if coords:
            check(ga.mv('F', kind, f=True), gr, 'F', cs, 'function, ' + kind)
            check(ga.mv('F', kind, f=tuple(cs[:1])), gr, 'F', cs[:1], 'function of some coordinates, ' + kind)
        check(ga.mv('F', kind, f=False), gr, 'F', False, 'f=False, ' + kind)
    for r in range(n + 1):
        check(ga.mv('A', 'grade', r), [r], 'A', False, 'name, grade r')
        check(ga.mv('A', r), [r], 'A', False, 'name, r')
        if coords:
            check(ga.mv('A', r, f=True), [r], 'A', cs, 'function, r')
        its = [x for x in items if len(x[1]) == r]
        co = [ctx.real('q%d' % j) for j in range(len(its))]
        R = {m: c for c, (m, i, b) in zip(co, its)}
        ctx.claim_eq(ga.mv(co, 'grade', r), R, 'coefficients, grade r')
        if r:
            ctx.claim_eq(ga.mv(co, r), R, 'coefficients, r')
            ctx.claim_eq(ga.mv(tuple(co), r), R, 'coefficients tuple, r')
            ctx.claim_eq(ga.mv(co[:1], r), {its[0][0]: co[0]}, 'fewer coefficients')
            ctx.claim_raises(ValueError, lambda: ga.mv(co + [S.One], r), 'too many coefficients')
        if r == 1:
            ctx.claim_eq(ga.mv(co, 'vector'), R, 'coefficients, vector')
        if r == 2:
            ctx.claim_eq(ga.mv(co, 'bivector'), R, 'coefficients, bivector')
        if r == n:
            ctx.claim_eq(ga.mv(co, 'pseudo'), R, 'coefficients, pseudo')
    k = ctx.real('k')
    ctx.claim_eq(ga.mv(k), {0: k}, 'scalar expression')
    ctx.claim_eq(ga.mv(k, 'scalar'), {0: k}, 'scalar value')
    ctx.claim_eq(ga.mv(k, 0), {0: k}, 'scalar value, grade 0')
    ctx.claim_eq(ga.mv(3), {0: 3}, 'number')
    ctx.claim_eq(Mv(ga=ga), {}, 'zero')
    A, ra = ctx.mv(ga, 'a')
    ctx.claim_eq(ga.mv(A), ra, 'copy')
    V, W = ga.mv('V W', 'vector')
    check(V, [1], 'V', False, 'several names')
    check(W, [1], 'W', False, 'several names')
    V, W = ga.mv('V W', 'scalar mv')
    check(V, [0], 'V', False, 'several names and types')
    check(W, list(range(n + 1)), 'W', False, 'several names and types')
    for b, e in zip(ga.mv(), range(n)):
        ctx.claim_eq(b, {1 << e: 1}, 'basis vector')
    for P, (m, i, b) in zip(ga.mv_blades.flat, items):
        ctx.claim_eq(P, {m: 1}, 'mv_blades')
    for r in range(n + 1):
        ctx.claim(len(ga.mv_blades[r]) == len([1 for x in items if len(x[1]) == r]), 'blades per grade')
    ctx.claim_eq(ga.E(), {(1 << n) - 1: 1}, 'E')


def _nzgrades(ctx, ra):
    """grades with a nonzero coefficient on this path, by asking the engine"""
    return ra


def predicates(ctx, alg, grades=None, blades=None):
    """grade information of multivectors whose coefficients are arbitrary numbers"""
    ga = algs.make(ctx, alg)
    n = ga.n
    A, ra = ctx.mv(ga, 'a', grades=grades, blades=blades)
    A = A + 0 * A          # let the library drop zero terms
    by = [[c for m, c in ra.items() if ref.gr(m) == r] for r in range(n + 1)]
    allc = list(ra.values())
    A = ctx.make(ga, A.obj)
    Z = A.expand()
    ctx.claim_iff_zero(Z.is_zero(), allc, 'is_zero')
    pg = A.pure_grade()
    gr = ga.grades(A.obj)
    for r in range(n + 1):
        if r in gr:
            if r:
                ctx.claim_iff_zero(False, by[r], 'listed grade is present')
            else:
                # scalar zero is listed as grade 0
                ctx.claim_iff_zero(False, by[0], 'listed grade is present') if len(gr) > 1 else None
        else:
            ctx.claim_iff_zero(True, by[r], 'unlisted grade is absent')
    if pg >= 0:
        ctx.claim_iff_zero(True, [c for r in range(n + 1) if r != pg for c in by[r]], 'pure grade: others vanish')
        if pg > 0:
            ctx.claim_iff_zero(False, by[pg], 'pure grade present')
    else:
        ctx.claim_iff_zero(False, by[-pg], 'max grade present')
        ctx.claim_iff_zero(True, [c for r in range(-pg + 1, n + 1) for c in by[r]], 'nothing above max grade')
        ctx.claim_iff_zero(False, [c for r in range(-pg) for c in by[r]], 'not pure')
    sc = A.is_scalar()
    ctx.claim_iff_zero(sc, [c for r in range(1, n + 1) for c in by[r]], 'is_scalar')
    v = A.is_vector()
    nv = [c for r in range(n + 1) if r != 1 for c in by[r]]
    if v:
        ctx.claim_iff_zero(True, nv, 'is_vector: others vanish')
        ctx.claim_iff_zero(False, by[1], 'is_vector: nonzero')
    else:
        ctx.claim_zero(_prod_zero(nv, by[1], ctx), 'is_vector false') if not nv else None


def _prod_zero(nv, v, ctx):
    # no other grades possible: not a vector means zero
    return sum(c ** 2 for c in v)


def bases(ctx, alg):
    """is_base / is_blade of basis blades, their multiples and simple sums"""
    ga = algs.make(ctx, alg)
    its = ref.blade_items(ga)
    for m, i, b in its:
        B = ctx.make(ga, b)
        ctx.claim(B.is_base(), 'basis blade is a base')
        ctx.claim(B.is_blade(), 'basis blade is a blade')
        ctx.claim(B.is_scalar() == (len(i) == 0), 'is_scalar of basis blade')
        ctx.claim(B.is_vector() == (len(i) == 1), 'is_vector of basis blade')
        ctx.claim(B.pure_grade() == len(i), 'pure grade of basis blade')
        k = ctx.real('k', nonzero=True)
        K = ctx.make(ga, k * b)
        ctx.claim(not K.is_base(), 'k*blade is not a base')
        ctx.claim(K.is_blade(), 'k*blade is a blade')
        ctx.claim(K.pure_grade() == len(i), 'pure grade of multiple')
        for m2, i2, b2 in its:
            if m2 != m:
                Q = ctx.make(ga, b + k * b2)
                ctx.claim(not Q.is_base(), 'sum is not a base')
                if len(i) != len(i2):
                    ctx.claim(not Q.is_blade(), 'mixed grades are no blade')
                    ctx.claim(Q.pure_grade() == -max(len(i), len(i2)), 'pure_grade is minus the maximal grade')
                else:
                    ctx.claim(Q.pure_grade() == len(i), 'pure grade of a sum')


def maxgrade(ctx, alg):
    """minus the maximal grade for every support of basis blades (dimension 3) however the terms are ordered"""
    ga = algs.make(ctx, alg)
    its = ref.blade_items(ga)
    co = [ctx.real('c%d' % j, nonzero=True) for j in range(len(its))]
    for r in range(1, 5):
        for sub in itertools.combinations(range(len(its)), r):
            for flip in (False, True):
                obj = sum(((co[-j - 1] if flip else co[j]) * its[j][2] for j in sub), S.Zero)
                grs = {len(its[j][1]) for j in sub}
                A = ctx.make(ga, obj)
                p = A.pure_grade()
                ctx.claim(p == (max(grs) if len(grs) == 1 else -max(grs)), 'pure_grade of support')
                ctx.claim(sorted(ga.grades(obj)) == sorted(grs), 'grades of support')


def blade_pred(ctx, alg, grade):
    """is_blade of any 2-vector: exactly the decomposable nonzero ones (dimension <= 4)"""
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=(grade,))
    A = ctx.make(ga, A.obj).expand()
    w = ref.wedge(ra, ra) if grade == 2 else {}
    r = A.is_blade()
    dec = [(sympy.expand(c), '!=') for c in w.values()]
    nz = [(c, '!=') for c in ra.values()]
    if r:
        ctx.claim_iff_zero(True, [c for c, _ in dec], 'blade is decomposable')
        ctx.claim_iff_zero(False, list(ra.values()), 'blade is nonzero')
    else:
        ctx.claim_implies([], dec + [(sum(c ** 2 for c in ra.values()), '==')], 'not a blade: zero or not decomposable')


def versor_pred(ctx, alg, grades):
    """is_versor in dimension <= 3: definite parity and nonzero V rev(V)"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=grades)
    A = ctx.make(ga, A.obj).expand()
    q = sympy.expand(al.mul(ra, ref.rev(ra)).get(0, 0))
    od = [c for m, c in ra.items() if ref.gr(m) % 2]
    ev = [c for m, c in ra.items() if ref.gr(m) % 2 == 0]
    so, se = sum((c ** 2 for c in od), S.Zero), sum((c ** 2 for c in ev), S.Zero)
    if A.is_versor():
        ctx.claim_iff_zero(False, [q], 'versor is invertible')
        ctx.claim_implies([], [(so, '=='), (se, '==')], 'versor has a parity')
    else:
        ctx.claim_implies([(q, '!='), (so, '==')], [], 'even with nonzero norm is a versor')
        ctx.claim_implies([(q, '!='), (se, '==')], [], 'odd with nonzero norm is a versor')


def tasks(tier):
    T = []
    for a in ['E1', 'S2', 'S3', 'G2', 'G3', 'STA', 'CGA2', 'D3', 'NL3', 'E5']:
        T.append(Task('parts-' + a, parts, params=dict(alg=a), weight=5))
    for a in ['S2', 'S3', 'G2', 'NL3']:
        T.append(Task('laws-' + a, involution_laws, params=dict(alg=a), weight=5))
    for a in ['S2', 'S3', 'G2']:
        T.append(Task('setcoef-' + a, setcoef, params=dict(alg=a)))
    for n in range(1, 5):
        for c in (False, True):
            T.append(Task('constructors-%d%s' % (n, 'c' if c else ''), constructors, params=dict(n=n, coords=c), weight=2))
    for a in ['S1', 'S2', 'S3', 'M3', 'D3', 'STA', 'NL3']:
        T.append(Task('bases-' + a, bases, params=dict(alg=a), weight=3))
    for a in ['E3', 'NE3']:
        T.append(Task('maxgrade-' + a, maxgrade, params=dict(alg=a), weight=3))
    T.append(Task('predicates-E1', predicates, 'num', params=dict(alg='E1')))
    T.append(Task('predicates-M2', predicates, 'num', params=dict(alg='M2'), weight=3))
    T.append(Task('predicates-NM2', predicates, 'num', params=dict(alg='NM2'), weight=3))
    T.append(Task('predicates-E3-012', predicates, 'num', params=dict(alg='E3', blades=[(), (0,), (1, 2), (0, 1, 2)]), weight=3))
    T.append(Task('predicates-E3-v', predicates, 'num', params=dict(alg='E3', grades=[1]), weight=3))
    T.append(Task('predicates-STA', predicates, 'num', params=dict(alg='STA', blades=[(0,), (0, 1), (1, 2, 3), (0, 1, 2, 3)]), weight=3))
    T.append(Task('predicates-D3', predicates, 'num', params=dict(alg='D3', blades=[(), (2,), (0, 1), (0, 2)]), weight=3))
    for a, g in [('E2', 2), ('M3', 2), ('D3', 2), ('NL3', 2), ('M3', 1), ('D2', 2), ('M3', 3), ('E4', 2), ('PGA3', 2), ('E4', 3)]:
        T.append(Task('blade-%s-%d' % (a, g), blade_pred, 'num', params=dict(alg=a, grade=g), weight=4))
    for a, gs in [('M2', [0, 1, 2]), ('D2', [0, 1, 2]), ('NM2', [0, 1, 2]), ('M3', [0, 2]), ('M3', [1, 3]), ('E3', [1])]:
        T.append(Task('versor-%s-%s' % (a, ''.join(map(str, gs))), versor_pred, 'num', params=dict(alg=a, grades=gs), weight=4))
    if tier == 'thorough':
        for a, g in [('STA', 2), ('CGA2', 2), ('STA', 3), ('M22', 2)]:
            T.append(Task('blade-%s-%d' % (a, g), blade_pred, 'num', params=dict(alg=a, grade=g), weight=9, timeout=3000, max_paths=3000))
        for a, gs in [('D3', [0, 1, 2]), ('M3', [0, 1, 2, 3]), ('NL3', [0, 2]), ('E3', [0, 1, 2])]:
            T.append(Task('versor-%s-%s' % (a, ''.join(map(str, gs))), versor_pred, 'num', params=dict(alg=a, grades=gs), weight=9, timeout=3000, max_paths=5000))
        T.append(Task('predicates-E3', predicates, 'num', params=dict(alg='E3'), weight=9, timeout=3000, max_paths=3000))
        T.append(Task('parts-M41', parts, params=dict(alg='M41'), weight=9, timeout=3000))
        T.append(Task('parts-G4', parts, params=dict(alg='G4'), weight=9, timeout=3000))
    return T
