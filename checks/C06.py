"""C06: module laws, powers, equality, no mutation, module functions, mixing algebras."""
import operator

import sympy
from sympy import S, Rational
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('general multivectors of dimension 1-4 over numeric, degenerate, non-orthogonal and symbolic metrics; powers up to 5; equality decided '
          'for every pair of values in dimension 1-2')
ASSUMPTIONS = ['scalars are Python integers, sympy numbers and real sympy expressions']


def scal(ctx, ga):
    """(label, scalar operand, its value) of every admitted kind"""
    k = ctx.real('k', nonzero=True)
    return [('symbol', k, k), ('int', 3, S(3)), ('negative int', -2, S(-2)), ('zero', 0, S(0)), ('Rational', Rational(2, 3), Rational(2, 3)),
            ('expression', k ** 2 + 1, k ** 2 + 1), ('unexpanded expression', k * (k + 1) - 2, k ** 2 + k - 2),
            ('function', ctx.fn('f', k) + k, ctx.fn('f', k) + k), ('scalar Mv', ga.mv(k), k), ('scalar Mv sum', ga.mv(k) + 2, k + 2)]


def arith(ctx, alg):
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    C, rc = ctx.mv(ga, 'c')
    eq = ctx.claim_eq
    eq(A + B, ref.add(ra, rb), 'A+B')
    eq(B + A, ref.add(ra, rb), 'B+A')
    eq(A - B, ref.sub(ra, rb), 'A-B')
    eq(-A, ref.scale(-1, ra), '-A')
    eq(A - A, {}, 'A-A')
    eq(A + A, ref.scale(2, ra), 'A+A')
    eq(A + (-A), {}, 'A+(-A)')
    eq((A + B) + C, ref.add(ref.add(ra, rb), rc), '(A+B)+C')
    eq(A - (B - C), ref.add(ref.sub(ra, rb), rc), 'A-(B-C)')
    eq(sum([A, B, C]), ref.add(ref.add(ra, rb), rc), 'sum()')
    eq(operator.neg(A - B), ref.sub(rb, ra), '-(A-B)')
    for name, k, v in scal(ctx, ga):
        eq(A + k, ref.add(ra, {0: v}), 'A + ' + name)
        eq(k + A, ref.add(ra, {0: v}), name + ' + A')
        eq(A - k, ref.sub(ra, {0: v}), 'A - ' + name)
        eq(k - A, ref.sub({0: v}, ra), name + ' - A')
        eq(A * k, ref.scale(v, ra), 'A * ' + name)
        eq(k * A, ref.scale(v, ra), name + ' * A')
        eq(A ^ k, ref.scale(v, ra), 'A ^ ' + name)
        eq(k ^ A, ref.scale(v, ra), name + ' ^ A')
        eq(k * (A + B), ref.scale(v, ref.add(ra, rb)), name + ' * (A+B)')
        eq((A + B) * k, ref.scale(v, ref.add(ra, rb)), '(A+B) * ' + name)
        eq(k * A * k, ref.scale(v * v, ra), name + ' * A * ' + name)
        if v != 0:
            eq(A / k, ref.scale(1 / v, ra), 'A / ' + name)
            eq((A * k) / k, ra, '(A*k)/k, ' + name)
            eq(k * (A / k), ra, 'k*(A/k), ' + name)
    eq(A ** 0, {0: 1}, 'A**0')
    eq(A ** 1, ra, 'A**1')
    X = A
    X += B
    eq(X, ref.add(ra, rb), '+=')
    X -= 2
    eq(X, ref.sub(ref.add(ra, rb), {0: 2}), '-=')
    X *= 3
    eq(X, ref.scale(3, ref.sub(ref.add(ra, rb), {0: 2})), '*=')
    X /= 3
    eq(X, ref.sub(ref.add(ra, rb), {0: 2}), '/=')
    eq(A, ra, 'A unchanged')
    eq(B, rb, 'B unchanged')
    eq(C, rc, 'C unchanged')


def powers(ctx, alg, n):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a')
    want = {0: S.One}
    for k in range(n + 1):
        ctx.claim_eq(A ** k, want, 'A**%d' % k)
        want = al.mul(want, ra)
        want = {m: sympy.expand(c) for m, c in want.items()}
    v, rv = ctx.vec(ga, 'v')
    want = {0: S.One}
    for k in range(n + 3):
        ctx.claim_eq(v ** k, want, 'v**%d' % k)
        want = al.mul(want, rv)
        want = {m: sympy.expand(c) for m, c in want.items()}
    for bad in (S.Half, 1.5, 'x', sympy.Symbol('n')):
        ctx.claim_raises(ValueError, lambda: A ** bad, 'non-integer power raises')
    ctx.claim_eq(A, ra, 'A unchanged')


def negpow(ctx, alg):
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    v, rv = ctx.vec(ga, 'v')
    for k in (1, 2, 3):
        ctx.claim_eq(v ** -k * v ** k, {0: 1}, 'v**-k * v**k')
        ctx.claim_eq(v ** k * v ** -k, {0: 1}, 'v**k * v**-k')


def equality(ctx, alg, blades=None):
    """A == B exactly when all coefficients agree, for arbitrary numbers"""
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', blades=blades)
    B, rb = ctx.mv(ga, 'b', blades=blades)
    d = [sympy.expand(x - y) for x, y in ref.pairs(ra, rb)]
    r = A == B
    ctx.claim_iff_zero(bool(r), d, 'A == B')
    ctx.claim((A != B) == (not r), 'A != B')
    ctx.claim(A == A, 'A == A')
    k = ctx.real('k')
    r = A == k
    ctx.claim_iff_zero(bool(r), [c - (k if m == 0 else 0) for m, c in {0: S.Zero, **ra}.items()], 'A == scalar')
    ctx.claim_eq(A, ra, 'A unchanged')


def equality_sym(ctx, alg):
    """formal equality: expressions equal for all values compare equal however they were written"""
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    k = ctx.real('k')
    for name, X, Y in [('sum', A + B, B + A), ('distributed', k * (A + B), k * A + k * B), ('factored', ctx.make(ga, A.obj * (k + 1) ** 2), A * (k ** 2 + 2 * k + 1)),
                       ('trig', A * sympy.cos(k) ** 2 + A * sympy.sin(k) ** 2, A), ('product', (A * B) * k, A * (k * B)),
                       ('ratio', A * ((k ** 2 - 1) / (k - 1)), A * (k + 1)), ('reverse', (A * B).rev(), B.rev() * A.rev())]:
        ctx.claim(X == Y, name)
        ctx.claim(Y == X, name + ' swapped')
        ctx.claim(not (X != Y), name + ' !=')
    for m, i, b in ref.blade_items(ga):
        ctx.claim(not (A == A + ctx.make(ga, b)), 'differs in one blade')
        ctx.claim(A != A + ctx.make(ga, k * b), 'differs in one symbolic coefficient')
        ctx.claim(not (ctx.make(ga, k * b) == ctx.make(ga, 2 * k * b)), 'multiple differs')
        if m:
            ctx.claim(not (ctx.make(ga, b) == 1), 'blade is not 1')
            ctx.claim(not (ctx.make(ga, k * b) == k), 'k*blade is not k')
            ctx.claim(not (ctx.make(ga, b) == 0), 'blade is not 0')
    s = ga.mv(k)
    ctx.claim(s == k and not (s != k), 'scalar equals its expression')
    ctx.claim(ga.mv(3) == 3 and 3 == ga.mv(3) and not (ga.mv(3) == 4), 'number')
    ctx.claim(ga.mv(0) == 0 and (A - A) == 0, 'zero')
    ctx.claim(ga.mv((k + 1) ** 2) == k ** 2 + 2 * k + 1, 'unexpanded scalar')
    ctx.claim(not (s == k + 1) and not (s == 'k') and not (s == None), 'different scalar')    # noqa: E711
    ctx.claim(hash(s) == hash(k), 'hash of a scalar')
    ctx.claim(hash(A) == hash(ctx.make(ga, A.obj)) and hash(A + B) == hash(B + A), 'hash of equal values')
    ctx.claim(len({A, ctx.make(ga, A.obj), A + 0, 1 * A}) == 1, 'set of equal values')


METHODS = {
    'dual': lambda M, A, B: (A.dual(), M.dual(A)), 'undual': lambda M, A, B: (A.undual(), M.undual(A)), 'even': lambda M, A, B: (A.even(), M.even(A)),
    'odd': lambda M, A, B: (A.odd(), M.odd(A)), 'g_invol': lambda M, A, B: (A.g_invol(), M.g_invol(A)), 'rev': lambda M, A, B: (A.rev(), M.rev(A)),
    'ccon': lambda M, A, B: (A.ccon(), M.ccon(A)), 'scalar': lambda M, A, B: (A.scalar(), M.scalar(A)), 'grade': lambda M, A, B: (A.grade(1), M.grade(A, 1)),
    'grade2': lambda M, A, B: (A.grade(2), M.grade(A, 2)), 'sp': lambda M, A, B: (A.sp(B), M.sp(A, B)), 'sprev': lambda M, A, B: (A.sp(B, 'rev'), M.sp(A, B, 'rev')),
    'qform': lambda M, A, B: (A.qform(), M.qform(A)), 'norm2': lambda M, A, B: (A.norm2(), M.norm2(A)), 'norm2+': lambda M, A, B: (A.norm2('+'), M.norm2(A, '+')),
    'norm2-': lambda M, A, B: (A.norm2('-'), M.norm2(A, '-')), 'mag2': lambda M, A, B: (A.mag2(), M.mag2(A)),
    'hitzer': lambda M, A, B: (A.hitzer_inverse(), M.hitzer_inverse(A)), 'shirokov': lambda M, A, B: (A.shirokov_inverse(), M.shirokov_inverse(A)),
}
VMETHODS = {
    'inv': lambda M, A, B: (A.inv(), M.inv(A)), 'proj': lambda M, A, B: (B.project_in_blade(A), M.proj(A, B)),
    'refl': lambda M, A, B: (B.reflect_in_blade(A), M.refl(A, B)), 'norm': lambda M, A, B: (A.norm(), M.norm(A)), 'mag': lambda M, A, B: (A.mag(), M.mag(A)),
    'norm+': lambda M, A, B: (A.norm('+'), M.norm(A, '+')), 'norm-': lambda M, A, B: (A.norm('-'), M.norm(A, '-')), 'abs': lambda M, A, B: (A.norm(), abs(A)),
}


def modfun(ctx, alg, op, vec=False):
    import galgebra.mv as M
    ga = algs.make(ctx, alg)
    A, ra = ctx.mv(ga, 'a', grades=(1,) if vec else None)
    B, rb = ctx.mv(ga, 'b')
    x, y = (VMETHODS if vec else METHODS)[op](M, A, B)
    ctx.claim_same(x if hasattr(x, 'Ga') else {0: x}, y if hasattr(y, 'Ga') else {0: y}, op) if hasattr(x, 'Ga') else ctx.claim_zero(x - y, op)
    ctx.claim_eq(A, ra, 'A unchanged by ' + op)
    ctx.claim_eq(B, rb, 'B unchanged by ' + op)


def modfun_more(ctx, alg):
    import galgebra.mv as M
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a')
    B, rb = ctx.mv(ga, 'b')
    k = ctx.real('k')
    ctx.claim_zero(M.exp(k) - sympy.exp(k), 'exp of a scalar expression')
    for op, f in (('*', al.mul), ('^', lambda a, b: ref.wedge(a, b)), ('|', al.dot), ('<', al.lc), ('>', al.rc)):
        ctx.claim_eq(M.Mv.Mul(A, B, op), f(ra, rb), 'Mv.Mul ' + op)
        ctx.claim_eq(M.Mv.Mul(A, k, op), f(ra, {0: k}), 'Mv.Mul by scalar ' + op)
        ctx.claim_eq(M.Mv.Mul(k, A, op), f({0: k}, ra), 'Mv.Mul scalar by ' + op)
    ctx.claim_raises(ValueError, lambda: M.Mv.Mul(A, B, '+'), 'Mv.Mul unknown operation')
    ctx.claim_eq(ga.com(A, B), al.comm(ra, rb), 'com')
    for f in (M.dual, M.undual, M.even, M.odd, M.g_invol, M.grade, M.inv, M.shirokov_inverse, M.hitzer_inverse, M.rev, M.ccon, M.scalar):
        ctx.claim_raises(ValueError, lambda: f(k), f.__name__ + ' of a non-multivector')
    for f in (M.qform, M.norm2, M.norm, M.mag2, M.mag):
        ctx.claim_raises(TypeError, lambda: f(k), f.__name__ + ' of a non-multivector')
    for f in (M.proj, M.rot, M.refl):
        ctx.claim_raises(ValueError, lambda: f(A, k), f.__name__ + ' of a non-multivector')
    ctx.claim_raises(ValueError, lambda: M.sp(k, A), 'sp of a non-multivector')
    ctx.claim_raises(ValueError, lambda: M.sp(A, k), 'sp with a non-multivector')
    ctx.claim_raises(ValueError, lambda: A.sp(B, 'x'), 'sp with an unknown switch')
    if ga.n == 3:
        v, rv = ctx.vec(ga, 'v')
        w, rw = ctx.vec(ga, 'w')
        c = M.cross(v, w)
        e = {1: ctx.real('va') * 0 + rv[2] * rw[4] - rv[4] * rw[2], 2: rv[4] * rw[1] - rv[1] * rw[4], 4: rv[1] * rw[2] - rv[2] * rw[1]}
        if alg == 'E3':
            ctx.claim_eq(c, e, 'cross product')
        ctx.claim_raises(ValueError, lambda: M.cross(A, v), 'cross of a non-vector')


OPS = {
    '*': lambda A, B: A * B, '^': lambda A, B: A ^ B, '|': lambda A, B: A | B, '<': lambda A, B: A < B, '>': lambda A, B: A > B, '+': lambda A, B: A + B,
    '-': lambda A, B: A - B, '>>': lambda A, B: A >> B, '<<': lambda A, B: A << B, 'sp': lambda A, B: A.sp(B), '/': lambda A, B: A / B,
    'project': lambda A, B: A.project_in_blade(B), 'reflect': lambda A, B: A.reflect_in_blade(B), 'rotate': lambda A, B: A.rotate_multivector(B),
    '==': lambda A, B: A == B, 'com': lambda A, B: A.Ga.com(A, B), 'Mul': lambda A, B: type(A).Mul(A, B, '*'),
}


def mixing(ctx, alg, alg2, same_names):
    ga = algs.make(ctx, alg)
    hb = algs.make(ctx, alg2, **({} if same_names else dict(basis='f*' + '|'.join(str(i + 1) for i in range(algs.metric(ctx, alg2).shape[0])))))
    for gr in ((1,), None):
        A, ra = ctx.mv(ga, 'a', grades=gr)
        B, rb = ctx.mv(hb, 'b', grades=gr)
        for op, f in OPS.items():
            if gr is None and op in ('/', 'rotate', 'project', 'reflect'):
                continue
            if op in ('==',):
                try:
                    ctx.claim(not f(A, B), '== between algebras')
                except ValueError:
                    ctx.claim(True, '== between algebras raises')
                continue
            ctx.claim_raises(ValueError, lambda: f(A, B), 'mixing algebras, ' + op)
        ctx.claim_raises(ValueError, lambda: ga.mv(2) * B, 'mixing algebras, scalar multivector')
        ctx.claim_raises(ValueError, lambda: A + hb.mv(2), 'mixing algebras, adding a scalar multivector')


UNARY = {
    'rev': lambda A: A.rev(), 'g_invol': lambda A: A.g_invol(), 'ccon': lambda A: A.ccon(), 'even': lambda A: A.even(), 'odd': lambda A: A.odd(),
    'grade': lambda A: A.grade(1), 'neg': lambda A: -A, 'pow': lambda A: A ** 3, 'blade_rep': lambda A: A.blade_rep(), 'base_rep': lambda A: A.base_rep(),
    'characterise': lambda A: A.characterise_Mv(), 'is_blade': lambda A: A.is_blade(), 'is_versor': lambda A: A.is_versor(), 'is_scalar': lambda A: A.is_scalar(),
    'pure_grade': lambda A: A.pure_grade(), 'scalar': lambda A: A.scalar(), 'components': lambda A: A.components(), 'blade_coefs': lambda A: A.blade_coefs(),
    'dual': lambda A: A.dual(), 'undual': lambda A: A.undual(), 'str': lambda A: str(A), 'Fmt': lambda A: str(A.Fmt(2, 'A')), 'Fmt3': lambda A: str(A.Fmt(3)),
    'hash': lambda A: hash(A), 'simplify': lambda A: A.simplify(), 'expand': lambda A: A.expand(), 'collect': lambda A: A.collect(), 'trigsimp': lambda A: A.trigsimp(),
    'subs': lambda A: A.subs(sympy.Symbol('q'), 2), 'qform': lambda A: A.qform(), 'norm2': lambda A: A.norm2(), 'mag2': lambda A: A.mag2(), 'list': lambda A: A.list(),
    'hitzer': lambda A: A.hitzer_inverse(), 'shirokov': lambda A: A.shirokov_inverse(), 'decomposition': lambda A: A.Ga.grade_decomposition(A),
    'proj': lambda A: A.proj(A.Ga.mv_blades[1]), 'copy': lambda A: A.Ga.mv(A) * 2, 'func': lambda A: A.func(lambda c: c + 1),
    'latex': lambda A: A._repr_latex_(),
}


def nomutation(ctx, alg, grades=None):
    """no operation changes its operands, whichever were applied before"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', grades=grades)
    B, rb = ctx.mv(ga, 'b')
    for rep in (0, 1):
        X = A.base_rep() if rep else A
        for op, f in UNARY.items():
            before = X.is_blade_rep
            f(X)
            ctx.claim_eq(X, ra, 'operand unchanged by ' + op)
            ctx.claim(X.is_blade_rep == before, 'representation flag unchanged by ' + op)
        for op in ('*', '^', '|', '<', '>', '+', '-', '>>', '<<', 'sp', '=='):
            OPS[op](X, B)
            ctx.claim_eq(X, ra, 'left operand unchanged by ' + op)
            ctx.claim_eq(B, rb, 'right operand unchanged by ' + op)
            OPS[op](B, X)
            ctx.claim_eq(X, ra, 'right operand unchanged by ' + op)
            ctx.claim_eq(B, rb, 'left operand unchanged by ' + op)
        ctx.claim_eq(X * B, al.mul(ra, rb), 'product after all operations')


def num_ops(ctx, alg, blades, blades2):
    """operators when coefficients are arbitrary numbers, zero included"""
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    A, ra = ctx.mv(ga, 'a', blades=blades)
    B, rb = ctx.mv(ga, 'b', blades=blades2)
    A, B = A.expand(), B.expand()
    ctx.claim_eq(A + B, ref.add(ra, rb), '+')
    ctx.claim_eq(A - B, ref.sub(ra, rb), '-')
    ctx.claim_eq(A * B, al.mul(ra, rb), '*')
    ctx.claim_eq(A ^ B, ref.wedge(ra, rb), '^')
    ctx.claim_eq(A | B, al.dot(ra, rb), '|')
    ctx.claim_eq(A < B, al.lc(ra, rb), '<')
    ctx.claim_eq(A > B, al.rc(ra, rb), '>')
    ctx.claim_eq(A ** 2, al.mul(ra, ra), '**2')
    ctx.claim_eq(A.rev(), ref.rev(ra), 'rev')


def tasks(tier):
    T = []
    for a in ['E1', 'S2', 'M3', 'S3', 'D3', 'G2', 'NX3', 'NL3', 'STA', 'CGA2']:
        T.append(Task('arith-' + a, arith, params=dict(alg=a), weight=4))
    for a, n in [('E1', 5), ('S2', 5), ('G2', 4), ('S3', 3), ('NX3', 4), ('D3', 4), ('STA', 3), ('CGA1', 4)]:
        T.append(Task('powers-' + a, powers, params=dict(alg=a, n=n), weight=5))
    for a in ['S2', 'G2', 'M3', 'NX3', 'STA']:
        T.append(Task('negpow-' + a, negpow, params=dict(alg=a), weight=2))
    for a, b in [('E1', None), ('E2', None), ('NM2', [(), (0,), (0, 1)]), ('D2', [(0,), (1,)]), ('E3', [(), (1,), (0, 2)]), ('STA', [(3,), (0, 1, 2, 3)])]:
        T.append(Task('equality-' + a, equality, 'num', params=dict(alg=a, blades=b), weight=4, max_paths=1500))
    for a in ['S2', 'G2', 'NX3', 'E3', 'D3', 'STA']:
        T.append(Task('equality-sym-' + a, equality_sym, params=dict(alg=a), weight=4))
    for a in ['M2', 'G2', 'E3', 'NX3']:
        for op in METHODS:
            if a == 'NX3' and op in ('shirokov', 'hitzer'):
                continue
            T.append(Task('modfun-%s-%s' % (a, op), modfun, params=dict(alg=a, op=op), weight=2))
        for op in VMETHODS:
            T.append(Task('modfun-%s-v%s' % (a, op), modfun, params=dict(alg=a, op=op, vec=True), weight=2))
        T.append(Task('modfun-more-' + a, modfun_more, params=dict(alg=a), weight=2))
    for a, b, s in [('E2', 'E2', True), ('E2', 'M2', True), ('E2', 'E2', False), ('E3', 'E2', False), ('NX3', 'NX3', True), ('S2', 'G2', True), ('E3', 'E2', True)]:
        T.append(Task('mixing-%s-%s-%d' % (a, b, s), mixing, params=dict(alg=a, alg2=b, same_names=s), weight=2))
    for a, g in [('E2', None), ('G2', None), ('M3', None), ('NX3', None), ('NX3', [1]), ('E3', [1, 3]), ('STA', [2])]:
        T.append(Task('nomutation-%s%s' % (a, '' if g is None else '-' + ''.join(map(str, g))), nomutation, params=dict(alg=a, grades=g), weight=6))
    for a, b, c in [('E2', [(), (0,), (0, 1)], [(0,), (1,)]), ('NM2', [(0,), (1,)], [(), (0,), (0, 1)]), ('ND2', [(), (0, 1)], [(1,), (0, 1)]),
                    ('NX3', [(0, 1), (2,)], [(), (1, 2)]), ('D3', [(0,), (1, 2)], [(), (0, 1)])]:
        T.append(Task('num-ops-' + a, num_ops, 'num', params=dict(alg=a, blades=b, blades2=c), weight=4))
    if tier == 'thorough':
        for a, n in [('S3', 5), ('G3', 3), ('STA', 5), ('G2', 7)]:
            T.append(Task('powers-%s-%d' % (a, n), powers, params=dict(alg=a, n=n), weight=9, timeout=3000))
        for a in ['G3', 'M41', 'S4']:
            T.append(Task('arith-' + a, arith, params=dict(alg=a), weight=9, timeout=3000))
        for a in ['G3', 'STA', 'CGA2']:
            T.append(Task('nomutation-' + a, nomutation, params=dict(alg=a), weight=9, timeout=3000))
        T.append(Task('equality-NX3', equality, 'num', params=dict(alg='NX3', blades=[(), (0,), (1,), (0, 1), (0, 1, 2)]), weight=9, timeout=3000, max_paths=5000))
    return T
