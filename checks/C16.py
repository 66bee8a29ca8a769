"""C16: multilinear functions: evaluation, arithmetic, contraction, derivatives."""
import itertools
import sympy
from sympy import S
from vs import algs, ref
from vs.runner import Task
from checks.C13 import Geo
from checks.C12 import undet
from checks.C15 import Coords

BOUNDS = ('multilinear functions of rank 1-4 built from names (constant or field), vectors, linear transformations, component expressions, scalar, vector and multivector valued functions, after any of several histories of other '
          'ranks in the same algebra; arguments with arbitrary coefficients; dimension 1-3, orthogonal, oblique, symbolic and degenerate metrics; contraction and slot derivatives of ranks 1-4; '
          'covariant derivatives in Cartesian, oblique and curvilinear coordinates')
ASSUMPTIONS = ['argument vectors are not written with the library internal slot symbols a_1__x, ...', 'contraction, slot and covariant derivatives: scalar valued, metric not degenerate',
               'oblique curvilinear coordinates with normalised basis are left out']


def ev(comps, args):
    """reference value at vectors (refs)"""
    out = {}
    for idx, c in comps.items():
        k = S.One
        for i, a in zip(idx, args):
            k = k * a.get(1 << i, 0)
        if k != 0:
            out = ref.add(out, c, k)
    return out


def rank(comps):
    return len(next(iter(comps)))


def make(ctx, C, kind, name):
    """(Mlt, {index tuple: reference value})"""
    from galgebra.lt import Mlt
    ga, al, n = C.ga, C.al, C.n
    e = ga.mv()
    E = [{1 << i: S.One} for i in range(n)]
    if kind.startswith('str') or kind.startswith('fct') or kind.startswith('expr'):
        r = int(kind[-1])
        T = Mlt(name, ga, nargs=r, fct=kind.startswith('fct'))
        comps = {}
        for idx in itertools.product(range(n), repeat=r):
            v = T(*[e[i] for i in idx])
            ctx.claim((v.is_Symbol and v.is_real if not kind.startswith('fct') else isinstance(v, sympy.core.function.AppliedUndef) and v.args == tuple(ga.coords)), 'component of a named tensor is a symbol (function)')
            comps[idx] = {0: v}
        ctx.claim(len({c[0] for c in comps.values()}) == n ** r, 'components of a named tensor are independent')
        if kind.startswith('expr'):
            T = Mlt(T.fvalue, ga, nargs=r)
        return T, comps
    if kind == 'vec':
        v, w = ctx.vec(ga, name)
        return Mlt(v, ga), {(i,): ref.grade(al.dot(w, E[i]), 0) for i in range(n)}
    if kind == 'lt':
        M = sympy.Matrix(n, n, lambda i, j: ctx.real('%s%d%d' % (name, i, j)))
        return Mlt(ga.lt(M), ga), {(i, j): al.dot(E[i], {1 << k: M[k, j] for k in range(n)}) for i in range(n) for j in range(n)}
    if kind == 'fun1':
        v, w = ctx.vec(ga, name)
        return Mlt(lambda p: 3 * (p | v), ga), {(i,): ref.scale(3, al.dot(E[i], w)) for i in range(n)}
    if kind == 'fun2':
        A, a = ctx.mv(ga, name, grades=(2,) if n > 1 else (0,))
        k = ctx.real(name + 'k')
        return Mlt(lambda p, q: (A < (p ^ q)) * k + (p | q), ga), {(i, j): ref.add(ref.scale(k, al.lc(a, ref.wedge(E[i], E[j]))), al.dot(E[i], E[j])) for i in range(n) for j in range(n)}
    if kind == 'fun3':
        v, w = ctx.vec(ga, name)
        return Mlt(lambda p, q, r: (p | v) * (q | r) - (r | v) * (p | q), ga), {(i, j, k): ref.sub(al.mul(al.dot(E[i], w), al.dot(E[j], E[k])), al.mul(al.dot(E[k], w), al.dot(E[i], E[j]))) for i in range(n) for j in range(n) for k in range(n)}
    if kind == 'vecval':
        A, a = ctx.mv(ga, name, grades=(2,) if n > 1 else (0,))
        k = ctx.real(name + 'k')
        return Mlt(lambda p: (p < A) + k * p, ga), {(i,): ref.add(al.lc(E[i], a), E[i], k) for i in range(n)}
    if kind == 'vecval2':
        v, w = ctx.vec(ga, name)
        return Mlt(lambda p, q: (p | v) * q - (p | q) * v, ga), {(i, j): ref.sub(al.mul(al.dot(E[i], w), E[j]), al.mul(al.dot(E[i], E[j]), w)) for i in range(n) for j in range(n)}
    if kind == 'mvval':
        A, a = ctx.mv(ga, name, grades=(0, 1))
        return Mlt(lambda p, q: p * A * q, ga), {(i, j): al.mul(E[i], a, E[j]) for i in range(n) for j in range(n)}
    raise KeyError(kind)


def vecs(ctx, C, r, names='abcdfh'):
    vs = [ctx.vec(C.ga, names[i]) for i in range(r)]
    return [v for v, _ in vs], [w for _, w in vs]


def eq(ctx, C, A, r, label):
    ctx.claim_all_zero([(undet(C.ga.g, x), y) for x, y in ref.pairs(ref.of_obj(getattr(A, 'obj', A), C.ga, C.al), r)], label)


def history(ctx, C, pre):
    from galgebra.lt import Mlt
    for k, r in enumerate(pre):
        Mlt('H%d' % k, C.ga, nargs=r)


def evaluate(ctx, alg, kind, pre=(), post=()):
    C = Coords(ctx, alg)
    ga, n = C.ga, C.n
    history(ctx, C, pre)
    T, comps = make(ctx, C, kind, 'T')
    r = rank(comps)
    ctx.claim(T.nargs == r, 'number of arguments')
    history(ctx, C, post)
    vs, ws = vecs(ctx, C, r)
    eq(ctx, C, T(*vs), ev(comps, ws), 'value')
    for idx, c in comps.items():
        eq(ctx, C, T(*[ga.mv()[i] for i in idx]), c, 'value on basis vectors')
    k = ctx.real('k')
    w, wr = ctx.vec(ga, 'w')
    for s in range(r):
        args, refs = list(vs), list(ws)
        args[s], refs[s] = k * vs[s] - w, ref.sub(ref.scale(k, ws[s]), wr)
        eq(ctx, C, T(*args), ev(comps, refs), 'linear in an argument')
    if r > 1:
        eq(ctx, C, T(*[vs[0]] * r), ev(comps, [ws[0]] * r), 'same vector in all slots')
        eq(ctx, C, T(*reversed(vs)), ev(comps, ws[::-1]), 'arguments exchanged')
    slots = ga._mlt_a[:r]
    eq(ctx, C, T(), ev(comps, [ref.of_mv(a, C.al) for a in slots]), 'value in the slot variables')
    for v, x in zip(vs, ws):
        eq(ctx, C, v, x, 'argument unchanged')
    T.expand()
    eq(ctx, C, T(*vs), ev(comps, ws), 'value after expand()')
    if all(set(c) <= {0} for c in comps.values()) and not kind.startswith('fct'):
        want = list(itertools.product(range(n), repeat=r))
        lines = [x for x in T.comps().split('\n') if x]
        ctx.claim(len(lines) == len(want), 'comps: one line per component')
        for t, (line, idx) in enumerate(zip(lines, want)):
            a, b, c = line.split(':', 2)
            ctx.claim(int(a) == t and tuple(int(x) for x in b.strip('()').split(',') if x.strip()) == idx, 'comps: order')
            syms = {str(x): x for c_ in comps.values() for x in S(c_.get(0, 0)).free_symbols}
            syms.update({str(x): x for x in T.fvalue.free_symbols} if hasattr(T.fvalue, 'free_symbols') else {})
            ctx.claim_zero(sympy.sympify(c, locals=syms) - comps[idx].get(0, 0), 'comps: value of the component')


def outer_comps(C, op, a, b):
    f = {'*': C.al.mul, '^': ref.wedge, '|': C.al.dot}[op]
    return {i + j: f(x, y) for i, x in a.items() for j, y in b.items()}


def arith(ctx, alg, k1, k2, pre=()):
    C = Coords(ctx, alg)
    ga = C.ga
    history(ctx, C, pre)
    T, t = make(ctx, C, k1, 'T')
    U, u = make(ctx, C, k2, 'U')
    k = ctx.real('k')
    res = [('T*k', lambda: T * k, {i: ref.scale(k, x) for i, x in t.items()}), ('T*2', lambda: T * 2, {i: ref.scale(2, x) for i, x in t.items()}),
           ('T*U', lambda: T * U, outer_comps(C, '*', t, u)), ('T^U', lambda: T ^ U, outer_comps(C, '^', t, u)), ('T|U', lambda: T | U, outer_comps(C, '|', t, u)), ('U*T', lambda: U * T, outer_comps(C, '*', u, t))]
    if rank(t) == rank(u):
        add = {i: ref.add(t[i], u[i]) for i in t}
        sub = {i: ref.sub(t[i], u[i]) for i in t}
        res += [('T+U', lambda: T + U, add), ('T-U', lambda: T - U, sub), ('U-T', lambda: U - T, {i: ref.scale(-1, x) for i, x in sub.items()}), ('(T+U)*k - T', lambda: (T + U) * k - T, {i: ref.sub(ref.scale(k, add[i]), t[i]) for i in t}),
                ('T-T', lambda: T - T, {i: {} for i in t})]
        if rank(t) == 1:
            res += [('(T-U)*T', lambda: (T - U) * T, outer_comps(C, '*', sub, t)), ('(T+U)^U', lambda: (T + U) ^ U, outer_comps(C, '^', add, u))]
    else:
        ctx.claim_raises(ValueError, lambda: T + U, 'sum of different ranks')
        ctx.claim_raises(ValueError, lambda: T - U, 'difference of different ranks')
    ctx.claim_raises(TypeError, lambda: T + 1, 'sum with a number')
    ctx.claim_raises(TypeError, lambda: T - 1, 'difference with a number')
    for name, f, comps in res:
        X = f()
        r = rank(comps)
        ctx.claim(X.nargs == r, 'number of arguments of ' + name)
        vs, ws = vecs(ctx, C, r)
        eq(ctx, C, X(*vs), ev(comps, ws), 'value of ' + name)
    for X, x in ((T, t), (U, u)):
        vs, ws = vecs(ctx, C, rank(x))
        eq(ctx, C, X(*vs), ev(x, ws), 'operand unchanged')


def contract(ctx, alg, kind, pre=(), **kw):
    C = Coords(ctx, alg, **kw)
    ga, al, n = C.ga, C.al, C.n
    history(ctx, C, pre)
    T, t = make(ctx, C, kind, 'T')
    r = rank(t)
    gi = ga.g.adjugate() / ga.g.det() if n > 1 else sympy.Matrix([[1 / ga.g[0, 0]]])
    vs, ws = vecs(ctx, C, r)
    for i in range(r):
        want = {}
        for l in range(n):
            for m in range(n):
                x = ev(t, ws[:i] + [{1 << l: S.One}] + ws[i + 1:]).get(0, 0)
                want[1 << m] = want.get(1 << m, 0) + gi[m, l] * x
        P = T.pdiff(i + 1)
        got = ref.of_mv(P, al)
        sl = {}
        for a, w in zip(ga._mlt_a[:r], ws):
            for c, (m, _) in zip(a.get_coefs(1), [(1 << q, 0) for q in range(n)]):
                sl[c] = w.get(m, S.Zero)
        ctx.claim_all_zero([(undet(ga.g, S(a).xreplace(sl)), b) for a, b in ref.pairs(got, want)], 'slot derivative')
    for i, j in itertools.permutations(range(r), 2):
        p, q = min(i, j), max(i, j)
        comps = {}
        for idx in itertools.product(range(n), repeat=r - 2):
            s = S.Zero
            for l in range(n):
                for m in range(n):
                    full = list(idx)
                    full.insert(p, l)
                    full.insert(q, m)
                    s += gi[l, m] * t[tuple(full)].get(0, 0)
            comps[idx] = {0: s}
        X = T.contract(i + 1, j + 1)
        ctx.claim(X.nargs == r - 2, 'rank of a contraction')
        us, uw = vecs(ctx, C, r - 2, 'pqrs')
        eq(ctx, C, X(*us) if us else X(), ev(comps, uw), 'contraction')
    eq(ctx, C, T(*vs), ev(t, ws), 'tensor unchanged')


def derivative(ctx, space, kind, pre=()):
    """dd (derivative of the components) and cderiv in coordinates"""
    from galgebra.lt import Mlt
    G = Geo(ctx, space)
    ga, n = G.ga, G.n

    class C:
        pass
    C.ga, C.al, C.n = ga, G.al, n
    history(ctx, C, pre)
    if kind == 'vec':
        v, w = G.field(ctx, 'V', (1,))
        T = Mlt(v, ga)
        comps = {(i,): ref.grade(G.al.dot(w, {1 << i: S.One}), 0) for i in range(n)}
    elif kind == 'metric':
        T = Mlt(lambda p, q: p | q, ga)
        comps = {(i, j): {0: G.al.g[i, j]} for i in range(n) for j in range(n)}
    else:
        T, comps = make(ctx, C, kind, 'T')
    r = rank(comps)
    D = T.cderiv()
    ctx.claim(D.nargs == r + 1, 'rank of the covariant derivative')
    vs, ws = vecs(ctx, C, r + 1)
    d = [G.al.dot(ws[r], G.r[i]).get(0, S.Zero) for i in range(n)]       # v . e^i over the coordinates
    want, plain = S.Zero, S.Zero
    for i in range(n):
        dT = {k: {0: sympy.diff(S(c.get(0, 0)), G.u[i])} for k, c in comps.items()}
        plain += d[i] * ev(dT, ws[:r]).get(0, 0)
        want += d[i] * ev(dT, ws[:r]).get(0, 0)
        for s in range(r):
            da = {}
            for j in range(n):
                da = ref.add(da, G.de[i][j] if G.de is not None else {}, ws[s].get(1 << j, 0))
            want -= d[i] * ev(comps, ws[:s] + [da] + ws[s + 1:r]).get(0, 0)
    val = ref.of_obj(getattr(D(*vs), 'obj', D(*vs)), ga, G.al)
    ctx.claim_all_zero([(undet(G.w, val.get(0, 0)), undet(G.w, want))] + [c for m, c in val.items() if m], 'covariant derivative')
    if kind == 'metric':
        ctx.claim_all_zero([undet(G.w, val.get(0, 0))], 'the metric is constant')
    X = T.dd()
    ctx.claim(X.nargs == r + 1, 'rank of dd')
    val = ref.of_obj(getattr(X(*vs), 'obj', X(*vs)), ga, G.al)
    ctx.claim_all_zero([(undet(G.w, val.get(0, 0)), undet(G.w, plain))] + [c for m, c in val.items() if m], 'derivative of the components')
    if r > 1:
        T.contract(1, 2)
    T.pdiff(1)
    F, f = G.field(ctx, 'F', (1,))
    G.eq(ctx, F.diff(G.u[0]), G.pd(f, 0), 'coordinate derivative after contraction')


def tasks(tier):
    T = []
    algs2 = ['E2', 'NE2', 'NX2', 'M2', 'G2', 'NM2', 'D2', 'ND2']
    for a in algs2:
        for k in ['str1', 'str2', 'str3', 'expr1', 'expr2', 'fct1', 'fct2', 'lt', 'fun1', 'fun2', 'fun3', 'vec', 'vecval', 'vecval2', 'mvval']:
            T.append(Task('eval-%s-%s' % (a, k), evaluate, params=dict(alg=a, kind=k)))
            if a in ('E2', 'NX2'):
                for pre, post in [((3,), ()), ((), (3,)), ((2, 1), (4,)), ((4, 1), (2,))]:
                    T.append(Task('eval-%s-%s-%s-%s' % (a, k, pre, post), evaluate, params=dict(alg=a, kind=k, pre=pre, post=post)))
    for a in ['E1', 'L1']:
        for k in ['str1', 'str2', 'str3', 'lt', 'vec', 'fun2', 'mvval']:
            T.append(Task('eval-%s-%s' % (a, k), evaluate, params=dict(alg=a, kind=k, pre=(2,))))
    for a in ['E3', 'NX3', 'M3', 'NL3']:
        for k in ['str1', 'str2', 'str3', 'lt', 'vec', 'fun2', 'vecval', 'vecval2', 'mvval', 'fun3', 'expr2']:
            T.append(Task('eval-%s-%s' % (a, k), evaluate, params=dict(alg=a, kind=k, pre=(1,)), weight=3))
    pairs = [('str1', 'str1'), ('str1', 'str2'), ('str2', 'str2'), ('str2', 'fun2'), ('vec', 'str1'), ('vec', 'vec'), ('lt', 'str2'), ('lt', 'vec'), ('fun1', 'fun1'), ('fun2', 'lt'), ('vecval', 'vecval'), ('vecval', 'str1'), ('vecval', 'fun2'),
             ('vecval2', 'mvval'), ('mvval', 'str2'), ('mvval', 'mvval'), ('fun3', 'str1'), ('str3', 'fun3'), ('expr2', 'fct2'), ('vecval2', 'vecval')]
    for a in ['E2', 'NE2', 'M2', 'G2', 'D2']:
        for k1, k2 in pairs:
            if a == 'G2' and k1 + k2 in ('mvvalmvval', 'vecval2mvval', 'mvvalstr2', 'str3fun3'):
                continue
            T.append(Task('arith-%s-%s-%s' % (a, k1, k2), arith, params=dict(alg=a, k1=k1, k2=k2, pre=(3,) if a == 'NE2' else ()), weight=3))
    for a in ['E3', 'NX3']:
        for k1, k2 in [('str1', 'str2'), ('vec', 'vecval'), ('lt', 'fun2'), ('vecval', 'vecval'), ('str2', 'lt')]:
            T.append(Task('arith-%s-%s-%s' % (a, k1, k2), arith, params=dict(alg=a, k1=k1, k2=k2), weight=5))
    for a in ['E1', 'E2', 'NE2', 'NX2', 'M2', 'G2', 'S2', 'polar', 'skew', 'E3', 'NL3', 'NX3', 'M3']:
        for k in ['str1', 'str2', 'str3', 'lt', 'fun2', 'fun3', 'str4']:
            if k == 'str4' and (a.endswith('3') or a in ('G2',)) or k in ('fun3',) and a in ('G2', 'skew'):
                continue
            T.append(Task('contract-%s-%s' % (a, k), contract, params=dict(alg=a, kind=k, pre=(3,) if a == 'M2' else ()), weight=4))
    for s in ['flat:E2', 'flat:NX2', 'flat:E1', 'named:polar', 'namedn:polar', 'named:shear', 'named:sph', 'namedn:sph', 'full:2', 'diag:2']:
        for k in ['fct1', 'fct2', 'vec', 'metric', 'str2', 'fct3'] if s not in ('named:sph', 'namedn:sph') else ['fct1', 'vec', 'metric']:
            if k == 'fct3' and s not in ('flat:E2', 'named:polar', 'namedn:polar'):
                continue
            T.append(Task('deriv-%s-%s' % (s, k), derivative, params=dict(space=s, kind=k, pre=(2,) if s == 'named:polar' else ()), weight=5))
    return T
