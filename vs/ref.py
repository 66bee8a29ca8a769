"""Reference Clifford algebra of an arbitrary symmetric bilinear form (independent of galgebra).

A multivector is {bitmask: coefficient}; bit i stands for basis vector i; a mask denotes the wedge of its vectors in
increasing order.  Coefficients are any sympy expressions.
  e_i B = e_i ^ B + e_i _| B,      (e_i ^ A) B = e_i (A B) - (e_i _| A) B
"""
import sympy
from sympy import S


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r[m] + k * c if m in r else k * c
    return r


def sub(a, b):
    return add(a, b, -1)


def pairs(a, b):
    return [(S(a.get(m, 0)), S(b.get(m, 0))) for m in sorted(set(a) | set(b))]


def scale(k, a):
    return {m: k * c for m, c in a.items()}


def clean(a):
    return {m: c for m, c in a.items() if c != 0}


def gr(m):
    return bin(m).count('1')


def grade(a, *rs):
    return {m: c for m, c in a.items() if gr(m) in rs}


def wedge_sign(a, b):
    """sign of blade a ^ blade b, 0 when they share a vector"""
    if a & b:
        return 0
    n, a = 0, a >> 1
    while a:
        n += bin(a & b).count('1')
        a >>= 1
    return -1 if n & 1 else 1


def wedge(a, b):
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            s = wedge_sign(ma, mb)
            if s:
                r[ma | mb] = r.get(ma | mb, 0) + s * ca * cb
    return r


def rev(a):
    return {m: c * (-1) ** (gr(m) * (gr(m) - 1) // 2) for m, c in a.items()}


def invol(a):
    return {m: c * (-1) ** gr(m) for m, c in a.items()}


def conj(a):
    return rev(invol(a))


class Alg:
    def __init__(self, g):
        self.g = sympy.Matrix(g)
        self.n = self.g.shape[0]
        self.tab = {}
        self.full = (1 << self.n) - 1

    def lc_vec(self, i, m):
        """e_i left contracted into blade m"""
        r, s = {}, 1
        for j in range(self.n):
            if m >> j & 1:
                c = self.g[i, j]
                if c != 0:
                    r[m & ~(1 << j)] = r.get(m & ~(1 << j), 0) + s * c
                s = -s
        return r

    def vec_mul(self, i, b):
        r = {}
        for m, c in b.items():
            s = wedge_sign(1 << i, m)
            if s:
                r[m | 1 << i] = r.get(m | 1 << i, 0) + s * c
            for k, x in self.lc_vec(i, m).items():
                r[k] = r.get(k, 0) + x * c
        return clean({m: sympy.expand(c) for m, c in r.items()})

    def bb(self, a, b):
        """geometric product of blade masks"""
        key = (a, b)
        if key not in self.tab:
            if a == 0:
                r = {b: S.One}
            else:
                i = (a & -a).bit_length() - 1
                rest = a & (a - 1)
                r = self.vec_mul(i, self.bb(rest, b))
                for m, c in self.lc_vec(i, rest).items():
                    r = sub(r, scale(c, self.bb(m, b)))
                r = clean({m: sympy.expand(c) for m, c in r.items()})
            self.tab[key] = r
        return self.tab[key]

    def mul(self, a, b, *more):
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                c = ca * cb
                for m, x in self.bb(ma, mb).items():
                    r[m] = r.get(m, 0) + x * c
        return self.mul(r, *more) if more else r

    def sel(self, a, b, rule):
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                k = rule(gr(ma), gr(mb))
                if k is None or k < 0:
                    continue
                c = ca * cb
                for m, x in self.bb(ma, mb).items():
                    if gr(m) == k:
                        r[m] = r.get(m, 0) + x * c
        return r

    def lc(self, a, b):
        return self.sel(a, b, lambda r, s: s - r)

    def rc(self, a, b):
        return self.sel(a, b, lambda r, s: r - s)

    def dot(self, a, b):
        return self.sel(a, b, lambda r, s: abs(r - s) if r and s else None)

    def sp(self, a, b):
        return self.sel(a, b, lambda r, s: 0)

    def comm(self, a, b):
        return scale(S.Half, sub(self.mul(a, b), self.mul(b, a)))

    def acomm(self, a, b):
        return scale(S.Half, add(self.mul(a, b), self.mul(b, a)))

    def vec(self, cs):
        return clean({1 << i: c for i, c in enumerate(cs)})

    def pow(self, a, n):
        r = {0: S.One}
        for _ in range(n):
            r = self.mul(r, a)
        return r


# ---- reading galgebra objects -------------------------------------------------------------------------------

def blade_items(ga):
    """[(mask, index tuple, sympy blade)] by looking at the vectors a blade symbol is made of"""
    out = []
    pos = {b: i for i, b in enumerate(ga.basis)}
    for b in ga.blades.flat:
        if b == S.One:
            idx = ()
        elif b in pos:
            idx = (pos[b],)
        else:
            idx = tuple(pos[x] for x in b.args)
        out.append((sum(1 << i for i in idx), idx, b))
    return out


_algs = {}


def alg_of(A):
    ga = getattr(A, 'Ga', None)
    return None if ga is None else alg(ga)


def alg(ga):
    key = id(ga)
    if key not in _algs or _algs[key][0] is not ga:
        _algs[key] = (ga, Alg(ga.g))
    return _algs[key][1]


class Malformed(Exception):
    '''the library returned something that is not a sum of coefficient times product of basis vectors of its algebra'''


def of_obj(obj, ga, al=None):
    try:
        return _of_obj(obj, ga, al)
    except (KeyError, ValueError) as e:
        raise Malformed('%s: %s' % (type(e).__name__, str(e)[:200]))


def _of_obj(obj, ga, al=None):
    al = al or alg(ga)
    pos = {b: i for i, b in enumerate(ga.basis)}
    obj = sympy.expand(S(obj))
    out = {}
    for t in sympy.Add.make_args(obj):
        c, nc = t.args_cnc()
        coef = sympy.Mul(*c)
        if not nc:
            out[0] = out.get(0, 0) + coef
            continue
        val = {0: S.One}
        for x in nc:
            k = 1
            if x.is_Pow and x.exp.is_Integer and x.exp > 0:
                x, k = x.base, int(x.exp)
            if x in pos:
                v = {1 << pos[x]: S.One}
            elif type(x).__name__.startswith('BasisBlade'):
                v = {0: S.One}
                for y in x.args:
                    v = wedge(v, {1 << pos[y]: S.One})
            elif type(x).__name__.startswith('BasisBase'):
                v = {0: S.One}
                for y in x.args:
                    v = al.mul(v, {1 << pos[y]: S.One})
            else:
                raise ValueError('not a basis symbol of this algebra: %r' % (x,))
            for _ in range(k):
                val = al.mul(val, v) if (len(nc) > 1 or k > 1) else v
        for m, x in val.items():
            out[m] = out.get(m, 0) + coef * x
    return out


def of_mv(A, al=None):
    """reference value of a galgebra multivector or scalar expression"""
    if isinstance(A, dict):
        return A
    ga = getattr(A, 'Ga', None)
    if ga is None:
        return {0: S(A)}
    return of_obj(A.obj, ga, al)
