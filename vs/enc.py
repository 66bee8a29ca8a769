"""sympy -> z3 real arithmetic.

An expression is translated to numerator (z3 term) and denominator (multiset of z3 terms); denominators are
constrained nonzero ("wherever the value is defined").  Trigonometric functions of a linear combination of atoms
use rational half-angle parametrisation, hyperbolic/exponential ones a positive variable u = exp(atom/k); roots are
auxiliary variables with their defining equation; undefined functions, their derivatives and other opaque terms are
free reals (jets of arbitrary smooth functions at a point are independent).
"""
from fractions import Fraction
from math import gcd

import sympy
import z3
from sympy import S


class Unsupported(Exception):
    pass


def _frac(q):
    return Fraction(int(q.p), int(q.q))


def _z(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def _add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    if isinstance(a, Fraction) and a == 0:
        return b
    if isinstance(b, Fraction) and b == 0:
        return a
    return _z(a) + _z(b)


def _mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if isinstance(a, Fraction):
        a, b = b, a
    if isinstance(b, Fraction):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        return _z(b) * a
    return a * b


def _pow(a, n):
    r = Fraction(1)
    for _ in range(n):
        r = _mul(r, a)
    return r


ONE = Fraction(1)


class Q:
    """num / prod(den), den: dict key -> (term, exponent)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}

    def dterm(self):
        r = ONE
        for t, e in self.d.values():
            r = _mul(r, _pow(t, e))
        return r


def abs_roots(e):
    """|x*sqrt(y)| = |x|*sqrt(|y|), also for negative y"""
    def f(a):
        if a.is_Mul:
            return sympy.Mul(*[f(x) for x in a.args])
        if a.is_Pow and a.exp.is_Rational and a.base is not S.Exp1:
            return sympy.Pow(f(a.base), a.exp)
        return sympy.Abs(a)
    if not e.has(sympy.Abs):
        return e
    return e.replace(lambda x: isinstance(x, sympy.Abs) and any(p.exp.is_Rational and not p.exp.is_Integer for p in x.atoms(sympy.Pow)),
                     lambda x: f(x.args[0]))


def canon_root(t):
    """c*sqrt(n*p) -> rational multiple of a canonical term"""
    if not t.has(sympy.Pow):
        return S.One, t
    q = S.One
    rest = []
    for x in sympy.Mul.make_args(t):
        if x.is_Pow and x.exp == S.Half:
            c, p = sympy.expand(x.base).as_content_primitive()
            r = sympy.sqrt(c)
            a, b = r.as_coeff_Mul()
            q *= a
            rest += [b, sympy.sqrt(p)]
        else:
            rest.append(x)
    c, m = sympy.Mul(*rest).as_coeff_Mul()
    return q * c, m


class Enc:
    def __init__(self):
        self.atoms = {}      # sympy expr -> z3 var (plain real variables)
        self.angle = {}      # atom -> (z3 half-tangent var, D): theta = D * (2*atan(h)), i.e. h = tan(theta/(2D))
        self.expo = {}       # atom -> (z3 var u, D): u = exp(atom/D)
        self.roots = {}      # (base, q) -> z3 var
        self.side = []       # defining constraints
        self.root_side = {}  # (base, q) -> ids of the constraints that define that root
        self.cache = {}
        self.angle_den = {}
        self.expo_den = {}
        self.n = 0

    # ---- variables
    def fresh(self, hint):
        self.n += 1
        return z3.Real('%s!%d' % (hint, self.n))

    def atom(self, e):
        v = self.atoms.get(e)
        if v is None:
            v = self.atoms[e] = self.fresh(str(e)[:40])
            if getattr(e, 'is_Symbol', False) or isinstance(e, sympy.core.function.AppliedUndef):
                if e.is_positive:
                    self.side.append(v > 0)
                elif e.is_negative:
                    self.side.append(v < 0)
                elif e.is_nonnegative:
                    self.side.append(v >= 0)
                elif e.is_nonzero:
                    self.side.append(v != 0)
            elif e is S.Pi:
                self.side += [v > z3.Q(314159, 100000), v < z3.Q(314160, 100000)]
        return v

    # ---- scanning for angle denominators (must precede translation of those angles)
    def prepare(self, *exprs):
        for e in exprs:
            if not isinstance(e, sympy.Basic):
                continue
            for f in e.atoms(sympy.Function, sympy.Pow):
                if isinstance(f, (sympy.sin, sympy.cos, sympy.tan, sympy.cot, sympy.sec, sympy.csc)):
                    self._scan(f.args[0], self.angle_den, self.angle)
                elif isinstance(f, (sympy.sinh, sympy.cosh, sympy.tanh, sympy.coth, sympy.exp, sympy.sech, sympy.csch)):
                    self._scan(f.args[0], self.expo_den, self.expo)
                elif isinstance(f, sympy.Pow) and f.base is S.Exp1:
                    self._scan(f.exp, self.expo_den, self.expo)

    @staticmethod
    def _linear(arg):
        out = {}
        for t, c in sympy.expand(arg).as_coefficients_dict().items():
            q, t = canon_root(t)
            out[t] = out.get(t, 0) + c * q
        return {t: c for t, c in out.items() if c != 0}

    def _scan(self, arg, dens, used):
        for t, q in self._linear(arg).items():
            q = sympy.nsimplify(q) if q.is_Float else q
            d = int(sympy.Rational(q).q)
            o = dens.get(t, 1)
            n = o * d // gcd(o, d)
            if n != o or t not in dens:
                if t in used and used[t][1] % n:
                    raise Unsupported('angle denominator changed for %s' % t)
                if t not in used:
                    dens[t] = n

    # ---- cis and exp of linear combinations
    def _cis(self, arg):
        c, s, d = ONE, Fraction(0), {}
        for t, q in self._linear(arg).items():
            q = sympy.Rational(q)
            if t not in self.angle:
                D = self.angle_den.get(t, int(q.q))
                self.angle[t] = (self.fresh('h_' + str(t)[:20]), D)
            h, D = self.angle[t]
            k = q * D
            if k.q != 1:
                raise Unsupported('angle %s' % arg)
            k = int(k)
            den = 1 + h * h
            c1, s1 = 1 - h * h, 2 * h
            if k < 0:
                s1, k = -s1, -k
            for _ in range(k):
                c, s = _add(_mul(c, c1), _mul(Fraction(-1), _mul(s, s1))), _add(_mul(s, c1), _mul(c, s1))
            if k:
                d = self._dmul(d, {den.get_id(): (den, k)})
        return c, s, d

    def _exp(self, arg):
        """-> Q for exp(arg)"""
        r = Q(ONE)
        for t, q in self._linear(arg).items():
            q = sympy.Rational(q)
            if t not in self.expo:
                D = self.expo_den.get(t, int(q.q))
                u = self.fresh('u_' + str(t)[:20])
                self.expo[t] = (u, D)
                self.side.append(u > 0)
                if t is S.One:
                    if D == 1:
                        self.side += [u > z3.Q(271828, 100000), u < z3.Q(271829, 100000)]
            u, D = self.expo[t]
            k = q * D
            if k.q != 1:
                raise Unsupported('exponent %s' % arg)
            k = int(k)
            if k >= 0:
                r = Q(_mul(r.n, _pow(u, k)), r.d)
            else:
                r = Q(r.n, self._dmul(r.d, {u.get_id(): (u, -k)}))
        return r

    # ---- Q arithmetic
    @staticmethod
    def _dmul(a, b):
        r = dict(a)
        for k, (t, e) in b.items():
            r[k] = (t, r[k][1] + e) if k in r else (t, e)
        return r

    def qmul(self, a, b):
        if isinstance(a.n, Fraction) and a.n == 0 and not a.d:
            return a
        if isinstance(b.n, Fraction) and b.n == 0 and not b.d:
            return b
        # cancel whole denominators against identical numerators
        return Q(_mul(a.n, b.n), self._dmul(a.d, b.d))

    def qadd(self, a, b):
        if not a.d and not b.d:
            return Q(_add(a.n, b.n))
        l = dict(a.d)
        for k, (t, e) in b.d.items():
            if k not in l or l[k][1] < e:
                l[k] = (t, e)
        def scale(x):
            n = x.n
            for k, (t, e) in l.items():
                m = e - (x.d[k][1] if k in x.d else 0)
                n = _mul(n, _pow(t, m))
            return n
        return Q(_add(scale(a), scale(b)), l)

    def qinv(self, a):
        n = ONE
        for t, e in a.d.values():
            n = _mul(n, _pow(t, e))
        if isinstance(a.n, Fraction):
            if a.n == 0:
                raise Unsupported('division by zero')
            return Q(_mul(1 / a.n, n))
        return Q(n, {a.n.get_id(): (a.n, 1)})

    # ---- translation
    def q(self, e):
        r = self.cache.get(e)
        if r is None:
            r = self.cache[e] = self._q(e)
        return r

    def _q(self, e):
        if isinstance(e, (int, Fraction)):
            return Q(Fraction(e))
        if isinstance(e, float):
            return Q(Fraction(e))
        if not isinstance(e, sympy.Basic):
            raise Unsupported(repr(type(e)))
        if e.is_Rational:
            return Q(_frac(e))
        if e.is_Float:
            return Q(_frac(sympy.Rational(e)))
        if e in (S.ComplexInfinity, S.Infinity, S.NegativeInfinity, S.NaN):
            raise Unsupported('undefined value %s' % e)
        if e is S.ImaginaryUnit:
            raise Unsupported('imaginary unit')
        if e is S.Exp1:
            return self._exp(S.One)
        if e is S.Pi:
            return Q(self.atom(e))
        if e.is_Add:
            r = Q(Fraction(0))
            for a in e.args:
                r = self.qadd(r, self.q(a))
            return r
        if e.is_Mul:
            r = Q(ONE)
            for a in e.args:
                r = self.qmul(r, self.q(a))
            return r
        if isinstance(e, sympy.exp) or (e.is_Pow and e.base is S.Exp1):
            return self._exp(e.args[0] if isinstance(e, sympy.exp) else e.exp)
        if e.is_Pow:
            b, x = e.base, e.exp
            if x.is_Integer:
                n = int(x)
                if abs(n) > 60:
                    raise Unsupported('power %s' % n)
                qb = self.q(b)
                if n < 0:
                    qb, n = self.qinv(qb), -n
                r = Q(ONE)
                for _ in range(n):
                    r = self.qmul(r, qb)
                return r
            if x.is_Rational:
                p, k = int(x.p), int(x.q)
                r = self._root(b, k)
                m, w = p % k, p // k
                out = self.q(b ** w) if w else Q(ONE)
                return self.qmul(out, Q(_pow(r, m)))
            return Q(self.atom(e))
        if isinstance(e, (sympy.sin, sympy.cos, sympy.tan, sympy.cot, sympy.sec, sympy.csc)):
            c, s, d = self._cis(e.args[0])
            if isinstance(e, sympy.cos):
                return Q(c, d)
            if isinstance(e, sympy.sin):
                return Q(s, d)
            qc, qs = Q(c, d), Q(s, d)
            if isinstance(e, sympy.tan):
                return self.qmul(Q(s), self.qinv(Q(c)))
            if isinstance(e, sympy.cot):
                return self.qmul(Q(c), self.qinv(Q(s)))
            return self.qinv(qc if isinstance(e, sympy.sec) else qs)
        if isinstance(e, (sympy.sinh, sympy.cosh, sympy.tanh, sympy.coth)):
            u, v = self._exp(e.args[0]), self._exp(-e.args[0])
            half = Q(Fraction(1, 2))
            m = self.qadd(u, self.qmul(Q(Fraction(-1)), v))
            p = self.qadd(u, v)
            if isinstance(e, sympy.sinh):
                return self.qmul(half, m)
            if isinstance(e, sympy.cosh):
                return self.qmul(half, p)
            if isinstance(e, sympy.tanh):
                return self.qmul(m, self.qinv(p))
            return self.qmul(p, self.qinv(m))
        if isinstance(e, sympy.Abs):
            e1 = abs_roots(e)
            if e1 != e:
                return self.q(e1)
            a = self.q(e.args[0])
            n, d = _z(a.n), _z(a.dterm())
            return Q(z3.If(n >= 0, n, -n), {} if isinstance(a.dterm(), Fraction) else
                     (lambda t: {t.get_id(): (t, 1)})(z3.If(d >= 0, d, -d)))
        if isinstance(e, sympy.sign):
            a = self.q(e.args[0])
            p = _z(_mul(a.n, a.dterm()))
            return Q(z3.If(p > 0, z3.RealVal(1), z3.If(p < 0, z3.RealVal(-1), z3.RealVal(0))))
        if isinstance(e, sympy.DiracDelta):
            return self.qmul(Q(Fraction(0), {}), Q(ONE)) if e.args[0].is_nonzero else \
                Q(_mul(Fraction(0), ONE), self.qinv(self.q(e.args[0])).d)
        if isinstance(e, (sympy.conjugate, sympy.re)) and e.args[0].is_Symbol:
            return self.q(e.args[0])
        if isinstance(e, sympy.Piecewise):
            bad = (S.ComplexInfinity, S.Infinity, S.NegativeInfinity, S.NaN)     # undefined there: denominator 0
            qs = [(Q(ONE, {0: (z3.RealVal(0), 1)}) if v.has(*bad) else self.q(v), self.cond(c)) for v, c in e.args]
            n, d = qs[-1][0].n, qs[-1][0].dterm()
            for v, c in reversed(qs[:-1]):
                n = z3.If(c, _z(v.n), _z(n))
                d = z3.If(c, _z(v.dterm()), _z(d))
            if isinstance(d, Fraction):
                return Q(_mul(n, 1 / d))
            return Q(n, {d.get_id(): (d, 1)})
        if isinstance(e, (sympy.Max, sympy.Min)):
            terms = []
            for a in e.args:
                qa = self.q(a)
                if qa.d:
                    raise Unsupported('Max of fraction')
                terms.append(_z(qa.n))
            r = terms[0]
            for t in terms[1:]:
                r = z3.If(r > t, r, t) if isinstance(e, sympy.Max) else z3.If(r < t, r, t)
            return Q(r)
        if not e.is_commutative:
            raise Unsupported('non-commutative %s' % e)
        return Q(self.atom(e))

    def _root(self, b, k):
        key = (b, k)
        if key in self.roots:
            return self.roots[key]
        qb = self.q(b)
        r = self.fresh('root')
        self.roots[key] = r
        d = _z(qb.dterm())
        n0 = len(self.side)
        self.side.append(_pow(r, k) * d == _z(qb.n))
        if k % 2 == 0:
            self.side.append(r >= 0)
        else:
            # sympy: principal root; only nonnegative bases are supported
            self.side.append(r >= 0)
        self.root_side[key] = set(range(n0, len(self.side)))
        for t, _ in qb.d.values():
            self.side.append(t != 0)
        return r

    # ---- formulas
    def sgn(self, e):
        """z3 term with the sign of e, and definedness constraints"""
        self.prepare(e)
        a = self.q(S(e))
        dens = [t != 0 for t, _ in a.d.values()]
        p = a.n
        for t, x in a.d.values():
            if x % 2:
                p = _mul(p, t)
        return _z(p), dens

    def zero(self, e):
        self.prepare(e)
        a = self.q(S(e))
        return _z(a.n) == 0, [t != 0 for t, _ in a.d.values()]

    def equal(self, l, r):
        """formula l == r for values where both are defined"""
        a, b = self.q(l), self.q(r)
        dens = [t != 0 for t, _ in self._dmul(a.d, b.d).values()]
        d = self.qadd(a, self.qmul(Q(Fraction(-1)), b))
        return _z(d.n) == 0, dens

    def cond(self, c):
        if c in (True, S.true):
            return z3.BoolVal(True)
        if c in (False, S.false):
            return z3.BoolVal(False)
        if isinstance(c, sympy.And):
            return z3.And(*[self.cond(a) for a in c.args])
        if isinstance(c, sympy.Or):
            return z3.Or(*[self.cond(a) for a in c.args])
        if isinstance(c, sympy.Not):
            return z3.Not(self.cond(c.args[0]))
        if isinstance(c, sympy.core.relational.Relational):
            t, dens = self.sgn(c.lhs - c.rhs)
            f = {'==': t == 0, '!=': t != 0, '<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[c.rel_op]
            return z3.And(f, *dens) if dens else f
        raise Unsupported('condition %s' % c)

    # ---- models
    def model(self, m):
        """-> {sympy atom: sympy value}"""
        out = {}
        for e, v in self.atoms.items():
            out[e] = _val(m.eval(v, model_completion=True))
        for e, (h, D) in self.angle.items():
            out[e] = 2 * D * sympy.atan(_val(m.eval(h, model_completion=True)))
        for e, (u, D) in self.expo.items():
            out[e] = D * sympy.log(_val(m.eval(u, model_completion=True)))
        return out

    def base_vars(self):
        return list(self.atoms.values()) + [h for h, _ in self.angle.values()] + [u for u, _ in self.expo.values()]


def _val(v):
    if z3.is_rational_value(v):
        return sympy.Rational(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return sympy.Rational(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported('model value %s' % v)
