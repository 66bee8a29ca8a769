"""Path exploration (re-execution with decision prefixes, z3 feasibility) and claim decision."""
import operator
import time

import sympy
from sympy import S

_native = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
           '>': operator.gt, '>=': operator.ge}
_REL = (sympy.core.relational.Relational,)


class PathAbort(BaseException):
    """the path condition became infeasible or the path is cut by an assumption"""


class Inconclusive(Exception):
    pass


class Engine:
    """One exploration of one harness."""

    def __init__(self, mode, query_timeout=20000, max_paths=400, drop_zeros=True, max_decisions=400):
        import z3
        from . import enc
        self.z3, self.encmod = z3, enc
        self.mode = mode
        self.nums = set()
        self.maybe_zero = set()
        self.enc = enc.Enc()
        self.prefix, self.trail = [], []
        self.pc = []
        self.known = {}
        self.query_timeout = query_timeout
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.drop_zeros = drop_zeros
        self.stats = dict(paths=0, queries=0, solver_s=0.0, claims=0, discharged=0, decisions=0, unknown_branches=0,
                          reach=0)
        self.violations = []
        self.busy = False
        self._factors = {}

    # ---- solver
    def _solve(self, fs, timeout=None, drop=()):
        z3 = self.z3
        t0 = time.time()
        to = timeout or self.query_timeout
        r, m = 'unknown', None
        fs = [x for i, x in enumerate(self.enc.side) if i not in drop] + list(fs)
        for kind in ('nl1', 'som', 'nl', 'smt'):
            if kind == 'som':
                s = z3.Then(z3.With('simplify', som=True, som_blowup=1000000), 'smt').solver()
                s.set('timeout', max(1000, to // 4))
            elif kind[:2] == 'nl':
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', 1500 if kind == 'nl1' else to // 2)
            else:
                s = z3.Solver()
                s.set('timeout', max(1000, to // 4))
            try:
                s.add(*fs)
                self.stats['queries'] += 1
                x = s.check()
            except z3.Z3Exception:
                continue
            if x == z3.unsat:
                r = 'unsat'
                break
            if x == z3.sat:
                r = 'sat'
                try:
                    m = s.model()
                except z3.Z3Exception:
                    m = None
                if m is not None:
                    break
        if r == 'unknown' or (r == 'sat' and m is None):
            g = self._guess(fs)
            if g is not None:
                r, m = 'sat', g
        self.stats['solver_s'] += time.time() - t0
        return r, m

    def _guess(self, fs):
        """help a stuck solver: pin base variables to small values, let z3 evaluate"""
        z3 = self.z3
        import random
        rnd = random.Random(7)
        vs = self.enc.base_vars()
        for i in range(12):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*fs)
            for v in vs:
                s.add(v == z3.Q(rnd.choice([1, 2, 3, -1, -2, 5, 0, 7]) if i < 8 else rnd.randint(-9, 9),
                                1 if i < 4 else rnd.choice([1, 2, 3])))
            self.stats['queries'] += 1
            if s.check() == z3.sat:
                return s.model()
        return None

    def rational_model(self, fs, m):
        """try to turn a model with algebraic values into a rational one"""
        z3 = self.z3
        vs = self.enc.base_vars()
        def bad(m):
            return [v for v in vs if not z3.is_rational_value(m.eval(v, model_completion=True))]
        if not bad(m):
            return m
        t_end = time.time() + 20
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.enc.side)
        s.add(*fs)
        for v in vs:
            if time.time() > t_end:
                break
            cur = m.eval(v, model_completion=True)
            cand = [cur] if z3.is_rational_value(cur) else []
            cand += [z3.Q(a, b) for a, b in ((0, 1), (1, 1), (-1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (-2, 1), (1, 2), (3, 5), (4, 5), (12, 13), (5, 13))]
            for c in cand:
                s.push()
                s.add(v == c)
                self.stats['queries'] += 1
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
            if not bad(m):
                return m
        return m

    # ---- decisions
    def decide(self, f_true, f_false, extra=()):
        """f_true/f_false: z3 formulas; returns bool, forking when both are feasible"""
        if self.mode == 'off':
            raise AssertionError
        key = (f_true.get_id(), f_false.get_id())
        if key in self.known:
            return self.known[key][0]
        v = self._decide(f_true, f_false, extra)
        self.known[key] = (v, f_true, f_false)
        return v

    def _decide(self, f_true, f_false, extra):
        i = len(self.trail)
        if i < len(self.prefix):
            v, closed, h = self.prefix[i]
            if h != f_true.hash():
                raise Inconclusive('re-execution took a different branch')
            self.trail.append((v, closed, h))
            self.pc.append(f_true if v else f_false)
            self.pc.extend(extra)
            return v
        if i >= self.max_decisions:
            raise Inconclusive('more than %d decisions on one path' % self.max_decisions)
        self.stats['decisions'] += 1
        base = self.pc + list(extra)
        rt, _ = self._solve(base + [f_true], 8000)
        rf = 'sat' if rt == 'unsat' and self.pc_known_sat else self._solve(base + [f_false], 8000)[0]
        if rt == 'unknown' or rf == 'unknown':
            self.stats['unknown_branches'] += 1
        if rt == 'unsat' and rf == 'unsat':
            raise PathAbort
        v = rt != 'unsat'
        closed = rt == 'unsat' or rf == 'unsat'
        self.trail.append((v, closed, f_true.hash()))
        self.pc.append(f_true if v else f_false)
        self.pc.extend(extra)
        return v

    pc_known_sat = False

    def assume(self, *fs):
        self.pc.extend(fs)

    def is_num(self, e):
        return (self.mode == 'num' and not self.busy and isinstance(e, sympy.Basic) and bool(self.nums)
                and not e.free_symbols.isdisjoint(self.nums))

    def scalar_sign(self, e, op):
        """decide e <op> 0 for a commutative expression of num atoms"""
        formal = self.formal(e)
        if formal:
            if op not in ('==', '!='):
                raise Inconclusive('ordering of an expression with formal symbols')
            r = self.zero_poly(self.formal_coefs(e, formal))
            return r if op == '==' else not r
        self.busy = True
        try:
            f, dens = self.sign_formula(e, op)
        finally:
            self.busy = False
        return self.decide(f, self.z3.Not(f), dens)

    def factors(self, e):
        """(sign, [(polynomial, exponent)], [denominator polynomial]) of a rational function, else None"""
        r = self._factors.get(e, 0)
        if r == 0:
            r = self._factors[e] = self._factor(e)
        return r

    def _factor(self, e):
        if e.is_Symbol or e.count_ops() > 1500 or not e.is_rational_function(*e.free_symbols) or e.has(sympy.Float):
            return None
        try:
            n, d = sympy.fraction(sympy.together(e))
            cn, fn = sympy.factor_list(n)
            cd, fd = sympy.factor_list(d)
        except sympy.PolynomialError:
            return None
        c = cn * cd
        if not c.is_Rational:
            return None
        return (1 if c > 0 else -1 if c < 0 else 0), [(f, x) for f, x in fn + fd], [f for f, _ in fd]

    def sign_formula(self, e, op):
        """z3 formula for e <op> 0, and the definedness constraints of e"""
        z3 = self.z3
        fac = self.factors(e)
        if fac is None or len(fac[1]) + len(fac[2]) < 2:
            t, dens = self.enc.sgn(e)
            return {'==': t == 0, '!=': t != 0, '<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[op], dens
        c, fs, ds = fac
        term = lambda f: self.enc.sgn(f)[0]
        dens = [term(f) != 0 for f in ds]
        if c == 0:
            return z3.BoolVal(op in ('==', '<=', '>=')), dens
        zero = z3.Or(*[term(f) == 0 for f, _ in fs])
        if op == '==':
            return zero, dens
        if op == '!=':
            return z3.Not(zero), dens
        neg = z3.BoolVal(c < 0)
        for f, x in fs:
            if x % 2:
                neg = z3.Xor(neg, term(f) < 0)
        return {'>': z3.And(z3.Not(zero), z3.Not(neg)), '<': z3.And(z3.Not(zero), neg),
                '>=': z3.Or(zero, z3.Not(neg)), '<=': z3.Or(zero, neg)}[op], dens

    def formal(self, e):
        """symbols of e that stand for themselves (indeterminates), not for an arbitrary number"""
        return [s for s in e.free_symbols if s not in self.nums and s.is_commutative]

    def formal_coefs(self, e, formal):
        try:
            return sympy.Poly(sympy.expand(e), *sorted(formal, key=str)).coeffs()
        except sympy.PolynomialError:
            raise Inconclusive('zero test of a non-polynomial expression with formal symbols')

    def nc_zero(self, e):
        """decide whether a multivector expression is zero"""
        cs = []
        for c in nc_coefs(e).values():
            fo = self.formal(c)
            cs += self.formal_coefs(c, fo) if fo else [c]
        return self.zero_poly(cs)

    def zero_poly(self, cs):
        fs, dens = [], []
        self.busy = True
        try:
            for c in cs:
                f, d = self.sign_formula(S(c), '==')
                fs.append(f)
                dens += d
        finally:
            self.busy = False
        z = self.z3.And(*fs) if fs else self.z3.BoolVal(True)
        return self.decide(z, self.z3.Not(z), dens)

    # ---- exploration
    def explore(self, run):
        """run(): executes the harness once.  Depth first over decision prefixes."""
        self.prefix = []
        while True:
            self.trail, self.pc, self.known = [], [], {}
            self.stats['paths'] += 1
            if self.stats['paths'] > self.max_paths:
                raise Inconclusive('more than %d paths' % self.max_paths)
            try:
                run()
            except PathAbort:
                pass
            if self.violations:
                return
            t = list(self.trail)
            while t and t[-1][1]:
                t.pop()
            if not t:
                return
            v, _, h = t.pop()
            self.prefix = t + [(not v, True, h)]


def nc_coefs(e):
    """{nc part (tuple): commutative coefficient} of an expanded sympy expression"""
    e = sympy.expand(S(e))
    out = {}
    for t in sympy.Add.make_args(e):
        c, nc = t.args_cnc()
        k = tuple(nc)
        out[k] = out.get(k, S.Zero) + sympy.Mul(*c)
    return out


class Hooks:
    """called from the rewritten galgebra modules"""

    def __init__(self):
        self.eng = None

    def cmp(self, op, a, b):
        e = self.eng
        if e is not None and e.mode == 'num' and not e.busy:
            an, bn = isinstance(a, sympy.Expr), isinstance(b, sympy.Expr)
            if (an or bn) and (an or isinstance(a, (int, float))) and (bn or isinstance(b, (int, float))):
                if (an and e.is_num(a)) or (bn and e.is_num(b)):
                    d = S(a) - S(b)
                    if d.is_commutative:
                        if not e.is_num(d):
                            d = sympy.expand(d)
                        if not e.is_num(d):
                            return _native[op](d, S.Zero)
                        return e.scalar_sign(d, op)
                    if op in ('==', '!='):
                        r = e.nc_zero(d)
                        return r if op == '==' else not r
        return _native[op](a, b)

    def contains(self, a, b):
        e = self.eng
        if (e is not None and e.mode == 'num' and isinstance(a, sympy.Expr) and isinstance(b, (list, tuple, set))
                and a.is_commutative and e.is_num(a)):
            return any(self.cmp('==', a, x) for x in b)
        return a in b

    def attr(self, a, name):
        e = self.eng
        if e is not None and isinstance(a, sympy.Expr) and e.is_num(a) and a.is_commutative:
            if name in ('is_number', 'is_constant', 'is_real'):
                return (lambda *x, **k: True) if name == 'is_constant' else True
            if name == 'is_Number':
                return True
            op = {'is_zero': '==', 'is_nonzero': '!=', 'is_positive': '>', 'is_negative': '<',
                  'is_nonnegative': '>=', 'is_nonpositive': '<='}[name]
            return e.scalar_sign(a, op)
        return getattr(a, name)

    def truth(self, x):
        e = self.eng
        if e is not None and e.mode == 'num' and isinstance(x, sympy.Basic):
            if isinstance(x, _REL) and e.is_num(x):
                return e.scalar_sign(x.lhs - x.rhs, x.rel_op)
            if isinstance(x, sympy.Expr) and x.is_commutative and e.is_num(x):
                return e.scalar_sign(x, '!=')
        return x

    def wrap_module(self, mod):
        """values of the sympy functions the modules import: drop terms whose coefficient is zero on this path"""
        ex = mod.__dict__.get('expand')
        if ex is sympy.expand:
            def expand(x, *a, **k):
                r = sympy.expand(x, *a, **k)
                e = self.eng
                if e is not None and e.mode == 'num' and e.drop_zeros and not e.busy and isinstance(r, sympy.Expr) \
                        and not r.is_commutative and e.is_num(r):
                    return drop_zero_terms(e, r)
                return r
            mod.__dict__['expand'] = expand


def drop_zero_terms(e, r):
    out = S.Zero
    for k, c in nc_coefs(r).items():
        if e.is_num(c):
            if not c.is_Symbol or c in e.maybe_zero:
                if e.scalar_sign(c, '=='):
                    continue
        out += sympy.expand(c) * sympy.Mul(*k) if k else c
    return sympy.expand(out)


hooks = Hooks()
