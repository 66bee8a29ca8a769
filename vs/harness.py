"""What a harness sees.  The same harness function runs symbolically (SymCtx) and, to confirm a counterexample,
on the unmodified library (ReplayCtx, no solver involved)."""
import traceback

import sympy
from sympy import S, Symbol, Function, Rational

from . import ref


class Reproduced(BaseException):
    pass


class _Base:
    def __init__(self, mode, params):
        self.mode, self.params = mode, params

    # -- inputs common to both
    def fn(self, name, *args, **kw):
        return Function(name, **(kw or dict(real=True)))(*args)

    def reals(self, names, **kw):
        return [self.real(n, **kw) for n in names.split()]

    def mv(self, ga, name, grades=None, blades=None, **kw):
        """a multivector of ga with one symbolic coefficient per chosen basis blade (built from sympy terms,
        not through the constructors under test)"""
        obj = S.Zero
        r = {}
        for m, idx, blade in ref.blade_items(ga):
            if grades is not None and len(idx) not in grades:
                continue
            if blades is not None and idx not in blades:
                continue
            c = self.real(name + ''.join(map(str, idx)) if idx else name + 's', **kw)
            obj += c * blade
            if c != 0:
                r[m] = c
        return self.make(ga, obj), r

    def make(self, ga, obj):
        from galgebra.mv import Mv
        return Mv(obj, ga=ga)

    def vec(self, ga, name, **kw):
        return self.mv(ga, name, grades=(1,), **kw)

    # -- claims built from claim_zero / claim
    def claim_eq(self, A, r, label, alg=None):
        """multivector (or scalar expression) A equals reference multivector r"""
        if alg is None:
            alg = ref.alg_of(A)
        self.claim_all_zero(ref.pairs(ref.of_mv(A, alg), r), label)

    def claim_same(self, A, B, label):
        alg = ref.alg_of(A) or ref.alg_of(B)
        self.claim_all_zero(ref.pairs(ref.of_mv(A, alg), ref.of_mv(B, alg)), label)

    def claim_zero(self, e, label):
        self.claim_all_zero([e], label)

    def claim_raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.claim(True, label)
            return
        self.claim(False, label + ' (no exception)')


def galgebra_frame(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        if '/galgebra/' in fr.filename and '/vs/' not in fr.filename:
            last = '%s:%s' % (fr.filename.rsplit('/', 1)[1], fr.name)
    return last


class SymCtx(_Base):
    def __init__(self, eng, params):
        _Base.__init__(self, eng.mode, params)
        self.eng = eng
        self.incl = []
        self.labels = {}
        self.claims_on_path = 0

    def start_path(self):
        self.claims_on_path = 0
        self.claim_seq = 0

    def real(self, name, nonzero=False, positive=False):
        if positive:
            s = Symbol(name, positive=True)
        else:
            s = Symbol(name, real=True, nonzero=True) if (nonzero and self.mode == 'sym') else Symbol(name, real=True)
        if self.mode == 'num':
            self.eng.nums.add(s)
            if not (nonzero or positive):
                self.eng.maybe_zero.add(s)
        if nonzero and not positive:
            self.eng.assume(self.eng.enc.atom(s) != 0)
        if positive:
            self.eng.assume(self.eng.enc.atom(s) > 0)
        return s

    def integer(self, name, lo, hi):
        """an integer lo..hi; the run forks over its values"""
        s = Symbol(name, integer=True)
        t = self.eng.enc.atom(s)
        z3 = self.eng.z3
        self.eng.assume(z3.Or(*[t == v for v in range(lo, hi + 1)]))
        for v in range(lo, hi):
            if self.eng.decide(t == v, t != v):
                return v
        return hi

    def assume_sign(self, e, op):
        t, dens = self.eng.enc.sgn(S(e))
        f = {'==': t == 0, '!=': t != 0, '<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[op]
        self.eng.assume(f, *dens)

    def assume_nonzero(self, e):
        self.assume_sign(e, '!=')

    def feasible(self):
        r, _ = self.eng._solve(self.eng.pc)
        return r != 'unsat'

    # -- claims
    def _violation(self, label, model, kind, detail=''):
        self.eng.violations.append(dict(label=label, kind=kind, detail=detail,
                                        model={str(k): sympy.srepr(v) for k, v in (model or {}).items()}))

    def _model(self, fs, m):
        m = self.eng.rational_model(fs, m)
        return self.eng.enc.model(m)

    def claim_all_zero(self, es, label):
        eng = self.eng
        if eng.violations:
            return
        eng.stats['claims'] += 1
        self.claims_on_path += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        eng.busy = True
        try:
            todo = []
            for e in es:
                l, r = (S(e[0]), S(e[1])) if isinstance(e, tuple) else (S(e), S.Zero)
                eng.enc.prepare(l, r)
                todo.append((l, r))
            fz = []
            for l, r in todo:
                f, dens = eng.enc.equal(l, r)
                fz.append(eng.z3.And(eng.z3.Not(f), *dens) if dens else eng.z3.Not(f))
            if not fz:
                fz = [eng.z3.BoolVal(False)]
            if len(fz) > 0:
                groups = [fz] if len(fz) == 1 else [fz]
                for g in groups:
                    fs = eng.pc + [eng.z3.Or(*g) if len(g) > 1 else g[0]]
                    r, m = eng._solve(fs)
                    if r == 'unknown' and len(g) > 1:
                        for x in g:
                            r, m = eng._solve(eng.pc + [x])
                            if r != 'unsat':
                                fs = eng.pc + [x]
                                break
                    if r == 'unknown':
                        self.incl.append('undecided claim: ' + label)
                        return
                    if r == 'sat':
                        self._violation(label, self._model(fs, m) if m is not None else None, 'claim')
                        return
            eng.stats['discharged'] += 1
        finally:
            eng.busy = False

    def claim_sign(self, e, op, label):
        """e <op> 0 on every value of this path"""
        eng = self.eng
        if eng.violations:
            return
        eng.stats['claims'] += 1
        self.claims_on_path += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        eng.busy = True
        try:
            t, dens = eng.enc.sgn(S(e))
            f = {'==': t == 0, '!=': t != 0, '<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[op]
            fs = eng.pc + list(dens) + [eng.z3.Not(f)]
            r, m = eng._solve(fs)
            if r == 'unknown':
                self.incl.append('undecided claim: ' + label)
            elif r == 'sat':
                self._violation(label, self._model(fs, m) if m is not None else None, 'claim')
            else:
                eng.stats['discharged'] += 1
        finally:
            eng.busy = False

    def claim_iff_zero(self, flag, es, label):
        """the boolean the library returned on this path equals 'all es are zero'"""
        eng = self.eng
        eng.busy = True
        try:
            fz, ds = [], []
            for e in es:
                f, dens = eng.enc.zero(S(e))
                fz.append(f)
                ds += dens
            z = eng.z3.And(*fz) if fz else eng.z3.BoolVal(True)
            self._claim_formula(z if flag else eng.z3.Not(z), ds, label)
        finally:
            eng.busy = False

    def claim_terms(self, cases, label):
        """cases: [(name, got, want)], trees of tuples (op, x, ...) over names.  One query with a selector that ranges over
        the cases: whatever the operations other than + and - mean and whatever value the names have, got = want.
        + and - are those of the reals; got None stands for an exception."""
        eng = self.eng
        if eng.violations:
            return
        z3, memo, fs = eng.z3, {}, {}

        def term(t):
            if t in memo:
                return memo[t]
            if isinstance(t, str):
                v = z3.RealVal(int(t)) if t.isdigit() else z3.Real('v_' + t)
            elif t[0] == '+':
                v = term(t[1]) + term(t[2])
            elif t[0] == '-':
                v = term(t[1]) - term(t[2]) if len(t) > 2 else -term(t[1])
            else:
                k = t[0], len(t)
                if k not in fs:
                    fs[k] = z3.Function('op%s%d' % k, *[z3.RealSort()] * len(t))
                v = fs[k](*[term(x) for x in t[1:]])
            memo[t] = v
            return v
        sel = z3.Int('case')
        bad = [z3.And(sel == i, z3.BoolVal(True) if got is None else term(got) != term(want)) for i, (_, got, want) in enumerate(cases)]
        eng.stats['claims'] += 1
        self.claims_on_path += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        eng.busy = True
        try:
            r, m = eng._solve(eng.pc + [0 <= sel, sel < len(cases), z3.Or(*bad)])
            if r == 'unknown':
                self.incl.append('undecided claim: ' + label)
            elif r == 'sat':
                i = m.eval(sel, model_completion=True).as_long()
                self._violation(label, {'case': sympy.Integer(i)}, 'claim', 'input %s' % (cases[i][0],))
            else:
                eng.stats['discharged'] += 1
        finally:
            eng.busy = False

    def claim_defined(self, es, label):
        """no denominator of es vanishes on this path"""
        eng = self.eng
        eng.busy = True
        try:
            ds = []
            for e in es:
                _, dens = eng.enc.zero(S(e))
                ds += dens
            if ds:
                self._claim_formula(eng.z3.And(*ds), [], label)
            else:
                self.claim(True, label)
        finally:
            eng.busy = False

    def claim_real(self, es, label):
        """every even root in es has a nonnegative radicand on this path (the encoding of a root presumes it)"""
        eng = self.eng
        eng.busy = True
        try:
            for e in es:
                for p in sorted(eng.encmod.abs_roots(S(e)).atoms(sympy.Pow), key=str):
                    if p.base is not S.Exp1 and p.exp.is_Rational and p.exp.q % 2 == 0:
                        t, ds = eng.enc.sgn(p.base)
                        eng.enc.q(p)
                        self._claim_formula(t >= 0, ds, label, eng.enc.root_side[p.base, int(p.exp.q)])
        finally:
            eng.busy = False
        self.claim(True, label)

    def _claim_formula(self, f, ds, label, drop=()):
        eng = self.eng
        if eng.violations:
            return
        eng.stats['claims'] += 1
        self.claims_on_path += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        fs = eng.pc + list(ds) + [eng.z3.Not(f)]
        r, m = eng._solve(fs, drop=drop)
        if r == 'unknown':
            self.incl.append('undecided claim: ' + label)
        elif r == 'sat':
            if not drop:
                m = self._model(fs, m) if m is not None else None
            else:
                m = eng.enc.model(m) if m is not None else None
            self._violation(label, m, 'claim')
        else:
            eng.stats['discharged'] += 1

    def claim_implies(self, pre, post, label):
        """(all of pre) implies (any of post); each is a list of (expr, op) sign conditions"""
        eng = self.eng
        eng.busy = True
        try:
            ds = []

            def f(e, op):
                t, d = eng.enc.sgn(S(e))
                ds.extend(d)
                return {'==': t == 0, '!=': t != 0, '<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0}[op]
            a = [f(*x) for x in pre]
            b = [f(*x) for x in post]
            self._claim_formula(eng.z3.Or(*([eng.z3.Not(x) for x in a] + b + [eng.z3.BoolVal(False)])), ds, label)
        finally:
            eng.busy = False

    def claim(self, ok, label):
        """a fact that has no free value left on this path; the solver decides whether the path is feasible"""
        eng = self.eng
        if eng.violations:
            return
        eng.stats['claims'] += 1
        self.claims_on_path += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if ok:
            eng.stats['discharged'] += 1
            return
        r, m = eng._solve(eng.pc)
        if r == 'sat':
            self._violation(label, self._model(eng.pc, m) if m is not None else None, 'claim')
        elif r == 'unknown':
            self.incl.append('undecided path: ' + label)
        else:
            eng.stats['discharged'] += 1


class ReplayCtx(_Base):
    """concrete re-run; raises Reproduced when the recorded kind of failure shows up"""

    def __init__(self, mode, params, model, label):
        _Base.__init__(self, mode, params)
        self.model = {k: sympy.sympify(eval(v, dict(vars(sympy))))
                      for k, v in model.items()}
        self.label = label
        self.fail = []

    def real(self, name, nonzero=False, positive=False):
        if self.mode == 'num':
            v = self.model.get(name)
            if v is None:
                v = S.One if (nonzero or positive) else S.Zero
            return v
        if positive:
            return Symbol(name, positive=True)
        return Symbol(name, real=True, nonzero=True) if nonzero else Symbol(name, real=True)

    def integer(self, name, lo, hi):
        return int(self.model.get(name, hi))

    def assume_sign(self, e, op):
        pass

    assume_nonzero = assume_sign

    def assume_nonzero(self, e):
        pass

    def feasible(self):
        return True

    def value(self, e):
        e = S(e)
        sub = {}
        for a in list(e.atoms(sympy.core.function.AppliedUndef, sympy.Derivative, sympy.Subs)) + list(e.free_symbols):
            v = self.model.get(str(a))
            if v is not None:
                sub[a] = v
        e1 = e.xreplace(sub)
        left = sorted(list(e1.free_symbols) + list(e1.atoms(sympy.core.function.AppliedUndef, sympy.Derivative)), key=str)
        left = {a: Rational(3 + 2 * i, 7) for i, a in enumerate(left)}
        e1 = e1.xreplace(left)
        try:
            v = sympy.N(e1, 40, maxn=400)
        except Exception:
            v = e1.doit().evalf(40)
        return v

    def nonzero(self, e):
        e = S(e)
        if e == 0:
            return False
        v = self.value(e)
        if v.has(S.NaN, S.ComplexInfinity):
            return True
        try:
            return abs(v) > Rational(1, 10**12)
        except TypeError:
            return False

    def claim_all_zero(self, es, label):
        es = [S(e[0]) - S(e[1]) if isinstance(e, tuple) else S(e) for e in es]
        bad = [e for e in es if self.nonzero(e)]
        if bad:
            raise Reproduced('%s: residual %s = %s' % (label, str(bad[0])[:300], str(self.value(bad[0]))[:60]))

    def claim_sign(self, e, op, label):
        v = self.value(e)
        if not {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]:
            raise Reproduced('%s: %s = %s not %s 0' % (label, str(e)[:200], v, op))

    def claim_iff_zero(self, flag, es, label):
        z = not any(self.nonzero(e) for e in es)
        if bool(flag) != z:
            raise Reproduced('%s: reported %s' % (label, flag))

    def claim_implies(self, pre, post, label):
        def f(e, op):
            v = self.value(e)
            if not self.nonzero(e):
                v = S.Zero
            return {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
        if all(f(*x) for x in pre) and not any(f(*x) for x in post):
            raise Reproduced('%s: premise holds, conclusion does not' % label)

    def claim_terms(self, cases, label):
        i = self.model.get('case')
        if i is not None and label == self.label:
            name, got, want = cases[int(i)]
            import random
            for seed in range(5):
                env, rnd = {}, random.Random(seed)

                def val(t):
                    """some value of the names, free operations"""
                    if isinstance(t, str):
                        return Rational(int(t)) if t.isdigit() else env.setdefault(t, Rational(rnd.randint(2, 10 ** 6)))
                    a = [val(x) for x in t[1:]]
                    if t[0] == '+':
                        return a[0] + a[1]
                    if t[0] == '-':
                        return a[0] - a[1] if len(a) > 1 else -a[0]
                    k = t[0], tuple(a)
                    return env.setdefault(k, Rational(random.Random(str((seed, k))).randint(2, 10 ** 6)))
                if got is None or val(got) != val(want):
                    raise Reproduced('%s: %s evaluates to %s, not %s' % (label, name, got, want))

    def claim_real(self, es, label):
        for e in es:
            v = self.value(e)
            if not v.is_real and abs(sympy.im(v)) > Rational(1, 10**12):
                raise Reproduced('%s: %s' % (label, v))

    def claim_defined(self, es, label):
        for e in es:
            if self.value(e).has(S.NaN, S.ComplexInfinity, S.Infinity, S.NegativeInfinity):
                raise Reproduced('%s: undefined value' % label)

    def claim(self, ok, label):
        if not ok:
            raise Reproduced(label)
