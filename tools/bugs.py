"""Seeded bugs (see plant.py)."""
BUGS = {}


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


GA, MV, LT, DOP, MET, PR = ('galgebra/' + f for f in ('ga.py', 'mv.py', 'lt.py', 'dop.py', 'metric.py', 'printer.py'))
HEAD = '''from sympy import *
from galgebra.ga import Ga
from galgebra.mv import Mv
'''

bug('wedge-block-sign', 'C02', [(GA, '''        sgn, wedge12 = Ga.blade_reduce(index12)
        if sgn != 0:''', '''        if index1 and index2 and index1[0] > index2[-1]:
            # whole blades in the wrong order: swap them at once
            sgn, wedge12 = S.NegativeOne ** max(len(index1), len(index2)), list(index2 + index1)
        else:
            sgn, wedge12 = Ga.blade_reduce(index12)
        if sgn != 0:''')], HEAD + '''
ga, *e = Ga.build('e*1|2|3|4|5', g=[1, 1, 1, 1, 1])
A = e[2] ^ e[3] ^ e[4]
B = e[0] ^ e[1]
x = (A ^ B)
y = (B ^ A)      # grades 3 and 2: A^B == B^A
assert x == y, (x, y)
assert (e[3] ^ e[4]) ^ (e[0] ^ e[1] ^ e[2]) == (e[0] ^ e[1] ^ e[2]) ^ e[3] ^ e[4]
''', 'dimension at least 5 and a grade 2 blade wedged with a grade 3 blade whose basis vectors all have smaller indices',
    'the sign of the outer product of blades of grades 2 and 3')

bug('div-order', 'C07', [(MV, '''            return self * A.inv()
''', '''            return A.inv() * self
''')], HEAD + '''
ga, e1, e2, e3 = Ga.build('e*1|2|3', g=[1, 1, 1])
A = e1 + 2*(e2 ^ e3)
B = e1 + 3*e2
assert (A / B) * B == A
''', 'operands that do not commute', 'A/B multiplies with the inverse on the wrong side')

bug('refl-grade', 'C09', [(MV, '''                if (grade * (blade_grade + 1)) % 2 == 0:
''', '''                if (min(grade, 2) * (blade_grade + 1)) % 2 == 0:
''')], HEAD + '''
ga, e1, e2, e3 = Ga.build('e*1|2|3', g=[1, 1, 1])
B = e1 ^ e2
x, y, z = e1 + e2, e2 - 2*e3, e3 + e1
r = lambda v: v.reflect_in_blade(B)
assert r(x ^ y ^ z) == r(x) ^ r(y) ^ r(z), r(x ^ y ^ z)
''', 'a multivector with a grade 3 part reflected in a blade of even grade', 'the reflection is not an outermorphism: the sign of the grade 3 part')

bug('mag2-pseudo', 'C10', [(MV, '''        for k in range(self.Ga.n + 1):
            total += Abs(self.grade(k).norm2())
''', '''        for k in range(self.Ga.n):
            total += Abs(self.grade(k).norm2())
''')], HEAD + '''
ga, e1, e2 = Ga.build('e*1|2', g=[1, -1])
M = 1 + 2*e1 + 3*(e1 ^ e2)
assert M.mag2() == 14, M.mag2()
''', 'a multivector with a pseudoscalar part', 'mag2 and mag ignore the pseudoscalar part')

bug('metric-dot', 'C12', [(MET, '''                for v1, v2, gii in zip(V1, V2, g):
                    dot += v1 * v2 * gii
''', '''                for v1, v2, gii in zip(V1, V2, g):
                    dot += v1 * v2 * abs(gii)
''')], HEAD + '''
from galgebra.metric import Metric
assert Metric.dot_orthogonal([1, 2], [3, 4], [1, -1]) == 3 - 8
''', 'embedding space of indefinite signature', 'the sign of the embedding metric is lost')

bug('conn-grade', 'C13', [(GA, '''        for i in range(grade):
            db += reduce(self.wedge, [
                self.indexes_to_blades_dict[index[:i]],
                self.de[ib][index[i]],
                self.indexes_to_blades_dict[index[i + 1:]]
            ])
''', '''        for i in range(grade):
            db += reduce(self.wedge, [
                self.de[ib][index[i]],
                self.indexes_to_blades_dict[index[:i] + index[i + 1:]]
            ]) * (-1) ** (i % 2 if grade < 3 else (i > 0))
''')], HEAD + '''
r, t, z = symbols('r t z', positive=True)
ga = Ga('e', g=[[1, r, 0], [r, 1 + r**2 + z**2, z], [0, z, 2 + r**2]], coords=(r, t, z))
a, b, c = ga.mv()
for x in (r, t, z):
    d = (a.diff(x) ^ b ^ c) + (a ^ b.diff(x) ^ c) + (a ^ b ^ c.diff(x))
    assert ((a ^ b ^ c).diff(x) - d).simplify() == 0
''', 'curvilinear coordinates and a blade of grade 3 or more whose third basis vector has a derivative', 'the product rule for the derivative of trivectors')

bug('dop-merge', 'C14', [(DOP, '''    for i in range(n):
        new_terms = []
        for k, term in enumerate(terms):
            dc = _basic_diff(term[0], x)
            pd = _basic_diff(term[1], x)
            # print 'D0, term, dc, pd =', D0, term, dc, pd
            if dc != 0:
                new_terms.append((dc, term[1]))
            if pd != 0:
                new_terms.append((term[0], pd))
        terms = new_terms
''', '''    new_terms = []
    for k, term in enumerate(terms):
        # Leibniz rule for the n-th derivative of coefficient * operator
        for i in range(n + 1):
            dc = _basic_diff(term[0], x, i) if i else term[0]
            pd = _basic_diff(term[1], x, n - i) if i < n else term[1]
            if dc != 0:
                new_terms.append((dc if i in (0, n) else 2 * dc, pd))
    terms = new_terms
''')], HEAD + '''
from galgebra.dop import Pdop, Sdop
x, y = symbols('x y', real=True)
f = Function('f')(x, y)
D = Sdop([(x**3 * y, Pdop(x)), (x, Pdop({}))])
for n in range(1, 5):
    P = Pdop({x: n})
    assert simplify((P * D)(f) - P(D(f))) == 0, n
''', 'a partial derivative of order 3 or more in one variable composed with an operator of variable coefficients', 'wrong binomial coefficients in the composition')

bug('sm-transpose', 'C17', [(GA, '''                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l]''', '''                            s += dxdu[k][i] * dxdu[k][j] * g_base[k, l]''')], HEAD + '''
x, y, u = symbols('x y u', real=True)
ga = Ga('e', g=[[2, 1], [1, 3]], coords=(x, y))
sm = ga.sm([u, u**2], (u,))
assert simplify(sm.g[0, 0] - (2 + 4*u + 12*u**2)) == 0, sm.g
''', 'submanifold of a manifold with non-orthogonal coordinates', 'the cross terms of the pulled back metric')
