From cbb7074d98b18ab04e72da6fe69cab91be2b36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 01/29] fix: Mv.pure_grade returns minus the maximum grade
 whatever the order of the terms

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..ba87aac 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1538,7 +1538,7 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From 095b8e7042fb4e81d46130e062c7164091a3ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 02/29] fix: operations on multivectors in base representation
 use the blade representation

---
 galgebra/ga.py |  2 +-
 galgebra/mv.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..b0c0b00 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,7 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
+            A = A.blade_rep()
             A.characterise_Mv()
             Aobj = expand(A.obj)
         else:
diff --git a/galgebra/mv.py b/galgebra/mv.py
index ba87aac..7c155a2 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -466,7 +466,8 @@ class Mv(printer.GaPrintable):
 
         b = copy.copy(self)
         b.obj = self.Ga.base_to_blade_rep(self.obj)
-        b.is_blade_rep = True
+        b.char_Mv = False  # grades are only known in the blade representation
+        b.characterise_Mv()
         return b
 
     def __hash__(self) -> int:
@@ -950,6 +951,9 @@ class Mv(printer.GaPrintable):
         """
         if self.blade_flg is not None:
             return self.blade_flg
+        if not self.is_blade_rep:
+            self.blade_flg = self.blade_rep().is_blade()
+            return self.blade_flg
         self.characterise_Mv()
         # Not grade-homogeneous → not a blade
         if self.i_grade is None:
@@ -1030,13 +1034,16 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
+        self = self.blade_rep()
         return self.Ga.scalar_part(self.obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
+        self = self.blade_rep()
         return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
+        self = self.blade_rep()
         cb = metric.linear_expand_terms(self.obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
@@ -1051,6 +1058,7 @@ class Mv(printer.GaPrintable):
         ValueError:
             If the multivector is not of the given grade.
         """
+        self = self.blade_rep()
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
         for coef, blade in metric.linear_expand_terms(self.obj):
@@ -1079,6 +1087,7 @@ class Mv(printer.GaPrintable):
             for blade in blade_lst:
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
+        self = self.blade_rep()
         blade_lst = [x.obj for x in blade_lst]
         coefs, bases = metric.linear_expand(self.obj)
         coef_lst = []
@@ -1094,6 +1103,7 @@ class Mv(printer.GaPrintable):
         Project multivector onto a given list of bases.  That is find the
         part of multivector with the same bases as in the bases_lst.
         """
+        self = self.blade_rep()
         bases_lst = [x.obj for x in bases_lst]
         obj = 0
         for coef, base in metric.linear_expand_terms(self.obj):
@@ -1126,10 +1136,12 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
+        self = self.blade_rep()
         return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
+        self = self.blade_rep()
         return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
@@ -1535,6 +1547,7 @@ class Mv(printer.GaPrintable):
         For pure grade return grade.  If not pure grade return negative
         of maximum grade
         """
+        self = self.blade_rep()
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-- 
2.43.0


From 26eb65a4c2aed8c1b992d0297ec3cace9682edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 03/29] fix: a scalar multivector equals an equal sympy
 expression however either is written

---
 galgebra/mv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 7c155a2..05c4c67 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -482,8 +482,13 @@ class Mv(printer.GaPrintable):
             diff = (self - A).expand().simplify()
             # diff = (self - A).expand()
             return diff.obj == S.Zero
+        elif not self.is_scalar():
+            return False
+        elif isinstance(A, (Expr, numbers.Number)):
+            # scalars are equal when their values are, however they are written
+            return self.obj == A or simplify(self.obj - A) == S.Zero
         else:
-            return self.is_scalar() and self.obj == A
+            return self.obj == A
 
     """
     def __eq__(self, A):
-- 
2.43.0


From 2a222efaa90cc3227b53055e9dd8a3059218e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 04/29] fix: Mv.inv raises for multivectors without an inverse
 instead of dividing by zero

---
 galgebra/mv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 05c4c67..ffcfc7d 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1418,21 +1418,19 @@ class Mv(printer.GaPrintable):
 
     def inv(self) -> 'Mv':
         if self.is_scalar():  # self is a scalar
+            if self.scalar() == S.Zero:
+                raise ValueError('!!!!In multivector inverse, A is zero!!!!')
             return self.Ga.mv(S.One/self.obj)
         self_sq = self * self
         if self_sq.is_scalar():  # self*self is a scalar
-            """
             if self_sq.scalar() == S.Zero:
                 raise ValueError('!!!!In multivector inverse, A*A is zero!!!!')
-            """
             return (S.One/self_sq.obj)*self
         self_rev = self.rev()
         self_self_rev = self * self_rev
         if self_self_rev.is_scalar():  # self*self.rev() is a scalar
-            """
             if self_self_rev.scalar() == S.Zero:
                 raise ValueError('!!!!In multivector inverse A*A.rev() is zero!!!!')
-            """
             return (S.One/self_self_rev.obj) * self_rev
         raise TypeError('In inv() for self =' + str(self) + 'self, or self*self or self*self.rev() is not a scalar')
 
-- 
2.43.0


From d3c5c66e49e0af5a6f4e58eba66e811373988ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 05/29] fix: Mv.shirokov_inverse is exact and handles dimension
 0

---
 galgebra/mv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index ffcfc7d..5d49582 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1443,13 +1443,14 @@ class Mv(printer.GaPrintable):
         exponent = (n + 1) // 2
         N = 2**exponent
         Uk = self
+        adjU = self.Ga.mv(S.One)
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
             Uk = -self * adjU
-        if Uk.scalar() == 0:
+        detU = (self * adjU).scalar()
+        if detU == 0:
             raise ValueError('Multivector has no inverse')
-        detU = -Uk.scalar()
         return adjU / detU
 
     def hitzer_inverse(self) -> 'Mv':
-- 
2.43.0


From 5ae6e89ff022bdef00f3f0b947004be1178c3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 06/29] fix: norms of multivectors whose quadratic form is not
 a polynomial

---
 galgebra/metric.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..520ecd4 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -9,7 +9,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol
+    Add, simplify, Expr, Abs, Function, MatrixSymbol, PolynomialError
 )
 
 from . import printer
@@ -159,7 +159,10 @@ def square_root_of_expr(expr, hint='0'):
         return sqrt(abs_with_hint(expr, hint))
     else:
         expr = trigsimp(expr)
-        coef, pow_lst = sqf_list(expr)
+        try:
+            coef, pow_lst = sqf_list(expr)
+        except PolynomialError:
+            return sqrt(abs_with_hint(expr, hint))  # not a polynomial
         if coef != S.One:
             if coef.is_number:
                 coef = square_root_of_expr(coef)
-- 
2.43.0


From 5b64e550b8ff39e828cbb6c076fbf933f61392a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 07/29] fix: normalising a metric does not modify the matrix it
 was given, immutable matrices are accepted

---
 galgebra/metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 520ecd4..804382c 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -12,6 +12,8 @@ from sympy import (
     Add, simplify, Expr, Abs, Function, MatrixSymbol, PolynomialError
 )
 
+from sympy.matrices import MatrixBase
+
 from . import printer
 from ._utils import cached_property as _cached_property
 from .atoms import (
@@ -790,8 +792,8 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
-                    self.g = g
+                if isinstance(g, MatrixBase):
+                    self.g = Matrix(g)  # copy, normalization changes self.g
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From 627b06b1f3b7b85aac196e845333c9ceb6be6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 08/29] fix: Metric.g_inv of an orthogonal metric

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 804382c..6714b1e 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -535,7 +535,7 @@ class Metric(object):
         if self.is_ortho:  # Orthogonal metric
             g_inv = eye(self.n)
             for i in range(self.n):
-                g_inv[i, i] = S.One/self.g(i, i)
+                g_inv[i, i] = S.One/self.g[i, i]
             return g_inv
         elif self.gsym is None:
             return simplify(self.g.inv())
-- 
2.43.0


From f7ef787299cf00ce8509f9a2245838fc014bb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 09/29] fix: Christoffel symbols of the second kind of a
 normalised basis

---
 galgebra/metric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 6714b1e..c56c2f5 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -584,12 +584,14 @@ class Metric(object):
         elif mode == 2:
             # TODO handle None
             Gamma1 = self.Christoffel_symbols(mode=1)
+            # dg and Gamma1 belong to the metric before normalization
+            g_inv = simplify(self.g_raw.inv()) if self.norm else self.g_inv
 
             # Christoffel symbols of the second kind, \Gamma_{ij}^{k} = \Gamma_{ijl}g^{lk}
             # \partial_{x^{i}}e_{j} = \Gamma_{ij}^{k}e_{k}
 
             def Gamma2_ijk(i, j, k):
-                return sum([Gamma_ijl * self.g_inv[l, k] for l, Gamma_ijl in enumerate(Gamma1[i][j])])
+                return sum([Gamma_ijl * g_inv[l, k] for l, Gamma_ijl in enumerate(Gamma1[i][j])])
 
             Gamma2 = [[[
                 Simp.apply(Gamma2_ijk(i, j, k))
-- 
2.43.0


From ba4e44571235ae0baae747fd8cc47d6965acaecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 10/29] fix: normalisation leaves null basis vectors alone
 instead of dividing by zero

---
 galgebra/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index c56c2f5..c0a8aa0 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -829,8 +829,9 @@ class Metric(object):
         if self.norm:  # normalize basis, metric, and derivatives of normalized basis
             if not self.is_ortho:
                 raise ValueError('!!!!Basis normalization only implemented for orthogonal basis!!!!')
+            # null basis vectors cannot be normalized, they are left as they are
             self.e_norm = [
-                square_root_of_expr(self.g[i, i])
+                square_root_of_expr(self.g[i, i]) if self.g[i, i] != 0 else S.One
                 for i in self.n_range
             ]
             if debug:
-- 
2.43.0


From 91dc84ce71f3d6a3a0b114285f2392075635419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 11/29] fix: the signature of a numeric orthogonal metric is
 computed

---
 galgebra/metric.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index c0a8aa0..2eea24a 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -840,12 +840,11 @@ class Metric(object):
         else:
             self.e_norm = None
 
-        if not self.g_is_numeric:
-            self.signature()
-            # Sign of square of pseudo scalar
-            self.e_sq_sgn = '+'
-            if ((self.n*(self.n-1))//2+self.sig[1]) % 2 == 1:
-                self.e_sq_sgn = '-'
+        self.signature()
+        # Sign of square of pseudo scalar
+        self.e_sq_sgn = '+'
+        if ((self.n*(self.n-1))//2+self.sig[1]) % 2 == 1:
+            self.e_sq_sgn = '-'
 
         if self.debug:
             print('signature =', self.sig)
-- 
2.43.0


From 726e9e160605409266ac9bb57c1511a11bf30e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 12/29] fix: the general symbolic metric g='g' is symmetric

---
 galgebra/metric.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 2eea24a..87cfc09 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -779,17 +779,17 @@ class Metric(object):
                 if g == 'g':  # general symbolic metric tensor (g_ij functions of position)
                     self.g = Matrix([
                         [
-                            Function('g_{}_{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
+                            Function('g_{}_{}'.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords)
+                            for j in self.n_range
                         ]
-                        for coord in self.coords
+                        for i in self.n_range
                     ])
                     self.g_inv = Matrix([
                         [
-                            Function('g__{}__{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
+                            Function('g__{}__{}'.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords)
+                            for j in self.n_range
                         ]
-                        for coord in self.coords
+                        for i in self.n_range
                     ])
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
-- 
2.43.0


From d75746cd7bfb239d1bee13287eb9e4d4237c33c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 13/29] fix: Ga.remove_scalar_part expands its argument, so
 unexpanded multivectors can be differentiated in curvilinear coordinates

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index b0c0b00..bcfcd36 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1705,8 +1705,8 @@ class Ga(metric.Metric):
         if isinstance(A, mv.Mv):
             return self.remove_scalar_part(A.obj)
         else:
+            A = expand(A)
             if isinstance(A, Add):
-                A = expand(A)
                 return sum([x for x in A.args if not x.is_commutative])
             elif isinstance(A, Symbol):
                 if A.is_commutative:
-- 
2.43.0


From 5022648715b4547cf1cce518f813bd99b872dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 14/29] fix: Mv.diff and Mv.pdiff in curvilinear coordinates,
 for base representations and for parameters that are not coordinates

---
 galgebra/ga.py | 5 +++--
 galgebra/mv.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index bcfcd36..1d464ac 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2040,9 +2040,10 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
-        dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
+        A = A.blade_rep() if isinstance(A, mv.Mv) else self.mv(A)
+        dA = self.mv(expand(diff(A.obj, coord)))
 
-        if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
+        if self.connect_flg and self.dslot == -1 and coord in self.coords and not A.is_scalar():  # Basis blades are function of coordinates
             B = self.remove_scalar_part(A)
             if B != S.Zero:
                 if isinstance(B, Add):
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5d49582..32d6dc9 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1195,6 +1195,7 @@ class Mv(printer.GaPrintable):
     # ## GSG code ends ###
 
     def diff(self, coord) -> 'Mv':
+        self = self.blade_rep()
         if self.Ga.coords is None:
             obj = diff(self.obj, coord)
         elif coord not in self.Ga.coords:
@@ -1207,15 +1208,15 @@ class Mv(printer.GaPrintable):
                 for x_coord in self.Ga.coords:
                     f = self.Ga.par_coords[x_coord]
                     if f != S.Zero:
-                        tmp1 = self.Ga.pDiff(self.obj, x_coord)
+                        tmp1 = self.Ga.pDiff(self, x_coord).obj
                         tmp2 = diff(f, coord)
                         obj += tmp1 * tmp2
         else:
-            obj = self.Ga.pDiff(self.obj, coord)
+            return self.Ga.pDiff(self, coord)
         return Mv(obj, ga=self.Ga)
 
     def pdiff(self, var) -> 'Mv':
-        return Mv(self.Ga.pDiff(self.obj, var), ga=self.Ga)
+        return self.Ga.pDiff(self, var)
 
     def Grad(self, coords, mode: str = '*', left: bool = True) -> 'Mv':
         """
-- 
2.43.0


From 46aaa7adf61051e63de1a390607d7f98d103087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 15/29] fix: Dop.components, TSimplify and == respect the side
 a differential operator acts on

---
 galgebra/mv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 32d6dc9..61e3763 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1821,8 +1821,8 @@ class Dop(dop._BaseDop):
 
     def TSimplify(self):
         return Dop([
-            (metric.Simp.apply(coef), pdiff) for coef, pdiff in self.terms
-        ], ga=self.Ga)
+            (coef.simplify(modes=metric.Simp.modes), pdiff) for coef, pdiff in self.terms
+        ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
@@ -1857,7 +1857,7 @@ class Dop(dop._BaseDop):
 
     def __eq__(self, other):
         if isinstance(other, Dop):
-            if self.Ga != other.Ga:
+            if self.Ga != other.Ga or self.cmpflg != other.cmpflg:
                 return NotImplemented
 
             diff = self - other
@@ -1873,7 +1873,7 @@ class Dop(dop._BaseDop):
 
     def components(self) -> Tuple['Dop', ...]:
         return tuple(
-            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga)
+            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga, cmpflg=self.cmpflg)
             for sdop, base in self.Dop_mv_expand()
         )
 
-- 
2.43.0


From 56af547ac0cd0bc6a29f9f5e0034b1bd13faa786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 16/29] fix: Lt from a dictionary maps missing basis vectors to
 zero and accepts multivectors

The documentation, printing and addition take a basis vector without an entry
to be mapped to zero, but evaluation left it unchanged and matrix() raised
KeyError.  Multivector values were stored as they came, which made evaluation
on anything but a vector fail.
---
 galgebra/lt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..7aa92f9 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -306,8 +306,14 @@ class Lt(printer.GaPrintable):
         self.Vqform = None
 
         if isinstance(mat_rep, dict):         # Dictionary input
-            for key in mat_rep:
-                self.lt_dict[key] = mat_rep[key]
+            # Basis vectors which are not in the dictionary are mapped to zero.
+            self.lt_dict = {base: S.Zero for base in self.Ga.basis}
+            for key, value in mat_rep.items():
+                if isinstance(key, mv.Mv):
+                    key = key.obj
+                if isinstance(value, mv.Mv):
+                    value = value.obj
+                self.lt_dict[key] = value
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From e1664f210f159b53565c02261d6cb7333a698da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 17/29] fix: adding and subtracting Lt built from a versor

lt_dict was an immutable sympy Dict, so __add__ and __sub__ raised
NotImplementedError.
---
 galgebra/lt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 7aa92f9..c0cab69 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -347,7 +347,8 @@ class Lt(printer.GaPrintable):
             Vg_invol = V.g_invol()
             Vinv = V.inv()
             outermorphism = ga.lt(lambda x: Vg_invol * x * Vinv)
-            self.lt_dict = simplify(outermorphism.lt_dict)
+            # `simplify` returns an immutable sympy `Dict`
+            self.lt_dict = dict(simplify(outermorphism.lt_dict))
         # ## GSG code ends ###
 
         # ## GSG code starts ###
-- 
2.43.0


From 24d7b7956f1b5b56c180586ce4756975ed2bb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 18/29] fix: Lt applied to a multivector in the base
 representation

mv_dict maps blades, so products of basis vectors were not mapped.
---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c0cab69..8ae94a6 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -434,7 +434,7 @@ class Lt(printer.GaPrintable):
                 else:
                     return mv.Mv(lt_M, ga=self.Ga)
             else:
-                mv_obj = M.obj
+                mv_obj = M.blade_rep().obj
         else:
             mv_obj = mv.Mv(M, ga=self.Ga).obj
 
-- 
2.43.0


From 5f66c98de40d76e9e92c744a4b7b7f312600229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 19/29] fix: trace of a linear transformation that depends on
 the coordinates

tr() took the divergence of L applied to the coordinate vector.  That
differentiates the coefficients of L too and, in curvilinear coordinates, the
coordinates are not the components of a position vector, so the result was not
the trace (for example 1 + 1/r for the identity in normalised polar
coordinates).  It also needed coordinates.
---
 galgebra/lt.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 8ae94a6..2a04454 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -509,18 +509,16 @@ class Lt(printer.GaPrintable):
         return (self(self.Ga.e) * self.Ga.e.inv()).scalar()
     # ## GSG code ends ###
 
-    def tr(self) -> Expr:  # tr(L) defined by tr(L) = grad|L(x)
+    def tr(self) -> Expr:  # tr(L) defined by tr(L) = grad_a|L(a)
         r"""
         Returns the trace (a scalar) of the linear transformation,
         :math:`L`, defined by :math:`{{\operatorname{tr}}\lp {L} \rp }=\nabla_{a}\cdot{{L}\lp {a} \rp }`
         where :math:`a` is a vector in the tangent space.
         """
-        connect_flg = self.Ga.connect_flg
-        self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
-        return tr_F
+        tr = S.Zero
+        for e, r in zip(self.Ga.mv(), self.Ga.mvr()):
+            tr += (r | self(e)).scalar()
+        return tr
 
     r'''
     def adj(self) -> 'Lt':
-- 
2.43.0


From 5fdbfd3e255c657e53e4d208efac4d5515cf2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 20/29] fix: Mlt from a string uses its own argument slots only

The slots are shared by all multilinear functions of an algebra, so after one
with more arguments the coefficients were paired with the wrong products.
---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 2a04454..09686c2 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -833,7 +833,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From 50c4bfe258a93fbbaf066b79260525f0511f81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 21/29] fix: Mlt evaluation with a basis that is not orthogonal

The components of the arguments were taken with r_basis_mv, which is not
normalised for such a basis, so the value was multiplied by e_sq for every
argument.
---
 galgebra/lt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 09686c2..0cc5380 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -868,8 +868,7 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
-                    sub_lst.append((aij, (r_base | x).scalar()))
+                sub_lst += list(zip(ai, x.get_coefs(1)))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
     def __add__(self, X):
-- 
2.43.0


From ca94e692b835ede0a62fb11cda864b65a483cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 22/29] fix: arithmetic of vector valued Mlt

A result with a vector value was passed to the constructor, which takes a
vector to be the linear form f | a, so sums, differences, scalar multiples,
products and derivatives of vector valued functions were wrong.
---
 galgebra/lt.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 0cc5380..a1f2255 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -871,10 +871,17 @@ class Mlt(printer.GaPrintable):
                 sub_lst += list(zip(ai, x.get_coefs(1)))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
+    def _new(self, fvalue, Ga, nargs):
+        # Multilinear function with the value `fvalue` for the slot variables.
+        # The constructor takes a vector `fvalue` to be a linear form instead.
+        new = Mlt(S.Zero, Ga, nargs)
+        new.fvalue = fvalue
+        return new
+
     def __add__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue + X.fvalue, self.Ga, self.nargs)
+                return self._new(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt add number of args not the same\n')
         else:
@@ -883,7 +890,7 @@ class Mlt(printer.GaPrintable):
     def __sub__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue - X.fvalue, self.Ga, self.nargs)
+                return self._new(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt sub number of args not the same\n')
         else:
@@ -896,32 +903,32 @@ class Mlt(printer.GaPrintable):
             self_args = self.Ga._mlt_a[:self.nargs]
             X_args = X.Ga._mlt_a[self.nargs:nargs]
             value = (self(*self_args) * X(*X_args)).expand()
-            return Mlt(value, self.Ga, nargs)
+            return self._new(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return self._new(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return self._new(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return self._new(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return self._new(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return self._new(X * self.fvalue, self.Ga, self.nargs)
 
     def dd(self):
         Mlt.increment_slots(self.nargs + 1, self.Ga)
         dd_fvalue = (self.Ga._mlt_a[self.nargs] | self.Ga.grad) * self.fvalue
-        return Mlt(dd_fvalue, self.Ga, self.nargs + 1)
+        return self._new(dd_fvalue, self.Ga, self.nargs + 1)
 
     def pdiff(self, slot: int):
         r"""
-- 
2.43.0


From c693cd7265bf4d032ea942a66d5a9e7be7301f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 23/29] fix: outer and inner product of scalar valued Mlt

The values are sympy expressions, which do not have these products.
---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index a1f2255..6f75379 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -911,7 +911,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
             return self._new(value, self.Ga, nargs)
         else:
             return self._new(X * self.fvalue, self.Ga, self.nargs)
@@ -920,7 +920,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) | X(*X.Ga._mlt_a[self.nargs:nargs])
             return self._new(value, self.Ga, nargs)
         else:
             return self._new(X * self.fvalue, self.Ga, self.nargs)
-- 
2.43.0


From dcb9983fdce600d780fd9be4f391ce51295974d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 24/29] fix: Mlt.contract and Mlt.pdiff differentiate with
 respect to the slot vectors

They set Ga.dslot and applied Ga.grad, which differentiates with respect to the
coordinates whatever dslot is, so the contraction of a constant tensor was 0.
dslot also stayed set, which switched off the derivatives of the basis vectors
in curvilinear coordinates for the rest of the session.
---
 galgebra/lt.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 6f75379..6bfb296 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -938,8 +938,11 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
-        self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        value = self.Ga.mv(self.fvalue)
+        return sum((
+            r_base * value.diff(aij)
+            for r_base, aij in zip(self.Ga.mvr(), self.Ga._mlt_pdiffs[slot - 1])
+        ), self.Ga.mv(S.Zero))
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -963,11 +966,12 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
-        grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+        grad_self = self.pdiff(min_slot)
+        grad_self = self.Ga.mv(Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga))
+        div_grad_self = sum((
+            r_base | grad_self.diff(aij)
+            for r_base, aij in zip(self.Ga.mvr(), self.Ga._mlt_pdiffs[max_slot - 2])
+        ), self.Ga.mv(S.Zero))
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
         return Mlt(div_grad_self, self.Ga, cnargs)
 
-- 
2.43.0


From b7791c806aa9da9d06dc4ab05b853eaace7e8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 25/29] fix: Mlt.expand for multivector valued tensors

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 6bfb296..694f9d2 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -998,7 +998,7 @@ class Mlt(printer.GaPrintable):
         return CD
 
     def expand(self):
-        self.fvalue = expand(self.fvalue)
+        self.fvalue = self.fvalue.expand()
         return self
 
     def comps(self):
-- 
2.43.0


From 4f1d123571a42e3b63f872afd4ae69907deef2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 26/29] fix: submanifold defined by a vector function

The metric was stored in self.g while the constructor went on with an
undefined local g, so every such submanifold raised UnboundLocalError.
---
 galgebra/ga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 1d464ac..c7e75cc 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2287,13 +2287,13 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
+            g = []
             for b1 in self.ebasis:
                 # Metric tensor from dot products of basis vectors
                 tmp = []
                 for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+                    tmp.append(trigsimp((b1 | b2).scalar()))
+                g.append(tmp)
 
         else:
 
-- 
2.43.0


From 2569e4a1ec80f4d3c2174227f60a9419bf8554fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 27/29] fix: submanifold whose coordinates are also coordinates
 of the base manifold

The metric of the base manifold was substituted one coordinate after the
other, so for the map (x, y) -> (y, x) the second substitution undid the first.
---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index c7e75cc..c17eb1d 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2319,7 +2319,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From e7cb57c79ac1cbb5441f6cdc9f201dfe5be889c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 28/29] fix: GAeval with chains of <, >, | and with several
 brackets

Chains such as a|b|c were bracketed in pairs, (a|b)|c^d as (a|b)|(c^d); a string
whose first and last character are brackets that do not belong together, as in
a<b*c>d after the first step, raised 'Mismatched Parenthesis'; and the brackets
of a group such as (a|b+c|d) were dropped, so (a|b+c|d)*e became
(a|b)+(c|d)*e.
---
 galgebra/_utils/parser.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d790a3d..1212f64 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -8,7 +8,7 @@ from typing import List
 _operand_re = r"([A-Za-z0-9\_\#]+)"
 
 _operator_res = {
-    '<>|': re.compile(r'(ARG(\||<|>)ARG)'.replace('ARG', _operand_re)),
+    '<>|': re.compile(r'(ARG(\||<|>)ARG((\||<|>)ARG)*)'.replace('ARG', _operand_re)),
     '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
     '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
 }
@@ -107,25 +107,44 @@ def _parse_paren(line):
     return level_lst
 
 
+def _is_enclosed(line):  # first character opens the parenthesis that the last one closes
+    if not (line.startswith('(') and line.endswith(')')):
+        return False
+    level = 0
+    for ch in line[:-1]:
+        if ch == '(':
+            level += 1
+        elif ch == ')':
+            level -= 1
+        if level == 0:
+            return False
+    return True
+
+
 def _unparse_paren(level_lst):
     line = level_lst[0][0][0]
     for level in level_lst[1:]:
         for group in level:
             new_string = group[-1]
-            if new_string[:2] == '((' and new_string[-2:] == '))':
+            if _is_enclosed(new_string) and _is_enclosed(new_string[1:-1]):
                 new_string = new_string[1:-1]
             line = line.replace(group[-2], new_string)
     return line
 
 
 def _sub_paren(s):
-    string = s.group(0)
-    return '(%s)' % string
+    # left associative, also for operators that python treats otherwise
+    operands = re.findall(_operand_re, s.group(0))
+    operators = re.findall(r'[^A-Za-z0-9_#]', s.group(0))
+    string = operands[0]
+    for operator, operand in zip(operators, operands[1:]):
+        string = '(%s%s%s)' % (string, operator, operand)
+    return string
 
 
 def _add_paren(line, re_exprs):
     paren_flg = False
-    if (line[0] == '(') and (line[-1] == ')'):
+    if _is_enclosed(line):
         paren_flg = True
         line = line[1:-1]
     if ('(' in line) or (')' in line):
-- 
2.43.0


From 913b078edbb43d6cfc3562340e8927581ba441f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 29/29] fix: Cl with one basis vector

'e*1' is the basis of one vector numbered from 0 and 'e*0' the empty basis, so
Cl(1) returned a vector named e_0 instead of e_1 and kingdon.Cl(1) an algebra
without basis vectors.
---
 galgebra/interop/_cl.py     | 5 ++++-
 galgebra/interop/kingdon.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 3d11e94..6e2483c 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -68,7 +68,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (1-indexed)
-    if n <= 9:
+    if n == 1:
+        # 'e*1' would be a count of indices, not an index
+        basis = root + '_1,'
+    elif n <= 9:
         basis = root + '*' + '|'.join(str(i + 1) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index bd73e47..42a207e 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -77,7 +77,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (0-indexed, matching kingdon)
-    if n <= 10:
+    if n == 1:
+        # 'e*1' would be a count of indices, not an index
+        basis = root + '_0,'
+    elif n <= 10:
         basis = root + '*' + '|'.join(str(i) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i) for i in range(n))
-- 
2.43.0

