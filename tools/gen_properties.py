#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['observe_at'] = observe or []
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

GA, MV, ME, DO, LT = ['galgebra/%s.py' % x for x in ('ga', 'mv', 'metric', 'dop', 'lt')]

p('C01', 'The geometric product is the Clifford product of the stated metric',
  'For every metric (diagonal or not, indefinite or degenerate, numeric or symbolic) and all multivectors A, B, C, '
  'the geometric product A*B equals the Clifford product determined by that metric: it is bilinear, associative, has '
  '1 as unit, satisfies (A*B).rev() == B.rev()*A.rev(), and v*v is the metric\'s v.v for every vector v. '
  'The product of any basis vectors in any order, with any repetition, is the fully reduced blade sum of that algebra.',
  ['inputs', 'configurations'],
  'all coefficient values of both operands, all metric entries, all grades and all ordered pairs of basis blades',
  'Tests multiply a few fixed operands in a few fixed algebras; a sign or metric factor wrong for one pair of blades, '
  'one kind of metric or one coefficient pattern is outside their samples.',
  [GA, MV], [('product tables of basis blades and their bilinear extension', 'ga.py: product function classes, reduce_basis'),
             ('operator on multivectors', 'mv.py: Mv.__mul__, Mv.__rmul__')], None, ['A*B', 'ga.mul'])
p('C02', 'The outer product is metric-free, associative and graded-anticommutative',
  'For all multivectors, A^B equals the exterior product of the basis expansions: it does not depend on the metric, is bilinear and '
  'associative, a grade-r with a grade-s operand gives only grade r+s with A^B == (-1)^(rs) B^A, and v^v is 0. '
  'A scalar operand acts as ordinary multiplication, and the wedge of n vectors of an n-dimensional space is their determinant times '
  'the wedge of the basis vectors.',
  ['inputs', 'configurations'],
  'all coefficient values, all metrics including non-orthogonal and degenerate ones, all pairs of basis blades',
  'The suite checks selected wedges; the sign for every ordering of every blade pair and independence from the metric cannot be sampled.',
  [GA, MV], [('wedge table', 'ga.py: _WedgeProductFunction, blade_reduce'), ('operator', 'mv.py: Mv.__xor__')])
p('C03', 'Inner products and contractions are the stated grade parts of the product',
  'For all multivectors A, B with grade parts A_r, B_s: A<B is the sum of the grade s-r parts of A_r*B_s, A>B of the grade r-s parts, '
  'A|B of the grade |r-s| parts where r and s are both nonzero, and the scalar product is the grade 0 part of A*B (or rev(A)*B); this holds '
  'equally for orthogonal and non-orthogonal metrics. The commutator A>>B is (AB-BA)/2 and the anticommutator A<<B is (AB+BA)/2.',
  ['inputs', 'configurations'],
  'all coefficient values, all grade pairs, all metrics (orthogonal and non-orthogonal use different algorithms)',
  'Two unrelated algorithms are used depending on the metric and tests compare only few operands; a wrong grade rule or sign for one blade pair escapes.',
  [GA, MV], [('grade selecting products, orthogonal and non-orthogonal variants', 'ga.py: _SingleGradeProductFunction and subclasses'),
             ('operators', 'mv.py: Mv.__or__, __lt__, __gt__, __lshift__, __rshift__, sp')])
p('C04', 'Grade parts, parity parts, involutions and coefficients partition a multivector',
  'For every multivector M the grade parts sum to M and each has only its own grade, even plus odd part is M, components, coefficient lists and '
  'projection onto chosen blades reassemble exactly the selected part, and the reported grades, pure grade and scalar/vector/base/blade predicates '
  'agree with the coefficients that are nonzero. Reversion, grade involution and Clifford conjugation multiply the grade-r part by (-1)^(r(r-1)/2), '
  '(-1)^r and (-1)^(r(r+1)/2). Every constructor (scalar, vector, bivector, grade, pseudo, even, odd, mv; from name or from '
  'coefficients) yields exactly the announced blades with the announced coefficients.',
  ['inputs'], 'all coefficient values (zero ones included), all grades, all constructors, dimensions up to the bound',
  'Tests construct a few dense examples; which coefficients happen to be zero, and each grade\'s sign, vary over every subset of blades.',
  [MV, GA], [('characterisation and grade extraction', 'mv.py: characterise_Mv, grade, get_coefs, blade_coefs, proj, even, odd, rev, g_invol, ccon; ga.py: grades, get_grade, reverse, even_odd'),
             ('constructors', 'mv.py: Mv._make_*')],
  [('cached grade information', 'per-multivector flags describing which grades are present', 'mv.py')])
p('C05', 'Base and blade representations denote the same multivector',
  'In any metric, converting a multivector from the blade to the base (geometric product of basis vectors) representation and back returns the same multivector, '
  'each base equals the geometric product of its basis vectors, and every operation gives the same multivector whichever representation its operands are in.',
  ['inputs', 'configurations'], 'all coefficient values, all non-orthogonal metrics, all blades, both representations of each operand',
  'Base representation arithmetic only matters for non-orthogonal metrics and is rarely exercised; wrong expansion coefficients of one high-grade blade are not sampled.',
  [GA, MV], [('expansion dictionaries', 'ga.py: blade_expansion_dict, base_expansion_dict, base_to_blade_rep, blade_to_base_rep, reduce_basis_loop'),
             ('representation handling', 'mv.py: base_rep, blade_rep, _arithmetic_op')])
p('C06', 'Multivector arithmetic is a module over scalars and never mutates its operands',
  'Addition, subtraction, negation, multiplication and division by scalars (on either side, as number, symbolic expression or scalar multivector), integer powers and '
  'equality obey the usual algebraic laws for all multivectors: equality holds exactly when all coefficients agree, and A**n is the n-fold product. '
  'No operation changes the value of its operands, module-level functions return the same as the corresponding methods, and combining multivectors of different algebras raises an error.',
  ['inputs', 'histories'], 'all coefficient values, both operand orders, scalar and multivector operand kinds, all operators',
  'The laws range over all operands and operand kinds; tests pick single cases and never check that operands survive every operator.',
  [MV], [('operators and reflected operators', 'mv.py: Mv._arithmetic_op, __mul__, __rmul__, __truediv__, __pow__, __eq__'), ('module functions', 'mv.py: dual, even, odd, rev, sp, ...')])
p('C07', 'An inverse that is returned is a two-sided inverse',
  'Whenever inversion, division or a negative power of a multivector returns a result X for M (by the default, Shirokov or Hitzer method), M*X and X*M are exactly 1, for every M '
  'and every metric; when no inverse exists, or the method does not apply, an error is raised. The methods agree wherever more than one applies, and every '
  'non-null vector and product of such vectors is inverted.',
  ['inputs', 'configurations'], 'all coefficient values on both sides of every null/non-null case split, dimensions 1 to 5',
  'Inversion branches on whether combinations of coefficients vanish; the vanishing cases are measure-zero sets tests hit only by luck.',
  [MV], [('inverse algorithms', 'mv.py: Mv.inv, shirokov_inverse, hitzer_inverse, __truediv__, __pow__')])
p('C08', 'Duality is multiplication by the (inverse) pseudoscalar in every mode',
  'For every multivector A, metric with nonzero determinant and each of the eight dual modes, the dual is the product with plus or minus I or its inverse on the side the mode names, and undual(dual(A)) == dual(undual(A)) == A. '
  'E is the wedge of the basis vectors, I is the multiple of E whose square is +1 or -1, and dual maps grade r to grade n-r.',
  ['inputs', 'configurations', 'histories'], 'all coefficient values, all eight modes and sequences of mode changes, all signatures and non-orthogonal metrics',
  'Eight modes times signature times dimension parity times operands: tests cover one Euclidean case per mode.',
  [MV, GA], [('dual/undual', 'mv.py: Mv.dual, Mv.undual; ga.py: Ga.dual_mode'), ('pseudoscalars', 'ga.py: E, I, e_sq')],
  [('dual mode', 'selected convention, shared by all algebras', 'ga.py: Ga.dual_mode_value')])
p('C09', 'Projection, reflection and rotation in blades follow their defining laws',
  'For every multivector X and invertible blade B, projection is (X<B)*inverse(B): idempotent and inside B; reflection keeps the part of a vector inside B, negates the part orthogonal to B, preserves squares, extends to wedges and is its own inverse; null and non-blades are rejected; '
  'rotation by a plane leaves scalars fixed, preserves inner products of vectors, equals R*X*rev(R) with the rotor of the stated angle, and composes additively in the angle.',
  ['inputs', 'configurations'], 'all coefficient values of X and B, all grades, Euclidean and indefinite metrics',
  'Tests sample a handful of geometric configurations.',
  [MV], [('projection, reflection, rotation', 'mv.py: project_in_blade, reflect_in_blade, rotate_multivector, proj, refl, rot')])
p('C10', 'Exponentials, norms and magnitudes satisfy their defining identities',
  'For every multivector A whose square is a scalar, exp(A) is the power-series exponential (circular, hyperbolic or 1+A as the square is negative, positive or zero), so exp(A)*exp(-A) == 1 and its derivative along A is A*exp(A). '
  'The quadratic form is the scalar part of rev(A)*A, norm2 is its absolute value, norm its nonnegative square root, mag2 and mag likewise from the sum over grades, for every sign of the square and every hint that is correct.',
  ['inputs', 'configurations'], 'all coefficient values including those making the square positive, negative or zero; all metrics',
  'Branches depend on the sign of symbolic squares; tests use a few bivectors.',
  [MV, ME], [('exponential', 'mv.py: Mv.exp'), ('norms', 'mv.py: qform, norm2, norm, mag2, mag; metric.py: square_root_of_expr, abs_with_hint')])
p('C11', 'Reciprocal frames are dual to their bases',
  'For every metric with nonzero determinant, the reciprocal basis vectors satisfy e^i . e_j = 1 if i=j else 0 (after dividing by the documented common factor when unnormalised), the inverse metric is the matrix inverse of the metric, '
  'and the reciprocal of each basis blade is dual to it under the scalar product. For every independent list of vectors the reciprocal frame of the list has the same property inside their span.',
  ['inputs', 'configurations'], 'all symbolic metrics and all lists of vectors up to the dimension bound, normalised and unnormalised modes',
  'Tests check few fixed frames.',
  [GA], [('reciprocal basis', 'ga.py: r_basis, e_sq, g_inv, mvr, _reciprocal_of_basis_blade'), ('frames', 'ga.py: ReciprocalFrame')])
p('C12', 'The metric and derived geometry are those of the specification',
  'The metric built from a string, number list, matrix or embedding vector is symmetric and equals the specification (for an embedding X(u): g_ij = dX/du_i . dX/du_j), with determinant and orthogonality flag agreeing with it; the signature of a nondegenerate numeric orthogonal metric is counted, otherwise it is the hint given. '
  'Christoffel symbols of both kinds equal their textbook formulas, and the derivative of each basis vector is the corresponding connection combination. With normalisation the basis vectors have square +1, 0 or -1, their norms are the recorded scale factors and geometry is unchanged.',
  ['inputs', 'configurations'], 'all metric specifications up to the dimension bound, metric entries being arbitrary functions of the coordinates',
  'Coordinate dependent metrics are infinitely many; tests use spherical-like examples only.',
  [ME, GA], [('construction', 'metric.py: Metric.__init__, metric_symbols_list, dot_orthogonal'), ('connection', 'metric.py: derivatives_of_g, dg, de, Christoffel_symbols, normalize_metric; ga.py: _update_de_from_rbasis')])
p('C13', 'The vector derivative of multivector fields is coordinate independent',
  'For all differentiable multivector fields, grad*F is sum of reciprocal vector times coordinate derivative (reverse order for the right acting rgrad), the partial derivative is linear and obeys the product rule for every product, '
  'grad^(grad^F) is 0, and grad|F, grad^F, grad<F, grad>F are the corresponding parts. In curvilinear coordinates, orthogonal or not and normalised or not, the basis vectors are differentiated too, so results equal those computed in Cartesian components.',
  ['inputs', 'configurations'], 'all coefficient functions (arbitrary functions of the coordinates), flat and curvilinear coordinate systems',
  'Statements are about arbitrary functions; tests differentiate particular ones.',
  [GA, MV], [('partial derivative', 'ga.py: Ga.pDiff; mv.py: Mv.diff, pdiff'), ('grad operators', 'ga.py: make_grad, grads; mv.py: Dop.Mul')])
p('C14', 'Differential operators form an algebra acting on multivector fields',
  'For all multivector differential operators D1, D2 (constant or variable coefficients, any order) and every field F: (D1+D2)F = D1 F + D2 F, (c D)F = c (D F), and (D1 x D2)F = D1 x (D2 F) for every product x for which this is an identity. '
  'Equality of operators is equality of their action; simplification, negation, subtraction, consolidation, components and scalar operators never change the action, partial derivatives commute, and left and right acting operators keep their side.',
  ['inputs', 'configurations'], 'all coefficient and argument functions; all orders up to the bound; left and right acting operators',
  'Needs all functions and all combinations; tests check a few.',
  [DO, MV], [('operator composition', 'mv.py: Dop.Add, Dop.Mul, consolidate_coefs; dop.py: Sdop, Pdop, _eval_derivative_n_times')])
p('C15', 'Linear transformations act as outermorphisms with correct matrix and invariants',
  'For every linear transformation L, however constructed (matrix, dictionary, list of images, function, rotor, symbolic name), L(aX+bY) = aL(X)+bL(Y), L(A^B) = L(A)^L(B), scalars are fixed, and its matrix is the one acting on basis coordinates. '
  'Sums, differences, scalar multiples and compositions act pointwise; det is the factor on the pseudoscalar and is multiplicative, trace is the matrix trace, the adjoint satisfies a.L(b) = adj(L)(a).b in any metric, inv inverts L when it is not singular, and a versor V acts by V.g_invol()*x*V.inv(), which for a rotor is R*x*rev(R).',
  ['inputs', 'configurations'], 'all matrix entries, all multivectors, orthogonal and non-orthogonal metrics',
  'Identities range over all matrices, multivectors and metrics; tests sample, mostly Euclidean.',
  [LT], [('linear transformation', 'lt.py: Lt.__init__, __call__, __add__, __sub__, __mul__, det, tr, adj, inv, matrix, is_singular')])
p('C16', 'Multilinear functions are multilinear and their operations act pointwise',
  'For every multilinear function built from a linear form on the basis or a function of vectors, evaluation at vectors is linear in each argument and equals the defining expression; '
  'sums, differences, scalar multiples and tensor products evaluate pointwise, and components equal evaluation at basis vectors.',
  ['inputs', 'histories'], 'all argument vectors, all coefficient values, ranks one to three, in any order of construction',
  'Tests only print a few tensors.',
  [LT], [('multilinear functions', 'lt.py: Mlt.__init__, __call__, __add__, __sub__, __mul__, __xor__, __or__, comps')],
  [('differentiation slots', 'argument vectors shared by all multilinear functions of an algebra', 'lt.py: Ga._mlt_a, _mlt_pdiffs')])
p('C17', 'A submanifold inherits the metric and operations of its embedding',
  'For every embedding given by coordinate maps or by a vector function, the metric of the submanifold is the pullback of the ambient metric along the embedding, its basis vectors are the tangent vectors, and its own products, '
  'gradient and derivatives agree with the ambient ones restricted to the tangent space.',
  ['inputs', 'configurations'], 'all embedding functions, ambient metrics up to the bound',
  'Tests use a sphere.',
  [GA], [('submanifold', 'ga.py: Sm.__init__, vpds')])
p('C18', 'Expression strings are evaluated with the declared operator precedence',
  'For every expression built from names, +, -, the products, and parentheses and every declared precedence order, evaluating the string gives the value of the fully parenthesised expression in that precedence '
  '(left associative within a level), and brackets written by the user are respected.',
  ['programs', 'inputs'], 'all expressions up to the size bound and all values of the operands, all precedence orders',
  'Grammar is infinite; tests check a few strings.',
  ['galgebra/printer.py', 'galgebra/_utils/parser.py'], [('parser', '_utils/parser.py: parse_line; printer.py: def_prec, GAeval')],
  [('precedence', 'global operator order and name environment', 'printer.py: def_prec')])
p('C19', 'Printed multivectors and operators denote their value',
  'For every multivector, in each format, plain and LaTeX output denotes exactly the multivector printed: reading the text back as a sum of coefficient times blade gives the original, with every sign, coefficient, bracket and blade kept and nothing lost. '
  'Changing the format, or printing, never changes the value.',
  ['inputs', 'configurations'], 'all coefficient shapes and values up to the bound; all formats; text and LaTeX',
  'Sign, bracket and unit-coefficient rules depend on the coefficient shape; tests compare fixed outputs.',
  [MV, 'galgebra/printer.py', 'galgebra/atoms.py'], [('multivector printers', 'mv.py: _sympystr, _latex; printer.py: GaPrinter, GaLatexPrinter, Fmt')])
p('C20', 'Results do not depend on what was computed before',
  'Any operation on given operands returns the same value whatever sequence of other operations, on the same or other algebras, was executed before, in particular regardless of the order in which internal tables are filled, which formats, dual modes that were restored, or derived objects were used, '
  'and repeating an operation returns the same value.',
  ['histories', 'inputs'], 'all short sequences of operations before the observed one, all coefficient values',
  'Caches and shared state are filled in the order of use; tests use one order each.',
  [GA, MV, LT], [('lazy tables', 'ga.py: lazy_dict, cached_property'), ('shared state', 'ga.py: Ga.dual_mode_value, Simp modes, lt.py: Mlt slots')],
  [('caches', 'lazily filled product, expansion and reciprocal tables', 'ga.py')])
p('C21', 'Ready-made algebra factories have the requested signature',
  'For all counts p, q, r the Cl(p,q,r) factory returns an algebra with exactly p basis vectors of square +1, q of -1, r of 0, mutually orthogonal, named in the order the convention documents, '
  'and the returned basis is the algebra\'s basis.',
  ['configurations'], 'all p, q, r with p+q+r up to the bound, all conventions',
  'Tests check a few signatures.',
  ['galgebra/interop/_cl.py', 'galgebra/interop/kingdon.py'], [('factories', 'interop/_cl.py: Cl, interop/kingdon.py: Cl')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
