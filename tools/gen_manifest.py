#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(here, 'checks', i + '.py')
    if os.path.exists(f) and i not in NOT:
        bounds = ''
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id == 'BOUNDS':
                bounds = ast.literal_eval(n.value)
        checks.append(dict(
            property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique='symbolic execution of the current galgebra source on sympy/z3 variables; z3 decides the negated property (bounded)',
            level='other',
            level_note='Bounded solver check: for the enumerated structures (%s) z3 decides each claim for all real values of the symbolic inputs; '
                       'counterexamples are replayed on the unmodified library before they are reported. Trusted: CPython, sympy arithmetic, z3, '
                       'the small reference algebra in vs/ref.py, real (not floating point) semantics.' % bounds))
    else:
        na.append(dict(property=i, reason=NOT.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Run ./check <ID> [quick|thorough] [task substring].'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
