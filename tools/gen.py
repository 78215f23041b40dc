#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when contracts/<id>*.cc exists)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
N='include/ftk/numeric/'; M='include/ftk/mesh/'; A='include/ftk/algorithms/'; ND='include/ftk/ndarray.hh'
P = []
def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), note='', na=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None), _note=note, _na=na, _level=level))

prop('C10', 'Small matrix and vector kernels satisfy their algebraic definitions',
 'For every real input, determinants, traces, adjugates, products, sums, transposes, decompositions, norms, inner/cross/quaternion products and characteristic polynomials of the fixed-size (2x2 to 4x4) kernels equal their textbook definitions. Inverses and linear solvers satisfy A*inv(A)=I and A*x=b and return the determinant whenever it is nonzero; least-squares solutions satisfy the normal equations.',
 'every real matrix/vector of each supported size (with the stated nonsingularity condition)',
 'Tests sample a few random matrices of some of the sizes; a wrong term that vanishes or is small on those samples passes.',
 [N+f for f in ('det.hh','matrix_inverse.hh','adjugate.hh','trace.hh','transpose.hh','matrix_multiplication.hh','matrix_addition.hh','linear_solver.hh','linear_solver1.hh','characteristic_polynomial.hh','cross_product.hh','inner_product.hh','vector_norm.hh','vector_normalization.hh','vector_assignment.hh','matrix_norm.hh','cond.hh','quaternion.hh')],
 [('determinants', N+'det.hh'), ('inverse', N+'matrix_inverse.hh'), ('linear solve', N+'linear_solver.hh'), ('characteristic polynomial', N+'characteristic_polynomial.hh')],
 note='Full proof over the reals for every kernel; rounding not modelled.')

#MORE

exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks, na = [], []
for p in P:
    if glob.glob(os.path.join(V, 'contracts', p['id'] + '*.cc')) and not p['_na']:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
            technique='contract-based deductive verification of the real C++ (symbolic execution of clang IR, ring/SMT discharge of every obligation)', level=p['_level'], level_note=p['_note'] + ' Trusted: clang front end, the ftkv engine, z3/cvc5; see DESIGN.md.'))
    else: na.append(dict(property=p['id'], reason=p['_na'] or 'not yet claimed'))
m = dict(version=1, setup_cmd='lib/prepare.sh', checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks are needed: contracts call the real headers directly.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
