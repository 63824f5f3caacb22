"""Writes MANIFEST.json from the contract modules that exist (python3-vt tools/mkmanifest.py)."""
import json
import os
import importlib
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
T = 'contract-based deductive verification: pre/postconditions, loop invariants and frame conditions on the functions of /repo, ' \
    'obligations generated from the current source by symbolic execution (pv/) and discharged by z3/cvc5/Groebner bases'
NA = {}
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = os.path.join(H, 'contracts', p.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('contracts.' + p.lower())
        checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                       'technique': getattr(m, 'TECHNIQUE', T), 'level': getattr(m, 'LEVEL', 'proof'),
                       'level_note': getattr(m, 'NOTE', 'All listed functions verified function by function for all inputs (real arithmetic for floats, '
                                                        'RNG draws arbitrary); the same contracts are evaluated on the real code with random inputs, which is '
                                                        'where failing inputs come from. Assumptions are listed in the evidence file.')})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'contracts for these functions are not written yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy, libcst"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks])
