#!/usr/bin/env python3
"""Writes MANIFEST.json from the specifications that exist and the not-applicable table."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(d, 'properties.jsonl'))]
TECH = 'contract-based deductive verification of the real code (function contracts over its LLVM IR, SMT discharged)'
TRUST = ('Trusted: clang 18 front end at -O0 (the IR is the program), the flyvc contract verifier, z3/cvc5, and the contracts assumed for '
         'the C++ standard library, listed per run in the evidence. A native driver with an independent oracle replays '
         'counterexamples and cross-checks the real code; it is bounded and never counted as proof.')
NOTES = {}
exec(open(os.path.join(d, 'tools', 'notes.py')).read(), globals())
checks = []
for i in ids:
    if os.path.exists(os.path.join(d, 'specs', i + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': TECH, 'level': 'proof', 'level_note': (NOTES.get(i, '') + ' ' + TRUST).strip()})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check has been built for it yet')} for i in ids
                        if i not in [c['property'] for c in checks]],
     'notes': 'No hooks in /repo: the verified text is the repository source itself, compiled on every run. See DESIGN.md.'}
json.dump(m, open(os.path.join(d, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', [c['property'] for c in checks])
